#!/usr/bin/env python3
"""python3 run.py <property> [--replay FILE] [--seed N] [--tier T] [--check NAME] [-v] [--cases N]
Builds the harness of one property against /repo's working tree and runs it.
Exit 0: held on everything explored; 1 with a VIOLATION line: broken; anything else: error of the check."""
import os, sys, json, subprocess, time, signal, shutil
import build as B
from props import PROPS
VERIF = B.VERIF

def merge(ev, path):
    """merge the evidence of several binaries of one property"""
    if len(ev) == 1: out = ev[0]
    else:
        out = ev[0]
        for e in ev[1:]:
            c, d = out["coverage"], e["coverage"]
            c["evaluations"] += d["evaluations"]; c["distinct_nontrivial"] += d["distinct_nontrivial"]
            c["rule"] += d["rule"]; c["samples"] += d["samples"]; c["checks"].update(d["checks"])
            out["wall_s"] += e["wall_s"]; out["violations"] = out.get("violations", 0) + e.get("violations", 0)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f: json.dump(out, f, indent=1)
    os.rename(path + ".tmp", path)

def isolate():
    """a network of its own for the harness, so that no other process can meet its ports (goes without where that is not allowed)"""
    import ctypes, fcntl, socket, struct
    if ctypes.CDLL(None, use_errno=True).unshare(0x10000000 | 0x40000000): return
    for f, t in (("setgroups", "deny"), ("uid_map", f"0 {UID} 1"), ("gid_map", f"0 {GID} 1")):
        with open("/proc/self/" + f, "w") as h: h.write(t)
    s = socket.socket(); q = struct.pack("16sh14x", b"lo", 0)
    fl = struct.unpack("16sh14x", fcntl.ioctl(s, 0x8913, q))[1]; fcntl.ioctl(s, 0x8914, struct.pack("16sh14x", b"lo", fl | 1)); s.close()

UID, GID = os.getuid(), os.getgid()
def can_isolate():
    return subprocess.run([sys.executable, "-c", "import run, socket; run.isolate(); l = socket.socket(); l.bind(('127.0.0.1', 0)); l.listen(); c = socket.create_connection(l.getsockname()); l.accept()"], cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0

def main():
    a = sys.argv[1:]
    if not a or a[0] not in PROPS: print("usage: run.py <property> ...", file=sys.stderr); return 3
    pid, rest = a[0], a[1:]; P = PROPS[pid]
    seed = os.environ.get("VERIF_SEED", "1"); tier = os.environ.get("VERIF_TIER", "quick"); replay = None; passthru = []
    i = 0
    while i < len(rest):
        if rest[i] == "--seed": seed = rest[i + 1]; i += 2
        elif rest[i] == "--tier": tier = rest[i + 1]; i += 2
        elif rest[i] == "--replay": replay = rest[i + 1]; i += 2
        elif rest[i] in ("--check", "--cases", "--workers"): passthru += rest[i:i + 2]; i += 2
        else: passthru.append(rest[i]); i += 1
    if not seed.isdigit(): seed = str(abs(hash(seed)) % (1 << 31))
    t0 = time.time()
    scratch = os.path.join("/tmp", f"pbt-{pid}-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    evfile = os.path.join(VERIF, "evidence", pid + ".json"); evs = []; rc = 0
    repl = os.path.join(VERIF, "replays"); os.makedirs(repl, exist_ok=True)
    iso = isolate if P.get("net") and can_isolate() else None
    try:
        if P.get("locales") and shutil.which("localedef"):
            loc = os.path.join(scratch, "locale"); os.makedirs(loc)
            for j in [subprocess.Popen(["localedef", "-i", n.split(".")[0], "-f", n.split(".")[1], os.path.join(loc, n)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for n in ("de_DE.UTF-8", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9")]: j.wait()
            os.environ["LOCPATH"] = loc
        dictf = B.write_dict(os.path.join(scratch, "dict"))
        for kf in known(pid): print(f"KNOWN-FINDING: property={pid} {kf}")
        for b in P["bins"]:
            try:
                exe = B.build(b["harness"], b.get("flavor", "asan"), b.get("cov", False), b.get("flags", ""), b.get("defs", ""))
            except RuntimeError as e:
                print(e, file=sys.stderr); return 4
            part = os.path.join(scratch, f"ev{len(evs)}.json")
            env = dict(os.environ, PBT_SCRATCH=scratch, PBT_LEVEL=P.get("level", "exploration"), PBT_VERIF=VERIF, TZ="UTC", LC_ALL="C.UTF-8")
            cmd = [exe, "--tier", tier, "--seed", seed, "--evidence", part, "--replaydir", repl, "--dict", dictf] + passthru
            if b.get("checks"): cmd += ["--within", ",".join(b["checks"])]
            if replay:
                names = open(replay).read()
                owns = lambda x: any(("check " + c + "\n") in names for c in x.get("checks", ()))
                if not owns(b) and (b.get("checks") or any(owns(x) for x in P["bins"])): continue
                cmd = [exe, "--replay", replay, "--dict", dictf]
            r = subprocess.run(cmd, env=env, cwd=scratch, preexec_fn=iso)
            if os.path.exists(part): evs.append(json.load(open(part)))
            if r.returncode: rc = r.returncode; break
        if evs and not replay:
            for e in evs: e["wall_s"] = e["wall_s"]
            evs[0]["wall_s"] += 0
            merge(evs, evfile)
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if os.environ.get("PBT_TIMES"): print(f"total {time.time() - t0:.1f} s", file=sys.stderr)

def known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"KNOWN property={pid} "): out.append(l.strip().split(" ", 2)[2])
    return out

if __name__ == "__main__":
    sys.exit(main())

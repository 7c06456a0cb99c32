"""Builds /repo's library sources and a harness from the working tree, with a
content-hash object cache in /verif/build (never committed)."""
import os, sys, subprocess, hashlib, concurrent.futures, re, glob, time
VERIF = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("PBT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
UB = "-fsanitize=bounds,integer-divide-by-zero,null,return,unreachable,bool,enum,signed-integer-overflow,float-cast-overflow,vla-bound,returns-nonnull-attribute,object-size -fno-sanitize-recover=all"
FLAVORS = {
    "asan": f"-O1 -g1 -fno-omit-frame-pointer -fsanitize=address {UB}",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O2 -g1",
}
COMMON = "-std=c++20 -include cstdint -fPIC -w"
COV = "-fsanitize-coverage=trace-pc,trace-cmp"
LIBS = "-lz -lbrotlicommon -lbrotlidec -lbrotlienc -pthread"

def sh(cmd, cwd=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def lib_sources():
    out = []
    for top in ("core", "extra"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            out += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith(".cpp")]
    return sorted(out)

def header_hash():
    h = hashlib.sha256()
    files = [f for f in glob.glob(os.path.join(REPO, "*.hpp"))]
    for top in ("core", "extra"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            files += [os.path.join(d, f) for f in fs if not f.endswith((".cpp", ".o", ".d"))]
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def compile_one(src, flags, key):
    obj = os.path.join(BUILD, key + ".o")
    if not os.path.exists(obj):
        tmp = obj + f".{os.getpid()}.tmp"
        rc, out = sh(f"g++ {flags} -c '{src}' -o '{tmp}'", cwd=REPO)
        if rc: return None, f"{src}:\n{out}"
        os.rename(tmp, obj)
    return obj, ""

def build(harness, flavor="asan", cov=False, extra_flags="", defs=""):
    """returns the path of the linked harness binary"""
    os.makedirs(BUILD, exist_ok=True)
    fl = FLAVORS[flavor] + " " + COMMON
    libfl = fl + (" " + COV if cov else "") + " " + defs
    hh = header_hash()
    jobs = []
    for s in lib_sources():
        k = hashlib.sha256((libfl + s + hh).encode() + open(os.path.join(REPO, s), "rb").read()).hexdigest()[:32]
        jobs.append((os.path.join(REPO, s), libfl, k))
    hsrc = os.path.join(VERIF, "harness", harness + ".cpp")
    eh = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "engine", "*.hpp")) + glob.glob(os.path.join(VERIF, "harness", "*.hpp"))) + [hsrc] + sorted(glob.glob(os.path.join(REPO, "tools/*/*.cpp"))):
        eh.update(open(f, "rb").read())
    hfl = fl + f" -I{VERIF}/engine -I{VERIF}/harness -I{REPO} " + ("-DPBT_COVERAGE " if cov else "") + extra_flags + " " + defs
    jobs.insert(0, (hsrc, hfl, hashlib.sha256((hfl + hh).encode() + eh.digest()).hexdigest()[:32]))
    # big translation units first
    head, rest = jobs[:1], sorted(jobs[1:], key=lambda j: -os.path.getsize(j[0]))
    objs, errs = [], []
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for o, e in ex.map(lambda j: compile_one(*j), head + rest):
            (objs.append(o) if o else errs.append(e))
    if errs: raise RuntimeError("build failed:\n" + "\n".join(errs)[:6000])
    res = []
    for f in glob.glob(os.path.join(REPO, "core/html/resources/*.html")):
        rel = os.path.relpath(f, REPO); k = hashlib.sha256(rel.encode() + open(f, "rb").read()).hexdigest()[:32]
        o = os.path.join(BUILD, k + ".res.o")
        if not os.path.exists(o):
            rc, out = sh(f"objcopy --input-target binary --output-target elf64-x86-64 --binary-architecture i386:x86-64 {rel} {o}.{os.getpid()}.tmp && mv {o}.{os.getpid()}.tmp {o}", cwd=REPO)
            if rc: raise RuntimeError(out)
        res.append(o)
    key = hashlib.sha256((" ".join(objs + res) + libfl).encode()).hexdigest()[:24]
    binp = os.path.join(BUILD, f"{harness}-{key}")
    if not os.path.exists(binp):
        rc, out = sh(f"g++ {fl} -o {binp}.{os.getpid()}.tmp {' '.join(objs + res)} {LIBS} && mv {binp}.{os.getpid()}.tmp {binp}")
        if rc: raise RuntimeError("link failed:\n" + out[:6000])
    return binp

def write_dict(path):
    """integer and string constants of the code under test, for the generators"""
    ints, strs = set(), set()
    for s in lib_sources() + [os.path.relpath(f, REPO) for f in glob.glob(REPO + "/core/**/*.hpp", recursive=True) + glob.glob(REPO + "/extra/**/*.hpp", recursive=True)]:
        if s.endswith("mimetype.cpp"): continue
        t = open(os.path.join(REPO, s), errors="replace").read()
        t = re.sub(r"//[^\n]*", "", t); t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
        for m in re.finditer(r"\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\b((?:\s*\*\s*\d+)*)", t):
            try:
                v = int(m.group(1), 0) if not (m.group(1).startswith("0") and m.group(1).isdigit() and len(m.group(1)) > 1) else int(m.group(1))
                for k in re.findall(r"\d+", m.group(2)): v *= int(k)
                if 2 <= v <= 1 << 26: ints.add(v)
            except ValueError: pass
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            raw = m.group(1)
            if raw.endswith((".hpp", ".h")): continue
            try: b = raw.encode("latin1", "replace").decode("unicode_escape").encode("latin1")
            except Exception: continue
            if 0 < len(b) <= 60: strs.add(b)
    with open(path, "w") as f:
        for v in sorted(ints): f.write(f"i {v}\n")
        for b in sorted(strs): f.write("s " + b.hex() + "\n")
    return path

def prune(limit_mb=3000):
    fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(BUILD + "/*") if os.path.isfile(p)]
    tot = sum(x[1] for x in fs)
    for t, sz, p in sorted(fs):
        if tot < limit_mb << 20: break
        if time.time() - t > 3600: os.unlink(p); tot -= sz

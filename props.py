"""property -> binaries that decide it"""
PROPS = {
    "C19": {"bins": [{"harness": "c19_encoding"}]},
    "C21": {"bins": [{"harness": "c21_sha1", "checks": ["digest"]}, {"harness": "c21_huge", "flavor": "plain", "checks": ["large", "huge"]}]},
    "C29": {"bins": [{"harness": "c29_date"}]},
    "C32": {"bins": [{"harness": "c32_tables"}]},
    "C33": {"bins": [{"harness": "c33_byteorder"}]},
}
PROPS.update({
    "C26": {"bins": [{"harness": "c26_template"}]},
    "C27": {"bins": [{"harness": "c27_log"}]},
    "C28": {"bins": [{"harness": "c28_strings"}]},
})
PROPS["C18"] = {"bins": [{"harness": "c18_json", "cov": True}]}
PROPS.update({
    "C22": {"bins": [{"harness": "c22_url", "cov": True}]},
    "C23": {"bins": [{"harness": "c23_headers"}]},
    "C24": {"bins": [{"harness": "c24_cookies"}]},
    "C25": {"bins": [{"harness": "c25_auth"}]},
})
PROPS["C20"] = {"bins": [{"harness": "c20_compress"}]}
PROPS["C16"] = {"bins": [{"harness": "c16_vfs", "checks": ["history"]}, {"harness": "c16_threads", "flavor": "tsan", "checks": ["threads"]}]}
PROPS["C17"] = {"bins": [{"harness": "c17_tar", "checks": ["roundtrip", "foreign", "damage", "errors", "standard"]}, {"harness": "c17_threads", "flavor": "tsan", "checks": ["queue"]}]}
PROPS["C14"] = {"bins": [{"harness": "c14_kv"}]}
PROPS["C15"] = {"bins": [{"harness": "c15_kvthreads", "flavor": "tsan"}]}
PROPS["C13"] = {"bins": [{"harness": "c13_static"}]}
PROPS["C01"] = {"bins": [{"harness": "c01_requests"}]}
PROPS["C02"] = {"bins": [{"harness": "c02_responses"}]}
PROPS["C03"] = {"bins": [{"harness": "c03_coding"}]}
PROPS["C04"] = {"bins": [{"harness": "c04_persist"}]}
PROPS["C06"] = {"bins": [{"harness": "c06_failures"}]}
PROPS["C08"] = {"bins": [{"harness": "c08_wsin", "checks": ["inbound"]}, {"harness": "c08_wsin", "flavor": "tsan", "checks": ["inbound-tsan"]}]}
PROPS["C09"] = {"bins": [{"harness": "c09_wsout", "checks": ["handshake", "outbound", "heartbeat"]}, {"harness": "c09_wsout", "flavor": "tsan", "checks": ["outbound-tsan"]}]}
PROPS["C10"] = {"bins": [{"harness": "c10_sse", "checks": ["events", "gone", "shutdown"]}, {"harness": "c10_sse", "flavor": "tsan", "checks": ["events-tsan"]}]}
PROPS["C07"] = {"bins": [{"harness": "c07_limit"}]}
PROPS["C05"] = {"bins": [{"harness": "c05_hostile"}]}
PROPS["C31"] = {"bins": [{"harness": "c31_ids", "checks": ["values", "concurrent", "processes", "server"]}, {"harness": "c31_ids", "flavor": "tsan", "checks": ["concurrent-tsan"]}]}
PROPS["C30"] = {"bins": [{"harness": "c30_tcp", "checks": ["transfer", "timeouts", "gone", "moves", "listeners", "threads"]}, {"harness": "c30_tcp", "flavor": "tsan", "checks": ["threads-tsan"]}]}
PROPS["C11"] = {"bins": [{"harness": "c11_lifecycle", "checks": ["cycle", "limit", "refused"]}, {"harness": "c11_lifecycle", "flavor": "tsan", "checks": ["cycle-tsan"]}]}
PROPS["C12"] = {"bins": [{"harness": "c12_release"}]}
for _p in ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C30 C31".split()): PROPS[_p]["net"] = True	# harnesses that talk over the loopback network
PROPS["C34"] = {"bins": [{"harness": "c34_log"}], "net": True}
PROPS["C35"] = {"bins": [{"harness": "c35_header"}]}
PROPS["C36"] = {"bins": [{"harness": "c36_objects"}]}
# the library without its compression codecs (buildopts.hpp says how to get it), as defined by an include guard that is already there
NOCOMP = "-D__LIB_MADDSUA_LAMBDA_BUILD_OPTIONS__ -DPBT_VARIANT=nocomp"
for _p, _h, _c in (("C02", "c02_responses", ["fidelity"]), ("C03", "c03_coding", ["coding"]), ("C17", "c17_tar", ["roundtrip", "foreign", "damage", "errors", "standard"])):
    for _b in PROPS[_p]["bins"]: _b.setdefault("checks", _c)
    PROPS[_p]["bins"].append({"harness": _h, "defs": NOCOMP, "checks": [c + "-nocomp" for c in _c]})
for _p in ("C18", "C19", "C26", "C29"): PROPS[_p]["locales"] = True
# pure functions and values used by several threads at once
PROPS["C13"]["bins"][0]["checks"] = ["paths", "roots"]; PROPS["C13"]["bins"].append({"harness": "c13_threads", "flavor": "tsan", "checks": ["threads"]})
for _p in "C18 C19 C20 C21 C22 C23 C24 C25 C26 C28 C29 C32 C36".split():
    PROPS[_p]["bins"].append({"harness": "pure_threads", "flavor": "tsan", "flags": "-DPURE=" + _p[1:], "checks": ["together"]})
# the same traffic on a thread-sanitized server
for _p, _h, _c in (("C01", "c01_requests", "deliver"), ("C02", "c02_responses", "fidelity"), ("C06", "c06_failures", "failing")):
    PROPS[_p]["bins"][0].setdefault("checks", [_c]); PROPS[_p]["bins"].append({"harness": _h, "flavor": "tsan", "checks": [_c + "-tsan"]})
# more than 2^16 items in one history
for _p in "C01 C08 C09 C10 C14 C16 C18 C22 C23 C24 C26 C28".split():
    PROPS[_p]["bins"].append({"harness": "many", "flags": "-DMANY=" + _p[1:].lstrip("0"), "checks": ["many"]})

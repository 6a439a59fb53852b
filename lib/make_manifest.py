import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from suites import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": c.get("technique", "runtime monitoring: reference-model oracle over generated workloads, under AddressSanitizer and UBSan"),
                       "level": "exploration", "level_note": c.get("note", "Held on the executions the evidence counts; trusts the reference model in harness/ and the offline stand-ins for simdjson and spdlog_setup.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 lib/build.py c01_crc asan", "hooks": {"guard": "EDIE_VERIF", "enable": "no hooks are needed; nothing in /repo is guarded", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), len(na))

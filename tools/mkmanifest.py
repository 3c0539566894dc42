"""Writes MANIFEST.json and contracts/properties.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = [
    "serde_json::Value, Map, Number and String are modelled: their methods carry assumed contracts (contracts/prelude.vx); Map iteration order is the order of entries()",
    "reference identity is not expressed: nodes are compared structurally; the replay checks compare addresses",
    "Verus, its bundled Z3 and the extraction (tools/extract) are trusted; attributes, tracing, doc comments and derives are dropped by the extraction",
    "stack depth is not modelled: recursion is proved to terminate, not to fit the stack",
]
T = "contract-based deductive verification of the extracted real code with Verus; bounded replay for counterexamples"
N = "Every function under contract is verified for all inputs on every run; the model of serde_json containers and Verus/Z3 are trusted."
P = {f"C{i:02d}": dict(level="proof", note=N) for i in range(1, 21)}
ASSUME = {}
exec(open(os.path.join(V, "tools", "table.py")).read())
conf = {"_all": {"assumptions": A}}
checks, na = [], []
for p, c in sorted(P.items()):
    if "na" in c:
        na.append({"property": p, "reason": c["na"]})
        continue
    k = {"level": c["level"]}
    for f in ("quick", "quick_open", "thorough", "thorough_open", "bounded", "assumptions", "explanation", "expanded"):
        if f in c:
            k[f] = c[f]
    conf[p] = k
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} quick",
        "thorough_cmd": f"python3 check.py {p} thorough",
        "technique": c.get("technique", T),
        "level": c["level"],
        "level_note": c["note"],
    })
json.dump(conf, open(os.path.join(V, "contracts", "properties.json"), "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

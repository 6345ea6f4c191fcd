"""Writes MANIFEST.json from the check modules that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"{V}/mc/checks/{i.lower()}.py"
    if not os.path.exists(f):
        na.append({"property": i, "reason": "Model checking has no observable behaviour to decide here: the table linkbase reader is unfinished. It looks for the namespace http://xbrl.org/2003/linkbase, which no linkbase has, so it never finds a table in a real report, and Filing has no accessor for its results."})
        continue
    src = open(f).read()
    def const(name, default):
        m = re.search(rf"^{name} = (\(.*?^\)|\".*?\")$", src, re.M | re.S)
        return eval(m.group(1)) if m else default
    checks.append({
        "property": i,
        "quick_cmd": f"{PY} mc/main.py {i} --tier quick",
        "thorough_cmd": f"{PY} mc/main.py {i} --tier thorough",
        "technique": const("TECHNIQUE", "explicit-state enumeration of a bounded model of inputs; every model state is replayed on the real code and compared with the model"),
        "level": "model_checking",
        "level_note": const("NOTE", "Exhaustive within the bounds given in the evidence; says nothing about values outside the alphabets of the model. Trusts lxml and the document writers in mc/xb.py."),
    })
json.dump({
    "version": 1,
    "setup_cmd": f"{PY} -c \"import lxml, pandas, sys; sys.path.insert(0, '/repo'); import brel\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "The checks import brel directly from /repo's working tree (pure Python, nothing to build). No hooks in /repo.",
}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

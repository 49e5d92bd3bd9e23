"Writes MANIFEST.json from properties.jsonl and the props/ present."
import importlib.util
import json
import os
ROOT = os.path.dirname(os.path.abspath(__file__))
NA = {}
na_path = os.path.join(ROOT, "not_applicable.json")
if os.path.exists(na_path):
    NA = json.load(open(na_path))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    src = os.path.join(ROOT, "props", i+".py")
    if os.path.exists(src) and i not in NA:
        note = ""
        for ln in open(src):
            if ln.startswith("NOTE = "):
                note = ln[len("NOTE = "):].strip().strip('"')
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the real Python code with z3 deciding every "
                         "branch and assertion; counterexamples replayed on unpatched code",
            "level": "model_checking",
            "level_note": ("Exhaustive over all values within the structural bounds listed in the "
                           "evidence (numbers of terms, variables, steps); exact-real arithmetic "
                           "stands in for floats, with every path's witness also run on real floats. "
                           + note).strip()})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks,
           "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])

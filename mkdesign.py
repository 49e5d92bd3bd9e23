#!/usr/bin/env python3
"assemble DESIGN.md from design/*.md, the harnesses' bounds and known_findings.json"
import glob
import json
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
LIST = r"""
import sys, glob, os, importlib, json
sys.path[:0] = [%r, %r]
import symex.runner
out = {}
for f in sorted(glob.glob(%r+"/props/[A-Z][0-9][0-9].py")):
    m = importlib.import_module("props."+os.path.basename(f)[:-3])
    out[os.path.basename(f)[:-3]] = [(h.name, h.tier, h.bounds) for h in m.HARNESSES]
print(json.dumps(out))
""" % (ROOT, os.environ.get("GPKIT_REPO", "/repo"), ROOT)


def read(name):
    path = os.path.join(ROOT, "design", name)
    return open(path).read().rstrip()+"\n" if os.path.exists(path) else ""


def main():
    raw = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", LIST], capture_output=True, text=True, check=True)
    bounds = json.loads(raw.stdout.strip().splitlines()[-1])
    titles = {}
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        titles[p["id"]] = p["title"]
    out = [read("intro.md"), read("properties.md"), "## 3. What is outside\n", read("outside.md"),
           "## 4. Defects found in gpkit\n"]
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))
    out.append("Repaired, one `fix:` commit each in /repo (the named check reports the violation when the commit is "
               "reverted):\n")
    for line in known["fixed"]:
        _, prop, commit, what = line.split(" ", 3)
        out.append("* `%s` %s – %s" % (commit, prop.split("=")[1], what))
    out.append("\nRecorded and not repaired: %s.\n" % ("; ".join(f["what"] for f in known["findings"]) or "none"))
    out.append("## 5. Harnesses and their bounds\n")
    for pid, hs in bounds.items():
        out.append("**%s %s**" % (pid, titles.get(pid, "")))
        for name, tier, b in hs:
            out.append("* `%s`%s: %s" % (name, "" if tier == "quick" else " (thorough)", b))
        out.append("")
    out.append("## 6. Planted bugs\n")
    out.append(read("seeded.md"))
    rows = []
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        rows.append("* `%s` (%s): %s Needs: %s%s" % (os.path.basename(os.path.dirname(d)), m["property"],
                                                      m["what_it_breaks"].rstrip(".")+".", m["needs"].rstrip(".")+".",
                                                      " Caught by: %s." % ", ".join(m["caught_by"]) if m.get("caught_by") else ""))
    out += rows
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out).rstrip()+"\n")


if __name__ == "__main__":
    sys.exit(main())

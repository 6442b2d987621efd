#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA
out = [open(os.path.join(here, "design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in PROPS:
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "", "*Why tests cannot settle it.* " + p["why"], ""]
    if p.get("how"):
        out += ["*How it is decided.* " + p["how"], ""]
    rows = []
    for f in sorted(glob.glob(os.path.join(root, "harness", p["id"], "*.go"))):
        s = open(f).read()
        pkg = re.search(r"//gosx:pkg (\S+) (\S+)", s)
        for m in re.finditer(r"((?://[^\n]*\n)+)func (SV_\w+)\(\)", s):
            b = re.search(r"//gosx:bounds (.*)", m.group(1))
            t = re.search(r"//gosx:budget (.*)", m.group(1))
            doc = " ".join(l[2:].strip() for l in m.group(1).splitlines() if not l.startswith("//gosx:")).strip()
            rows.append("- `%s` (%s; %s): %s **Bounds:** %s.%s" % (
                m.group(2), os.path.basename(f), pkg.group(2) if pkg else "", doc, b.group(1) if b else "-",
                (" Budget: " + t.group(1) + ".") if t else ""))
    out += rows + [""]
out += ["## Properties this technique does not decide", ""]
out += ["- %s: %s" % x for x in NA] or ["None of the properties listed."]
out += [""]
k = json.load(open(os.path.join(root, "known-findings.json")))
out += ["## Defects found in xgo", "", "Repaired (one `fix:` commit each; every one was found by a counterexample of a check, confirmed natively):", ""]
out += ["- " + x[len("fixed: "):] for x in k["Fixed"]]
out += ["", "Recorded, not repaired (`known-findings.json`):", ""]
out += ["- %s %s: %s" % (x.get("Property"), x.get("Harness"), x.get("What") or x.get("Msg")) for x in k["Findings"]] or ["None."]
extra = os.path.join(here, "design_tail.md")
out += ["", "## Planted bugs", "", "Each is in `seeded/<id>` with a demonstration; the last column is what `tools/seed.py` found.", "", "| id | breaks | needs | caught by |", "|---|---|---|---|"]
caught = {}
cf = os.path.join(here, "caught.json")
if os.path.exists(cf):
    caught = json.load(open(cf))
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    out.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], caught.get(i, "?")))
if os.path.exists(extra):
    out += ["", open(extra).read().rstrip()]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")

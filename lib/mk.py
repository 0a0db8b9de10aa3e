#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/entries.py."""
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry as R  # noqa: E402

lines = []
allp = dict(R.CHECKS)
allp.update(R.NOT_APPLICABLE)
for ident in sorted(allp):
    p = allp[ident]["prop"]
    assert len(p["title"]) <= 80, ident
    lines.append(json.dumps({
        "id": ident, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": n, "where": w}
                                  for n, w in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None}}))
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
with open(os.path.join(R.VERIF, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [],
     "not_applicable": [{"property": i, "reason": c["reason"]}
                        for i, c in sorted(R.NOT_APPLICABLE.items())]}
for ident, c in sorted(R.CHECKS.items()):
    m["checks"].append({
        "property": ident,
        "quick_cmd": "python3 lib/run.py %s" % ident,
        "thorough_cmd": "python3 lib/run.py %s --thorough" % ident,
        "evidence_file": "evidence/%s.json" % ident,
        "technique": c["technique"], "level": c["level"],
        "level_note": c["level_note"]})
with open(os.path.join(R.VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md: the text of lib/design_head.md, the planted bugs, the properties
out = [open(os.path.join(R.VERIF, "lib", "design_head.md")).read().rstrip(), ""]
sd = os.path.join(R.VERIF, "seeded")
if os.path.isdir(sd) and os.listdir(sd):
    out += ["", "| planted bug | breaks | caught by | needs |",
            "|---|---|---|---|"]
    try:
        caught = json.load(open(os.path.join(R.VERIF, "lib", "caught.json")))
    except OSError:
        caught = {}
    for d in sorted(os.listdir(sd)):
        mt = json.load(open(os.path.join(sd, d, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (
            d, mt["property"], caught.get(d, mt["property"]),
            mt["needs"].replace("|", "/").replace("\n", " ")))
out += ["", "## Properties"]
for ident in sorted(allp):
    c = allp[ident]
    p = c["prop"]
    out += ["", "### %s: %s" % (ident, p["title"]), "", p["statement"], ""]
    if ident in R.NOT_APPLICABLE:
        out += ["*Not applicable:* " + c["reason"]]
        continue
    out += ["* Quantified over: " + p["text"] + ".",
            "* Method and oracle: " + c["technique"] + ".",
            "* Generated, and non-trivial when: " + c["rule"] + ".",
            "* Bounds: " + c["level_note"].strip(),
            "* What tests cannot reach: " + p["why"]]
    src = open(os.path.join(R.VERIF, "checks", ident + ".cc")).read()
    subs = re.findall(r"PBT_PROP(?:_OPT)?\(\s*(\w+),\s*(\d+),\s*(\d+)", src)
    out += ["* Subchecks (cases in the quick / thorough run, at most): " +
            ", ".join("`%s` %d / %d" % (
                n, int(q) * c.get("scale", 1), int(t) * c.get("tscale", 1))
                for n, q, t in subs) + "."]
with open(os.path.join(R.VERIF, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")

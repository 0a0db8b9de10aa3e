"""The registered checks. properties.jsonl and MANIFEST.json are generated from
this by lib/mk.py."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
NOT_APPLICABLE = {}


def _prop(kw):
    return dict(title=kw.pop("title"), statement=kw.pop("statement"),
                over=kw.pop("over", ["inputs"]), text=kw.pop("text"),
                why=kw.pop("why"), files=kw.pop("files"),
                mech=kw.pop("mech"), observe=kw.pop("observe", []))


def check(ident, **kw):
    """kw: title statement over text why files mech observe (the property);
    technique rule level_note (the check); variant, flags, needs_smash,
    assumptions (how it is built and run)"""
    prop = _prop(kw)
    kw.setdefault("level", "exploration")
    CHECKS[ident] = dict(prop=prop, **kw)


def not_applicable(ident, reason, **kw):
    NOT_APPLICABLE[ident] = dict(prop=_prop(kw), reason=reason)


def known_findings(ident):
    """the listed findings (not the "fixed:" lines) for this property"""
    res = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                e = json.loads(line)
                if e["property"] == ident:
                    res.append(e)
    return res


# the entries themselves
with open(os.path.join(VERIF, "lib", "entries.py")) as _f:
    exec(compile(_f.read(), "entries.py", "exec"))

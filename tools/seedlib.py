"""Development aid: writes a planted bug's folder from a list of edits."""
import json, os, shutil, subprocess
V = os.environ.get("SEED_V", "/verif/seeded")
WT = "/tmp/wt"


def seed(ident, prop, edits, demo, needs, breaks, demo_sh=None, files=None):
    if not os.path.exists(WT):
        subprocess.check_call(["git", "clone", "-q", os.environ.get("SEED_R","/repo"), WT])
    subprocess.check_call("git fetch -q origin && git reset -q --hard "
                          "origin/HEAD", shell=True, cwd=WT)
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(old) == 1, (ident, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(V, ident)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = subprocess.check_output(["git", "diff"], cwd=WT)
    open(d + "/patch.diff", "wb").write(diff)
    if demo is not None:
        open(d + "/demo.cc", "w").write(demo)
    if demo_sh is None:
        shutil.copy("/verif/tools/demo_template.sh", d + "/demo.sh")
    else:
        open(d + "/demo.sh", "w").write(demo_sh)
    for n, t in (files or {}).items():
        open(d + "/" + n, "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)

#!/usr/bin/env python3
"""run.py ID: builds the harness of property ID from /repo's working tree, runs
it for VERIF_TIER and VERIF_SEED, writes evidence/ID.json, and reports."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402
import registry as R  # noqa: E402

VERIF = B.VERIF


def main():
    ident = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    reg = R.CHECKS[ident]
    variant = reg.get("variant", "dbg")
    if tier == "thorough":
        variant = reg.get("thorough_variant", "san")
    t0 = time.time()
    try:
        with B.Lock():
            bld = B.Builder(variant)
            exe = bld.exe(ident, reg.get("flags", []))
            extra = {}
            if reg.get("needs_smash"):
                extra["SMASH_BIN"] = bld.exe("smash_main", main_tu="smash")
            # run a private copy, so that a later build cannot replace it
            work = tempfile.mkdtemp(prefix="verif-%s-" % ident)
            run_exe = os.path.join(work, "harness")
            shutil.copy2(exe, run_exe)
    except B.BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    t_build = time.time() - t0
    try:
        return run(ident, tier, seed, reg, run_exe, work, extra, t0, t_build,
                   args, bld)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(ident, tier, seed, reg, exe, work, extra, t0, t_build, args, bld):
    env = dict(os.environ)
    env.update(extra)
    env["VERIF_REPO"] = B.REPO
    env["LC_ALL"] = "C.UTF-8"
    env["TMPDIR"] = work
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:" \
        "allocator_may_return_null=0:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=78"
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join(ev_dir, ident + ".replay.txt")
    out = os.path.join(work, "result.json")
    wd = os.path.join(work, "w")
    os.makedirs(wd)
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--work", wd, "--out",
           out, "--replay-out", replay]
    if "--replay" in args:
        f = os.path.abspath(args[args.index("--replay") + 1])
        p = subprocess.run([exe, "--work", wd, "--seed", str(seed), "--tier",
                            tier, "--replay", f], env=env)
        return p.returncode
    if "--scale" not in args:
        cmd += ["--scale", str(reg.get(
            "scale" if tier == "quick" else "tscale", 1))]
    for a in ("--only", "--scale"):
        if a in args:
            cmd += [a, args[args.index(a) + 1]]
    if "--verbose" in args:
        cmd.append("--verbose")
    if os.path.exists(replay):
        os.unlink(replay)
    budget = 780 if tier == "quick" else 6 * 3600
    try:
        p = subprocess.run(cmd, env=env, timeout=max(60, budget - t_build),
                           stdout=subprocess.DEVNULL,
                           stderr=None if "--verbose" in args else
                           subprocess.PIPE)
    except subprocess.TimeoutExpired:
        print("INCONCLUSIVE: time budget exhausted")
        return 3
    err = (p.stderr or b"").decode(errors="replace")
    base = {"property": ident, "tier": tier, "seed": seed,
            "level": reg["level"]}
    if not os.path.exists(os.path.join(wd, "setup_ok")):
        # loading the default particle and decay tables is part of every
        # harness's set-up; it works on every sane tree
        with open(replay, "w") as f:
            f.write("kind: setup\nmessage: the harness's set-up failed: exit "
                    "status %s\n%s\n" % (p.returncode, err[-3000:]))
        print("set-up failed:", err[-1500:])
        print("VIOLATION property=%s replay=%s" % (ident, replay))
        ev = dict(base, coverage={"evaluations": 0, "distinct_nontrivial": 0,
                                  "rule": reg["rule"], "samples": []},
                  wall_s=round(time.time() - t0, 2), violations=1)
        write_ev(ev_dir, ident, ev)
        return 1
    if not os.path.exists(out):
        print("HARNESS-ERROR: no result, exit status", p.returncode,
              err[-2000:])
        return 2
    with open(out, errors="replace") as f:
        res = json.load(f)
    props = res["props"]
    labels = {q["name"]: q["labels"] for q in props}
    samples = []
    for q in props:
        for s in q["samples"][:2]:
            samples.append({"subcheck": q["name"], "case": s})
    cov = {
        "evaluations": sum(q["cases"] for q in props),
        "distinct_nontrivial": sum(q["distinct_nontrivial"] for q in props),
        "rule": reg["rule"],
        "samples": samples[:12],
        "oracle_comparisons": sum(q["comparisons"] for q in props),
        "discarded": sum(q["discards"] for q in props),
        "subchecks": {q["name"]: {
            "cases": q["cases"], "nontrivial": q["nontrivial"],
            "distinct_nontrivial": q["distinct_nontrivial"],
            "discards": q["discards"], "comparisons": q["comparisons"],
            "wall_s": round(q["wall"], 2)} for q in props},
        "labels": labels,
        "build_variant": bld.variant,
        "build_s": round(t_build, 2),
    }
    rc = 0
    known = R.known_findings(ident)
    viol = 0
    for q in props:
        if "violation" not in q:
            continue
        ok = 0
        for _ in range(3):
            w2 = tempfile.mkdtemp(dir=work)
            r = subprocess.run([exe, "--work", w2, "--seed", str(seed),
                                "--tier", tier, "--replay", replay],
                               env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE)
            if r.returncode == 1:
                ok += 1
        print("violated: %s" % q["name"])
        print(q["violation"][:3000])
        print(q["case"][:3000])
        print("replayed: %d of 3" % ok)
        viol += 1
        rc = 1
        print("VIOLATION property=%s replay=%s" % (ident, replay))
    for kf in known:
        # each listed finding is excluded by construction in the harness, which
        # labels the cases it excluded, and probes the listed input itself
        seen = any(kf["label"] in labels[q] for q in labels)
        if seen:
            print("KNOWN-FINDING: property=%s %s" % (ident, kf["what"]))
    ev = dict(base, coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=viol, assumptions=reg.get("assumptions", []))
    write_ev(ev_dir, ident, ev)
    print("%s %s: %d cases, %d distinct non-trivial, %d comparisons, "
          "%.1f s build, %.1f s total" %
          (ident, "VIOLATED" if rc else "held", cov["evaluations"],
           cov["distinct_nontrivial"], cov["oracle_comparisons"], t_build,
           time.time() - t0))
    return rc


def write_ev(d, ident, ev):
    tmp = os.path.join(d, ident + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, ident + ".json"))


if __name__ == "__main__":
    sys.exit(main())

import concurrent.futures as cf
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402
import registry as R  # noqa: E402


def main():
    t0 = time.time()
    with B.Lock():
        for variant in ("dbg", "san"):
            ids = [i for i, c in R.CHECKS.items()
                   if variant == c.get("variant", "dbg")]
            if not ids:
                continue
            bld = B.Builder(variant)
            bld.tus(bld.lib_names() + ["smash"])
            hf = {i: B.base_flags() + ["-I" + os.path.join(B.VERIF, "lib")] +
                  list(R.CHECKS[i].get("flags", [])) for i in ids}
            with cf.ThreadPoolExecutor(B.JOBS) as ex:
                list(ex.map(lambda i: bld.tu(
                    "check_" + i, os.path.join(B.VERIF, "checks", i + ".cc"),
                    B.CXX, hf[i]), ids))
            with cf.ThreadPoolExecutor(B.JOBS) as ex:
                list(ex.map(lambda i: bld.exe(i, R.CHECKS[i].get("flags", [])),
                            ids))
                if any(R.CHECKS[i].get("needs_smash") for i in ids):
                    bld.exe("smash_main", main_tu="smash")
            print("%s: %d compiled, %d reused, %.0f s" %
                  (variant, bld.compiled, bld.reused_pp, time.time() - t0))


if __name__ == "__main__":
    main()

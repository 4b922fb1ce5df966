import argparse
import os
import sys


def main():
    ap = argparse.ArgumentParser(prog="dst")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    c.add_argument("--total", type=int)
    c.add_argument("--workers", type=int)
    c.add_argument("--budget", type=float)
    r = sub.add_parser("replay")
    r.add_argument("file")
    r.add_argument("-v", action="store_true")
    v = sub.add_parser("survey")
    v.add_argument("property")
    v.add_argument("total", type=int)
    v.add_argument("--tier", default="quick")
    v.add_argument("--seed", type=int, default=1)
    x = sub.add_parser("one")
    x.add_argument("property")
    x.add_argument("index", type=int)
    x.add_argument("--tier", default="quick")
    x.add_argument("--seed", type=int, default=1)
    x.add_argument("--min", action="store_true")
    d = sub.add_parser("digest")
    d.add_argument("property")
    d.add_argument("tier")
    d.add_argument("seed", type=int)
    d.add_argument("indices", type=int, nargs="+")
    sub.add_parser("setup")
    sub.add_parser("reproserve")
    a = ap.parse_args()

    # fixed environment; hash seed pinned unless the caller asks for another one (determinism re-check)
    want = {"OMP_NUM_THREADS": os.environ.get("DST_THREADS", "1"), "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg",
            "PYTHONDONTWRITEBYTECODE": "1"}
    if "DST_KEEP_HASHSEED" not in os.environ:
        want["PYTHONHASHSEED"] = "0"
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, "-m", "dst"] + sys.argv[1:])

    if a.cmd == "reproserve":
        from . import repro

        return repro.serve()

    from . import core

    if a.cmd == "check":
        if a.tier not in ("quick", "thorough"):
            a.tier = "quick"
        return core.check(a.property, a.tier, a.seed, a.total, a.workers, a.budget)
    if a.cmd == "setup":
        return core.setup_all()
    if a.cmd == "survey":
        return core.survey(a.property, a.tier, a.seed, a.total)
    if a.cmd == "one":
        return core.one(a.property, a.tier, a.seed, a.index, a.min)
    if a.cmd == "replay":
        return core.replay(a.file, a.v)
    return core.digest_cmd(a.property, a.tier, a.seed, a.indices)


sys.exit(main())

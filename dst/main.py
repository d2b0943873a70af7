import argparse
import os
import sys

from . import boot


def main():
    p = argparse.ArgumentParser()
    p.add_argument("cmd", choices=["check", "replay", "setup", "determinism", "digests", "variant"])
    p.add_argument("what", nargs="?")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--jobs", type=int, default=int(os.environ.get("DST_JOBS", "0")) or os.cpu_count() or 4)
    p.add_argument("-n", type=int)
    p.add_argument("--cap", type=float)
    p.add_argument("--quiet", action="store_true")
    p.add_argument("-v", action="store_true")
    a = p.parse_args()
    boot.load()
    from . import runner

    if a.cmd == "check":
        code, _ = runner.check(a.what, a.tier, a.seed, a.jobs, a.n, a.cap, a.v)
        sys.exit(code)
    if a.cmd == "replay":
        sys.exit(runner.replay(a.what, a.quiet))
    if a.cmd == "variant":
        from .props import c08

        sys.exit(c08.variant(a.what))
    if a.cmd == "setup":
        from . import selftest

        sys.exit(selftest.setup())
    if a.cmd == "digests":
        from . import selftest

        sys.exit(selftest.print_digests(a))
    if a.cmd == "determinism":
        from . import selftest

        sys.exit(selftest.determinism(a))


if __name__ == "__main__":
    main()

#!/opt/venv/bin/python
"""
Run one check:  run.py <property id> [--tier quick|thorough] [--replay FILE]

Also: ``run.py setup`` prepares the framework, ``run.py all`` runs every check.
"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import boot  # noqa: E402


def main():
    boot.set_environment()
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--replay", default=None)
    ap.add_argument("--only", default=None, help="comma separated sub-checks")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--procs", type=int, default=None)
    a = ap.parse_args()

    boot.ensure_hypothesis()
    if a.property == "setup":
        import hypothesis

        print("hypothesis", hypothesis.__version__, os.path.dirname(hypothesis.__file__))
        return 0
    boot.import_code_under_test()
    from vf import core

    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    # the command's own tier wins over the environment
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if a.property == "all":
        here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")
        ids = sorted(f[:-3].upper() for f in os.listdir(here) if f.startswith("c") and f.endswith(".py"))
    else:
        ids = [a.property]
    status = 0
    for pid in ids:
        mod = importlib.import_module("checks." + pid.lower())
        if a.replay:
            return core.replay(pid, mod.SUBS, a.replay)
        status = max(
            status,
            core.run_property(
                pid, mod.SUBS, tier, seed, getattr(mod, "ASSUMPTIONS", []),
                only=a.only.split(",") if a.only else None, scale=a.scale, procs=a.procs,
            ),
        )
    return status


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check itself failed.
"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick", choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    import traceback
    try:
        from vf import boot, runner
        mod = importlib.import_module("vf.checks." + a.pid)
        kernels = getattr(mod, "KERNELS", ())
        boot.install_quadpy()
        if kernels:
            try:
                boot.build_kernels(kernels)
            except boot.BuildError as e:
                print("element kernels of the working tree do not build:\n%s" % e)
                return 2
    except Exception:
        traceback.print_exc()
        return 2
    try:
        boot.prepare()
        check = mod.make()
    except Exception as e:
        traceback.print_exc()
        return 2
    try:
        return runner.main(check, a.tier, seed, a.replay)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)

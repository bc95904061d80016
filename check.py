#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import common


def run(pid):
    mod = importlib.import_module(pid.lower())
    return common.main(pid, mod.check)


if __name__ == "__main__":
    sys.exit(run(sys.argv[1]))

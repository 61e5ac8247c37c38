#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--replay FILE] [--only CASE ...] [--jobs N]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "props")]

p = argparse.ArgumentParser()
p.add_argument("prop")
p.add_argument("--tier", default=None)
p.add_argument("--replay")
p.add_argument("--only", nargs="*")
p.add_argument("--jobs", type=int)
a = p.parse_args()
import harness  # noqa: E402
tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
sys.exit(harness.main(a.prop, a.prop.lower(), tier, int(os.environ.get("VERIF_SEED") or 1),
                      replay=a.replay, only=a.only, jobs=a.jobs))

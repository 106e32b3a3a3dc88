#!/opt/venv/bin/python
"""Run one property's check: run.py <ID> [--tier quick|thorough] [--seed N] [--runs N] [--wall S] [--workers N]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import runner  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    sys.exit(runner.run_check(a.property, a.tier, a.seed, a.runs, a.wall, a.workers))


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Run one check: run.py <property id> [--thorough]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa import rules  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print("usage: run.py <property id> [--thorough]")
        return 2
    prop = sys.argv[1]
    m = importlib.import_module(f"checks.{prop.lower()}")
    return rules.main(prop, m.check, m.TITLE, sys.argv[2:])


if __name__ == "__main__":
    sys.exit(main())

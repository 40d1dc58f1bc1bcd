#!/usr/bin/env python3
"""check.py <property id>: run the check of one property (tier and seed from the environment)."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    lib.main(prop, importlib.import_module("props." + prop.lower()).run)

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only CASE] [--part NAME]"""
import argparse, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import checks
a = argparse.ArgumentParser()
a.add_argument("prop")
a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
a.add_argument("--only")
a.add_argument("--part")
o = a.parse_args()
sys.stdout.reconfigure(line_buffering=True)
sys.exit(checks.CHECKS[o.prop].main(o.tier, o.only, o.part))

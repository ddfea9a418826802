#!/usr/bin/env python3
"""Runs a recorded counterexample natively against the code in /repo: replay.py FILE"""
import json
import sys

import check

d = json.load(open(sys.argv[1]))
ir, exe = check.build_group(d["group"])
if d.get("mt"):
    exe = check.build_threaded(d["group"], ir)
v = d["violation"]
print(d["property"], d["entry"], v["kind"], v["msg"])
print("inputs:", v["inputs"])
print("native:", check.native(exe, d["entry"], v["inputs"], v.get("image"), d["params"]))

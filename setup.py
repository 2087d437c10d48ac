#!/usr/local/bin/python3
"""Warms the build cache: compiles the harness (plain and race) and idmd once."""
import sys, tempfile, shutil
sys.argv = ["check.py"]
import check
tmp = tempfile.mkdtemp(prefix="vh-setup-")
try:
    for cfg in ({"idmd": True}, {"race": True}):
        check.build_all(tmp, cfg)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print("setup done")

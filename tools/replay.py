#!/usr/bin/env python3
"""replay.py DIR : rebuild the harness natively from /repo's current source and run it on the recorded inputs."""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
d = sys.argv[1]
v = json.load(open(d + "/violation.json"))
work = tempfile.mkdtemp(prefix="verif-replay-")
try:
    b = check.Builder(work)
    exe = b.harness(dict(file=v["harness"], defs=v["defs"], tag="replay"), "nat")
    r, out = check.replay(exe, open(d + "/inputs.txt").read(), strict=True)
    print(out)
    print("replay:", r)
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(1 if r in ("violation", "crash") else 0)

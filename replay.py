#!/usr/bin/env python3
"""Replays a violation file in a fresh process: replay.py FILE.  Exit 1 when it reproduces."""
import os
import shutil
import subprocess
import sys
import tempfile

import check

path = os.path.abspath(sys.argv[1])
scratch = tempfile.mkdtemp(prefix="wwsim-")
os.mkdir(os.path.join(scratch, "tmp"))
try:
    r = subprocess.call([check.PY, "-m", "sim.run", "--replay", path], cwd=check.HERE, env=check.child_env(scratch, "r"))
finally:
    shutil.rmtree(scratch, ignore_errors=True)
sys.exit(r)

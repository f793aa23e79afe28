#!/usr/bin/env python3
"""replay.py <variant> <harness> <seed> [args...]: one run, output on the terminal."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from check import ASAN_ENV
exe = B.build(sys.argv[1], sys.argv[2])
d = tempfile.mkdtemp()
env = dict(os.environ); env.update(ASAN_ENV)
p = subprocess.run([exe, "--seed", sys.argv[3], "--dir", d] + sys.argv[4:], env=env,
                   stdout=subprocess.PIPE, text=True, errors="replace")
print("\n".join(l for l in p.stdout.splitlines() if not l.startswith("VF-D ")))
shutil.rmtree(d, ignore_errors=True)
print("exit status", p.returncode)
sys.exit(1 if p.returncode else 0)

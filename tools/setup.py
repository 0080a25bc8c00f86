#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain is there and that the specifications parse (checks build their own drivers)."""
import subprocess, sys, os, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import SPEC, CP
bad = 0
for f in sorted(glob.glob(SPEC + '/*.tla')):
    p = subprocess.run(['java', '-cp', CP, 'tla2sany.SANY', os.path.basename(f)], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: print(p.stdout[-1500:]); bad = 1
print('specifications parsed' if not bad else 'specification errors')
sys.exit(bad)

#!/usr/bin/env python3
"""Parses every specification, and builds what does not depend on /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import *
for f in sorted(os.listdir(SPEC)):
    if f.endswith('MC.tla') or f.endswith('Trace.tla'):
        rc, out, err = run(['java', '-XX:+UseSerialGC', '-cp', CP, 'tla2sany.SANY', f], cwd=SPEC)
        if rc or 'error' in (out + err).lower():
            print(out, err)
            sys.exit(1)
hdrs = sorted(f for f in os.listdir(HARN) if f.endswith('.hpp'))
print('ok')

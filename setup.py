#!/usr/bin/env python3
"""Builds the symbolic executor and, for the current tree of /repo, bitcode and native replay programs for every harness."""
import sys
import vlib
from props import PROPS
S = vlib.engine(); B = vlib.Build()
todo = sorted({(j['h'], j.get('lib', 'http3')) for p in PROPS.values() for j in p['jobs']}); bad = 0
for h, l in todo:
    try: B.ir(h, l); B.native(h, l, 'asan')
    except Exception as e: bad = 1; print('setup: %s: %s' % (h, str(e)[:2000]))
print('setup: %s, %d harnesses' % (S, len(todo))); sys.exit(0)

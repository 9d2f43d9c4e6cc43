#!/usr/bin/env python3
"""replay.py FILE: runs a recorded counterexample against /repo's current tree, natively."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, check
c = json.load(open(sys.argv[1]))
if c.get('kind') == 'expansion':
    try: vlib.build_native('harness_derive'); print('the derived structs compile'); sys.exit(0)
    except vlib.BuildError as e: print(e); sys.exit(1)
n = check.Native(vlib.build_native(c['crate'])); r = n.run(c['harness'], c['inputs'])
print(c['harness'], '|', r[0], '|', n.note); sys.exit(1 if check.bad(r[0]) else 0)

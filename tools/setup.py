#!/usr/bin/env python3
"""setup: builds the executor and warms up the standard library in bitcode and the native builds"""
import os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
os.makedirs(vlib.BUILD, exist_ok=True); lock = vlib.lock(); t = time.time()
vlib.build_engine(); print('executor %.0fs' % (time.time() - t), flush=True)
if subprocess.run([vlib.ENGINE, '--selftest'], timeout=900).returncode: sys.exit('float terms disagree with the solver\'s theory')
for c, f in (('harness', 'h_p01_a1'), ('harness_derive', 'h_p15_plain')):
    o = os.path.join(vlib.BUILD, 'setup.ll'); vlib.build_ir(c, [f], o); os.remove(o); vlib.build_native(c); print(c, '%.0fs' % (time.time() - t), flush=True)

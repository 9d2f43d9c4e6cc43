#!/usr/bin/env python3
"""Writes harness_derive/src/h_grid.rs: structs whose fields carry every ordered choice of up to three attributes."""
import itertools, os
A = {'I': '#[ignore]', 'K': '#[key = "k%d"]', 'D': '/// ignore, key = "no"', 'A': '#[allow(dead_code, unused)]', 'P': '#[deprecated]', 'L': '#[doc(alias = "key")]'}
combos = [c for n in range(4) for c in itertools.permutations('IKDAPL', n)]
per = 4
# neighbours differ in kind: take them with a stride
combos = [combos[i * 61 % len(combos)] for i in range(len(combos))]
vis = ['', 'pub ', 'pub(crate) ', 'pub(in crate) ', 'pub(super) ']
out = ['//! Written by tools/mkgrid.py: P15, P16 on %d fields, one for each ordered choice of up to three of six attributes' % len(combos),
 '#![allow(deprecated)]', 'use crate::{case, h_derive::*};', 'use json::{FromJson, Json, JsonDecode, JsonEncode, ToJson};', 'use std::marker::PhantomData;', 'use harness::gen::*;', 'use sym::*;', '']
enc, hurt = [], []
g = 0
for i in range(0, len(combos), per):
    fs, case, ig, val = [], [], [], []
    for j, c in enumerate(combos[i:i + per]):
        k = i + j; name = 'f%d' % k
        sep = '\n        ' if 'D' in c else ' '
        fs.append('    ' + ''.join((A[a] % k if a == 'K' else A[a]) + ('\n    ' if a == 'D' else ' ') for a in c) + vis[k % 5] + name + ': bool')
        if 'I' in c: ig.append('%s: false' % name)
        else: case.append('%s: "%s"' % (name, 'k%d' % k if 'K' in c else name))
        val.append('%s: flag()' % name)
    out.append('#[derive(JsonEncode, JsonDecode)] pub struct G%d {\n%s%s\n}' % (g, ',\n'.join(fs), ',' if g % 2 else ''))
    out.append('case!(G%d = G%d { %s; %s });' % (g, g, ', '.join(case), ', '.join(ig)))
    enc.append('%d => enc_value(G%d { %s }),' % (g, g, ', '.join(val)))
    hurt.append('%d => { let x = G%d { %s }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }' % (g, g, ', '.join(v.replace('flag()', 'true') if n else v for n, v in enumerate(val))))
    g += 1
out.append('fn grid_enc(lo: u32) { match lo + choice(%d) {\n    %s\n    _ => assume(false) } }' % ((g + 3) // 4, '\n    '.join(enc)))
out.append('fn grid_dec(lo: u32) { match lo + choice(%d) {\n    %s\n    _ => assume(false) } }' % ((g + 3) // 4, '\n    '.join(hurt)))
q = (g + 3) // 4
out.append(open(os.path.join(os.path.dirname(__file__), '..', 'harness_derive', 'src', 'generics.in')).read())
out.append('harness::harnesses! {\n' + ''.join('    h_p15_grid%d = grid_enc(%d);\n' % (i, i * q) for i in range(4)) + ''.join('    h_p16_grid%d = grid_dec(%d);\n' % (i, i * q) for i in range(4)) + '    h_p15_generic = generic_enc();\n    h_p16_generic = generic_dec();\n}')
open(os.path.join(os.path.dirname(__file__), '..', 'harness_derive', 'src', 'h_grid.rs'), 'w').write('\n'.join(out) + '\n')

#!/usr/bin/env python3
# One-off generator of MANIFEST.json from tools/props.py and properties.jsonl
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import props
V = '/verif/'; T = [json.loads(l) for l in open(V + 'properties.jsonl')]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[])
for p in T:
    i = p['id']; c = props.PROPS.get(i)
    if not c: m['not_applicable'].append(dict(property=i, reason=props.NA[i])); continue
    m['checks'].append(dict(property=i, quick_cmd=f'python3 tools/check.py {i} --tier quick', thorough_cmd=f'python3 tools/check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
        technique='symbolic execution of the LLVM IR compiled from the current source, assertions decided by z3, counterexamples replayed natively', level='model_checking',
        level_note='Holds for every input within: ' + c['bounds'] + '. Outside: ' + c.get('outside', 'larger inputs') + '. Trusts the executor (cross-checked natively on sampled paths), z3, rustc and the stubs for hashing, allocation and float text' + ('; ' + '; '.join(c['assume']) if c.get('assume') else '') + '.'))
m['notes'] = 'See DESIGN.md. No hooks: the checks use the public interface only.'
json.dump(m, open(V + 'MANIFEST.json', 'w'), indent=1); print(len(m['checks']), 'checks')

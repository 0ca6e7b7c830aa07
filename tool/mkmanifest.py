#!/usr/bin/env python3
"""write MANIFEST.json from contracts/specs.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, 'contracts')]
import specs
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTE = ('Every obligation generated from the listed functions of /repo is discharged by Verus/Z3 on each run, for all inputs; trusted: the '
        'clang AST, the extractor (tool/), library semantics in tool/stdlib.py and contracts/*.rs, Verus and Z3. A harness that runs the real code '
        'supplies failing inputs and validates the trusted semantics (bounded, not counted as proof).')
checks = []
for i in ids:
    if i in specs.PROPS:
        p = specs.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 tool/check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 tool/check.py {i}',
                           evidence_file=f'evidence/{i}.json', technique='contract-based deductive verification (contracts on the extracted C++ functions, Verus/Z3)',
                           level='proof', level_note=NOTE + (' ' + p['note'] if p.get('note') else '')))
na = [dict(property=i, reason=specs.NOT_APPLICABLE.get(i, 'not under contract yet')) for i in ids if i not in specs.PROPS]
m = dict(version=1, setup_cmd='sh setup.sh', checks=checks, not_applicable=na,
         notes='no hooks are needed: the contracts are attached to the functions of /repo by qualified name and signature')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

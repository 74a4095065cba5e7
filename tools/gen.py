#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and rules/registry.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, 'rules'), os.path.join(ROOT, 'engine')]
sys.dont_write_bytecode = True
import props, registry

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props.PROPERTIES:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
checks, na = [], []
for p in props.PROPERTIES:
    if '_na' in p:
        na.append({'property': p['id'], 'reason': p['_na']})
        continue
    i = p['id']
    assert i in registry.PROPS, i
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                   'thorough_cmd': 'python3 check.py %s --thorough' % i,
                   'technique': p['_technique'], 'level': 'other', 'level_note': p['_note']})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: a rustc_private driver dumps MIR, types and resolved callees of the current tree; '
              'Python rules decide. No hooks in /repo. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
missing = set(registry.PROPS) - {p['id'] for p in props.PROPERTIES if '_na' not in p}
assert not missing, missing

"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True
import registry

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTE = ('Model checking of the specification is exhaustive within the bounds of its configuration; '
        'the implementation is bound to it by TLC validating every recorded execution of the generated '
        'scenarios (all clauses evaluated on every step), so the claim for the code covers the executions '
        'explored. Trusts: python-blosc, zlib, hashlib, json, numpy, TLC.')
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'hooks': {'guard': 'none', 'enable': 'no hooks: the checks observe the public behaviour of /repo as it is',
              'source_commits': []},
    'checks': [],
    'not_applicable': [],
    'notes': 'TLA+ specification in spec/, harness in harness/, see DESIGN.md',
}
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        r = registry.CHECKS[i]
        m['checks'].append({
            'property': i,
            'quick_cmd': './check %s --tier quick' % i,
            'thorough_cmd': './check %s --tier thorough' % i,
            'technique': r.get('technique', 'TLA+ specification model-checked with TLC; TLC-generated histories '
                               'replayed on the real code and the recorded traces validated by TLC against it'),
            'level': 'model_checking',
            'level_note': r.get('note', NOTE),
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check under construction'})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

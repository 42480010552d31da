"""writes MANIFEST.json: one check per property that lib/registry.py knows"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
sys.dont_write_bytecode = True
import registry
N = registry.NOTES
props = [json.loads(x) for x in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        t, n = N[i]
        checks.append({'property': i, 'quick_cmd': 'bin/check %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough bin/check %s' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'no hooks: the code is observed through its public calls and the objects it is given'},
     'notes': 'TLA+ specifications in spec/, checked with TLC; drivers in harness/drv run the code of /repo under Jython with a deterministic stand-in for eventlet (harness/stub).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), len(na))

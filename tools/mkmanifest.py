import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, V + '/lib')
sys.dont_write_bytecode = True
import checks
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NOTE = json.load(open(V + '/tools/notes.json'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
for p in props:
    if p in checks.CHECKS:
        m['checks'].append(dict(property=p, quick_cmd='python3 check.py %s quick' % p,
                                thorough_cmd='python3 check.py %s thorough' % p,
                                technique='TLA+ specification checked with TLC; ' + NOTE[p][0],
                                level='model_checking', level_note=NOTE[p][1]))
    else:
        m['not_applicable'].append(dict(property=p, reason='check not built yet'))
m['notes'] = 'No hooks in /repo: the public API exposes the state the specification talks about.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

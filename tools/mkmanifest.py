import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p in config.CHECKS:
        c = config.CHECKS[p]
        cmd = 'python3 tools/check.py ' + p
        tech = ('deductive verification with Verus of the functions extracted from /repo on every run (contract units: %s)' % ', '.join(c['units'])) if c['units'] else 'executable contracts of the public functions checked on bounded inputs (bounded stand-in, no obligation discharged yet)'
        if c['units'] and c['level'] != 'proof': tech += '; bounded replay search with executable contracts for the functions listed as not under contract'
        d = {'property': p, 'quick_cmd': cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd, 'technique': tech, 'level': c['level'],
             'level_note': c.get('note') or ('all functions the property depends on are proved for all inputs; trusted: the extraction, Verus/z3, the assumed contracts listed in the evidence' if c['level'] == 'proof' else 'bounded: random and exhaustive small inputs against an independent oracle on the real code')}
        m['checks'].append(d)
    else:
        m['not_applicable'].append({'property': p, 'reason': config.NOT_APPLICABLE.get(p, 'check not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

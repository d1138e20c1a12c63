"""Write MANIFEST.json from the checks that exist."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def meta(i):
    p = os.path.join(V, 'checks', i.lower() + '.py')
    if not os.path.exists(p):
        return None
    d = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('TECHNIQUE', 'NOTE', 'LEVEL'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d if 'NOTE' in d else None


props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    n = meta(i)
    if n:
        checks.append({'property': i, 'quick_cmd': 'python3 run.py check ' + i, 'thorough_cmd': 'python3 run.py check ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': n['TECHNIQUE'],
                       'level': n.get('LEVEL', 'model_checking'), 'level_note': n['NOTE']})
    else:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ specification in spec/, checked with TLC; drivers in drivers/ record or replay behaviours of the freshly built code; no hooks in /repo.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')

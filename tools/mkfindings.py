"""Write known_findings.json: genuine defects found, all repaired so far."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {'e889c4f': 'C18', '3976ca5': 'C19', 'bdb9f90': 'C19', '579e103': 'C15', 'ef3a394': 'C05', '97758f5': 'C24', 'b060987': 'C13',
        'e07ff3a': 'C15', '2d42cc9': 'C05', '0da539e': 'C07', 'eb2b3b3': 'C08', 'abf42ee': 'C18', 'fd3995b': 'C06', '453127e': 'C18',
        'b08ba92': 'C07', '7e99fb8': 'C09', '44520f3': 'C12', 'ef9969e': 'C13', 'cbe0487': 'C15', 'e3507f7': 'C16', '3e76f5a': 'C15',
        '1ee4b27': 'C17', 'a94e28b': 'C17', '690ef61': 'C17', '0d74615': 'C17', '8f83f7a': 'C15', 'ffe1794': 'C17', '304f3da': 'C25', '64a53c1': 'C26', '1a8d656': 'C02', '45987e1': 'C25'}
EXTRA = json.load(open(os.path.join(V, 'tools', 'known_extra.json'))) if os.path.exists(os.path.join(V, 'tools', 'known_extra.json')) else {}
PROP.update(EXTRA.get('fixed', {}))
out = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        h = h[:7]
        out.append({'id': 'F%02d' % (len(out) + 1), 'property': PROP[h], 'status': 'fixed', 'commit': h,
                    'what': 'fixed: property=%s %s %s' % (PROP[h], h, s[5:])})
out += EXTRA.get('known', [])
json.dump(out, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1, ensure_ascii=False)
print(len(out))

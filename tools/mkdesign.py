"""Writes DESIGN.md."""
import glob
import importlib
import json
import os
import re
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'), encoding='utf-8')]
out = []
for p in props:
    m = importlib.import_module('checks.' + p['id'].lower())
    src = open(os.path.join(root, 'checks', p['id'].lower() + '.py'), encoding='utf-8').read()
    mods = sorted(set(re.findall(r"'([A-Z][A-Za-z]+)'", src)) & {os.path.basename(f)[:-4] for f in glob.glob(os.path.join(root, 'spec', '*.tla'))})
    q = p.get('quantifier') or {}
    out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '', '* Over: %s.' % q.get('text', ''), '* Decided by: %s.' % m.TECHNIQUE, '* Explored: %s' % m.NOTE,
            '* Modules run: %s.' % ', '.join(mods), '* Beyond the tests: %s' % p['why_tests_cant'], '']
fixes = ['* ' + f['what'] for f in json.load(open(os.path.join(root, 'known_findings.json'), encoding='utf-8'))]
res = {}
log = os.path.join(root, 'tools', 'design', 'caught.json')
if os.path.exists(log):
    res = json.load(open(log))
missed = json.load(open(os.path.join(root, 'tools', 'design', 'missed.json')))
seeds = ['| bug | property | needs | breaks | reported by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d, encoding='utf-8'))
    seeds.append('| %s | %s | %s | %s | %s |' % (i + ' *' * (i in missed), m['property'], m['needs'], m['what_it_breaks'], ', '.join(res.get(i, []))))
mods = []
n = lines = 0
for f in sorted(glob.glob(os.path.join(root, 'spec', '*.tla'))):
    t = open(f, encoding='utf-8').read()
    n += 1
    lines += t.count('\n')
    c = re.match(r'-+ MODULE \w+ -+\n((?:\(\*.*\*\)\n)*)', t)
    text = re.sub(r'\s+', ' ', ' '.join(x[2:-2].strip() for x in c.group(1).split('\n') if x)) if c else ''
    mods.append('* `%s` %s' % (os.path.basename(f)[:-4], text))
t = open(os.path.join(root, 'tools', 'design', 'template.md'), encoding='utf-8').read()
for k, v in {'PROPERTIES': '\n'.join(out), 'FIXES': '\n'.join(fixes), 'SEEDS': '\n'.join(seeds), 'MODULES': '\n'.join(mods), 'NSPEC': str(n), 'LSPEC': str(lines)}.items():
    t = t.replace('{{%s}}' % k, v)
open(os.path.join(root, 'DESIGN.md'), 'w', encoding='utf-8').write(t)

"""Sessions that close what they opened; what stays mapped is observed after every event."""
from session import *


def held(files):
    """Which of the files this process has mapped or open."""
    out = set()
    with open('/proc/self/maps') as f:
        for line in f:
            p = line.split(None, 5)
            if len(p) == 6 and p[5].strip() in files:
                out.add(files.index(p[5].strip()) + 1)
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if p in files:
            out.add(files.index(p) + 1)
    return sorted(out)


def play(item):
    R = random.Random(item['seed'])
    world, base = item['world'], item['base']
    confs = world['confs']
    files = sorted({p for c in confs for p in c['files']})
    table, outs = {}, []

    def num(s):
        if s not in table:
            table[s] = len(outs)
            outs.append(s)
        return table[s]
    events, dicts, toks, res, kinds = [], [], [], [], []
    hist = list(item['hist'])
    left, n = [], 0
    for ev in hist:
        if ev['op'] == 'open':
            n += 1
            left.append(n)
        elif ev['op'] == 'close':
            left.remove(ev['d'])
    R.shuffle(left)
    hist += [{'op': 'close', 'd': d} for d in left]
    for ev in hist:
        ev = dict(ev)
        ev['got'], ev['exc'] = -1, ''
        try:
            if ev['op'] == 'open':
                ev['cfg'] = item['perm'][ev['cfg'] - 1] + 1
                dicts.append(open_conf(confs[ev['cfg'] - 1]))
                kinds.append(ev['cfg'] - 1)
            elif ev['op'] == 'create':
                toks.append([dicts[ev['d'] - 1].create(mode_of(ev['m'])), ev['d'] - 1])
            elif ev['op'] == 'tok':
                x = R.randrange(len(world['texts']))
                ev['x'] = x + 1
                try:
                    ms = toks[ev['t'] - 1][0].tokenize(world['texts'][x], mode_of(ev['m']))
                    s = describe(ms, R)
                    res.append([ms, s, toks[ev['t'] - 1][1]])
                except Exception as e:
                    s = 'ERROR ' + type(e).__name__
                    res.append([None, s, toks[ev['t'] - 1][1]])
                ms = None
                ev['got'] = num(s)
            elif ev['op'] == 'read':
                if res[ev['r'] - 1][0] is not None:
                    res[ev['r'] - 1][1] = describe(res[ev['r'] - 1][0], R)
                ev['got'] = num(res[ev['r'] - 1][1])
            elif ev['op'] == 'close':
                d = ev['d'] - 1
                for x in toks + res:
                    if x[-1] == d:
                        x[0] = None
                dicts[d].close()
                if R.random() < .5:
                    dicts[d] = None
        except Exception as e:
            ev['exc'] = type(e).__name__ + ' ' + str(e)[:80]
        ev['held'] = held(files)
        events.append(ev)
        if ev['exc']:
            break
    used = sorted({e['x'] for e in events if e['op'] == 'tok'})
    for e in events:
        if e['op'] == 'tok':
            e['x'] = used.index(e['x']) + 1
    return {'base': [[[num(o) for o in c[x - 1]] for x in used] for c in base], 'events': events,
            'files': [[files.index(p) + 1 for p in c['files']] for c in confs]}


def lone(item):
    return fresh(play, item)


def main():
    hists = json.load(open(sys.argv[2]))
    R = rng('c24')
    worlds = [make_world(R, os.path.join(WORK, 's', str(j)), big=False, users=R.choice([9, 15]) if j % 4 == 3 else 3) for j in range(8 if QUICK else 40)]
    for w in worlds:                   # tokens of texts that fail keep nothing; most texts should not
        w['texts'] = [x for i, x in enumerate(w['texts']) if i in (1, 2, 4, 6, 7, 8, 9, 12, 13, 16)]
    both = run_batch(base_of, worlds, timeout=300)
    assert all(isinstance(b, tuple) for b in both)
    items = []
    for h in hists:
        wd, b = R.choice(both)
        items.append({'hist': h, 'world': wd, 'base': b, 'perm': R.sample(range(4), 4), 'seed': R.random()})
    w = Writer()
    for it, r in zip(items, run_batch(lone, items, timeout=60)):
        if isinstance(r, dict) and r.get('exc') == 'Skipped':
            continue
        if not isinstance(r, dict) or 'events' not in r:
            r = {'base': [], 'events': [{'op': 'noise', 'exc': str(r)[:200], 'got': -1, 'held': []}], 'files': []}
        w.put(r)
    w.close()


main()

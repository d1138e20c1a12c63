"""Connection matrices built from sources, read back and edited."""
import mmap

from common import *
from sudachipy import config
from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
from sudachipy.dictionarylib.grammar import Grammar
from sudachipy.plugin.connect_cost import EditConnectionCostPlugin, InhibitConnectionPlugin


def table(g, L, R):
    return [[int(g.get_connect_cost(a, b)) for b in range(R)] for a in range(L)]


def probes(g, it, R, extra=()):
    """Some pairs of a matrix too large to be read in full: those of the lines, their neighbours and mirror images, the corners, and others."""
    L, S = it['L'], it['R']
    ps = {(int(a), int(b)) for a, b, _ in (x.split() for x in it['lines'])} | {(a, b) for a, b, _ in extra}
    ps |= {(a + i, b + j) for a, b in ps for i in (-1, 0, 1) for j in (-1, 0, 1)} | {(b, a) for a, b in ps}
    ps |= {(a, b) for a in (0, L - 1) for b in (0, S - 1)} | {(R.randrange(L), R.randrange(S)) for _ in range(40)}
    return [[a, b, int(g.get_connect_cost(a, b))] for a, b in sorted(ps) if 0 <= a < L and 0 <= b < S]


def play(item):
    out = []
    for j, it in enumerate(item['jobs']):
        R = rng('c19', item['n'], j)
        p = os.path.join(WORK, 'm', '%d-%d.dic' % (item['n'], j))
        o = {'L': it['L'], 'R': it['R'], 'lines': [cps(x) for x in it['lines']], 'exc': '', 'table': [], 'ops': [], 'big': bool(it.get('big')), 'probes': []}
        read = (lambda g, *a: []) if it.get('big') else table
        done = []
        try:
            build_system(p, [[entry('a')]], '\n'.join([it['header']] + it['lines']) + it['end'])
            with open(p, 'rb') as f:
                m = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_COPY)
            g = Grammar(m, DictionaryHeader.from_bytes(m, 0).storage_size())
            o['table'] = read(g, it['L'], it['R'])
            o['probes'] = probes(g, it, R) if it.get('big') else []
            for _ in range(it['edits']):
                pair = [R.randrange(it['L']), R.randrange(it['R'])]
                how = R.choice(['set', 'inhibit', 'plugin'])
                if how == 'set':
                    c = R.choice([0, 5, -5, 32766, 32767, -32768, R.randint(-3000, 3000)])
                    g.set_connect_cost(pair[0], pair[1], c)
                    ps = [pair + [c]]
                elif how == 'inhibit':
                    R.choice([EditConnectionCostPlugin, InhibitConnectionPlugin]).inhibit_connection(g, *pair)
                    ps = [pair + [32767]]
                else:
                    pairs = [[R.randrange(it['L']), R.randrange(it['R'])] for _ in range(R.randint(1, 3))]
                    d = os.path.join(WORK, 'conf', '%d-%d' % (item['n'], j))
                    os.makedirs(d, exist_ok=True)
                    with open(os.path.join(d, 's.json'), 'w') as f:
                        json.dump({'systemDict': 'system.dic', 'inhibitedPair': pairs}, f)
                    config.settings.set_up(os.path.join(d, 's.json'), d)
                    pl = InhibitConnectionPlugin()
                    pl.set_up(g)
                    pl.edit(g)
                    ps = [x + [32767] for x in pairs]
                done += ps
                o['ops'].append({'how': how, 'pairs': ps, 'table': read(g, it['L'], it['R']), 'probes': probes(g, it, R, done) if it.get('big') else []})
        except Exception as e:
            o['exc'] = type(e).__name__ + ' ' + str(e)[:80]
        for f in (p, p + '.0.csv'):
            if os.path.exists(f):
                os.unlink(f)
        out.append(o)
    return {'runs': out}


def job(R, L, S):
    lines = []
    cells = [(a, b) for a in range(L) for b in range(S)]
    if R.random() < .6:
        todo = [c for c in cells if R.random() < R.choice([1, .7, .1])]
        if R.random() < .5:
            R.shuffle(todo)
    else:
        todo = []
    if cells:
        todo = todo + [R.choice(cells) for _ in range(R.choice([0, 0, 1, 4]))]
    for a, b in todo:
        c = R.choice([0, 1, -1, 32767, -32768, 32766, R.randint(-5000, 5000)])
        sep = R.choice([' ', ' ', '\t', '  '])
        lines.append(R.choice(['', '', ' ', '\t']) + sep.join(map(str, (a, b, c))) + R.choice(['', '', ' ', '\t']))
        if R.random() < .1:
            lines.append(R.choice(['', ' ', '# 0 0 5', '#', '  # comment', '\t', '#0 0 77', '%d' % b, '%d %d' % (a, b), '7 x']))
    if R.random() < .12:        # much that is no cost
        k = R.randrange(len(lines) + 1)
        lines[k:k] = [R.choice(['', ' ', '# 0 0 5', '#']) for _ in range(R.choice([5, 20, 70, 300]))]
    return {'L': L, 'R': S, 'header': R.choice(['%d %d', ' %d %d', '%d  %d ', '%d\t%d']) % (L, S), 'lines': lines, 'end': R.choice(['\n', '', '\n\n']),
            'edits': R.choice([0, 0, 3, 6]) if L * S and L * S < 200 else 0}


def main():
    R = rng('c19')
    jobs = []
    for L in range(0, 6):
        for S in range(0, 6):
            for _ in range(8 if QUICK else 60):
                jobs.append(job(R, L, S))
    for _ in range(150 if QUICK else 900):
        jobs.append(job(R, R.choice([1, 2, 7, 12, 40]), R.choice([1, 3, 9, 17, 33])))
    for L, S in [(300, 1), (1, 300), (255, 256), (257, 256), (130, 600), (32767, 1), (1, 32767), (1200, 900)] * (1 if QUICK else 5):
        lines = ['%d %d %d' % (R.choice([0, L - 1, R.randrange(L)]), R.choice([0, S - 1, R.randrange(S)]), R.choice([32767, -32768, R.randint(-5000, 5000)])) for _ in range(12)]
        jobs.append({'L': L, 'R': S, 'header': '%d %d' % (L, S), 'lines': lines, 'end': '\n', 'edits': 3, 'big': True})
    items = [{'n': i, 'jobs': jobs[k:k + 6]} for i, k in enumerate(range(0, len(jobs), 6))]
    w = Writer()
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        if 'runs' not in res:
            j = it['jobs'][0]
            res = {'runs': [{'L': 0, 'R': 0, 'lines': [], 'exc': res['exc'], 'table': [], 'ops': [], 'big': False, 'probes': []}]}
        w.put(res)
    w.close()


main()

"""Costs of user words after loading, and the files they came from."""
import hashlib

from world import *


def digest(paths):
    return [hashlib.sha256(open(p, 'rb').read()).hexdigest() for p in paths]


def play(item):
    W = item['w']
    out = {'exc': '', 'entries': [], 'before': digest(W.paths), 'after': []}
    n = len(W.paths)
    try:
        seen = {}
        for k in range(1, n):
            # the dictionaries loaded before the k-th, in a configuration of their own without path rewriting
            conf = settings(W.dir, 'system.dic', users=['user%d.dic' % x for x in range(1, k)], inp=item['inp'], oov=item['oov'], path=[], name='before%d.json' % k)
            D = open_dict(conf)
            store = []
            D.path_rewrite_plugins[:] = [recorder(store, lambda text, path, lat: [x.get_path_cost() for x in path])]
            t = D.create()
            for i, e in enumerate(W.dics[k]):
                if e['c'] == -32768:
                    del store[:]
                    t.tokenize(e['surf'])
                    seen[k, i] = store[0]
        conf = settings(W.dir, 'system.dic', users=['user%d.dic' % x for x in range(1, n)], inp=item['inp'], oov=item['oov'], path=item['path'])
        got = []
        for round_ in range(2):
            D = open_dict(conf)
            t = D.create()
            for e in W.dics[-1]:
                list(t.tokenize(e['surf'] + e['h']))
            got.append([[D.dictionaries[k].lexicon.get_cost(i) for i in range(len(W.dics[k]))] for k in range(n)])
            got.append([[D.lexicon.get_cost((k << 28) | i) for i in range(len(W.dics[k]))] for k in range(n)])
            del t
            if round_ == 0:
                D.close()
        for k in range(n):
            for i, e in enumerate(W.dics[k]):
                out['entries'].append({'dic': k, 'idx': i, 'c': e['c'], 'path': seen.get((k, i), [0] if e['c'] != -32768 or k == 0 else []), 'got': [g[k][i] for g in got]})
    except Exception as e:
        out['exc'] = type(e).__name__ + ' ' + str(e)[:80]
    out['after'] = digest(W.paths)
    return out


def main():
    w = Writer()
    R = rng('c20')
    items = []

    def blanks(e):
        if R.random() < .4:      # a headword that is looked up is another matter than the surface that is analysed
            e['surf'] = R.choice(['', ' ', '\u3000', '\t']) + e['surf'] + R.choice(['', ' ', '\u3000', '  '])
    for j in range(700 if QUICK else 1500):
        d = os.path.join(WORK, 's', str(j))
        W = gen(R, d, users=R.choice([1, 2, 2, 3, 5, 15]) if j % 20 else 15, n=R.choice([4, 8, 15]), ids=R.choice([1, 2]), inhibit=0, auto=R.choice([.3, .7, 1]), all_chars=R.random() < .6,
                costs=R.choice([(-300, 300), (-32768, 32767), (-32768, -30000), (30000, 32767)]), surf_differs=True, units=j % 2 == 0, tweak=blanks if j % 3 == 1 else None,
                chars=R.choice([None, None, ['1', '2', '.', '一'], ['ア', 'イ']]))
        items.append({'w': W, 'inp': R.choice([[], [P_DEFAULT], [P_DEFAULT, p_prolonged()]]), 'path': R.choice([[], [p_numeric()], [p_numeric(), p_katakana()]]),
                      'oov': R.choice([None, [p_simple(c=R.choice([6000, -32768, 32767]))]])})
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        if 'entries' not in res:
            res = {'exc': res['exc'] + ' ' + res.get('msg', ''), 'entries': [], 'before': [], 'after': []}
        w.put(res)
    w.close()


main()

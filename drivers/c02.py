"""Paths of texts so long that the total cost leaves 32 bits."""
from common import *


def play(item):
    d = open_dict(item['conf'])
    store = []
    d.path_rewrite_plugins[:] = [recorder(store, lambda text, path, lat: [n.get_word_id() + 1 for n in path])]
    o = {'text': cps(item['text']), 'path': [], 'err': ''}
    try:
        d.create().tokenize(item['text'])
        o['path'] = store[0]
    except Exception as e:
        o['err'] = type(e).__name__
    return o


def main():
    w = Writer()
    R = rng('c02')
    items = []
    # (number of characters, word costs, connection costs)
    for j, (n, cost, conn) in enumerate([(33600, (-32768, 32767), (-32768, -30000)), (66200, (0, 32767), (32000, 32766)), (33600, (-32768, 0), (-32768, 32766))][:2 if QUICK else 3] * (1 if QUICK else 4)):
        words = [(t, R.randrange(2), R.randrange(2), R.randint(*cost) if len(t) == 1 else cost[1]) for t in ('あ', 'い', 'あい')]
        words[2:2] = [('あ', 0, 0, cost[0]), ('い', 0, 0, cost[0]), ('あ', 0, 1, cost[1]), ('い', 1, 0, cost[1])]
        matrix = [[R.randint(*conn) for _ in range(2)] for _ in range(2)]
        matrix[0][0] = conn[0] if j % 3 != 1 else conn[1]
        d = os.path.join(WORK, 'h%d' % j)
        build_system(os.path.join(d, 'system.dic'), [[entry(t, l=l, r=r, c=c) for t, l, r, c in words]], matrix_text(2, 2, [(a, b, matrix[a][b]) for a in range(2) for b in range(2)]))
        conf = settings(d, 'system.dic', char='DEFAULT 0 1 0\n', inp=[], oov=[p_simple(0, 0, 32767, NOUN)])
        items.append({'conf': conf, 'text': ''.join(R.choice('あい') for _ in range(n)), 'words': words, 'matrix': matrix})
    for it, r in zip(items, run_batch(play, items, timeout=60)):
        if r.get('exc') == 'Skipped':
            continue
        if 'path' not in r:
            r = {'text': cps(it['text']), 'path': [], 'err': r['exc']}
        w.put({**r, 'words': [{'t': cps(t), 'l': a, 'r': b, 'c': c} for t, a, b, c in it['words']], 'matrix': it['matrix']})
    w.close()


main()

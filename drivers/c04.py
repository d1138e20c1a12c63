"""Split modes and splitting on demand."""
from world import *


def play(item):
    d = open_dict(item['conf'])
    M = modes()
    store = []
    d.path_rewrite_plugins.append(recorder(store, lambda text, path, lat: (
        [[n.get_begin(), n.get_end()] for n in path], [text.get_original_index(b) for b in range(len(text.get_byte_text()) + 1)])))
    runs = []
    R = rng('c04', item['n'])
    toks = {}
    for df in (None, 'A', 'B', 'C'):
        toks[df or '-'] = d.create() if df is None else R.choice([lambda: d.create(M[df]), lambda: d.create(mode=M[df])])()
    for text in item['texts']:
        o = {'text': cps(text), 'calls': [], 'err': '', 'span': [], 'orig': [], 'split': []}
        try:
            del store[:]
            c = toks['-'].tokenize(text, M.C)
            o['span'], o['orig'] = store[0] if text else ([], [0])
            o['split'] = [{m: [rec(x) for x in t.split(M[m])] for m in 'ABC'} for t in c]
            for df in ('-', 'A', 'B', 'C'):
                t = toks[df]
                for m in R.sample(['-', 'A', 'B', 'C', '-'], 5):
                    ml = t.tokenize(text) if m == '-' else (t.tokenize(text, M[m]) if R.random() < .5 else t.tokenize(text, mode=M[m]))
                    o['calls'].append({'df': df, 'mode': m, 'toks': [rec(x) for x in ml]})
            # the tokens read first are read again after all the calls
            o['calls'].append({'df': '-', 'mode': 'C', 'toks': [rec(x) for x in c]})
        except Exception as e:
            o['err'] = type(e).__name__ + ' ' + str(e)[:80]
        runs.append(o)
    return {'runs': runs}


def rec(m):
    r = token(m)
    r['s'] = cps(r['s'])
    del r['wid']
    r['idx'] = (m.word_id() & 0x0FFFFFFF) if r['dic'] >= 0 else 0
    return r


def main():
    w = Writer()
    R = rng('c04')
    base = os.path.join(WORK, 's')
    items = []
    for j in range(200 if QUICK else 800):
        d = os.path.join(base, str(j))
        W = gen(R, d, users=R.choice([0, 1, 2, 3]), n=R.choice([8, 15, 30]), ids=R.choice([1, 2]), inhibit=0, units=True, all_chars=True,
                chars=R.choice([None, None, list('1.百2'), list('アイウ')]), costs=(-300, 300),
                surf_differs=j % 3 == 0, over=j % 4 == 1, many=R.choice([16, 33, 64, 100, 127]) if j % 9 == 2 and j % 4 != 1 else 0)
        inp = R.choice([[], [], [P_DEFAULT], [P_DEFAULT, p_prolonged()]])
        path = R.choice([[], [], [p_numeric()], [p_katakana()], [p_numeric(), p_katakana()]])
        conf = settings(d, 'system.dic', users=['user%d.dic' % k for k in range(1, len(W.paths))], inp=inp, path=path)
        split = [e['h'] for x in W.dics for e in x if len(e['A']) > 1 or len(e['B']) > 1]
        heads = [e['h'] for x in W.dics for e in x] + split * 3
        texts = [''.join(R.choice(heads) for _ in range(R.choice([1, 1, 2, 4]))) for _ in range(8)]
        texts += [''.join(R.choice(heads + ['㍿', 'Ａ', 'x', 'が', 'ー', '、']) for _ in range(R.choice([1, 3, 5]))) for _ in range(3)] + ['']
        if j % 4 == 1:              # units that are longer than their word; they end before the text does
            texts = [x + 'ぬ' + 'z' * 60 for x in texts]
        items.append({'conf': conf, 'texts': texts, 'w': W, 'n': j})
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        W = it['w']
        if res.get('exc'):
            res = {'runs': [{'text': cps(it['texts'][0]), 'calls': [], 'err': res['exc'] + ' ' + res.get('msg', ''), 'span': [], 'orig': [], 'split': []}]}
        w.put({'dics': [[{'hl': len(e['h'].encode()), 'A': e['A'], 'B': e['B']} for e in x] for x in W.dics], 'runs': res['runs']})
    w.close()


main()

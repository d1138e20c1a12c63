"""Texts tokenized under random complete configurations."""
from whole import *


def play(item):
    d = open_dict(item['conf'])
    res = {'runs': over(d.create(), item['texts'])}
    if item['part']:      # another tokenizer on the same dictionary, with some of its plugins only
        from sudachipy.tokenizer import Tokenizer
        x, y, z = item['part']
        t = Tokenizer(d.grammar, d.lexicon, [d.input_text_plugins[k] for k in x], [d.oov_provider_plugins[k] for k in y], [d.path_rewrite_plugins[k] for k in z])
        res['some'] = over(t, item['texts'][:9])
    return res


def some(R, n):
    return sorted(R.sample(range(n), R.randint(0, n)))


def over(t, texts):
    M = modes()
    runs = []
    for text in texts:
        o = {'text': cps(text), 'err': '', 'toks': {}}
        for m in 'CAB':
            try:
                o['toks'][m] = [token_rec(x) for x in t.tokenize(text, M[m])]
            except Exception as e:
                o['err'] = type(e).__name__
                o['toks'][m] = []
        runs.append(o)
    return runs


def main():
    w = Writer()
    items = [make(rng('c27', j), os.path.join(WORK, 'p', str(j))) for j in range(400 if QUICK else 4000)]
    for j, it in enumerate(items):
        R = rng('c27', 'some', j)
        n = len(it['cfg']['provs'])
        it['part'] = [some(R, len(it['stages'])), some(R, n - 1) + [n - 1], some(R, len(it['cfg']['joins']))] if j % 4 == 1 else None
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        runs = res['runs'] if 'runs' in res else [{'text': cps(it['texts'][0] or 'x'), 'err': res['exc'] + ' ' + res.get('msg', ''), 'toks': {m: [] for m in 'ABC'}}]
        st, _ = tables(it['stages'], ''.join(it['texts']))
        for r in runs:
            _, r['chars'] = tables(it['stages'], uncps(r['text']))
        w.put({'conf': {**it['cfg'], 'inp': st}, 'runs': runs})
        if 'some' in res:
            x, y, z = it['part']
            stages = [it['stages'][k] for k in x]
            st, _ = tables(stages, ''.join(it['texts']))
            for r in res['some']:
                _, r['chars'] = tables(stages, uncps(r['text']))
            w.put({'conf': {**it['cfg'], 'inp': st, 'provs': [it['cfg']['provs'][k] for k in y], 'joins': [it['cfg']['joins'][k] for k in z]}, 'runs': res['some']})
    w.close()


main()

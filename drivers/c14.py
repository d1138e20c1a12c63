"""Paths before and after the katakana joiner, with the lattice's candidates."""
import itertools

from common import *

CATS = {'ア': ['KATAKANA'], 'イ': ['KATAKANA'], 'ウ': ['KATAKANA'], 'エ': ['KATAKANA', 'USER1'], 'ー': ['KATAKANA', 'NOOOVBOW'],
        'ッ': ['KATAKANA', 'NOOOVBOW'], 'ヴ': ['KATAKANA', 'HIRAGANA'], '𛀀': ['KATAKANA'],
        'あ': ['HIRAGANA'], '字': ['KANJI'], 'x': ['ALPHA']}
POS = [NOUN, PN, SYM, NUM]


def play(item):
    d = open_dict(item['conf'])
    store = []

    def before(text, path, lat):
        spans = {(a.get_begin(), z.get_end()) for i, a in enumerate(path) for z in path[i + 1:]}
        cands = []
        for e in sorted({e for _, e in spans}):
            for n in lat.get_nodes_with_end(e):
                if (n.get_begin(), e) in spans:
                    cands.append({'w': node_rec(n, d.grammar), 'c': n.get_path_cost()})
        return [node_rec(n, d.grammar) for n in path], cands
    d.path_rewrite_plugins.insert(0, recorder(store, before))
    d.path_rewrite_plugins.append(recorder(store, lambda text, path, lat: [node_rec(n, d.grammar) for n in path]))
    t = d.create()
    runs = []
    for text in item['texts']:
        del store[:]
        o = {'text': cps(text), 'cats': [CATS[c] for c in text], 'exc': '', 'before': [], 'after': [], 'cands': []}
        try:
            t.tokenize(text)
            (o['before'], o['cands']), o['after'] = store
        except Exception as e:
            o['exc'] = type(e).__name__
        runs.append(o)
    return {'runs': runs}


def main():
    w = Writer()
    R = rng('c14')
    base = os.path.join(WORK, 'k')
    char = ''.join('0x%04X %s\n' % (ord(c), ' '.join(k)) for c, k in CATS.items())
    items = []
    texts = [''.join(t) for n in range(1, 5) for t in itertools.product('アーッあヴ', repeat=n)]
    for j in range(45 if QUICK else 200):
        d = os.path.join(base, str(j))
        rows = [entry('あ', pos=SYM, c=10)]
        cover = j % 3       # 0: OOV for single characters only, 1: some words, 2: many words
        words = set()
        letters = 'アイウエーッヴ𛀀' if j % 5 else '𛀀𛀀𛀀アイ'
        for _ in range([3, 8, 25][cover]):
            words.add(''.join(R.choice(letters) for _ in range(R.choice([1, 2, 2, 3, 4, 5]))))
        for _ in range(cover * 8):
            words.add(''.join(R.choice(sorted(words)) for _ in range(R.choice([2, 2, 3]))))
        mn = R.choice([1, 2, 3, 3, 4] if j % 5 else [3, 4, 5, 6])
        if not j % 5:       # long and short by characters, the other way round by bytes
            words |= {'𛀀' * (mn - 1), '𛀀' * (mn - 2) + 'ア', 'ア' * mn, 'アイ' * mn, 'イ' * (mn + 1)}
        words |= {'字', 'x', 'あ字'}
        # costs far below zero in every third dictionary: totals then have either sign
        low = j // 3 % 3 == 1
        short = [-20000, -9000, -5000, -4000, 100] if low else [-50, 100, 3000, 3000, 9000, 20000]
        long_ = [-9000, -4000, -1, 0, 3000, 9000, 25000] if low else [9000, 20000, 25000, 30000, 30001]
        for s in sorted(words):
            for _ in range(R.choice([1, 1, 1, 2, 3])):
                rows.append(entry(s, c=100 if not j % 5 else R.choice(short if len(s) < 3 - low else long_), pos=R.choice(POS), read='よ', norm=R.choice([s, 'の']),
                                  surf=R.choice([None, None, None, s + 'ウア', s[:1], 'あ' + s])))
        if cover == 2:
            rows += [entry(s, c=-9000 if low else 10, pos=R.choice(POS)) for s in 'アイウエーッヴ']
        for p in POS:
            rows.append(entry('字', pos=p, c=3000))
        build_system(os.path.join(d, 'system.dic'), [rows])
        pos = R.choice(POS)
        oov = [p_mecab(), p_simple(0, 0, R.choice([100, 5000, 15000]), R.choice(POS))] if R.random() < .6 else [p_simple(0, 0, 5000, NOUN)]
        props = 'KATAKANA %d %d %d\nHIRAGANA 0 1 0\nKANJI 0 0 1\n' % (R.random() < .5, R.random() < .5, R.choice([0, 1, 2]))
        unk = 'KATAKANA,0,0,%d,%s\nHIRAGANA,0,0,900,%s\n' % (R.choice([1000, 8000]), ','.join(R.choice(POS)), ','.join(NOUN))
        pl = p_katakana(mn, pos)
        if j % 8 == 7:
            del pl['minLength']
            mn = 1
        conf = settings(d, char='#\n' + props + char, inp=[], unk=unk, oov=oov, path=[pl])
        ts = R.sample(texts, 120 if QUICK else 400)
        al = list(CATS)
        for _ in range(120 if QUICK else 400):
            pool = R.sample(al[:8], R.randint(1, 4)) + R.choice([[], ['あ'], ['字', 'x']])
            ts.append(''.join(R.choice(pool) for _ in range(R.choice([3, 5, 8, 14]))))
        for n in (40, 90):
            pool = R.sample(al[:8], R.randint(1, 3)) + R.choice([[], ['あ'], ['字', 'x']])
            ts.append(''.join(R.choice(pool) for _ in range(n)))
        ws = sorted(words)
        for _ in range(60):
            ts.append(''.join(R.choice(ws) for _ in range(R.randint(1, 5))))
        for k in range(0, len(ts), 60):
            items.append({'conf': conf, 'texts': ts[k:k + 60], 'min': mn, 'pos': pos})
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        if res.get('exc'):
            res = {'runs': [{'text': cps(it['texts'][0]), 'cats': [], 'exc': res['exc'] + ' ' + res.get('msg', ''), 'before': [], 'after': [], 'cands': []}]}
        w.put({'min': it['min'], 'pos': it['pos'], 'runs': res['runs']})
    w.close()


main()

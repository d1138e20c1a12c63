"""Token lists of all modes under many configurations."""
from world import *

EXOTIC = ['Ａ', '㍿', 'ﬁ', 'ｱ', 'ﾞ', 'が', 'か゛', 'İ', 'ß', 'é', 'é', '①', '½', '㌔', '\u200d', '👨‍👩‍👧', '🇯🇵', '\u0000', '\n', '\t', ' ', '　', '〜〜', 'ーーー', 'ア-ー',
          '\u0345', '\ufeff', '\U0010ffff', '１，２３４．５', '三百万', '1.2.3', ',,', '...', 'カタカナ', 'ッアー', '𠮷野家', 'ǅ', '\u1e9e', 'ﷺ', '\u0300', '\ue000', '\uffff', '㎏', 'Ⅷ', 'ㇺ'] + list('\x7f\x80\u07ff\u0800\uffff\U00010000')
EDGE = list('\x7f\x80\u07fe\u07ff\u0800\ud7ff\ue000\ufffe\uffff\U00010000\U0010ffff')
REWRITE = 'か゛\tが\nヴァ\tバ\n㍿\t株\nabc\tx\nア\tアイア\n- -\tー\n'


def seen(m):
    return {'b': m.begin(), 'e': m.end(), 's': cps(m.surface()), 'w': m.dictionary_id(), 'norm': cps(m.normalized_form()), 'pos': m.part_of_speech_id()}


def windows(text, ml):
    """Stretches of a very long list, each a list of its own."""
    n = len(ml)
    size = 40
    runs = []
    for k in sorted({0, n - size} | {max(0, min(n - size, x)) for x in (21820, 32740, 43670, 65500)} | {(i * 7919) % max(1, n - size) for i in range(12)}):
        part = [seen(ml[i]) for i in range(k, min(n, k + size))]
        b = 0 if k == 0 else part[0]['b']
        e = len(text) if k + size >= n else part[-1]['e']
        t = cps(text[b:e])
        back = [seen(ml[i - n]) for i in range(k, k + len(part))]
        for m in part + back:
            m['b'] -= b
            m['e'] -= b
        runs.append({'text': t, 'mode': 'long', 'err': '', 'toks': part, 'again': part, 'str': t, 'len': len(part), 'size': ml.size() - n + len(part),
                     'idx': back + part, 'oob': []})
    return runs


def play(item):
    d = open_dict(item['conf'])
    M = modes()
    if item.get('long'):
        text = item['texts'][1]
        return {'runs': windows(text, d.create().tokenize(text))}
    t = d.create()
    runs = []
    for text in item['texts']:
        for mode in ('A', 'B', 'C'):
            o = {'text': cps(text), 'mode': mode, 'err': '', 'toks': [], 'again': [], 'str': [], 'len': 0, 'size': 0, 'idx': [], 'oob': []}
            try:
                ml = t.tokenize(text, M[mode])
                n = len(ml)
                o['toks'] = [seen(m) for m in ml]
                o['len'], o['size'] = n, ml.size()
                o['str'] = cps(str(ml))
                o['idx'] = [seen(ml[i]) for i in list(range(-n, 0)) + list(range(n))]
                for i in (n, n + 1, n + 7, -n - 1, -n - 2, -2 * n - 1):
                    try:
                        ml[i]
                        o['oob'].append('accepted %d' % i)
                    except Exception as e:
                        o['oob'].append(type(e).__name__)
                o['again'] = [seen(m) for m in ml]
            except Exception as e:
                o['err'] = type(e).__name__
            runs.append(o)
    return {'runs': runs}


def main():
    w = Writer()
    R = rng('c01')
    base = os.path.join(WORK, 't')
    items = []
    for j in range(320 if QUICK else 1200):
        d = os.path.join(base, str(j))
        W = gen(R, d, users=R.choice([0, 1, 2]), n=R.choice([8, 20, 30]), ids=R.choice([1, 3]), inhibit=0, units=True, spell=True,
                chars=R.choice([None, list('アイウーッ'), list('123.,百'), list('かが゛ヴアバー')]))
        inp = R.choice([[], [P_DEFAULT], [P_DEFAULT, p_prolonged()], [P_DEFAULT, p_prolonged(), P_DEFAULT], [p_prolonged(sym=R.choice(['ー', '〜〜', 'xyz']))]])
        if j % 4 == 1:
            write(os.path.join(d, 'r.def'), REWRITE)
            inp = [{**P_DEFAULT, 'rewriteDef': 'r.def'}, p_prolonged()]
        oov = R.choice([[p_simple()], [p_mecab(), p_simple()]])
        path = R.choice([[], [p_numeric()], [p_katakana()], [p_numeric(), p_katakana()], [p_katakana(2), p_numeric(False)]])
        conf = settings(d, 'system.dic', users=['user%d.dic' % k for k in range(1, len(W.paths))], inp=inp, oov=oov, path=path, unk=UNK_FOR_TEST)
        heads = [e['h'] for x in W.dics for e in x]
        pool = heads + EXOTIC + list('アab1-ー。、.,')
        texts = ['', R.choice(EXOTIC), R.choice(heads)]
        for _ in range(14):
            texts.append(''.join(R.choice(R.choice([pool, heads, EXOTIC])) for _ in range(R.choice([1, 2, 3, 5, 8]))))
        for _ in range(2):
            texts.append(''.join(chr(R.choice([R.randrange(0x20, 0x3000), R.randrange(0x3000, 0xA000), R.randrange(0xE000, 0x110000)])) for _ in range(R.randint(1, 10))))
        if j % 3 == 0:      # characters at the limits of the encoding
            texts.append(''.join(R.choice(EDGE + heads) for _ in range(6)))
        items.append({'conf': conf, 'texts': texts})
        if j in (3, 4, 5):      # more characters, and more bytes, than two bytes count
            items.append({'conf': conf, 'long': True, 'texts': ['', ''.join(R.choice(heads + ['𠮷', 'Ａ'] if R.random() < .05 else heads) for _ in range(80000))[:66200]]})
    for it, res in zip(items, run_batch(play, items, timeout=90)):
        if res.get('exc') == 'Skipped':
            continue
        if res.get('exc'):
            res = {'runs': [{'text': cps(it['texts'][1]), 'mode': '?', 'err': res['exc'] + ' ' + res.get('msg', ''), 'toks': [], 'again': [], 'str': [],
                             'len': 0, 'size': 0, 'idx': [], 'oob': []}]}
        w.put(res)
    w.close()


UNK_FOR_TEST = ''.join('%s,0,0,%d,%s\n' % (c, 2000 + 500 * i, ','.join(NOUN)) for i, c in enumerate(
    ['DEFAULT', 'SPACE', 'KANJI', 'SYMBOL', 'NUMERIC', 'ALPHA', 'HIRAGANA', 'KATAKANA', 'KANJINUMERIC', 'GREEK', 'CYRILLIC']))
main()

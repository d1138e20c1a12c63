"""Random complete configurations with a description for the specification of the whole."""
from folding import *
from world import *

PARTS = {'a': ['ALPHA'], 'b': ['ALPHA'], 'é': ['ALPHA', 'GREEK'], 'г': ['CYRILLIC'], '1': ['NUMERIC'], '2': ['NUMERIC'], '0': ['NUMERIC'], ',': ['SYMBOL'], '.': ['SYMBOL'],
         '一': ['KANJI', 'KANJINUMERIC'], '五': ['KANJI', 'KANJINUMERIC'], '百': ['KANJI', 'KANJINUMERIC'], '万': ['KANJI', 'KANJINUMERIC'], '円': ['KANJI'], '字': ['KANJI'],
         'ア': ['KATAKANA'], 'イ': ['KATAKANA'], 'ー': ['KATAKANA', 'NOOOVBOW'], 'ッ': ['KATAKANA', 'NOOOVBOW'], 'あ': ['HIRAGANA'], 'い': ['HIRAGANA'], '𠮷': ['KANJI'], '無': None}
ALIAS = {'a': 'AａＡ', 'b': 'ｂ', '1': '１①', '2': '２²', '0': '０', ',': '，', '.': '．', 'ア': 'ｱ㋐', 'イ': 'ｲ', 'ー': '〜〰', 'é': 'É', 'г': 'Г', '万': 'ー'}
MORE = ['㍿', '㌢', 'ﾞ', 'う゛', ' ', 'Ⅳ', '½', '😀']
NUMERIC = set('120,.一五百万')
GROUPS = {'num': '1,.20一五百万円', 'kata': 'アイーッあ', 'latin': 'abéг1', 'kanji': '字円𠮷一あ'}


def char_lines(R):
    out = []
    for c, k in PARTS.items():
        if k:
            out.append([ord(c), ord(c), [x for x in k if R.random() < .96] or ['SYMBOL']])
    if R.random() < .3:
        out.append([0x30A1, 0x30FF, ['KATAKANA']])
    if R.random() < .3:
        out.append([0x30, 0x39, ['NUMERIC']])
    if R.random() < .2:
        out.append([0x61, 0x7A, [R.choice(['ALPHA', 'USER1'])]])
    if R.random() < .2:
        c = ord(R.choice('字あ円1'))
        out.append([c, c, ['NOOOVBOW']])
    if R.random() < .25:      # numerals that are katakana, and the other way round
        for _ in range(2):
            c, k = R.choice([('1', 'KATAKANA'), ('2', 'KATAKANA'), ('ア', 'NUMERIC'), ('一', 'KATAKANA'), ('ー', 'KANJINUMERIC'), (',', 'KATAKANA')])
            out.append([ord(c), ord(c), [k]])
    R.shuffle(out)
    return out


def provider(R, w, poss, dd, n):
    l, r, c = R.randrange(w.ids), R.randrange(w.rids), R.randint(1000, 9000)
    if R.random() < .45:
        pos = R.choice(poss)
        return {'kind': 'simple', 'l': l, 'r': r, 'c': c, 'pos': pos}, p_simple(l, r, c, pos)
    cats = ['DEFAULT', 'ALPHA', 'NUMERIC', 'KATAKANA', 'HIRAGANA', 'KANJI', 'KANJINUMERIC', 'SYMBOL', 'GREEK', 'CYRILLIC']
    defs = [{'cat': x, 'invoke': R.random() < .5, 'group': R.random() < .6, 'length': R.choice([0, 0, 1, 2, 3])} for x in R.sample(cats, R.randint(4, len(cats)))]
    ents = [{'cat': x['cat'], 'l': R.randrange(w.ids), 'r': R.randrange(w.rids), 'c': R.randint(500, 9000), 'pos': R.choice(poss)} for x in defs for _ in range(R.choice([0, 1, 1, 2]))]
    write(os.path.join(dd, 'p%d.def' % n), ''.join('%s %d %d %d\n' % (x['cat'], x['invoke'], x['group'], x['length']) for x in defs))
    write(os.path.join(dd, 'u%d.def' % n), ''.join('%s,%d,%d,%d,%s\n' % (e['cat'], e['l'], e['r'], e['c'], ','.join(e['pos'])) for e in ents))
    return {'kind': 'mecab', 'defs': defs, 'entries': ents}, p_mecab('p%d.def' % n, 'u%d.def' % n)


D = {'kind': 'default', 'def': BUNDLED}
INPUTS = [[], [D], [D], [D, 'p'], [D, 'p'], ['p', D], ['p'], [D, 'q', 'p'], ['q', D], ['p', 'q', 'p'], [D, 'p', 'q', 'p'], ['q', D, 'q']]


def make(R, d):
    dd = os.path.join(d)
    group = R.choice(list(GROUPS))
    chars = R.sample(GROUPS[group], min(len(GROUPS[group]), R.randint(3, 7))) + R.sample([c for c in PARTS if c not in GROUPS[group]], R.randint(0, 3))

    ties = R.random() < .3

    def tweak(e):
        if not ties:
            e['c'] += R.randrange(400)
        if set(e['h']) <= NUMERIC and e['surf'] == e['h']:
            if R.random() < .8:
                e['pos'] = NUM if not set(e['h']) & set(',.') else e['pos']
            if R.random() < .85:
                e['norm'] = e['h']
    w = None
    while w is None or NUM not in [e['pos'] for e in w.dics[0]]:      # the numeral part of speech is the system dictionary's
        w = gen(R, dd, users=R.choice([0, 0, 1, 2]), n=R.choice([8, 14, 22]), ids=R.choice([1, 2, 3]), right_ids=R.choice([None, 2]), chars=chars, inhibit=R.choice([0, 0, .08]), units=True,
            spell=True, surf_differs=R.random() < .3, all_chars=R.random() < .5, costs=R.choice([(-200, 3000), (1000, 9000)]), tweak=tweak)
    poss = [e['pos'] for e in w.dics[0]]
    provs = [provider(R, w, poss, dd, n) for n in range(R.choice([1, 1, 2, 3]))]
    if R.random() < .15:
        provs.insert(R.randrange(len(provs) + 1), R.choice(provs))
    if R.random() < .8 and provs[-1][0]['kind'] == 'mecab':
        pos = R.choice(poss)
        provs.append(({'kind': 'simple', 'l': 0, 'r': 0, 'c': 12000, 'pos': pos}, p_simple(0, 0, 12000, pos)))
    inp, stages, q = [], [], None
    for x in R.choice(INPUTS):
        if x == 'p':
            s = {'kind': 'psm', 'marks': ['ー', '〜', '〰'], 'sym': 'ー'}
        elif x == 'q':
            s = {'kind': 'psm', 'marks': R.choice([['ッ'], ['あ', 'ア'], ['1', '一']]), 'sym': R.choice(['ッ', 'イイ', '2', 'Ａ', 'ーー', '〜ー'])}
        else:
            s = x
        if x == 'q' and q:
            s = q
        q = s if x == 'q' else q
        stages.append(s)
        inp.append(P_DEFAULT if s['kind'] == 'default' else p_prolonged(s['marks'], s['sym']))
    joins, path = [], []
    for _ in range(R.choice([0, 1, 1, 2, 2, 3])):
        if R.random() < .5:
            n = R.random() < .7
            joins.append({'kind': 'numeric', 'normalize': n})
            path.append(p_numeric(n))
        else:
            m, pos = R.choice([1, 2, 3]), R.choice(poss)
            joins.append({'kind': 'katakana', 'min': m, 'pos': pos})
            path.append(p_katakana(m, pos))
    lines = char_lines(R)
    conf = settings(dd, users=['user%d.dic' % k for k in range(1, len(w.paths))], inp=inp, oov=[p for _, p in provs], path=path,
                    char=''.join(('0x%04X %s\n' % (a, ' '.join(k)) if a == b else '0x%04X..0x%04X %s\n' % (a, b, ' '.join(k))) for a, b, k in lines))
    heads = [e['h'] for x in w.dics for e in x]
    texts = ['']
    for _ in range(16):
        t = ''
        for _ in range(R.randint(1, 6)):
            x = R.random()
            t += R.choice(heads) if x < .45 else R.choice(chars) if x < .9 else R.choice(MORE)
        t = ''.join(R.choice(ALIAS[c]) if c in ALIAS and R.random() < .15 else c for c in t)
        texts.append(t[:14])
    dics = [[{'surf': cps(e['surf']), 'norm': cps(e['norm']), 'read': cps(e['read']), 'df': e['df'], 'pos': e['pos'], 'hl': len(e['h'].encode()), 'A': e['A'], 'B': e['B'], 'syn': e['syn']}
             for e in ents] for ents in w.dics]
    cfg = {'defs': [{'lo': a, 'hi': b, 'cats': k} for a, b, k in lines], 'dics': dics, 'words': word_list(w), 'matrix': w.matrix, 'provs': [p for p, _ in provs], 'joins': joins}
    return {'conf': conf, 'texts': texts, 'cfg': cfg, 'stages': stages}


def token_rec(x):
    return {'b': x.begin(), 'e': x.end(), 's': cps(x.surface()), 'pos': list(x.part_of_speech()), 'norm': cps(x.normalized_form()), 'df': cps(x.dictionary_form()),
            'read': cps(x.reading_form()), 'oov': bool(x.is_oov()), 'dic': x.dictionary_id(), 'syn': list(x.synonym_group_ids())}

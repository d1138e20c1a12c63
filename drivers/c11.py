"""Out-of-vocabulary providers of the real code, asked at every character of random texts."""
from common import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder

POS = [NOUN, NUM, PN, SYM]
CH = {'a': ['ALPHA'], 'b': ['ALPHA', 'NUMERIC'], '1': ['NUMERIC'], 'г': ['CYRILLIC'], 'ア': ['KATAKANA'],
      'ー': ['KATAKANA', 'HIRAGANA'], 'あ': ['HIRAGANA'], '一': ['KANJI', 'KANJINUMERIC'], '𠮷': ['KANJI'],
      '😀': ['SYMBOL', 'USER1'], 'é': ['ALPHA', 'GREEK']}
CATS = ['DEFAULT', 'ALPHA', 'NUMERIC', 'CYRILLIC', 'KATAKANA', 'HIRAGANA', 'KANJI', 'KANJINUMERIC', 'SYMBOL', 'USER1', 'GREEK', 'SPACE']


def play(item):
    d = open_dict(item['conf'])
    g = d.grammar
    prov = d.oov_provider_plugins[0]
    out = []
    for t in item['texts']:
        it = UTF8InputTextBuilder(t, g).build()
        calls = []
        pos = 0
        for n_, c in enumerate(t):
            if len(t) > 60 and n_ % 40:      # a long text is asked here and there
                pos += len(c.encode('utf-8'))
                continue
            for others in (False, True):
                call = {'b': pos, 'others': others, 'exc': '', 'nodes': []}
                try:
                    for n in prov.get_oov(it, pos, others):
                        wi = n.get_word_info()
                        call['nodes'].append({
                            'b': n.get_begin(), 'e': n.get_end(), 'l': n.get_left_id(), 'r': n.get_right_id(), 'c': n.get_path_cost(),
                            'pos': g.get_part_of_speech_string(wi.pos_id) if wi.pos_id >= 0 else [], 'surf': cps(wi.surface), 'norm': cps(wi.normalized_form),
                            'df': cps(wi.dictionary_form), 'read': cps(wi.reading_form), 'oov': bool(n.is_oov()),
                            'dic': n.get_dictionary_id(), 'len': wi.head_word_length,
                            'units': len(wi.a_unit_split) + len(wi.b_unit_split) + len(wi.word_structure) + len(wi.synonym_group_ids)})
                except Exception as e:
                    call['exc'] = type(e).__name__
                calls.append(call)
            pos += len(c.encode('utf-8'))
        out.append(calls)
    return {'calls': out}


def main():
    w = Writer()
    R = rng('c11')
    d = os.path.join(WORK, 'o')
    build_system(os.path.join(d, 'system.dic'), [[entry('あ', pos=p) for p in POS]])
    items = []
    for j in range(500 if QUICK else 1200):
        ranges = ''.join('0x%04X %s\n' % (ord(c), ' '.join(k)) for c, k in CH.items())
        dd = os.path.join(d, str(j))
        pool = R.sample(list(CH) + ['無'], R.randint(2, 6))
        texts = [''.join(R.choice(pool) * R.choice([1, 1, 2, 3]) for _ in range(R.randint(1, 5))) for _ in range(6)]
        if j % 28 == 3:
            texts = [''.join(R.choice(pool) * R.choice([64, 90, 260, 300]) for _ in range(R.randint(1, 2))) for _ in range(2)]
        sys_ = os.path.join(d, 'system.dic')
        if j % 5 == 0:
            s = {'l': R.randint(0, 9), 'r': R.randint(0, 9), 'c': R.randint(-500, 9000), 'pos': R.choice(POS)}
            conf = settings(dd, sys_, char=ranges, oov=[p_simple(s['l'], s['r'], s['c'], s['pos'])], inp=[])
            items.append({'conf': conf, 'texts': texts, 'kind': 'simple', 'simple': s, 'defs': [], 'entries': []})
            continue
        defs = [{'cat': c, 'invoke': R.random() < .5, 'group': R.random() < .5, 'length': R.choice([0, 0, 1, 2, 2, 3, 5] if j % 28 != 3 else [2, 31, 64, 130, 300])}
                for c in R.sample(CATS, R.randint(3, len(CATS)))]
        ents = []
        for x in defs:
            for _ in range(R.choice([0, 1, 1, 2, 3])):
                if ents and R.random() < (.9 if j % 4 == 1 else .1):      # the same word for another category, or again for this one
                    ents.append({**R.choice(ents), 'cat': x['cat']})
                    continue
                ents.append({'cat': x['cat'], 'l': R.randint(0, 9), 'r': R.randint(0, 9), 'c': R.randint(-300, 30000), 'pos': R.choice(POS)})
        if R.random() < .7:
            R.shuffle(ents)
        props = ''.join('%s %d %d %d\n' % (x['cat'], x['invoke'], x['group'], x['length']) for x in defs)
        text = R.choice(['#\n', '']) + props + ranges
        unk = ''.join('%s,%d,%d,%d,%s\n' % (e['cat'], e['l'], e['r'], e['c'], ','.join(e['pos'])) for e in ents)
        conf = settings(dd, sys_, char=text, oov=[p_mecab()], unk=unk, inp=[])
        items.append({'conf': conf, 'texts': texts, 'kind': 'mecab', 'simple': {}, 'defs': defs, 'entries': ents})
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        base = {k: it[k] for k in ('kind', 'simple', 'defs', 'entries')}
        if res.get('exc'):
            w.put({**base, 'text': cps(it['texts'][0]), 'cats': [], 'exc': res['exc'] + ' ' + res.get('msg', ''), 'calls': []})
            continue
        for t, calls in zip(it['texts'], res['calls']):
            w.put({**base, 'text': cps(t), 'cats': [CH.get(c, ['DEFAULT']) for c in t], 'exc': '', 'calls': calls})
    w.close()


main()

"""Tokens of dictionary sets, and entries found by name."""
from world import *


def tok(m, unit):
    r = token(m)
    wi = m.get_word_info()
    r['idx'] = (m.word_id() & 0x0FFFFFFF) if r['dic'] >= 0 else 0
    r['pid'] = m.part_of_speech_id()
    r['pos2'] = None
    r['unit'] = unit
    r['w'], r['a'], r['b'] = ([wid(x) for x in u] for u in (wi.word_structure, wi.a_unit_split, wi.b_unit_split))
    r['h'] = r.pop('s')
    return r


def by_number(x, g, d, i):
    k = (d << 28) | i
    wi = x.get_word_info(k)
    return {'dic': x.get_dictionary_id(k), 'idx': i, 'wid': [d, i], 'oov': False, 'unit': True, 'h': [], 'pid': wi.pos_id, 'pos': list(g.get_part_of_speech_string(wi.pos_id)),
            'pos2': list(g.get_part_of_speech_string(wi.pos_id)), 'norm': wi.normalized_form, 'read': wi.reading_form, 'df': wi.dictionary_form, 'syn': list(wi.synonym_group_ids),
            'w': [wid(u) for u in wi.word_structure], 'a': [wid(u) for u in wi.a_unit_split], 'b': [wid(u) for u in wi.b_unit_split],
            'l': x.get_left_id(k), 'r': x.get_right_id(k), 'c': x.get_cost(k)}


def play(item):
    W = item['w']
    out = {'kind': 'set', 'exc': '', 'runs': [], 'queries': [], 'pos': [], 'words': [], 'size': -1,
           'dics': [[{k: e[k] for k in ('h', 'l', 'r', 'c', 'pos', 'read', 'norm', 'df', 'surf', 'syn', 'A', 'B', 'W')} for e in x] for x in W.dics]}
    R = rng('c18', item['n'])
    D = open_dict(item['conf'])
    g = D.grammar
    out['pos'] = [list(g.get_part_of_speech_string(i)) for i in range(g.get_part_of_speech_size())]
    M = modes()
    t = D.create()

    def collect(toks, unit=False):
        rs = []
        for m in toks:
            r = tok(m, unit)
            r['pos2'] = list(g.get_part_of_speech_string(r['pid'])) if r['pid'] >= 0 else []
            rs.append(r)
        return rs
    for text in item['texts']:
        for mode in (M.C, R.choice([M.A, M.B])):
            o = {'err': '', 'toks': [], 'plain': mode is M.C}
            try:
                ms = t.tokenize(text, mode)
                o['toks'] = collect(ms)
                for m in ms:
                    o['toks'] += collect(m.split(R.choice([M.A, M.B])), True)
            except Exception as e:
                o['err'] = type(e).__name__ + ' ' + str(e)[:60]
            out['runs'].append(o)
    # the entries themselves, also those that no text reaches
    try:
        x = D.lexicon
        out['size'] = x.size()
        every = [(d, i) for d, es in enumerate(W.dics) for i in range(len(es))]
        for d, i in R.sample(every, min(len(every), 40)) + [(d, len(es) - 1) for d, es in enumerate(W.dics)]:
            out['words'].append(by_number(x, g, d, i))
    except Exception as e:
        out['exc'] = 'entries: ' + type(e).__name__ + ' ' + str(e)[:60]
    qs = []
    npos = len(out['pos'])
    for x in W.dics:
        for e in R.sample(x, min(len(x), 6)):
            ids = [i for i, p in enumerate(out['pos']) if p == e['pos']]
            qs += [(e['surf'], i, e['read']) for i in ids]
            qs.append((e['surf'], R.randrange(npos), e['read']))
            qs.append((e['surf'], ids[0] if ids else 0, e['read'] + R.choice(['', 'x'])))
            qs.append((e['surf'] + 'x', ids[0] if ids else 0, e['read']))
    for s, p, r in qs:
        q = {'surf': s, 'pid': p, 'read': r, 'exc': '', 'got': [-1, 0]}
        try:
            x = D.lexicon.get_word_id(s, p, r)
            q['got'] = wid(x) if x >= 0 else [-1, 0]
        except Exception as e:
            q['exc'] = type(e).__name__
        out['queries'].append(q)
    return out


def far(item):
    """A dictionary of more entries than two bytes count."""
    n, R = item
    d = os.path.join(WORK, 'far')
    es = []
    for i in range(n):
        h = '%c%c%c' % (0x4E00 + i % 97, 0x4E00 + i // 97 % 97, 0x4E00 + i // 9409)
        es.append({'h': h, 'l': i * 7 % 5, 'r': i * 3 % 4, 'c': i * 31 % 20000 - 10000, 'pos': WPOS[i % len(WPOS)], 'surf': h, 'read': 'ヨ%d' % (i % 700), 'norm': h if i % 3 else 'ノ',
                   'df': i * 13 % n if i % 5 == 0 else -1, 'syn': [i] if i % 4 == 0 else [], 'A': [[0, i * 17 % n], [0, n - 1 - i]] if i % 11 == 0 else [], 'B': [], 'W': [[0, (i + 65530) % n]] if i % 13 == 0 else []})
    ref = lambda u: '/'.join(str(ix) for _, ix in u) or '*'
    rows = [entry(e['h'], e['l'], e['r'], e['c'], e['pos'], e['read'], e['norm'], '*' if e['df'] < 0 else e['df'], 'C', ref(e['A']), '*', ref(e['W']), '/'.join(map(str, e['syn'])) or '*', e['surf'])
            for e in es]
    build_system(os.path.join(d, 'system.dic'), [rows], matrix_text(5, 5, [(a, b, 0) for a in range(5) for b in range(5)]))
    ids = sorted({0, 1, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536, 65537, n - 2, n - 1} | set(R.sample(range(n), 40)) | set(R.sample(range(65536, n), 40)))
    ids = [i for i in ids if 0 <= i < n]
    shown = set(ids) | {es[i]['df'] for i in ids if es[i]['df'] >= 0}
    cut = lambda e: {k: e[k] for k in ('h', 'l', 'r', 'c', 'pos', 'read', 'norm', 'df', 'surf', 'syn', 'A', 'B', 'W')}
    out = {'kind': 'far', 'exc': '', 'runs': [], 'queries': [], 'pos': [], 'words': [], 'entries': n, 'dics': [[cut(e) for e in es[:len(WPOS)]]], 'some': [{'i': i, 'e': cut(es[i])} for i in sorted(shown)]}
    D = open_dict(settings(d, 'system.dic', inp=[]))
    g, x = D.grammar, D.lexicon
    out['pos'] = [list(g.get_part_of_speech_string(i)) for i in range(g.get_part_of_speech_size())]
    out['size'] = x.size()
    try:
        out['words'] = [by_number(x, g, 0, i) for i in ids]
    except Exception as e:
        out['exc'] = 'entries: ' + type(e).__name__ + ' ' + str(e)[:60]
    return out


def limit(n):
    base = os.path.join(WORK, 'limit')
    conf = settings(base, 'system.dic', users=['user.dic'] * n, name='s%d.json' % n)
    try:
        open_dict(conf)
        return ''
    except Exception as e:
        return type(e).__name__


def main():
    w = Writer()
    R = rng('c18')
    items = []
    for j in range(260 if QUICK else 900):
        d = os.path.join(WORK, 's', str(j))
        users = R.choice([0, 1, 2, 3, 5, 15]) if j % 12 else [15, 9, 8][j // 12 % 3]
        W = gen(R, d, users=users, n=R.choice([6, 12, 20]), ids=R.choice([1, 2]), inhibit=0, units=True, all_chars=R.random() < .5, costs=(-300, 300), surf_differs=True)
        conf = settings(d, 'system.dic', users=['user%d.dic' % k for k in range(1, len(W.paths))], inp=[])
        heads = [e['h'] for x in W.dics for e in x] + [e['h'] for x in W.dics[1:] for e in x] * 2
        texts = [''.join(R.choice(heads) for _ in range(R.choice([1, 2, 4]))) for _ in range(14)]
        items.append({'conf': conf, 'texts': texts, 'w': W, 'n': j})
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        if 'runs' not in res:
            res = {'kind': 'set', 'exc': res['exc'] + ' ' + res.get('msg', ''), 'runs': [], 'queries': [], 'pos': [], 'words': [], 'size': 0, 'dics': [], 'users': 0, 'err': ''}
        w.put(res)
    for res in run_batch(far, [(66000 if QUICK else 140000, R)], timeout=400):
        if 'runs' not in res:
            res = {'kind': 'set', 'exc': res['exc'] + ' ' + res.get('msg', ''), 'runs': [], 'queries': [], 'pos': [], 'words': [], 'size': 0, 'dics': []}
        w.put(res)
    base = os.path.join(WORK, 'limit')
    build_system(os.path.join(base, 'system.dic'), [[entry('a')]])
    build_user(os.path.join(base, 'user.dic'), [[entry('b')]], os.path.join(base, 'system.dic'))
    ns = [0, 1, 14, 15, 16, 17, 20]
    for n, err in zip(ns, run_batch(limit, ns)):
        w.put({'kind': 'limit', 'users': n, 'err': err if isinstance(err, str) else str(err)})
    w.close()


main()

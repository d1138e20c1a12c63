"""Lookups in real dictionaries at every byte position of a text."""
import itertools

from common import *

SMALL = ['a', 'aa', 'ab', 'b', 'あ', 'aあ', 'あa']
CH = ['a', 'b', 'あ', 'い', 'ア', '字', '𠮷', '𠮸', 'é', 'ê', '\x7f', '\x01', '\U0010ffff', '\u0800', ' ']


def play(item):
    d = os.path.join(WORK, 'd', str(item['n']))
    out = {'exc': '', 'runs': [], 'dics': [[{'h': list(h.encode()), 'l': l} for h, l in dic] for dic in item['dics']]}
    try:
        for k, dic in enumerate(item['dics']):
            rows = [entry(h, l=l, r=0 if l == -1 else l) for h, l in dic]
            p = os.path.join(d, 'system.dic' if k == 0 else 'user%d.dic' % k)
            if k == 0:
                build_system(p, [rows], '3 3\n0 0 0\n')
            else:
                build_user(p, [rows], os.path.join(d, 'system.dic'))
        conf = settings(d, 'system.dic', users=['user%d.dic' % k for k in range(1, len(item['dics']))])
        D = open_dict(conf)
    except Exception as e:
        out['exc'] = type(e).__name__ + ' ' + str(e)[:80]
        return out
    for text in item['texts']:
        b = text.encode()
        for at in item.get('ats') or range(len(b) + 1):
            o = {'dic': -1, 'text': list(b), 'at': at, 'exc': '', 'got': []}
            try:
                o['got'] = [[*wid(w), e] for w, e in D.lexicon.lookup(b, at)]
            except Exception as e:
                o['exc'] = type(e).__name__ + ' ' + str(e)[:80]
            out['runs'].append(o)
            if at % 3 == 0 or len(item['dics']) == 1:
                for k, bd in enumerate(D.dictionaries):
                    q = dict(o, dic=k, exc='', got=[])
                    try:
                        q['got'] = [[k, w, e] for w, e in bd.lexicon.lookup(b, at)]
                    except Exception as e:
                        q['exc'] = type(e).__name__ + ' ' + str(e)[:80]
                    out['runs'].append(q)
    import shutil
    shutil.rmtree(d)
    return out


def words(R, n, chars):
    out = []
    for _ in range(n):
        x = R.random()
        if out and x < .35:
            h = R.choice(out)[0] + R.choice(chars)
        elif out and x < .45:
            h = R.choice(out)[0]
        elif out and x < .55:
            h = R.choice(out)[0][:-1] or R.choice(chars)
        else:
            h = ''.join(R.choice(chars) for _ in range(R.choice([1, 1, 2, 3, 5])))
        out.append((h[:40], R.choice([0, 0, 1, 2, -1]) if R.random() < .5 else 0))
    return out


def texts_for(R, dics, n):
    hs = [h for d in dics for h, _ in d] or ['a']
    chars = sorted({c for h in hs for c in h}) + ['x', 'ん']
    return [''.join(R.choice(hs) if R.random() < .6 else R.choice(chars) for _ in range(R.choice([1, 2, 3]))) for _ in range(n)] + ['']


def main():
    R = rng('c16')
    items = []
    # every subset of a few words, with every choice of which may be found
    for n in range(1, 5 if QUICK else 7):
        for ws in itertools.combinations(SMALL, n):
            if n <= 2 or not QUICK or R.random() < .5:
                marks = itertools.product((0, -1), repeat=n) if n <= 2 else [[R.choice((0, 0, 0, -1)) for _ in ws]]
                for m in marks:
                    items.append({'dics': [list(zip(ws, m))], 'texts': ['aabあaaあab', 'あab'][:1 if QUICK else 2]})
    for _ in range(300 if QUICK else 2500):
        chars = R.sample(CH, R.randint(1, 5))
        dics = [words(R, R.choice([1, 3, 8, 20, 60] if QUICK else [1, 3, 8, 20, 60, 300]), chars) for _ in range(R.choice([1, 1, 2, 3, 5]))]
        items.append({'dics': dics, 'texts': texts_for(R, dics, 3)})
    # homographs up to the limit of the table, spread or in one place
    for n in (126, 127, 128, 129, 254, 255):
        items.append({'dics': [[('a', 0)] * n + [('ab', 0), ('b', 0)]], 'texts': ['abaa']})
        items.append({'dics': [[('a', 0)], [('a', 0)] * n + [('x', -1)]], 'texts': ['ab']})
    # many headwords on one line of descent, and many words
    N = 300 if QUICK else 1200
    items.append({'dics': [[('a' * n, 0) for n in range(1, N + 1)]], 'texts': ['a' * 50], 'big': 1})
    items.append({'dics': [[('a' * n, 0) for n in range(1, N + 1)]], 'texts': ['a' * (N + 3) + 'b'][:1], 'big': 1, 'few': 1})
    items.append({'dics': [[(''.join(R.choice(CH) for _ in range(R.choice([1, 2, 2, 3, 4]))), R.choice([0, 0, 0, -1])) for _ in range(2000 if QUICK else 20000)]], 'big': 1, 'texts': []})
    items[-1]['texts'] = [''.join(R.choice(CH) for _ in range(20)) for _ in range(2)]
    # more entries than sixteen bits count
    letters = [chr(c) for c in range(0x3041, 0x3091)]
    big = [(a + b + c, 0) for a in letters for b in letters for c in letters[:11]]
    big = big[:66200]
    R.shuffle(big)
    for k in (255, 256, 32767, 32768, 65534, 65535, 65536, 65537, len(big) - 1):
        big[k] = (R.choice('あい') * R.choice([1, 2, 4]), 0)
    items.append({'dics': [big], 'texts': ['ああああい' + big[65540][0], 'いいい' + big[700][0]], 'ats': [0, 3, 15, 9], 'big': 1})
    # short words far behind in the table, and long ones
    far = [('a%05d' % i, 0) for i in range(14000)] + [('a', 0), ('b', 0), ('b', 0), ('é', 0), ('か', 0), ('𠮷', 0), ('𠮷か', 0), ('b' * 9, 0)]
    R.shuffle(far)
    items.append({'dics': [far], 'texts': ['bbéか𠮷かa13999ba00000', 'b' * 12], 'big': 1})
    # headwords up to the longest there may be
    for c, ns in (('a', [127, 128, 255, 256, 1000, 32766, 32767]), ('あ', [85, 86, 341, 342, 2731, 10921, 10922]), ('𠮷', [63, 64, 300, 8191])):
        items.append({'dics': [[(c * n, 0) for n in ns], [(c * ns[-1], 0), (c * ns[-1], -1)]], 'texts': [c * (ns[-1] + 1)], 'ats': [0, len(c.encode()), 7 * len(c.encode())]})
    # fifteen user dictionaries
    items.append({'dics': [words(R, 5, ['a', 'あ', 'b']) for _ in range(16)], 'texts': texts_for(R, [[('a', 0), ('あb', 0)]], 3)})
    w = Writer()
    for i, it in enumerate(items):
        it['n'] = i
    for it, res in zip(items, run_batch(play, items, timeout=60)):
        if res.get('exc') == 'Skipped':
            continue
        if 'runs' not in res:
            res = {'exc': res['exc'] + ' ' + res.get('msg', ''), 'dics': [], 'runs': []}
        if it.get('few'):
            res['runs'] = res['runs'][:4] + res['runs'][-12:]
        w.put(res)
    w.close()


main()

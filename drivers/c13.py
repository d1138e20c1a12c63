"""Paths before and after the numeral joiner, on enumerated and random token sequences."""
import itertools

from common import *

# surface -> (normalized form, part of speech); the dictionary has one entry for each
DIG = {str(i): (str(i), NUM) for i in range(10)}
TOK = dict(DIG)
TOK.update({k: (k, NUM) for k in '〇一二三四五六八九十百千万億兆'})
TOK.update({'七': ('七', NOUN), '１': ('1', NOUN), '２': ('2', NOUN), '３': ('3,', NUM), '４': ('4.', NUM), '５': (',5', NUM), '６': ('.6', NUM),
            '７': ('7,000', NUM), '８': ('8.5', NUM), '９': ('九百', NUM), '０': ('ゼロ', NUM)})
TOK.update({',': (',', SYM), '.': ('.', SYM), '，': (',', SYM), '．': ('.', SYM), '、': ('、', SYM)})
TOK.update({'円': ('円', NOUN), '猫': ('猫', NOUN), 'か': ('か', SYM), 'x': ('x', NOUN)})
TOK.update({'12': ('12', NUM), '000': ('000', NUM), '五百': ('五百', NUM), '10万': ('10万', NUM), '1円': ('1円', NUM), '33': ('33', NOUN)})
NUMCH = set('0123456789０１２３４５６７８９')
KNUM = set('〇一二三四五六七八九十百千万億兆')


def cat(c):
    if c in NUMCH:
        return ['NUMERIC']
    if c in KNUM:
        return ['KANJI', 'KANJINUMERIC']
    if c == 'か':
        return ['HIRAGANA', 'NUMERIC']
    if c in '円猫':
        return ['KANJI']
    if c == 'x':
        return ['ALPHA']
    return ['SYMBOL']


CHARS = sorted({c for t in TOK for c in t})


def conf(d, name, normalize):
    char = ''.join('0x%04X %s\n' % (ord(c), ' '.join(cat(c))) for c in CHARS)
    return settings(os.path.join(d, name), os.path.join(d, 'system.dic'), char=char, inp=[],
                    oov=[p_simple(0, 0, 30000, NOUN)], path=[p_numeric(normalize)])


def play(item):
    d = open_dict(item['conf'])
    store = []
    rec = recorder(store, lambda text, path, lat: [node_rec(n, d.grammar) for n in path])
    d.path_rewrite_plugins.insert(0, rec)
    d.path_rewrite_plugins.append(rec)
    t = d.create()
    runs = []
    for text in item['texts']:
        del store[:]
        o = {'text': cps(text), 'cats': [cat(c) for c in text], 'exc': '', 'before': [], 'after': []}
        try:
            t.tokenize(text)
            o['before'], o['after'] = store
        except Exception as e:
            o['exc'] = type(e).__name__
        runs.append(o)
    return {'runs': runs}


def main():
    w = Writer()
    R = rng('c13')
    d = os.path.join(WORK, 'n')
    rows = [entry(s, c=(5 if len(s) > 1 else 100), pos=p, norm=n, read='よ' + s, t='A') for s, (n, p) in TOK.items()]
    # dictionary forms that differ from the surface
    rows += [entry('ふ', pos=NUM, norm='2')]
    for r in rows:
        if r[0] in ('8', '三'):
            r[13] = str(len(rows) - 1)
    build_system(os.path.join(d, 'system.dic'), [rows])
    conf_on, conf_off = conf(d, 'on', True), conf(d, 'off', False)
    texts = []
    key = ['1', '0', '１', '十', '万', ',', '.', '円', '３', '４']
    for n in range(1, 5 if QUICK else 6):
        texts += list(itertools.product(key, repeat=n))
    if QUICK:
        texts += list(itertools.product(['1', '000', ',', '.', '円'], repeat=5))
    al = list(TOK)
    for _ in range(4000 if QUICK else 40000):
        n = R.choice([3, 6, 8, 12, 20])
        pool = R.sample(al, R.randint(2, 6)) + [',', '.', '1', '2', '000']
        texts.append([R.choice(pool) for _ in range(n)])
    for _ in range(150 if QUICK else 1000):
        n = R.choice([40, 80, 150])
        pool = R.sample(al, R.randint(0, 4)) + R.choice([['1', '2', '000'], ['1', ',', '000'], ['一', '十', '万'], ['0', '5', '.'], ['1', '百', '兆']])
        texts.append([R.choice(pool) for _ in range(n)])
        texts.append(list('1' * R.choice([3, 20, 70, 140]) + R.choice([',000', '.5', '万', ',', '.', '円', '']) * R.choice([1, 1, 20, 50])))
    texts = [''.join(t) for t in texts]
    batch = 60
    items = [{'conf': conf_on, 'normalize': True, 'texts': texts[k:k + batch]} for k in range(0, len(texts), batch)]
    off = texts[::5]
    items += [{'conf': conf_off, 'normalize': False, 'texts': off[k:k + batch]} for k in range(0, len(off), batch)]
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        if res.get('exc'):
            # find the text within the batch
            one = [{**it, 'texts': [t]} for t in it['texts']]
            res = {'runs': []}
            for x, r in zip(one, run_batch(play, one, timeout=5)):
                if r.get('exc'):
                    if r['exc'] == 'Skipped':
                        continue
                    r = {'runs': [{'text': cps(x['texts'][0]), 'cats': [], 'exc': r['exc'] + ' ' + r.get('msg', ''), 'before': [], 'after': []}]}
                res['runs'] += r['runs']
        w.put({'normalize': it['normalize'], 'runs': res['runs']})
    w.close()


main()

"""Character definition files read by the real code."""
from common import *
from sudachipy.dictionarylib.charactercategory import CharacterCategory

NAMES = ['DEFAULT', 'SPACE', 'KANJI', 'SYMBOL', 'NUMERIC', 'ALPHA', 'HIRAGANA', 'KATAKANA', 'KANJINUMERIC', 'GREEK',
         'CYRILLIC', 'USER1', 'USER2', 'USER3', 'USER4', 'NOOOVBOW']


def play(item):
    f = os.path.join(WORK, 'cd', '%d.def' % os.getpid())
    write(f, item['text'])
    cc = CharacterCategory()
    cc.read_character_definition(f)
    return {'probes': [{'cp': p, 'cats': sorted(t.name for t in cc.get_category_types(p))} for p in item['points']]}


def line(d, R):
    def hx(v):
        return R.choice(['0x%X', '0x%04x', '0x%05X', '0x%06x']) % v
    if d['lo'] == d['hi'] and R.random() < .7:
        a = hx(d['lo'])
    else:
        a = hx(d['lo']) + '..' + hx(d['hi'])
    return a + R.choice([' ', '\t', '   ', ' ', '\t', '\u3000', ' \t']) + R.choice([' ', '\t', ' ', '  ', '\u3000']).join(d['cats']) + R.choice(['', '', ' # note', '  #KANJI'])


def points(defs):
    s = {0, 0x10FFFF, 0x41}
    for d in defs:
        for v in (d['lo'], d['hi'], (d['lo'] + d['hi']) // 2):
            s |= {v - 1, v, v + 1}
    return sorted(x for x in s if 0 <= x <= 0x10FFFF)


def main():
    w = Writer()
    R = rng('c09')
    items = []

    def add(defs, text=None, malformed=False, why='', pts=None):
        if text is None:
            ls = [line(d, R) for d in defs]
            if R.random() < .3:
                ls.insert(R.randint(0, len(ls)), R.choice(['', '# comment', '   ', 'KANJI 0 0 2', 'ALPHA 1 1 0']))
            text = '\n'.join(ls) + R.choice(['', '\n'])
        items.append({'defs': defs, 'text': text, 'points': pts or points(defs), 'malformed': malformed, 'why': why})

    if sys.argv[2] == 'gen':
        for g in json.load(open(sys.argv[3])):
            base = 0x30A0
            defs = [{'lo': base + d['lo'], 'hi': base + d['hi'], 'cats': d['cats']} for d in g['defs']]
            add(defs, '\n'.join('0x%X..0x%X %s' % (d['lo'], d['hi'], ' '.join(d['cats'])) for d in defs),
                pts=list(range(base - 1, base + 8)))
    else:
        # the bundled file and the test-free reading of it
        defs = []
        for l in CHAR_DEF.splitlines():
            c = l.split()
            if c and c[0].startswith('0x'):
                r = c[0].split('..')
                cats = []
                for x in c[1:]:
                    if x.startswith('#'):
                        break
                    cats.append(x)
                defs.append({'lo': int(r[0], 16), 'hi': int(r[-1], 16), 'cats': cats})
        add(defs, CHAR_DEF)
        for _ in range(5):
            ls = CHAR_DEF.splitlines()
            R.shuffle(ls)
            add(defs, '\n'.join(ls))
        for _ in range(1500 if QUICK else 20000):
            defs = []
            scope = R.choice([6, 12, 40, 0x10FFFF])
            base = R.choice([0, 0x20, 0x3040, 0x1F600, 0x10FFFF - scope])
            for _ in range(R.choice([1, 2, 3, 4, 5, 6, 8, 12, 20])):
                lo = R.randint(0, scope)
                hi = R.choice([lo, lo, R.randint(lo, scope), min(scope, lo + R.randint(0, 3))])
                k = R.choice([1, 1, 1, 2, 3])
                defs.append({'lo': base + lo, 'hi': base + hi, 'cats': [R.choice(NAMES) for _ in range(k)]})
                if R.random() < .15:
                    defs.append(dict(R.choice(defs)))
            pts = points(defs)
            if len(pts) > 80:
                pts = sorted(R.sample(pts, 80))
            add(defs, pts=pts)
        # very many ranges
        for n in (520, 700, 1100, 3000) if QUICK else (255, 256, 257, 513, 520, 1025, 3000, 7000, 20000):
            base, step = R.choice([0, 0x3041]), R.choice([1, 2, 3])
            defs = [{'lo': base + k * step, 'hi': base + k * step + R.randrange(step), 'cats': [NAMES[1 + k % 7]] + R.sample(NAMES[8:], R.choice([0, 0, 1]))} for k in range(n)]
            R.shuffle(defs)
            at = {min(n - 1, max(0, x + y)) for x in (0, 1, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, n // 2, n) for y in (-1, 0, 1)}
            at |= set(R.sample(range(n), 60))
            add(defs, pts=sorted({base + k * step + d for k in at for d in range(step)}))
        # definitions without any range
        for t in ('', '\n', '# nothing\n', 'KANJI 0 0 2\n'):
            add([], t)
        good = '0x3041..0x309F HIRAGANA\n'
        for bad, why in (('0x0050..0x0041 ALPHA', 'reversed range'), ('0x0042..0x0041 ALPHA', 'reversed by one'),
                         ('0x0041..0x0050 ALPHABET', 'unknown category'), ('0x0041 KANJI FOO', 'unknown second category'),
                         ('0x0041', 'missing columns'), ('0x0041..0x0043', 'missing columns'), ('0x0041 alpha', 'unknown category')):
            for text in (bad + '\n', good + bad + '\n', bad + '\n' + good, good + '\n#\n' + bad):
                add([], text, True, why)
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        w.put({'defs': it['defs'], 'malformed': it['malformed'], 'why': it['why'], 'exc': res.get('exc', ''),
               'probes': res.get('probes', []), 'text': it['text'] if len(it['text']) < 400 else ''})
    w.close()


main()

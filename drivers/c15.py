"""Real builds of generated sources, read back (C15, C17)."""
from common import *
from sudachipy.dictionarylib import BinaryDictionary

TEXTS = ['a', 'b', 'あ', '字', 'ア', '𠮷', '😀', 'é', 'が', ' ', '"', "'", ',', '/', '*', 'U', '1', '-', '\t', '\\', 'u', '{', '}', '#', '\u3000', '\ufeff', 'ÿ',
         '\x7f', '\x80', '\u07ff', '\u0800', '\uffff', '\U00010000', '\U0010ffff', '\n', 'ー', '﷽', '\u200d']
PARTS = ['名詞', '一般', '*', '動詞', 'x', '補助 記号', '/', '#', '😀', '\\u0041', '', 'あ' * 130, 'é' * 128, '字' * 127]
ODD = [.04]
SYS_ROWS = [entry('a', pos=NOUN, read='エー'), entry('あ', pos=SYM, read='ア'), entry('字,/', pos=NOUN, read='ジ'), entry('a', pos=PN, read='エー'),
            entry('b', pos=NOUN, read='', norm=''), entry('😀', pos=['感動詞', '', '*', 'あ' * 128, '*', '*'], read='カオ')]


def rtext(R, lo=0, hi=6):
    x = R.random()
    if x < .03:
        return R.choice(['あ', 'a', '𠮷', 'é']) * R.choice([126, 127, 128, 129, 255, 256, 257, 300])
    return ''.join(R.choice(TEXTS) for _ in range(R.randint(lo, hi)))


def esc(R, s):
    """The same text with some characters written as escapes; text that would read as an escape is left to the specification."""
    out = ''
    for c in s:
        x = R.random()
        if x < .06 and ord(c) < 0x10000:
            out += R.choice(['\\u%04x', '\\u%04X', '\\u{%x}', '\\u{%06x}']) % ord(c)
        elif x < .1:
            out += '\\u{%X}' % ord(c)
        else:
            out += c
    if R.random() < ODD[0]:
        out += R.choice(['\\u00', '\\u{}', '\\u{xyz}', '\\\\u0041', '\\u005cu0041', '\\u{5c}u{41}', '\\\\u005cu0041', '\\u004g', '\\u{41', '\\U0041', '\\u0041b', '\\u{110000}', '\\ud800', '\\u{dc00}', '\\u{0000000000041}', '\\u{fffffffff}'])
    return out


def field(s):
    return ''.join('\\u%04x' % ord(c) if c in ',/\\' else c for c in s)


def unescape(s):
    """Only to know what to name in references; the specification decides what the source says."""
    import re

    def f(m):
        v = int(m.group(1).strip('{}'), 16)
        if v > 0x10ffff or 0xd800 <= v < 0xe000:
            raise ValueError
        return chr(v)
    return re.sub(r'\\u([0-9a-fA-F]{4}|\{[0-9a-fA-F]+\})', f, s)


def name_ref(R, row, lie=0.0):
    f = [unescape(row[4]), *map(unescape, row[5:11]), unescape(row[11])]
    if R.random() < lie:
        k = R.randrange(8)
        f[k] += 'x'
    f = [field(x) for x in f]
    if R.random() < .2:
        f[0] = ''.join('\\u{%x}' % ord(c) for c in unescape(row[4]))
    if R.random() < .1:
        f.append('more')
    return ','.join(f)


def unit_list(R, rows, user, bad=0.0):
    us = []
    n = R.choice([1, 2, 2, 3, 5]) if R.random() < .985 else R.choice([126, 127])
    for _ in range(n):
        x = R.random()
        if x < .25 and user:
            us.append(str(R.randrange(len(SYS_ROWS))))
        elif x < .5 and user:
            us.append('U%d' % R.randrange(len(rows)))
        elif x < .5:
            us.append('%s%d' % (R.choice(['', '', 'U', '0']), R.randrange(len(rows))))
        else:
            r = R.choice(SYS_ROWS + rows if user else rows)
            try:
                ok = r[11] != '' and len(','.join(r[4:12])) < 500
                us.append(name_ref(R, r, bad) if ok else '0')
            except ValueError:
                us.append('0')
    return '/'.join(us)


def rows_of(R, user, n, bad=0.0):
    rows = []
    pos = [[R.choice(PARTS) for _ in range(6)] for _ in range(3)] + [NOUN, PN, SYM]
    for i in range(n):
        h = rtext(R, 1)
        if R.random() < .15:
            h = R.choice(['a', 'あ', '字,/', '😀'])
        r = [esc(R, h), str(R.choice([0, 1, -1, 32767, -32768, 12])), str(R.choice([0, 1, -1, 32767, -32768, 7])),
             str(R.choice([0, 100, -100, 32767, -32768, 5000])), esc(R, h if R.random() < .6 else rtext(R))]
        r += R.choice(pos)
        r += [esc(R, rtext(R) if R.random() < .7 else h), esc(R, rtext(R) if R.random() < .7 else h), '*', R.choice('ABC*'), '*', '*', '*']
        if R.random() < .8:
            r.append(R.choice(['*', '*', '1', '000001', '1/2/3', '-1', '2147483647/-2147483648', '/'.join(map(str, range(127 if R.random() < .1 else 9)))]))
            if R.random() < .1:
                r.append('an extra column')
        if n > 100 and R.random() < .8:
            r[8] = 'p%d' % i
        rows.append(r)
    for i, r in enumerate(rows):
        if R.random() < .4:
            r[13] = R.choice([str(R.randrange(n)), str(i), '-1', '-5', '00%d' % R.randrange(n)])
        for k in (15, 16, 17):
            if R.random() < .35 and (k == 17 or r[14] != 'A'):
                r[k] = unit_list(R, rows, user, bad)
    return rows


BAD_VALUES = ['', '*', 'x', '-1', '0', '1', '-5', '32767', '32768', '-32768', '-32769', '99999999999999999999', '1.5', '--1', '1a', '0x1', '-', '+', '+3', '-0', '007',
              '2147483647', '2147483648', '-2147483648', '-2147483649', '268435455', '268435456', '268435457', '536870912', '536870913', '4294967296', '4294967297',
              'U0', 'U1', 'U2', 'U3', '3', '2', '5', '6', 'U', 'UU1', 'u1', 'U-1', 'U268435456', 'U268435457', 'U536870912', 'U4294967296', '1/', '/1', '0//1', '0/1', '*/1', '1/*',
              '0/U1', 'A', 'B', 'C', 'a,名詞,普通名詞,一般,*,*,*,エー', 'a,名詞,普通名詞,一般,*,*,*,ビー', 'a,名詞,普通名詞,一般,*,*,*', 'あ,補助記号,一般,*,*,*,*,ア', 'own,名詞,普通名詞,一般,*,*,*,ヨミ',
              'own,名詞,普通名詞,一般,*,*,*,ヨミ/0', 'head,名詞,普通名詞,一般,*,*,*,ヨミ', '字\\u002c\\u002f,名詞,普通名詞,一般,*,*,*,ジ', '字,/,名詞,普通名詞,一般,*,*,*,ジ', 'a,b', ',', '\\u0041', '\\u{1F600}', '\\ud800', '\\u{110000}', '\\u0000', 'a\\u0000', 'a,b,c,d,e,f,g,h',
              '/'.join(['0'] * 127), '/'.join(['0'] * 128), '/'.join(['1'] * 126 + ['9']), '/'.join(map(str, range(1000, 1127))), '/'.join(map(str, range(1000, 1128)))]


def systematic():
    """Every column of a small source with every interesting value."""
    for user in (False, True):
        for col in range(19):
            for v in BAD_VALUES:
                for typ in ('C', 'A') if col in (15, 16, 17) else ('C',):
                    rows = [entry('head', surf='own', read='ヨミ', t=typ), entry('a', read='エー', syn='1')]
                    rows[0][col] = v
                    yield user, [rows]
        for n in range(0, 21):
            r = entry('head', read='ヨミ') + ['x', 'y']
            yield user, [[entry('a', read='エー'), r[:n]]]


def mutate(R, files):
    rows = [r for f in files for r in f]
    x = R.random()
    r = R.choice(rows)
    if x < .1:
        del r[R.randrange(len(r)):]
    elif x < .2:
        del r[R.randrange(len(r))]
    elif x < .3 and len(r) > 14:
        r[14] = 'A'
    elif r:
        k = R.randrange(len(r))
        r[k] = R.choice(BAD_VALUES)


def clean(files):
    """Stay within the domain: names with an empty reading, carriage returns and NULs out of it."""
    return [[[c.replace('\r', '') for c in r] for r in f] for f in files]


def name_parts_ok(u):
    f = u.split(',')
    return len(f) < 8 or f[7] != ''


SYS = {}


def system():
    if not SYS:
        SYS['path'] = build_system(os.path.join(WORK, 'sys', 'system.dic'), [SYS_ROWS], '1 1\n0 0 0\n')
        g = SYS['pos'] = []
        for r in SYS_ROWS:
            if r[5:11] not in g:
                g.append(r[5:11])
        SYS['rec'] = {'n': len(SYS_ROWS), 'pos': [[cps(x) for x in p] for p in g],
                      'keys': [{'surf': cps(r[4]), 'pos': [cps(x) for x in r[5:11]], 'read': cps(r[11] or r[4])} for r in SYS_ROWS]}
    return SYS


def rle(s):
    out = []
    for c in s:
        if out and out[-1][0] == ord(c):
            out[-1][1] += 1
        else:
            out.append([ord(c), 1])
    return out


def read_back(path, user):
    d = (BinaryDictionary.from_user_dictionary if user else BinaryDictionary.from_system_dictionary)(path)
    base = SYS['pos'] if user else []
    table = [list(d.grammar.get_part_of_speech_string(i)) for i in range(d.grammar.get_part_of_speech_size())]
    ents = []
    lx = d.lexicon
    for i in range(lx.size()):
        wi = lx.get_word_info(i)
        pid = wi.pos_id
        ents.append({'surf': cps(wi.surface), 'hlen': wi.length(), 'l': cps(str(lx.get_left_id(i))), 'r': cps(str(lx.get_right_id(i))), 'c': cps(str(lx.get_cost(i))),
                     'pos': [cps(x) for x in (base + table)[pid]], 'read': cps(wi.reading_form), 'norm': cps(wi.normalized_form), 'df': cps(wi.dictionary_form),
                     'a': [wid(x) for x in wi.a_unit_split], 'b': [wid(x) for x in wi.b_unit_split], 'w': [wid(x) for x in wi.word_structure],
                     'syn': [cps(str(x)) for x in wi.synonym_group_ids]})
    if len(table) and user is False and min(len(p) for p in table) < 6:
        raise ValueError('short part of speech')
    return table, ents


def build(user, files, path, matrix='1 1\n0 0 0\n'):
    if user:
        build_user(path, files, SYS['path'])
    else:
        build_system(path, files, matrix)


def play_source(user, files, path):
    o = {'kind': 'source', 'sys': SYS['rec'] if user else {'n': -1, 'pos': [], 'keys': []}, 'files': [[[cps(c) for c in r] for r in f] for f in files],
         'refused': False, 'exc': '', 'rexc': '', 'entries': [], 'table': [], 'user': user}
    try:
        build(user, files, path)
    except Exception as e:
        o['refused'] = True
        o['why'] = type(e).__name__ + ': ' + str(e)[:80]
        return o
    try:
        t, o['entries'] = read_back(path, user)
        o['table'] = [[cps(x) for x in p] for p in t]
    except Exception as e:
        o['rexc'] = type(e).__name__ + ' ' + str(e)[:80]
    return o


FIELD = {'headword': 0, 'surface': 4, 'part of speech': 5, 'reading': 11, 'normalized form': 12}


def play_long(field, runs, user, path):
    s = ''.join(chr(c) * n for c, n in runs)
    row = entry('long', l=0 if field != 'headword' else (-1 if len(s) % 2 else 0), read='ヨ', norm='ノ')
    row[FIELD[field]] = s
    rows = [entry('a', read='エー', norm='N', pos=PN), row, entry('b', read='ビー', norm='N', pos=SYM, syn='5')]
    o = {'kind': 'long', 'field': field, 'rle': runs, 'back': [], 'hlen': -1, 'rest': '', 'refused': False, 'exc': '', 'rexc': ''}
    try:
        build(user, [rows], path)
    except Exception as e:
        o['refused'] = True
        o['why'] = type(e).__name__ + ': ' + str(e)[:80]
        return o
    try:
        _, e = read_back(path, user)
        o['hlen'] = e[1]['hlen']
        val = {'headword': [], 'surface': e[1]['surf'], 'part of speech': e[1]['pos'][0], 'reading': e[1]['read'], 'normalized form': e[1]['norm']}[field]
        o['back'] = rle(uncps(val))
        for i, want in ((0, ('a', 'エー', 'N', PN, [])), (2, ('b', 'ビー', 'N', SYM, ['5']))):
            got = (uncps(e[i]['surf']), uncps(e[i]['read']), uncps(e[i]['norm']), [uncps(x) for x in e[i]['pos']], [uncps(x) for x in e[i]['syn']])
            if got != want:
                o['rest'] = 'entry %d' % i
        if len(e) != 3:
            o['rest'] = 'number of entries'
    except Exception as x:
        o['rexc'] = type(x).__name__ + ' ' + str(x)[:80]
    return o


def play_many(n, user, path):
    """As many parts of speech, each told by a character of its own."""
    def name(i):
        return chr(0x10000 + i)
    rows = [entry('x', pos=[name(i), '*', '*', '*', '*', '*']) for i in range(n)]
    for i, r in enumerate(rows):
        r[0] = 'x%d' % i
    o = {'kind': 'long', 'field': 'parts of speech', 'rle': [[ord(name(i)), 1] for i in range(n)], 'back': [], 'hlen': -1, 'rest': '', 'refused': False, 'exc': '', 'rexc': ''}
    try:
        build(user, [rows], path)
    except Exception as e:
        o['refused'] = True
        o['why'] = type(e).__name__ + ': ' + str(e)[:80]
        return o
    try:
        o['back'] = [[x['pos'][0][0], len(x['pos'][0])] for x in read_back(path, user)[1]]
    except Exception as x:
        o['rexc'] = type(x).__name__ + ' ' + str(x)[:80]
    return o


def play_header(h, lines, path):
    o = {'kind': 'header', 'header': cps(h), 'lines': [cps(x) for x in lines], 'refused': False, 'exc': ''}
    try:
        build_system(path, [[entry('a')]], '\n'.join([h] + lines) + '\n')
    except Exception as e:
        o['refused'] = True
        o['why'] = type(e).__name__ + ': ' + str(e)[:80]
    return o


def play(item):
    path = os.path.join(WORK, 'b', '%d.dic' % item['n'])
    runs = []
    for j in item['jobs']:
        if j[0] == 'source':
            runs.append(play_source(j[1], j[2], path))
        elif j[0] == 'long':
            runs.append(play_long(j[1], j[2], j[3], path))
        elif j[0] == 'many':
            runs.append(play_many(j[1], j[2], path))
        else:
            runs.append(play_header(j[1], j[2], path))
    for f in os.listdir(os.path.dirname(path)):
        if f.startswith('%d.dic' % item['n']):
            os.unlink(os.path.join(os.path.dirname(path), f))
    return {'runs': runs}


def jobs(part):
    R = rng('c15', part)
    if part == 'valid':
        for _ in range(1000 if QUICK else 12000):
            user = R.random() < .5
            rows = rows_of(R, user, R.choice([1, 2, 3, 5, 8, 12]))
            cut = sorted(R.randint(0, len(rows)) for _ in range(R.choice([0, 0, 1, 2])))
            files = [rows[a:b] for a, b in zip([0] + cut, cut + [len(rows)])]
            yield ('source', user, clean(files))
        # larger sources, with more parts of speech than a byte counts
        for n in (340,) if QUICK else (130, 340, 700, 1500):
            for user in (False, True):
                ODD[0] = 0
                rows = rows_of(R, user, n)
                ODD[0] = .04
                yield ('source', user, clean([rows]))
    elif part == 'mutated':
        for user, files in systematic():
            yield ('source', user, files)
        for _ in range(1000 if QUICK else 15000):
            user = R.random() < .5
            rows = rows_of(R, user, R.choice([1, 2, 3, 5]), .1)
            files = [rows]
            for _ in range(R.choice([1, 1, 2])):
                mutate(R, files)
            yield ('source', user, clean(files))
    else:
        for f in FIELD:
            limit = 32767
            for c in 'aéあ𠮷':
                u = len(c.encode()) if f == 'headword' else len(c.encode('utf-16-le')) // 2
                for n in sorted({126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 32512, limit - 1, limit, limit + 1, limit + 2, 40000, 65535, 65536, 65537}):
                    k, rest = divmod(n, u)
                    runs = ([[97 if c != 'a' else 98, rest]] if rest else []) + ([[ord(c), k]] if k else [])
                    if f == 'headword' and n > 4000 and c == 'é':
                        continue
                    for user in ((False, True) if n < 600 or not QUICK else (n % 2 == 0,)):
                        yield ('long', f, runs, user)
        for n in (127, 128, 255, 256, 1025, 4097) if QUICK else (127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 2049, 4097, 8193):
            for user in (False, True):
                yield ('many', n, user)
        for h in ['', ' ', '1', '1 1', '0 0', '2 3', ' 2   3 ', '1 1 1', 'x y', '-1 -1', '-1 1', '1 -1', '0 1', '1 0', '1.0 1', '32768 1', '1 32768', '1 32767', '65536 65536', '1,1', '1 x',
                  '-2 -3', '0 -1', '# 1 1']:
            yield ('header', h, [])
        # pairs inside and outside of the matrix
        for L, S in ((1, 1), (2, 3), (3, 2), (0, 0), (0, 2), (2, 0), (300, 2), (2, 300)):
            near = lambda n: sorted({-2, -1, 0, 1, n - 1, n, n + 1})
            for a in near(L):
                for b in near(S):
                    yield ('header', '%d %d' % (L, S), ['%d %d %d' % (a, b, R.randint(-9, 9))])
            inside = [(a, b) for a in near(L) for b in near(S) if 0 <= a < L and 0 <= b < S]
            for _ in range(16):
                lines = ['%d %d %s' % (*R.choice(inside), R.choice(['1', '-1', '32767', '-32768'])) for _ in range(R.choice([1, 3, 5]))] if inside else []
                if R.random() < .7:
                    a, b = R.choice(inside) if inside else (0, 0)
                    lines.insert(R.randint(0, len(lines)), R.choice(['%d %d 32768' % (a, b), '%d %d -32769' % (a, b), '%d %d x' % (a, b), 'x %d 1' % b, '%d %d 1' % (S, L), '%d %d' % (L, S), '%d' % L,
                                                                      '# %d %d 1' % (L, S), '  ', '%d %d 1' % (b, a), '65536 65536 1', '%d %d 1' % (a - 65536, b)]))
                yield ('header', '%d %d' % (L, S), lines)


def main():
    part = sys.argv[2]
    os.makedirs(os.path.join(WORK, 'b'), exist_ok=True)
    system()
    js = [j for j in jobs(part) if j[0] != 'source' or all(name_parts_ok(u) for f in j[2] for r in f for c in r[15:18] for u in c.split('/'))]
    k = 4 if part == 'long' else 12
    items = [{'n': i, 'jobs': js[i * k:(i + 1) * k]} for i in range((len(js) + k - 1) // k)]
    w = Writer()
    for it, res in zip(items, run_batch(play, items, timeout=40)):
        if res.get('exc') == 'Skipped':
            continue
        if res.get('exc'):
            res = {'runs': [{'kind': 'source', 'exc': res['exc'] + ' ' + res.get('msg', ''), 'files': [], 'sys': {'n': -1, 'pos': [], 'keys': []}, 'refused': False, 'rexc': '', 'entries': [], 'table': [],
                             'jobs': repr(it['jobs'])[:2000]}]}
        w.put(res)
    w.close()


main()

"""Random dictionaries with a full description of their contents, for the specifications to judge against."""
import mmap

from common import *
from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
from sudachipy.dictionarylib.grammar import Grammar

ALPHA = {'a': ['ALPHA'], 'b': ['ALPHA'], 'г': ['CYRILLIC'], 'ア': ['KATAKANA'], 'イ': ['KATAKANA'], 'ー': ['KATAKANA', 'NOOOVBOW'],
         'あ': ['HIRAGANA'], '一': ['KANJI', 'KANJINUMERIC'], '字': ['KANJI'], '1': ['NUMERIC'], '2': ['NUMERIC'], '𠮷': ['KANJI'],
         '.': ['SYMBOL'], 'ッ': ['KATAKANA', 'NOOOVBOW'], '十': ['KANJI', 'KANJINUMERIC']}
WPOS = [NOUN, PN, SYM, NUM, ['動詞', '一般', '*', '*', '五段-ラ行', '終止形-一般'], ['副詞', '*', '*', '*', '*', '*']]
CHAR_TXT = ''.join('0x%04X %s\n' % (ord(c), ' '.join(k)) for c, k in ALPHA.items())


class World:
    """dics[k]: list of entry descriptions of dictionary k (0 system)."""


def gen(R, d, users=0, n=12, ids=3, chars=None, inhibit=.15, units=False, neg=True, spell=False, costs=(-200, 3000), user_pos=True, all_chars=False,
        over=False, surf_differs=False, right_ids=None, auto=0, tweak=None, sizes=None, many=0):
    w = World()
    w.dir = d
    w.chars = chars or R.sample(list(ALPHA), R.randint(3, 7))
    w.ids = ids                        # left connection ids
    w.rids = right_ids or ids          # right connection ids: the first index of the matrix
    w.matrix = [[(32767 if R.random() < inhibit else R.choice([0, R.randint(-300, 300), R.randint(0, 2000)])) for _ in range(ids)] for _ in range(w.rids)]
    w.dics = []
    w.paths = []
    for k in range(users + 1):
        rows, ents = [], []
        for i in range(sizes[k] if sizes else n if k == 0 else R.randint(1, max(2, n // 2))):
            x = R.random()
            if all_chars and k == 0 and i < len(w.chars):
                h = w.chars[i]
            elif ents and x < .2:
                h = R.choice(ents)['h']                      # homograph
            elif w.dics and x < .4:
                h = R.choice(w.dics[0])['h']                 # same headword as a system entry
            elif ents and x < .5:
                h = (R.choice(ents)['h'] + R.choice(w.chars))[:5]
            else:
                h = ''.join(R.choice(w.chars) for _ in range(R.choice([1, 1, 2, 2, 3, 4])))
            if many and k == 0 and i >= len(w.chars) and i >= n - 2:       # words of many units
                h = ''.join(R.choice(w.chars) for _ in range(many - (i == n - 1)))
            e = {'h': h, 'l': R.randrange(ids), 'r': R.randrange(w.rids), 'c': R.choice([R.randint(*costs), R.randint(*costs), 100]),
                 'pos': R.choice(WPOS), 'surf': h if not surf_differs or R.random() < .7 else R.choice([h + 'ん', h[:1] + 'x', 'y', 'ｘ' + h]), 'read': R.choice(['', 'ヨミ', 'ヨ' + h]),
                 'norm': R.choice(['', 'ノーム', h + 'の']), 'df': -1, 't': 'C', 'A': [], 'B': [], 'W': [], 'syn': R.choice([[], [], [3], [1, 2147483647], [7, 5, 7]])}
            e['read'] = e['read'] or e['surf']
            e['norm'] = e['norm'] or e['surf']
            if neg and R.random() < .08 and not (all_chars and k == 0 and i < len(w.chars)):
                e['l'] = e['r'] = -1
            if k and R.random() < auto:
                e['c'] = -32768
            if k and user_pos and (user_pos is True or k in user_pos) and R.random() < .35:
                e['pos'] = ['名詞', 'ユーザ', R.choice('xyz') + str(k % 3), '*', '*', '*']
            if tweak:
                tweak(e)
            if not k and not ents:
                e['pos'] = NOUN
            ents.append(e)
        for i, e in enumerate(ents):
            if R.random() < .3:
                e['df'] = R.choice([R.randrange(i, len(ents)), R.randrange(len(ents)), 0])
            if units and R.random() < .5:
                for f in 'ABW':
                    if R.random() < .35:
                        continue
                    u = make_units(R, e['h'], ents, w.dics, k, spell, i, over)
                    e[f] = u
            if many and k == 0 and i >= n - 2:
                e['c'] = -20000
            if 0 < many < 128 and k == 0 and i >= n - 2:
                e['A'] = [[0, w.chars.index(c)] for c in e['h']]
                e['B'] = make_units(R, e['h'], ents, w.dics, k, True, i) if R.random() < .3 else list(e['A'])
                e['W'] = R.choice([e['A'], []])
        w.dics.append(ents)
        for e in ents:
            def ref(u):
                return '/'.join(('U' if k and dk else '') + str(ix) for dk, ix in u) or '*'
            rows.append(entry(e['h'], e['l'], e['r'], e['c'], e['pos'], e['read'], e['norm'], '*' if e['df'] < 0 else e['df'], e['t'],
                              ref(e['A']), ref(e['B']), ref(e['W']), '/'.join(map(str, e['syn'])) or '*', e['surf']))
        p = os.path.join(d, 'system.dic' if k == 0 else 'user%d.dic' % k)
        if k == 0:
            cells = [(a, b, w.matrix[a][b]) for a in range(w.rids) for b in range(ids)]
            build_system(p, [rows], matrix_text(w.rids, ids, cells))
        else:
            build_user(p, [rows], w.paths[0])
        w.paths.append(p)
    return w


def make_units(R, h, ents, dics, k, spell, me, over=False):
    """A list of unit references [dictionary (0 system, k own), index] for the headword h."""
    pool = [(0, i) for i in range(len(ents))] if k == 0 else \
        [(0, i) for i in range(len(dics[0]))] + [(k, i) for i in range(len(ents))]

    def head(u):
        return (ents if u[0] == k else dics[0])[u[1]]['h']
    if spell or R.random() < .5:
        for _ in range(20):
            rest, out = h, []
            while rest and len(out) < 5:
                c = [u for u in pool if rest.startswith(head(u)) and u != (k if k else 0, me)]
                if not c:
                    break
                u = R.choice(c)
                out.append(list(u))
                rest = rest[len(head(u)):]
            if not rest and out:
                return out
        if spell:
            return []
    n = R.choice([1, 2, 2, 3])
    out = [list(R.choice(pool)) for _ in range(n)]
    # laid end to end, the units must stay within the word
    while not over and out and len(''.join(head(tuple(u)) for u in out).encode()) > len(h.encode()):
        out.pop()
    return out


def older(path, first):
    """Make a user dictionary one of the first version, if it has no parts of speech of its own, or of the second."""
    with open(path, 'rb') as f:
        b = f.read()
    n = struct.unpack_from('<h', b, 272)[0]
    if n == 0 and first:
        cut = 6                                   # the table of no parts of speech and the matrix of no size
        at = 272 + cut
        at += 4 + 4 * struct.unpack_from('<I', b, at)[0]
        at += 4 + struct.unpack_from('<I', b, at)[0]
        size = struct.unpack_from('<I', b, at)[0]
        at += 4 + 6 * size
        offs = [o - cut for o in struct.unpack_from('<%dI' % size, b, at)]
        b = struct.pack('<Q', 0xa50f31188bd211e7) + b[8:272] + b[272 + cut:at] + struct.pack('<%dI' % size, *offs) + b[at + 4 * size:]
    else:
        b = struct.pack('<Q', 0x9fdeb5a90168d868) + b[8:]
    with open(path, 'wb') as f:
        f.write(b)


def word_list(w):
    """Searchable entries, for lookups."""
    out = []
    for k, ents in enumerate(w.dics):
        for i, e in enumerate(ents):
            if e['l'] != -1:
                out.append({'h': cps(e['h']), 'l': e['l'], 'r': e['r'], 'c': e['c'], 'dic': k, 'idx': i})
    return out


def editable(d, path):
    """Give the dictionary a grammar whose matrix may be changed."""
    with open(path, 'rb') as f:
        m = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_COPY)
    g = Grammar(m, DictionaryHeader.from_bytes(m, 0).storage_size())
    g.set_character_category(d.grammar.get_character_category())
    d.grammar = g
    return g

"""The byte-indexed view of the real UTF8InputText."""
from common import *
import itertools
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
from sudachipy.dictionarylib.charactercategory import CharacterCategory

DEFS = {'a': ['ALPHA'], 'b': ['ALPHA', 'NUMERIC'], '1': ['NUMERIC'], 'г': ['CYRILLIC'], 'д': ['CYRILLIC', 'ALPHA'],
        'α': ['GREEK'], 'ア': ['KATAKANA'], 'ー': ['KATAKANA', 'HIRAGANA', 'NOOOVBOW'], 'あ': ['HIRAGANA'],
        '一': ['KANJI', 'KANJINUMERIC'], '𠮷': ['KANJI'], '😀': ['SYMBOL'], 'é': ['ALPHA'], ' ': ['SPACE'],
        'Ω': ['GREEK', 'SYMBOL'], 'x': ['USER1', 'USER2']}
OTHER = '無'


def catfile():
    return write(os.path.join(WORK, 'char.def'), ''.join('0x%04X %s\n' % (ord(c), ' '.join(k)) for c, k in DEFS.items()))


CC = CharacterCategory()
CC.read_character_definition(catfile())


class G:
    def get_character_category(self):
        return CC


def names(s):
    return sorted(t.name for t in s)


def play(item):
    b = UTF8InputTextBuilder(item['orig'], G())
    m = list(range(len(item['orig']) + 1))
    for (x, y, r) in item['edits']:
        b.replace(x, y, r)
        new = m[:x] + [m[x] if i == 0 else m[y] for i in range(len(r))] + m[y:]
        if not r and x + 1 < len(new):
            new[x] = m[x]
        m = new
    t = b.get_text()
    it = b.build()
    n = len(it.get_byte_text())
    ks = (0, 1, 2, 3, len(t), len(t) + 2, len(t) + 20)[:7 if len(t) < 30 else 4]
    R = random.Random(repr(item))
    pairs = [(p, q) for p in range(n + 1) for q in range(p, n + 1)]
    if len(pairs) > 60:
        pairs = R.sample(pairs, 60)
    refused = it.get_text() == t and it.get_byte_text() == t.encode('utf-8') and it.get_original_text() == item['orig']
    for x, y in ((-1, n), (0, n + 1), (min(2, n), min(1, n))):
        try:
            it.get_substring(x, y)
            if x < 0 or y > n or x > y:
                refused = False
        except IndexError:
            pass
    return {'text': cps(t), 'map': m, 'nbytes': n,
            'ccats': [names(it.get_char_category_types(len(t[:i].encode('utf-8')))) for i in range(len(t))],
            'orig': [it.get_original_index(i) for i in range(n + 1)],
            'idx': [it.code_point_count(0, i) for i in range(n + 1)],
            'bcats': [names(it.get_char_category_types(i)) for i in range(n)],
            'bow': [bool(it.can_bow(i)) for i in range(n)],
            'wcl': [it.get_word_candidate_length(i) for i in range(n)],
            'cont': [it.get_char_category_continuous_length(i) for i in range(n)],
            'next': [[it.get_code_points_offset_length(i, k) for k in ks] for i in range(n)],
            'ks': ks,
            'pairs': [{'b': p, 'e': q, 'sub': cps(it.get_substring(p, q)), 'count': it.code_point_count(p, q),
                       'cats': names(it.get_char_category_types(p, q)) if p < q else []} for p, q in pairs],
            'refused': refused}


def main():
    w = Writer()
    R = rng('c10')
    items = []
    small = ['a', 'b', 'д', 'ー', '𠮷', '1', 'α', OTHER]
    for n in range(0, 5):
        for t in itertools.product(small if n < 4 or not QUICK else small[:6], repeat=n):
            items.append({'orig': ''.join(t), 'edits': []})
    pool = list(DEFS) + [OTHER]
    for c in '\x7f\x80\u07ff\u0800\ud7ff\ue000\uffff\U00010000\U0010ffff':      # characters at the limits of the encoding
        items += [{'orig': c, 'edits': []}, {'orig': 'あ' + c + 'ax' + c + c, 'edits': []}, {'orig': 'aあ' + c, 'edits': [(1, 2, c + 'д')]}]
    for _ in range(1200 if QUICK else 15000):
        n = R.choice([1, 2, 5, 8, 12, 25])
        al = R.sample(pool, R.randint(1, 6))
        t = ''.join(R.choice(al) for _ in range(n))
        ed, L = [], n
        for _ in range(R.choice([0, 0, 1, 2, 4])):
            if L == 0:
                break
            b = R.randint(0, L - 1)
            e = R.randint(b + 1, min(L, b + 3))
            r = ''.join(R.choice(pool) for _ in range(R.randint(0, 4)))
            ed.append((b, e, r))
            L += len(r) - (e - b)
        items.append({'orig': t, 'edits': ed})
    # texts of more than 255 bytes and characters, and long runs of one category
    for n in (60, 90, 130, 300) if QUICK else (60, 90, 130, 300, 300, 700):
        for al in (pool, ['a', 'д', 'b'], ['𠮷', '一'], ['ー', 'あ']):
            items.append({'orig': ''.join(R.choice(al) for _ in range(n if al is pool or n < 200 else n - 40)), 'edits': [(n // 3, n // 3 + 2, 'aーд')] if n % 20 else []})
    for n in (257, 300) if QUICK else (255, 256, 257, 300, 520, 1030):
        items.append({'orig': R.choice('д無あ') + R.choice('ax') * n + R.choice(['1', '𠮷', 'あb']), 'edits': []})
        items.append({'orig': R.choice(['', 'あ']) + 'あ' + 'ー' * (n // 2) + R.choice('1あ'), 'edits': []})
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        c = dict(res)
        c.setdefault('exc', '')
        c['input'] = it['orig']
        c['edits'] = [[b, e, r] for b, e, r in it['edits']]
        if c['exc'] == '':
            c['cats'] = [sorted(DEFS.get(chr(x), ['DEFAULT'])) for x in c['text']]
        c.pop('tb', None)
        w.put(c)
    w.close()


main()

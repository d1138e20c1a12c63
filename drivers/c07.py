"""Edit sequences on the real UTF8InputTextBuilder: those generated by EditGen.tla and random ones."""
from common import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
from sudachipy.dictionarylib.charactercategory import CharacterCategory

CC = CharacterCategory()
CC.read_character_definition(os.path.join(RES, 'char.def'))


class G:
    def get_character_category(self):
        return CC


POOL = ['a', 'é', 'あ', '𠮷', 'z', 'ß', '漢', '😀', '0', 'Ω', 'ｶ', '𩸽', '.', 'ж', 'ー', '\U0010fffd']


def sym(c):
    return POOL[(c * 7 + c // 10) % len(POOL)]


def view(builder):
    """text and per-character offsets, through the public byte-indexed view"""
    t = builder.get_text()
    it = builder.build()
    offs, pos = [], 0
    for c in t:
        offs.append(it.get_original_index(pos))
        pos += len(c.encode('utf-8'))
    offs.append(it.get_original_index(pos))
    assert it.get_text() == t
    return t, offs


def play(item):
    orig, ops = item['orig'], item['ops']
    b = UTF8InputTextBuilder(orig, G())
    steps = []
    for (x, y, r) in ops:
        exc = ''
        try:
            b.replace(x, y, r)
        except Exception as e:
            exc = type(e).__name__
        if len(b.get_text()) == 0:
            t, o = '', [len(orig)]
            o = [b.build().get_original_index(0)]
        else:
            t, o = view(b)
        steps.append({'b': x, 'e': y, 'r': cps(r), 'exc': exc, 'text': cps(t), 'map': o})
        if b.get_original_text() != orig:
            steps[-1]['exc'] = 'original text changed'
    return {'steps': steps}


def main():
    w = Writer()
    if sys.argv[2] == 'gen':
        gen = json.load(open(sys.argv[3]))
        items = [{'orig': ''.join(map(sym, g['orig'])),
                  'ops': [(s['b'], s['e'], ''.join(map(sym, s['r']))) for s in g['steps']]} for g in gen]
    else:
        R = rng('c07')
        items = []
        for _ in range(int(sys.argv[3])):
            n = R.choice([0, 1, 2, 3, 5, 8, 13, 30] + [70, 280] * (R.random() < .1))
            orig = ''.join(R.choice(POOL) for _ in range(n))
            ops, L = [], n
            for _ in range(R.choice([1, 2, 4, 8, 16] + [40] * (R.random() < .1))):
                if R.random() < .1:
                    b, e = R.randint(-2, L + 3), R.randint(-2, L + 4)
                elif R.random() < .2:
                    b = R.randint(0, L)
                    e = L + R.randint(0, 2)
                else:
                    b = R.randint(0, L)
                    e = R.randint(b, min(L, b + R.choice([1, 1, 2, 3, 9])))
                r = ''.join(R.choice(POOL) for _ in range(R.choice([0, 0, 1, 1, 2, 3, 5, 9, R.choice([9, 20, 260])])))
                ops.append((b, e, r))
                if 0 <= b <= L and b < e:
                    L = L - (min(e, L) - b) + len(r)
            items.append({'orig': orig, 'ops': ops})
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        w.put({'orig': cps(it['orig']), 'exc': res.get('exc', ''), 'steps': res.get('steps', []),
               'ops': [[b, e, cps(r)] for b, e, r in it['ops']]})
    w.close()


main()

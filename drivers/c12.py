"""The real numeral recognizer on enumerated and random strings."""
import itertools

from common import *
from sudachipy.plugin.path_rewrite.numericparser import NumericParser

CH = {i: [str(i), '〇一二三四五六七八九'[i]] for i in range(10)}
CH.update({11: ['十'], 12: ['百'], 13: ['千'], 14: ['万'], 18: ['億'], 22: ['兆'], 100: [','], 101: ['.']})
OTHERS = ['a', '円', '-', '零', '壱', ' ', '京', '、', '，', '．', '１', '٣', '²', 'Ⅳ']
BACK = {**{str(i): i for i in range(10)}, '.': 101, ',': 100}


def play(item):
    R = rng('c12', item['n'])
    p = NumericParser()
    runs = []
    for s in item['strings']:
        text = ''.join(R.choice(CH.get(c) or OTHERS) for c in s)
        o = {'s': list(s), 'exc': '', 'ok': False, 'norm': [], 'err': '', 'n': 0, 'text': cps(text)}
        try:
            if R.random() < .3:
                p = NumericParser()
            else:
                p.clear()
            ok = True
            for c in text:
                if not p.append(c):
                    ok = False
                    break
                o['n'] += 1
            if ok:
                ok = p.done()
            o['ok'] = bool(ok)
            o['err'] = p.error_state.name
            if ok:
                o['norm'] = [BACK.get(c, 102) for c in p.get_normalized()]
        except Exception as e:
            o['exc'] = type(e).__name__
        runs.append(o)
    return {'runs': runs}


def rand(R):
    """Longer strings: mostly well formed, then disturbed."""
    def group(frac):
        g = []
        if R.random() < .3:
            g = [R.randint(0, 9) for _ in range(R.randint(1, 3))]
            for _ in range(R.randint(1, 3)):
                g += [100] + [R.randint(0, 9) for _ in range(3)]
        else:
            g = [R.choice([0, R.randint(0, 9)]) for _ in range(R.choice([1, 1, 2, 3, 4, 9]))]
        if frac and R.random() < .35:
            g += [101] + [R.choice([0, R.randint(0, 9)]) for _ in range(R.randint(1, 4))]
        return g
    s = []
    for u in [22, 18, 14, 0]:
        if u and R.random() < .5:
            continue
        for v in [13, 12, 11]:
            if R.random() < .4:
                s += (group(R.random() < .3) if R.random() < .7 else []) + [v]
        if R.random() < .6 or (u and not s):
            s += group(True)
        if u:
            s += [u]
    for _ in range(R.choice([0, 0, 0, 1, 1, 2])):
        k = R.randint(0, len(s))
        x = R.choice(list(CH) + [100, 101, 102])
        r = R.random()
        if r < .4:
            s.insert(k, x)
        elif r < .7 and s:
            del s[min(k, len(s) - 1)]
        elif s:
            s[min(k, len(s) - 1)] = x
    return s


def main():
    w = Writer()
    R = rng('c12')
    part = sys.argv[2]
    if part == 'enum':
        full = [0, 1, 5, 11, 12, 13, 14, 18, 22, 100, 101, 102]
        small = [0, 1, 11, 14, 100, 101]
        N, M = (4, 6) if QUICK else (5, 7)
        strings = [s for n in range(1, N + 1) for s in itertools.product(full, repeat=n)]
        strings += [s for n in range(N + 1, M + 1) for s in itertools.product(small, repeat=n)]
        if QUICK:
            strings += [s for s in itertools.product([0, 2, 100, 101], repeat=7)]
    else:
        strings = [s for s in (rand(R) for _ in range(30000 if QUICK else 200000)) if s]
    items = [{'n': i, 'strings': strings[k:k + 400]} for i, k in enumerate(range(0, len(strings), 400))]
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        if res.get('exc'):
            res = {'runs': [{'s': list(s), 'exc': res['exc'], 'ok': False, 'norm': [], 'err': '', 'n': 0, 'text': []} for s in it['strings'][:1]]}
        w.put(res)
    w.close()


main()

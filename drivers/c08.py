"""Input text plugins of the real code, alone and in configured chains."""
from common import *
from folding import *
import itertools
from unicodedata import normalize
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder
from sudachipy.dictionarylib.charactercategory import CharacterCategory
from sudachipy.plugin.input_text import DefaultInputTextPlugin, ProlongedSoundMarkInputTextPlugin

CC = CharacterCategory()
CC.read_character_definition(os.path.join(RES, 'char.def'))


class G:
    def get_character_category(self):
        return CC


def project(builder):
    return project_input(builder.get_text(), builder.build())


def project_input(t, it):
    offs, pos = [], 0
    for c in t:
        offs.append(it.get_original_index(pos))
        pos += len(c.encode('utf-8'))
    offs.append(it.get_original_index(pos))
    return {'seen': True, 'text': cps(t), 'map': offs}


def play_direct(item):
    b = UTF8InputTextBuilder(item['text'], G())
    obs = []
    for s in item['stages']:
        if s['kind'] == 'default':
            p = DefaultInputTextPlugin()
            if s.get('file'):
                p.read_rewrite_lists(s['file'])
            else:
                p.set_up()
        else:
            p = ProlongedSoundMarkInputTextPlugin({'prolongedSoundMarks': s['marks'], 'replacementSymbol': s['sym']})
            p.set_up()
        p.rewrite(b)
        obs.append(project(b))
    return {'obs': obs}


class Recorder:
    def set_up(self, grammar):
        pass

    def rewrite(self, text, path, lattice):
        self.seen = project_input(text.get_text(), text)


def play_chain(item):
    """the same through a dictionary's settings and a tokenizer"""
    d = open_dict(item['conf'])
    rec = Recorder()
    d.path_rewrite_plugins.append(rec)
    tk = d.create()
    res = []
    for t in item['texts']:
        rec.seen = None
        try:
            tk.tokenize(t)
            res.append(rec.seen or {'exc': 'nothing recorded'})
        except Exception as e:
            res.append({'exc': type(e).__name__})
    return {'res': res}


def put(w, text, stages, res):
    if res.get('exc') == 'Skipped':
        return
    st, rows = tables(stages, text)
    w.put({'text': cps(text), 'stages': st, 'chars': rows, 'exc': res.get('exc', ''), 'obs': res.get('obs', []),
           'final': res.get('final', {'text': [], 'map': []})})


def main():
    w = Writer()
    R = rng('c08')
    part = sys.argv[2]
    D = {'kind': 'default', 'def': BUNDLED}
    items = []
    if part == 'unicode':
        changed = [chr(c) for c in range(0x110000) if not 0xD800 <= c < 0xE000
                   and (chr(c).lower() != chr(c) or normalize('NFKC', chr(c).lower()) != chr(c))]
        if not QUICK:
            changed += [chr(c) for c in range(0x110000) if not 0xD800 <= c < 0xE000 and chr(c) not in set(changed[:0])
                        and R.random() < .05]
        R.shuffle(changed)
        n = 24
        texts = [''.join(changed[i:i + n]) for i in range(0, len(changed), n)]
        items = [{'text': t, 'stages': [D]} for t in texts]
    elif part == 'table':
        keys = list(BUNDLED[1])
        ign = BUNDLED[0]
        R.shuffle(keys)
        base = [list(k) for k in keys] + [[c] for c in ign] + [[c.upper()] for c in ign]
        frag = ['A', 'ß', 'İ', '㍿', 'ﷺ', '漢', 'ｶ', 'ﾞ', 'ﾟ', 'ウ', '゛', '𠮷', 'ﬃ', 'ϓ', 'Ｚ', 'z', '①', '½', 'ー', 'Σ', '〜', '\u0301', 'e']
        for k in keys + ign:
            items.append({'text': R.choice(frag) + k + R.choice(frag) + k + k[:1], 'stages': [D]})
        for _ in range(600 if QUICK else 6000):
            n = R.randint(1, 12)
            t = ''.join(R.choice([R.choice(frag), R.choice(frag), R.choice(keys), R.choice(keys)[:R.randint(1, 2)],
                                  R.choice(ign) if ign else 'x']) for _ in range(n))
            items.append({'text': t, 'stages': [D]})
        for n in (60, 130, 260, 260, 520) if QUICK else (60, 130, 260, 260, 520, 520, 1100, 2100):
            pieces = [R.choice(frag) for _ in range(3)] + [R.choice(keys) for _ in range(3)] + [R.choice(ign)] * R.randint(0, 1)
            items.append({'text': ''.join(R.choice(pieces) for _ in range(n // 2))[:n], 'stages': [D]})
        # texts that grow, or shrink, by more than a byte holds
        for n in (50, 90) if QUICK else (50, 90, 100, 200, 700):
            for a, b in (('㍿', 'ｶﾞA'), ('ﷺ', 'Ａ'), ('ﾞウ゛', 'ｳﾞ'), ('ガ', 'カ\u3099ß')):
                items.append({'text': a * n + b + ''.join(R.choice([a, b, '漢', 'Ａ']) for _ in range(40)), 'stages': [D]})
        # own tables with overlapping keys
        alpha = 'abcABĂ漢𠮷ﾞ㍿ＡⅠ'
        for j in range(60 if QUICK else 600):
            tab, ignl = {}, []
            for _ in range(R.randint(1, 8)):
                k = ''.join(R.choice(alpha) for _ in range(R.choice([1, 2, 2, 3, 4])))
                tab[k] = ''.join(R.choice(alpha + 'ＸYzａ') for _ in range(R.choice([1, 1, 2, 3, 5])))
            for _ in range(R.randint(0, 3)):
                c = R.choice(alpha + 'ăａⅰ')
                if c not in ignl:
                    ignl.append(c)
            f = os.path.join(WORK, 'rw', '%d.def' % j)
            write(f, '# c\n\n' + ''.join('%s\n' % c for c in ignl) + ''.join('%s\t%s\n' % kv for kv in tab.items()))
            s = {'kind': 'default', 'def': (ignl, tab), 'file': f}
            for _ in range(6):
                t = ''.join(R.choice([R.choice(alpha), R.choice(list(tab))]) for _ in range(R.randint(1, 8)))
                items.append({'text': t, 'stages': [s]})
    elif part == 'psm':
        for sym in ('ー', '', 'ab', '長い𠮷') if not QUICK else ('ー', '', 'ab'):
            s = {'kind': 'psm', 'marks': ['ー', '〰'], 'sym': sym}
            for n in range(1, 6 if QUICK else 8):
                for t in itertools.product('ー〰あ𠮷', repeat=n):
                    if n >= 5 and R.random() < .6:
                        continue
                    items.append({'text': ''.join(t), 'stages': [s]})
            for n in (20, 70, 300):
                for _ in range(2):
                    items.append({'text': ''.join(R.choice(['ー', '〰', 'ーー', 'あ'][:R.choice([2, 3, 4])]) for _ in range(n)), 'stages': [s]})
                items.append({'text': 'あ' + 'ー〰' * n + '𠮷' + 'ー' * (n + 1), 'stages': [s]})
    elif part == 'chain':
        pass
    if items:
        for it, res in zip(items, run_batch(play_direct, items)):
            put(w, it['text'], it['stages'], res)
        w.close()
        return
    # chains as configured, through the tokenizer
    build_system(os.path.join(WORK, 'ch', 'system.dic'), [[entry('あ'), entry('ー'), entry('東京')]])
    confs = []
    P1 = {'kind': 'psm', 'marks': ['ー', '-', '⁓', '〜', '〰'], 'sym': 'ー'}
    P2 = {'kind': 'psm', 'marks': ['ｰ', 'ー', '～'], 'sym': '～～'}
    P3 = {'kind': 'psm', 'marks': ['a'], 'sym': 'Ａ'}
    chains = [[], [D], [P1], [D, P1], [P1, D], [D, P2, P1], [P2, D], [P3, D], [D, P3, P1]]
    alpha = ['ー', '-', '〜', '〰', 'ｰ', '～', '東', '京', 'Ａ', 'a', 'A', '㍿', 'ｶ', 'ﾞ', '⁓', '𠮷', 'ｰｰ']
    for j, ch in enumerate(chains):
        inp = [P_DEFAULT if s['kind'] == 'default' else p_prolonged(s['marks'], s['sym']) for s in ch]
        conf = settings(os.path.join(WORK, 'ch'), inp=inp, name='s%d.json' % j)
        texts = [''.join(R.choice(alpha) for _ in range(R.randint(1, 14))) for _ in range(60 if QUICK else 800)]
        confs.append({'conf': conf, 'texts': texts, 'chain': ch})
    for it, res in zip(confs, run_batch(play_chain, confs)):
        if res.get('exc'):
            put(w, it['texts'][0], it['chain'], res)
            continue
        for t, r in zip(it['texts'], res['res']):
            if r.get('exc'):
                put(w, t, it['chain'], r)
            elif not it['chain']:
                put(w, t, [], {'final': r})
            else:
                blank = {'seen': False, 'text': [], 'map': []}
                put(w, t, it['chain'], {'obs': [blank] * (len(it['chain']) - 1) + [r]})
    w.close()


main()

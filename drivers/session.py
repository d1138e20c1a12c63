"""Worlds of several configurations and what a fresh process answers in each (used by the session checks)."""
import hashlib
import itertools

from world import *
from sudachipy.plugin.connect_cost import EditConnectionCostPlugin
from sudachipy.plugin.input_text import InputTextPlugin
from sudachipy.plugin.oov import OovProviderPlugin
from sudachipy.plugin.path_rewrite import PathRewritePlugin


class BadInput(InputTextPlugin):
    def set_up(self):
        pass

    def rewrite(self, builder):
        if '§' in builder.get_text():
            raise LookupError('input')


class BadOov(OovProviderPlugin):
    def set_up(self, grammar):
        pass

    def provide_oov(self, text, offset, other):
        if text.get_substring(offset, offset + text.get_code_points_offset_length(offset, 1)) == '¤':
            raise ArithmeticError('oov')
        return []


class BadPath(PathRewritePlugin):
    def set_up(self, grammar):
        pass

    def rewrite(self, text, path, lattice):
        if '¶' in text.get_text():
            del path[:]
            raise BufferError('path')


def unk_text(R, W, poss, cats=('DEFAULT', 'ALPHA', 'CYRILLIC', 'KATAKANA', 'HIRAGANA', 'KANJI', 'KANJINUMERIC', 'NUMERIC', 'SYMBOL')):
    char = '\n'.join('%s %d %d %d' % (c, R.choice([0, 1]), R.choice([0, 1]), R.choice([0, 1, 2, 3])) for c in cats) + '\n'
    tie = R.randint(0, 3000)
    unk = ''
    for c in cats:
        for _ in range(R.choice([0, 1, 1, 2])):
            unk += '%s,%d,%d,%d,%s\n' % (c, R.randrange(W.ids), R.randrange(W.rids), tie if R.random() < .6 else R.randint(0, 3000), ','.join(R.choice(poss)))
    return char, unk


def numeral(R, e):
    """What is written with digits alone is a numeral, mostly."""
    if not e['h'].strip('12一十') and R.random() < .8:
        e.update(pos=NUM, norm=e['h'])


MULTI = {'一': 'KANJI KANJINUMERIC SYMBOL', '字': 'KANJI HIRAGANA', 'ア': 'KATAKANA KANJI', '1': 'NUMERIC ALPHA'}


def make_world(R, d, big=False, users=3):
    """Configurations over shared files; every one different in some respect, and every one opens."""
    for auto in (.15, .15, 0):
        w = make_world_(R, d, big, auto, users)
        if not any(isinstance(r, str) and r.startswith('ERROR') for r in [fresh(answer, cf, '', 3) for cf in w['confs']]):
            break
    return w


def make_world_(R, d, big, auto, users):
    W = gen(R, os.path.join(d, 'w'), users=users, auto=auto, n=R.choice([8, 15]) if users == 3 else 4, ids=2, inhibit=R.choice([0, .1, .3]), units=True, spell=True, all_chars=R.random() < .5, user_pos=R.choice([True, (1,), (2, 3)]),
            chars=R.sample(['a', 'г', 'ア', 'イ', 'ー', '一', '字', '1', '2', '𠮷', '.'], 7) + ['十'], tweak=lambda e: numeral(R, e))
    # another system dictionary, which may be told from the first by its contents alone
    twin = R.random() < .6
    W2 = gen(R, os.path.join(d, 'w2'), users=1, n=12, ids=2 if twin else 3, inhibit=0, units=True, spell=True, chars=W.chars, user_pos=R.random() < .5,
             sizes=[len(W.dics[0]), len(W.dics[2])] if twin else None)
    for p in W.paths[1:] + W2.paths[1:]:         # user dictionaries of every version
        k = R.choice([1, 2, 3])
        if k < 3:
            older(p, k == 1)
    if big:       # more entries than any cache of a thousand holds
        rows = [entry(''.join(p), 0, 0, R.randint(0, 3000), R.choice(WPOS), read='ヨ%d' % k, norm='ノ%d' % k)
                for k, p in enumerate(itertools.islice(itertools.product(W.chars, repeat=4), 2300))]
        W.paths[0] = build_system(os.path.join(d, 'w', 'big.dic'), [rows], '1 1\n0 0 0\n')
        W.paths[1:] = []
        W.ids = W.rids = 1
    poss = []
    for e in W.dics[0]:
        if e['pos'] not in poss:
            poss.append(e['pos'])
    if big:
        poss = [NOUN] if False else [rows[0][5:11]]
    pos2 = [W2.dics[0][0]['pos']]
    users = [os.path.abspath(p) for p in W.paths[1:]]
    confs = []
    for k in range(1, 5):
        dd = os.path.join(d, 'c%d' % k)
        w = W2 if k == 3 else W
        ps = pos2 if k == 3 else poss
        char, unk = unk_text(R, w, ps)
        write(os.path.join(dd, 'mchar.def'), char)
        ctext = ''.join('0x%04X %s\n' % (ord(c), MULTI.get(c, ' '.join(ALPHA[c])) if k != 2 else R.choice(list(MULTI.values()))) for c in ALPHA)
        inp = [[P_DEFAULT, p_prolonged()], [], [P_DEFAULT, p_prolonged(['ア', 'ー'], 'イ')], [P_DEFAULT]][k - 1]
        simple = p_simple(0, 0, 5000, ps[0])
        oov = [[p_mecab('mchar.def', 'unk.def'), simple], [p_mecab('mchar.def', 'unk.def')], [simple, p_mecab('mchar.def', 'unk.def')], [simple]][k - 1]
        path = [[p_numeric(), p_katakana(3, ps[0])], [], [p_numeric(False), p_katakana(2, ps[0])], [p_katakana(1, ps[0]), p_numeric()]][k - 1]
        us = [users, users[::-1], [os.path.abspath(W2.paths[1])], users[1:2]][k - 1]
        conf = settings(dd, os.path.abspath(w.paths[0]), users=us, char=ctext, unk=unk, inp=inp, oov=oov, path=path)
        edits = [(R.randrange(W.rids), R.randrange(W.ids), R.choice([32767, -2000, 4000])) for _ in range(3)] if k == 4 else []
        confs.append({'conf': conf, 'bad': k in (1, 3), 'edits': edits, 'sys': os.path.abspath(w.paths[0]), 'files': [os.path.abspath(w.paths[0])] + us})
    ch = W.chars
    heads = [e['h'] for x in W.dics for e in x]
    t = [''.join(R.choice(ch) for _ in range(n)) for n in (1, 2, 3, 5, 8)]
    t += [''.join(R.choice(heads) for _ in range(n)) for n in (1, 2, 3, 4)]
    t += [''.join(R.choice(ch) for _ in range(200)), ''.join(R.choice(heads + ch) for _ in range(60))]
    t += ['', t[3] + '§', t[4] + '¤' + t[2], '¶' + t[8], t[4] + '\ud800', 'ＡＢ㍿' + t[2] + '１，０００', '12.一' + '𠮷' * 3, 'んん' + t[1]]
    # numerals, katakana words: the rewriting plugins have most to remember
    t += ['1212.12', R.choice(ch) + '2一1' + R.choice(ch) + '21112', 'アイーアイアア' + R.choice(ch) + 'イイア']
    # numerals of one token, also within others; texts that grow when they are normalized
    t += ['十', R.choice(ch) + '一' + R.choice(ch), '2十' + R.choice(ch) + '十一十', R.choice(ch) + '㍿Ａ' + R.choice(ch) + '㌔Ｂ', 'Ａ㌢' + R.choice(ch) + 'Ｂア']
    if big:
        t += [''.join(R.choice(ch) for _ in range(1500)) for _ in range(2)]
    return {'confs': confs, 'texts': t, 'dir': d}


def open_conf(cf):
    D = open_dict(cf['conf'])
    if cf['edits']:
        g = editable(D, cf['sys'])
        for x in D.dictionaries[1:]:
            if x.grammar:
                g.add_pos_list(x.grammar)
        for l, r, c in cf['edits']:
            if c == 32767:
                EditConnectionCostPlugin.inhibit_connection(g, l, r)
            else:
                g.set_connect_cost(l, r, c)
    if cf['bad']:
        D.input_text_plugins.append(BadInput())
        D.oov_provider_plugins.insert(0, BadOov())
        D.path_rewrite_plugins.append(BadPath())
    return D


ACCESSORS = {'b': lambda m: m.begin(), 'e': lambda m: m.end(), 's': lambda m: m.surface(), 'pos': lambda m: list(m.part_of_speech()),
             'pid': lambda m: m.part_of_speech_id(), 'norm': lambda m: m.normalized_form(), 'df': lambda m: m.dictionary_form(),
             'read': lambda m: m.reading_form(), 'oov': lambda m: bool(m.is_oov()), 'dic': lambda m: m.dictionary_id(),
             'wid': lambda m: m.word_id() if m.dictionary_id() >= 0 else None, 'syn': lambda m: list(m.synonym_group_ids())}


def look(m, R, mode_, depth=1):
    names = list(ACCESSORS)
    R.shuffle(names)
    r = {n: ACCESSORS[n](m) for n in names}
    if depth:
        for k in ('A', 'B', 'C'):
            try:
                r['split' + k] = [look(x, R, mode_, 0) for x in m.split(getattr(mode_, k))]
            except Exception as e:
                r['split' + k] = type(e).__name__
    return r


def describe(ms, R):
    """All a result says, read in a random order."""
    n = len(ms)
    order = list(range(n))
    R.shuffle(order)
    toks = [None] * n
    M = modes()
    for i in order:
        toks[i] = look(ms[i], R, M)
    try:
        cost = ms.get_internal_cost()
    except Exception as e:
        cost = type(e).__name__
    return json.dumps({'cost': cost, 'toks': toks}, sort_keys=True, ensure_ascii=True)


def mode_of(k):
    return [None, modes().A, modes().B, modes().C][k]


def fresh(fn, *args, limit=30):
    """fn(*args) in a forked process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(limit)
        try:
            try:
                res = fn(*args)
            except Exception as e:
                res = 'ERROR ' + type(e).__name__
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
            _send_all(w, pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(b''.join(chunks)) if chunks else 'ERROR Killed'


def _send_all(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


def answer(cf, text, m, seed=0):
    D = open_conf(cf)
    t = D.create()
    ms = t.tokenize(text, mode_of(m))
    return describe(ms, random.Random(seed))


def base_of(world):
    """The world without texts that are never done, and base[cfg][text][mode-1]: what a process that does nothing else answers."""
    texts, cols = [], []
    for x in world['texts']:
        rows = []
        for cf in world['confs']:
            rows.append([])
            for m in (1, 2, 3):
                rows[-1].append(fresh(answer, cf, x, m, limit=6))
                if rows[-1][-1] == 'ERROR Killed':
                    break
            if rows[-1][-1] == 'ERROR Killed':
                break
        else:
            texts.append(x)
            cols.append(rows)
    world = dict(world, texts=texts)
    return world, [[c[k] for c in cols] for k in range(len(world['confs']))]

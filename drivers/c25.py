"""Settings and definition files, sound and unsound: opened or refused?"""
from common import *

ROOT = os.path.join(WORK, 's')
POS = [NOUN, NUM, SYM]
NOPOS = [['名詞', 'なし', '*', '*', '*', '*'], NOUN[:5], NOUN + ['*'], [], ['*'] * 6, NOUN[:5] + ['']]
CATS = ['DEFAULT', 'SPACE', 'KANJI', 'SYMBOL', 'NUMERIC', 'ALPHA', 'HIRAGANA', 'KATAKANA', 'KANJINUMERIC', 'GREEK', 'CYRILLIC', 'USER1', 'USER2', 'USER3', 'USER4', 'NOOOVBOW']


# what almost is a class, or is one of another kind
def STRANGE(name):
    return [name + 'x', name + '2', 'sudachipy.Nothing', '', name.split('.')[-1], name[:-1], name.lower(), 'x' + name, ' ' + name, name + ' ', name.replace('ProviderPlugin', 'Plugin') if 'Provider' in name else name.replace('Plugin', ''),
            name.replace('sudachipy.', 'com.worksap.nlp.sudachi.'), name.rsplit('.', 1)[0], name.replace('.plugin', ''), name + '.' + name]


# what a category is not, though the class of the categories has it
ATTRIBUTES = ['get', 'get_id', 'get_type', 'mro', '__doc__', '__members__', '_member_map_', 'name', 'value', '__class__']


def tree():
    system = build_system(os.path.join(ROOT, 'system.dic'), [[entry('字', pos=NOUN), entry('一', pos=NUM), entry('。', pos=SYM)]])
    build_user(os.path.join(ROOT, 'user.dic'), [[entry('漢字', c=-2000)]], system)
    write(os.path.join(ROOT, 'char.def'), '0x5B57 KANJI\n0x3042 HIRAGANA\n0x30A2..0x30A4 KATAKANA\n')


def files(R, d, c):
    """The settings of c, in a folder of their own."""
    up = os.path.abspath(ROOT)

    def ref(name):
        return R.choice([os.path.join(up, name), os.path.relpath(os.path.join(up, name), d)])
    p = ','.join(R.choice(POS))

    def mchar(kind, name):
        good = 'KANJI 0 0 2\nHIRAGANA 0 1 2\nKATAKANA 1 1 0\n'
        t = {'good': good, 'odd': '# c\n\n  KANJI\t0 0   2 more\n0x5B57 NOTHING\nHIRAGANA 7 x -3\n#\n', 'short': good + R.choice(['ALPHA 0 1', 'ALPHA', 'ALPHA 0']),
             'nocategory': good + R.choice(['KANJIS 0 0 1\n', 'kanji 0 0 1\n', 'NAME 0 0 1', 'foo 1 1 1\n', R.choice(ATTRIBUTES) + ' 0 0 1\n']), 'twice': good + 'HIRAGANA 0 1 2\n' * R.choice([1, 2]),
             'nolength': good + R.choice(['ALPHA 0 0 x\n', 'ALPHA 0 0 1.5\n', 'ALPHA 1 1 0x2\n'])}
        if kind in t:
            t = t[kind]
            if kind not in ('good', 'odd') and R.random() < .5:
                t = '\n'.join(t.strip().split('\n')[::-1])
            write(os.path.join(d, name), t)

    def unk(kind, name):
        good = 'KANJI,0,0,5000,%s\nHIRAGANA,0,0,9000,%s\n' % (p, p)
        t = {'good': good, 'odd': '\n KANJI,0,0,-5,%s,more,\n\nKANJI,0,0,+5,%s\nKANJI,0,0,5,%s\n' % (p, p, p), 'short': good + R.choice(['KANJI,0,0,5\n', 'KANJI\n', 'KANJI,0,0,5,%s\n' % ','.join(NOUN[:5])]),
             'nocategory': good + R.choice(['KANJIS,0,0,5,%s\n', 'kanji,0,0,5,%s\n', ',0,0,5,%s\n', R.choice(ATTRIBUTES) + ',0,0,5,%s\n']) % p, 'undefined': good + 'CYRILLIC,0,0,5,%s\n' % p,
             'nonumber': good + R.choice(['KANJI,x,0,5,%s\n', 'KANJI,0,,5,%s\n', 'KANJI,0,0,1e3,%s\n', 'KANJI,0,0,5.0,%s\n']) % p,
             'nopos': good + 'KANJI,0,0,5,%s\n' % ','.join(R.choice([['名詞', 'なし', '*', '*', '*', '*'], ['*'] * 6, NOUN[:5] + [''], NOUN[::-1], [x + ' ' for x in NOUN[:5]] + ['*']]))}
        if kind in t:
            t = t[kind]
            if kind not in ('good', 'odd') and R.random() < .5:
                t = '\n'.join(t.strip().split('\n')[::-1])
            write(os.path.join(d, name), t)

    def pos(kind):
        return {'known': R.choice(POS), 'unknown': R.choice([x for x in NOPOS if x]), 'empty': []}.get(kind)

    def strange(k, base):
        if k == 'noclass':
            return {x: y for x, y in base.items() if x != 'class'}
        return dict(base, **{'class': R.choice(STRANGE(base['class']))})
    j = {'systemDict': {'good': ref('system.dic'), 'user': ref('user.dic'), 'nofile': 'nothing.dic'}[c['sys']]}
    if c['users'] or R.random() < .5:
        j['userDict'] = [{'good': ref('user.dic'), 'system': ref('system.dic'), 'nofile': 'nothing.dic'}[x] for x in c['users']]
    if c['char'] != 'nokey':
        j['characterDefinitionFile'] = ref('char.def') if c['char'] == 'good' else 'nothing.def'
    if c['inp']['there']:
        j['inputTextPlugin'] = [P_DEFAULT if x == 'default' else p_prolonged() if x == 'prolonged' else p_prolonged(['ーー', 'ー']) if x == 'longmark' else strange(x, P_DEFAULT) for x in c['inp']['is']]
    if c['oov']['there']:
        j['oovProviderPlugin'] = []
        for n, o in enumerate(c['oov']['is']):
            if o['k'] == 'mecab':
                x = p_mecab('m%d.def' % n, 'u%d.def' % n)
                mchar(o['mchar'], 'm%d.def' % n)
                unk(o['unk'], 'u%d.def' % n)
            else:
                x = p_simple(pos=pos(o['pos']))
                if o['k'] != 'simple':
                    if R.random() < .5:         # with all that the other provider needs
                        mchar('good', 'm%d.def' % n)
                        unk('good', 'u%d.def' % n)
                        x = dict(x, **p_mecab('m%d.def' % n, 'u%d.def' % n))
                    x = strange(o['k'], x)
            if o['miss']:
                del x[o['miss']]
            j['oovProviderPlugin'].append(x)
    if c['path']['there']:
        j['pathRewritePlugin'] = []
        for o in c['path']['is']:
            if o['k'] == 'numeric':
                x = p_numeric()
            else:
                x = p_katakana(2, pos(o['pos']) or [])
                if o['pos'] == 'absent':
                    del x['oovPOS']
                if o['k'] != 'katakana':
                    x = strange(o['k'], x)
            j['pathRewritePlugin'].append(x)
    text = json.dumps(j, ensure_ascii=R.random() < .5, indent=R.choice([None, 1]))
    conf = os.path.join(d, 'sudachi.json')
    if c['json'] == 'broken':
        text = R.choice([text[:-1], text + '}', '', text.replace('"', "'")])
    if c['json'] != 'nofile':
        write(conf, text)
    return conf


def play(item):
    R = random.Random(item['seed'])
    d = os.path.join(ROOT, 'c%d' % item['n'])
    os.makedirs(d)
    conf = files(R, d, item['c'])
    try:
        D = open_dict(conf)
    except Exception as e:
        return {'got': type(e).__name__}
    # opened: it must work
    try:
        D.create().tokenize('字字あアア一字ーー')
    except RuntimeError:
        pass            # no candidate word somewhere
    finally:
        D.close()
    return {'got': 'opened'}


class Grammar:
    def get_part_of_speech_id(self, pos):
        return POS.index(pos) if pos in POS else -1


def play_def(item):
    from sudachipy.plugin.input_text import DefaultInputTextPlugin
    from sudachipy.plugin.oov import MeCabOovPlugin
    d = os.path.join(ROOT, 'd')
    got = []
    for k, r in enumerate(item['runs']):
        name = os.path.join(d, '%d-%d' % (item['n'], k))
        try:
            if item['kind'] == 'rewrite':
                p = DefaultInputTextPlugin()
                p.read_rewrite_lists(write(name, '\n'.join(r['lines'])))
            else:
                p = MeCabOovPlugin()
                p.read_character_property(write(name, '\n'.join(r['mchar'])))
                p.read_oov(write(name + 'u', '\n'.join(r['unk'])), Grammar())
            got.append('opened')
        except Exception as e:
            got.append(type(e).__name__)
    return {'got': got}


def main():
    w = Writer()
    R = rng('c25')
    gens = json.load(open(sys.argv[2]))
    tree()
    plain = [g for g in gens]
    limit = 6000 if QUICK else 100000
    if len(plain) > limit:
        plain = R.sample(plain, limit)
    items = [{'c': c, 'n': k, 'seed': R.random()} for k, c in enumerate(plain)]
    runs = []
    for it, r in zip(items, run_batch(play, items)):
        if r.get('exc') == 'Skipped':
            continue
        runs.append({'c': it['c'], 'got': r.get('got') or 'crash', 'text': r.get('exc', '')})
    for k in range(0, len(runs), 40):
        w.put({'kind': 'settings', 'runs': runs[k:k + 40], 'names': [], 'poss': []})
    # definition files line by line
    items = []

    def spoil(s):
        x = R.random()
        if x < .6 or not s:
            return s
        k = R.randrange(len(s))
        return R.choice([s[:k], s[k:], s[:k] + R.choice(' \t,#x-0　') + s[k:], s[:k] + s[k + 1:], ' ' + s, s + ' ', '#' + s])
    for n in range(150 if QUICK else 1000):
        rs = []
        for _ in range(30):
            cats = R.sample(CATS, R.randint(0, 5))
            m = [R.choice([' ', '\t', '  ', '　']).join([c, R.choice('01'), R.choice('01'), str(R.choice([0, 1, 2, 10, -1]))]) for c in cats] + R.choice([[], [], [''], ['# x'], ['0x41 ALPHA']])
            u = [','.join([R.choice(cats or ['KANJI']), str(R.choice([0, 5, -1])), '0', str(R.choice([0, 30000, -5]))] + R.choice(POS)) for _ in range(R.choice([0, 1, 2, 4])) if cats]
            if R.random() < .8:
                k = R.choice('mu')
                if k == 'm' and m:
                    i = R.randrange(len(m))
                    m[i] = spoil(m[i])
                elif u:
                    i = R.randrange(len(u))
                    u[i] = spoil(u[i]) if R.random() < .7 else ','.join([R.choice(CATS), '0', '0', '0'] + R.choice(POS + NOPOS))
            if R.random() < .05:
                x = R.choice(ATTRIBUTES)
                if R.random() < .7:
                    m.append(x + ' 0 0 1')
                if R.random() < .7:
                    u.append(x + ',0,0,0,' + ','.join(R.choice(POS)))
            R.shuffle(m)
            rs.append({'mchar': m, 'unk': u})
        items.append({'kind': 'oov', 'runs': rs, 'n': n})
        rs = []
        for _ in range(30):
            ls = []
            for _ in range(R.choice([0, 1, 2, 3, 6])):
                a = ''.join(R.choice('aあ𠮷A') for _ in range(R.choice([1, 1, 2])))
                ls.append(R.choice([a[0], a + R.choice(['\t', ' ', '  ']) + R.choice('bい𠮷') * R.choice([1, 2, 3]), a + ' b', '# ' + a, '', ' ']))
            if ls and R.random() < .5:
                i = R.randrange(len(ls))
                ls[i] = R.choice([spoil(ls[i]), ls[i] + ' c', ls[i] + 'd', ls[i - 1]])
            rs.append({'lines': ls})
        items.append({'kind': 'rewrite', 'runs': rs, 'n': 100000 + n})
    names = [cps(x) for x in CATS]
    poss = [[cps(x) for x in p] for p in POS]
    for it, r in zip(items, run_batch(play_def, items)):
        if r.get('exc') == 'Skipped':
            continue
        got = r.get('got') or ['crash'] * len(it['runs'])
        w.put({'kind': it['kind'], 'names': names, 'poss': poss,
               'runs': [dict({k: [cps(x) for x in v] for k, v in q.items()}, got=g, text=json.dumps(q, ensure_ascii=True).replace('"', "'").replace('\\', '/')) for q, g in zip(it['runs'], got)]})
    w.close()


main()

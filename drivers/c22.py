"""Dictionaries opened with every kind of settings; which files they were made from is told by what they do."""
from session import fresh
from world import *
from sudachipy.utf8inputtextbuilder import UTF8InputTextBuilder

MARK = {'S': '甲', 'R': '乙', 'X': '丙'}
UNKPOS = {'S': NOUN, 'R': PN, 'X': SYM}
OMEGA = {'S': 'ALPHA', 'R': 'CYRILLIC', 'X': 'HIRAGANA'}
LENGTH = {'S': 'KANJI 0 1 0', 'R': 'KANJI 0 0 1', 'X': 'KANJI 0 0 2'}
COUNT = {1: 'S', 3: 'R', 2: 'X'}


def build_tree(root):
    # the parts of speech that the bundled settings and definitions name
    bundled = os.path.join(os.path.dirname(sudachipy.__file__), 'resources')
    named = {tuple(l.strip().split(',')[4:10]) for l in open(os.path.join(bundled, 'unk.def'), encoding='utf-8') if l.count(',') == 9}
    for k in json.load(open(os.path.join(bundled, 'sudachi.json'), encoding='utf-8')).values():
        named |= {tuple(x['oovPOS']) for x in k if isinstance(x, dict) and 'oovPOS' in x} if isinstance(k, list) else set()

    def system(path, tag):
        build_system(path, [[entry('字', c=100, pos=NOUN, read=tag), entry('。', pos=PN), entry('・', pos=SYM), entry('一', pos=NUM)]
                            + [entry('品%d' % i, pos=q) for i, q in enumerate(sorted(named))]])
    for d in 'SRX':
        dd = os.path.join(root, d)
        for x in ('.h', '~', '$HOME', '%41', 'a b'):
            os.makedirs(os.path.join(dd, x), exist_ok=True)
        system(os.path.join(dd, 'system.dic'), d)
        for n in (1, 2):
            build_user(os.path.join(dd, 'user%d.dic' % n), [[entry('いう'[n - 1] + MARK[d], c=-20000, read='u%d%s' % (n, d))]], os.path.join(dd, 'system.dic'))
        write(os.path.join(dd, 'char.def'), CHAR_DEF + '\n0x2127 %s\n' % OMEGA[d])
        write(os.path.join(dd, 'mchar.def'), LENGTH[d] + '\nHIRAGANA 0 1 0\nDEFAULT 0 1 0\n')
        write(os.path.join(dd, 'unk.def'), 'KANJI,0,0,5000,%s\nHIRAGANA,0,0,9000,%s\nDEFAULT,0,0,9000,%s\n' % (','.join(UNKPOS[d]), ','.join(NOUN), ','.join(NOUN)))
        # not named by any settings
        write(os.path.join(dd, 'rewrite.def'), '字 甲字\n漢 字\n一\n')
        write(os.path.join(dd, 'sudachi.json'), '{"systemDict": "nothing.dic"}')
    write(os.path.join(root, 'sudachi.json'), '{"systemDict": "nothing.dic"}')
    for t in ('small', 'core', 'full'):
        p = os.path.join(root, 'pkg-' + t, 'sudachidict_' + t)
        write(os.path.join(p, '__init__.py'), '')
        system(os.path.join(p, 'resources', 'system.dic'), t)


def observe(D, default):
    t = D.create()
    o = {'err': False, 'sys': '', 'users': [], 'char': 'P', 'mchar': 'P', 'unk': 'P'}
    (m,) = t.tokenize('字')
    o['sys'] = m.reading_form() if m.dictionary_id() == 0 else 'dictionary %d' % m.dictionary_id()
    us = []
    if not default:
        for n in (1, 2):
            for d in 'SRX':
                ms = t.tokenize('いう'[n - 1] + MARK[d])
                if len(ms) == 1 and ms[0].dictionary_id() > 0:
                    k = ms[0].dictionary_id()
                    us.append((k, [n, d] if ms[0].reading_form() == 'u%d%s' % (n, d) else [n, d, ms[0].reading_form()]))
        o['char'] = ''.join(k for k, v in OMEGA.items() if v in str(UTF8InputTextBuilder('℧', D.grammar).build().get_char_category_types(0)))
        ms = t.tokenize('漢漢漢')
        o['mchar'] = COUNT.get(len(ms), '?')
        o['unk'] = ''.join(k for k, v in UNKPOS.items() if v == list(ms[0].part_of_speech()))
    us.sort()
    if [k for k, _ in us] != list(range(1, len(us) + 1)):
        us.append((0, ['numbers', str([k for k, _ in us])]))
    o['users'] = [x for _, x in us]
    return o


ERR = {'err': True, 'sys': '', 'users': [], 'char': '', 'mchar': '', 'unk': ''}


def play(item):
    from sudachipy.dictionary import Dictionary
    R = random.Random(item['seed'])
    root = os.path.join(WORK, 's')
    for t in item['inst']:
        sys.path.append(os.path.join(root, 'pkg-' + t))
    steps, dicts = [], []
    mine = os.path.join(root, 'S')
    for c in item['cs']:
        absx = os.path.join(root, 'X')

        def p(kind, name):
            if kind != 'rel':
                return os.path.join(absx, name)
            return R.choice([name, name, './' + name, '.h/../' + name, R.choice(['~', '$HOME', '%41', 'a b']) + '/../' + name, '../%s/%s' % ('R' if c['res'] == 'given' else 'S', name)])
        j = {'characterDefinitionFile': p(c['char'], 'char.def'), 'inputTextPlugin': [P_DEFAULT],
             'oovProviderPlugin': [p_mecab(p(c['mchar'], 'mchar.def'), p(c['unk'], 'unk.def'))], 'pathRewritePlugin': []}
        if c['sys'] != 'absent':
            j['systemDict'] = {'empty': '', 'rel': 'system.dic', 'abs': os.path.join(absx, 'system.dic')}[c['sys']]
        if c['users'] or R.random() < .5:
            j['userDict'] = [p(u['p'], 'user%d.dic' % u['n']) for u in c['users']]
        conf = write(os.path.join(mine, 'conf-%d.json' % os.getpid()), json.dumps(j))
        os.chdir(R.choice([root, mine, os.path.join(root, 'X')]))
        if R.random() < .4:
            conf = os.path.relpath(conf)
        kw = {}
        if c['file'] == 'own':
            kw['config_path'] = conf
        elif R.random() < .3:
            kw['config_path'] = None
        if c['res'] == 'given':
            kw['resource_dir'] = R.choice([os.path.join(root, 'R'), os.path.join(root, 'R') + '/', os.path.relpath(os.path.join(root, 'R'))])
        if c['type'] != 'none':
            kw['dict_type'] = c['type']
        try:
            D = Dictionary(**kw)
        except Exception as e:
            steps.append({'c': c, 'got': ERR, 'again': ERR, 'exc': type(e).__name__})
            dicts.append(None)
            continue
        try:
            o = observe(D, c['file'] == 'default')
        except Exception as e:
            o = dict(ERR, sys=type(e).__name__ + ' ' + str(e)[:80])
        steps.append({'c': c, 'got': o, 'again': o, 'exc': ''})
        dicts.append(D)
    for s, D in zip(steps, dicts):
        if D is not None:
            try:
                s['again'] = observe(D, s['c']['file'] == 'default')
            except Exception as e:
                s['again'] = dict(ERR, sys=type(e).__name__ + ' ' + str(e)[:80])
    return {'inst': item['inst'], 'steps': steps}


def lone(item):
    return fresh(play, item)


def main():
    gens = json.load(open(sys.argv[2]))
    R = rng('c22')
    build_tree(os.path.join(WORK, 's'))
    byinst = {}
    for g in gens:
        byinst.setdefault(tuple(sorted(g['inst'])), []).append(g['c'])
    items = []
    for inst, cs in sorted(byinst.items()):
        cs = cs * (2 if QUICK else 8)           # every combination; more often in different company
        R.shuffle(cs)
        while cs:
            n = R.choice([1, 2, 3, 4])
            items.append({'inst': list(inst), 'cs': cs[:n], 'seed': R.random()})
            cs = cs[n:]
    w = Writer()
    for it, r in zip(items, run_batch(lone, items, timeout=60)):
        if isinstance(r, dict) and r.get('exc') == 'Skipped':
            continue
        if not isinstance(r, dict) or 'steps' not in r:
            bad = dict(ERR, err=False, sys=str(r)[:100])
            r = {'inst': it['inst'], 'steps': [{'c': c, 'got': bad, 'again': bad, 'exc': 'crash'} for c in it['cs']]}
        w.put(r)
    w.close()


main()

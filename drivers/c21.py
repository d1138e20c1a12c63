"""The command line, run as a user runs it, beside what the Python interface reports for the same lines."""
import subprocess

from world import *

CLI = [sys.executable, '-c', 'from sudachipy.command_line import main; main()']


def universal(text):
    return text.replace('\r\n', '\n').replace('\r', '\n')


def api(item):
    from sudachipy.dictionary import Dictionary
    D = Dictionary(config_path=item['conf'], dict_type=item['type']) if item['type'] else Dictionary(config_path=item['conf'])
    t = D.create()
    M = modes()
    out = []
    for text in item['inputs']:
        lines = universal(text).split('\n')
        if lines[-1] == '':
            lines.pop()
        for line in lines:
            toks = []
            for m in t.tokenize(line, getattr(M, item['mode'] or 'C')):
                toks.append({'s': m.surface(), 'pos': list(m.part_of_speech()), 'norm': m.normalized_form(), 'df': m.dictionary_form(), 'read': m.reading_form(),
                             'dic': str(m.dictionary_id()), 'syn': [str(x) for x in m.synonym_group_ids()], 'oov': bool(m.is_oov())})
            out.append({'line': cps(line), 'toks': toks})
    return out


def play(item):
    d = item['dir']
    os.makedirs(d, exist_ok=True)
    if item['type']:
        sys.path.append(item['pkgs'])
    R = random.Random(item['seed'])
    names = []
    for k, text in enumerate(item['inputs']):
        if not item['stdin']:
            names.append(write(os.path.join(d, R.choice(['in %d.txt', 'ファイル%d', '%d-x']) % k), text))
    args = []
    if item['missing'] is not None:
        names.insert(item['missing'], os.path.join(d, 'nothing-here.txt'))
    opts = [['-r', os.path.relpath(item['conf'], d) if R.random() < .3 else item['conf']]]
    if item['mode']:
        opts.append(['-m', item['mode']])
    if item['a']:
        opts.append(['-a'])
    if item['d']:
        opts.append(['-d'])
    if item['type']:
        opts.append(['-s', item['type']])
    out = None
    if item['o']:
        out = os.path.join(d, 'out.txt')
        if R.random() < .5:
            write(out, 'old\n' * 500)
        opts.append(['-o', R.choice(['out.txt', out])])
    R.shuffle(opts)
    args = sum(opts, [])
    if R.random() < .3:
        args.insert(0, 'tokenize')
        args += names
    elif R.random() < .5:
        args = names + args
    else:
        args += names
    env = dict(os.environ)
    if item['type']:
        env['PYTHONPATH'] = env['PYTHONPATH'] + ':' + item['pkgs']
    if item['o'] and not item['stdin'] and R.random() < .4:      # files are UTF-8 in every locale
        env.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    r = subprocess.run(CLI + args, cwd=d, env=env, input=item['inputs'][0].encode('utf-8') if item['stdin'] else b'', stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    c = {'kind': 'missing' if item['missing'] is not None else 'run', 'inputs': [cps(x) for x in item['inputs']], 'a': item['a'], 'd': item['d'], 'o': item['o'], 'status': r.returncode,
         'out': r.stdout.decode('utf-8', 'replace').split('\n'), 'file': [], 'api': [], 'err': r.stderr.decode('utf-8', 'replace')[-300:] if r.returncode else '',
         'args': args}
    if out is not None and os.path.exists(out):
        c['file'] = open(out, encoding='utf-8', newline='').read().split('\n')
        if c['file'][0] == 'old':
            c['file'] = ['']               # as it was before
    if item['missing'] is None:
        c['api'] = api(item)
    return c


def main():
    w = Writer()
    R = rng('c21')
    items = []
    worlds = []
    for j in range(6 if QUICK else 20):
        d = os.path.join(WORK, 's', 'w%d' % j)
        W = gen(R, d, users=R.choice([0, 1, 2]), n=14, ids=2, inhibit=0, units=True, spell=True, neg=False, costs=(-3000, 2000), all_chars=R.random() < .3 or j % 3 == 1,
                chars=['1', '2', '一', '十', 'ア', 'イ'] if j % 3 == 1 else None, tweak=(lambda e: e.update(pos=NUM, norm=e['h']) if not e['h'].strip('12一十') else None) if j % 3 == 1 else None)
        conf = settings(d, 'system.dic', users=['user%d.dic' % k for k in range(1, len(W.paths))], inp=[P_DEFAULT, p_prolonged()], oov=[p_simple()],
                        path=[p_numeric(), p_katakana()] if j % 3 == 1 else R.choice([[], [p_numeric(), p_katakana()]]))
        worlds.append((W, conf))
    # dictionary packages for -s: the system dictionary of another world, with its own entries
    pkgs = os.path.join(WORK, 's', 'pkgs')
    for k, t in enumerate(['small', 'core', 'full']):
        p = os.path.join(pkgs, 'sudachidict_' + t)
        write(os.path.join(p, '__init__.py'), '')
        build_system(os.path.join(p, 'resources', 'system.dic'), [[entry(c, pos=NOUN, read='%s-%s' % (t, c)) for c in ALPHA]])
    for j in range(420 if QUICK else 3000):
        W, conf = R.choice(worlds)
        heads = [e['h'] for x in W.dics for e in x]

        def line():
            x = R.random()
            if x < .12:
                return ''
            if x < .15:
                return R.choice(['　', '　　', ' ', '\t', ' 　\t '])
            if x < .25:
                return R.choice(['100%', '%s %d %(x)s', '{}{0}', '\\n\\t', ' a  b ', '=== x', '　全角', 'EOS' if not dump else 'eos', '<&>"', '\ufeff' + R.choice(heads), '\u2028\x85\x0b\x0c', '%'])
            return ''.join(R.choice(heads + W.chars + ['𠮷', 'Ａ', '㍿', '、', '%', 'é']) for _ in range(R.choice([1, 2, 3, 6])))
        dump = R.random() < .2
        stdin = R.random() < .3
        inputs = []
        for _ in range(R.choice([1, 1, 2, 3])):
            n = R.choice([0, 1, 2, 3, 5])
            ls = [line() for _ in range(n)]
            nl = R.choice(['\n', '\n', '\n', '\n' if stdin else '\r\n'])         # standard input is read as it comes
            inputs.append(nl.join(ls) + (nl if ls and (R.random() < .6 or ls[-1] == '') else ''))
        if j == 0:
            inputs = ['\n'.join(line() for _ in range(400))]
        if j in (1, 2):
            inputs = [''.join(R.choice(heads + W.chars + ['𠮷', ' ']) for _ in range(400)), line(), '\n' * 30 + line(), '\n'.join(line() for _ in range(60))][:1 if j == 1 else 4]
        if j == 3:
            inputs = [line() + '\n' for _ in range(40)]
        if stdin:
            inputs = inputs[:1]
        typ = None
        if R.random() < .15:
            typ = R.choice(['small', 'core', 'full'])
        cf = conf
        if typ:
            cf = settings(os.path.join(WORK, 's', 'typed'), R.choice(['', 'missing.dic', os.path.abspath(W.paths[0])]), inp=[P_DEFAULT], oov=[p_simple()], name='t%d.json' % (j % 3) if False else 't%d.json' % j)
        items.append({'dir': os.path.join(WORK, 's', 'r%d' % j), 'conf': cf, 'inputs': inputs, 'stdin': stdin, 'mode': R.choice([None, 'A', 'B', 'C']), 'a': R.random() < .5, 'd': dump,
                      'o': R.random() < .3, 'type': typ, 'pkgs': pkgs, 'seed': R.random(),
                      'missing': R.randrange(len(inputs) + 1) if not stdin and R.random() < .1 else None})
    for it, r in zip(items, run_batch(play, items, timeout=90)):
        if r.get('exc') == 'Skipped':
            continue
        if 'kind' not in r:
            r = {'kind': 'failed', 'inputs': [cps(x) for x in it['inputs']], 'a': False, 'd': False, 'o': False, 'status': -1, 'out': [], 'file': [], 'api': [], 'err': str(r)[:300], 'args': []}
        w.put(r)
    w.close()


main()

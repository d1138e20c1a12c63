"""The commands that build dictionaries, run as a user runs them, beside what the library builds from the same sources."""
import subprocess

from world import *

CLI = [sys.executable, '-c', 'from sudachipy.command_line import main; main()']
VERSIONS = {0xce9f011a92394434: 'system2', 0x7366d3f18bd111e7: 'system1', 0xca9811756ff64fb0: 'user3', 0x9fdeb5a90168d868: 'user2', 0xa50f31188bd211e7: 'user1'}


def source(R, words, units, user):
    """Source lines in n files; units may refer to entries by number."""
    rows = []
    n = len(words)
    for i, h in enumerate(words):
        a = '*'
        if units and R.random() < .4:
            a = '/'.join(('U' if user and R.random() < .5 else '') + str(R.randrange(min(n, units))) for _ in range(R.choice([1, 2, 3])))
        rows.append(entry(h, R.choice([0, 1, -1]) if i else 0, R.choice([0, 1]), R.randint(-500, 3000), R.choice([NOUN, NUM, PN, ['名詞', 'ユ', '*', '*', '*', '*']]), read='ヨ' + h, norm=R.choice([h, 'ノ']),
                          df=R.choice(['*', str(R.randrange(n))]), t=R.choice('BC') if a != '*' else 'A', a=a, syn=R.choice(['*', '1/22'])))
    return rows


def play(item):
    c = item['c']
    R = random.Random(item['seed'])
    d = os.path.join(WORK, 's', 'b%d' % item['n'])
    cwd = os.path.join(d, 'cwd')
    os.makedirs(cwd)
    words = [''.join(R.choice('あいう字一ア') for _ in range(R.randint(1, 4))) for _ in range(R.randint(c['sources'], 12))]
    syswords = ['あ', '字', 'いう', '一ア']
    system = build_system(os.path.join(d, 'sys', 'system.dic'), [[entry(h, pos=NOUN) for h in syswords]], '2 2\n0 1 5\n')
    user = c['cmd'] == 'ubuild'
    rows = source(R, words, len(syswords) if user else len(words), user)
    bad = R.randrange(len(rows))
    if c['fault'] == 'line':
        rows[bad] = R.choice([rows[bad][:17], [''] + rows[bad][1:], rows[bad][:3] + ['x'] + rows[bad][4:], rows[bad][:1] + ['40000'] + rows[bad][2:]])
    elif c['fault'] == 'unit':
        rows[bad][14], rows[bad][15] = 'C', R.choice(['0/999', 'U999/0' if user else '0/77', 'ぬ,%s,ぬ/0' % ','.join(NOUN)])
    elif c['fault'] == 'form':
        rows[bad][13] = '999'
    cuts = sorted(R.sample(range(1, len(rows)), c['sources'] - 1)) if len(rows) > 1 else []
    parts = [rows[a:b] for a, b in zip([0] + cuts, cuts + [len(rows)])]
    names = []
    for k, p in enumerate(parts):
        names.append(write(os.path.join(d, R.choice(['src%d.csv', '%d-語.csv']) % (len(parts) - k)), csv_text(p)))
    args = list(names)
    if c['missing']:
        args[c['missing'] - 1] = os.path.join(d, 'nothing.csv')
    elif R.random() < .25:                     # one source named again
        k = R.randrange(len(names))
        at = R.randint(0, len(names))
        args.insert(at, names[k])
        parts.insert(at, parts[k])
    args = [os.path.relpath(x, cwd) if R.random() < .4 else x for x in args]
    opts = []
    env = dict(os.environ)
    matrix = '2 2\n0 0 3\n1 0 -20\n'
    if user:
        if c['system'] == 'given':
            opts.append(['-s', system])
        elif c['system'] == 'lost':
            opts.append(['-s', os.path.join(d, 'nothing.dic')])
        elif c['system'] == 'core':
            p = os.path.join(d, 'pkg', 'sudachidict_core')
            write(os.path.join(p, '__init__.py'), '')
            os.makedirs(os.path.join(p, 'resources'))
            os.rename(system, os.path.join(p, 'resources', 'system.dic'))
            system = os.path.join(p, 'resources', 'system.dic')
            env['PYTHONPATH'] += ':' + os.path.join(d, 'pkg')
    else:
        m = os.path.join(d, 'matrix.def')
        if c['matrix'] != 'lost':
            write(m, matrix if c['matrix'] == 'good' else R.choice(['', 'x\n', '2\n', '-1 2\n', '2 2\n0 5 3\n', '2 2\n0 0 x\n']))
        opts.append(['-m', m])
    desc = {'none': '', 'short': R.choice(['d', '説明 with spaces', '1.0', "it's %s", ' a b ', 'x\t\n']), 'full': 'é' * 128, 'long': 'x' + 'é' * 128}[c['desc']]
    if c['desc'] != 'none' or R.random() < .2:
        opts.append(['-d', desc] if not desc.startswith('-') else ['-d' + desc])
    default = 'user.dic' if user else 'system.dic'
    out = os.path.join(cwd, default)
    if c['out'] != 'default':
        out = os.path.join(d, R.choice(['out.dic', 'system.dic', '出力']))
        opts.append(['-o', out if c['out'] == 'absolute' else os.path.relpath(out, cwd)])
    old = {'no': None, 'longer': b'\xaa' * 300000, 'shorter': b'old'}[c['old']]
    if old is not None:
        with open(out, 'wb') as f:
            f.write(old)
    R.shuffle(opts)
    if R.random() < .5:
        args = sum(opts, []) + args
    else:
        args = args + sum(opts, [])
    before = {os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs}
    if desc.isascii() and R.random() < .3:      # files are UTF-8 in every locale
        env.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    t0 = int(time.time())
    r = subprocess.run(CLI + [c['cmd']] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    t1 = int(time.time())
    after = {os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs}
    o = {'c': c, 'status': r.returncode, 'err': r.stderr.decode('utf-8', 'replace')[-120:].replace('\n', ' ').replace('"', "'").replace('\\', '/'), 'file': 'none', 'stray': sorted(os.path.basename(x) for x in after - before - {out}),
         'name': '', 'version': '', 'now': False, 'gotdesc': [], 'desc': cps(desc), 'body': False}
    o['name'] = default if c['out'] == 'default' else 'named'
    data = open(out, 'rb').read() if os.path.exists(out) else None
    if data == old:
        o['file'] = 'before'
    elif data is not None:
        o['file'] = 'something'
        if len(data) > 272:
            v, t = struct.unpack('<QQ', data[:16])
            o['version'] = VERSIONS.get(v, hex(v))
            o['now'] = t0 <= t <= t1
            o['gotdesc'] = cps(data[16:272].rstrip(b'\0').decode('utf-8', 'replace'))
            o['file'] = 'built'
            if r.returncode == 0:
                ref = os.path.join(d, 'ref', 'x.dic')
                if user:
                    build_user(ref, parts, system)
                else:
                    build_system(ref, parts, matrix)
                o['body'] = open(ref, 'rb').read()[272:] == data[272:]
    return o


def main():
    w = Writer()
    R = rng('c26')
    gens = json.load(open(sys.argv[2]))
    limit = 210 if QUICK else 6000
    if len(gens) > limit:
        few = [g for g in gens if simple(g) <= 2 or simple(g) == 3 and g['missing'] and g['sources'] > 1 and g['old'] != 'no']
        rest = [g for g in gens if g not in few]
        gens = few + R.sample(rest, min(len(rest), max(20, limit - len(few))))
    items = [{'c': c, 'n': k, 'seed': R.random()} for k, c in enumerate(gens)]
    for it, r in zip(items, run_batch(play, items, timeout=90)):
        if r.get('exc') == 'Skipped':
            continue
        if 'status' not in r:
            r = {'c': it['c'], 'status': -1000, 'err': (r.get('exc', '') + ' ' + r.get('msg', '')).replace('"', "'"), 'file': '', 'stray': [], 'name': '', 'version': '', 'now': False, 'gotdesc': [], 'desc': [], 'body': False}
        w.put(r)
    w.close()


def simple(g):
    plain = {'sources': 1, 'missing': 0, 'matrix': 'good', 'system': 'given', 'fault': 'none', 'desc': 'none', 'out': 'default', 'old': 'no'}
    return sum(g[k] != v for k, v in plain.items())


main()

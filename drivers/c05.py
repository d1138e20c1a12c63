"""Sessions replayed in one process each, and what fresh processes answer."""
import gc

from session import *

KIND = ['short', 'long', 'fail', 'edge', 'any']


def pick(R, world, base, cfg, x):
    n = len(world['texts'])
    errs = [i for i in range(n) if base[cfg][i][2].startswith('ERROR')]
    if x == 1:
        c = [i for i in range(9) if i not in errs]
    elif x == 2:
        c = [i for i in range(n) if len(world['texts'][i]) > 30 and i not in errs]
    elif x == 3:
        c = errs
    elif x == 4:
        c = list(range(max(0, n - 14), n))
    else:
        c = None
    return R.choice(c or list(range(n)))


def noise(R, world):
    """Something unrelated, in the same process."""
    k = R.randrange(5)
    d = os.path.join(world['dir'], 'noise%d' % os.getpid())
    try:
        if k == 0:
            build_user(os.path.join(d, 'n.dic'), [[entry('a', pos=['名詞', '雑', '*', '*', '*', '*'])]], world['confs'][0]['sys'])
        elif k == 1:
            open_dict(os.path.join(d, 'missing.json'))
        elif k == 2:
            j = json.load(open(world['confs'][1]['conf']))
            j['userDict'] = [world['confs'][0]['sys']]           # not a user dictionary
            open_dict(write(os.path.join(d, 's.json'), json.dumps(j)), os.path.dirname(world['confs'][1]['conf']))
        elif k == 3:
            j = json.load(open(world['confs'][2]['conf']))
            j['oovProviderPlugin'] = []
            open_dict(write(os.path.join(d, 's.json'), json.dumps(j)), os.path.dirname(world['confs'][2]['conf']))
        else:
            D = open_conf(world['confs'][R.randrange(4)])
            D.create(R.choice([None, modes().A])).tokenize(R.choice(world['texts']))
    except Exception:
        pass


ROOT = os.path.join(BUILD, 'sudachipy')


def broken(t, text, m, R):
    """A call in which one of the package's functions fails, as any may for want of memory or on the user's interrupt."""
    left = [int(R.choice([1, 1, 8, 30]) * (1 + 9 * R.random()))]
    exc = R.choice([MemoryError, KeyboardInterrupt])

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(ROOT) and frame.f_code.co_name not in ('__del__', '__exit__'):
            left[0] -= 1
            if left[0] == 0:
                raise exc('here')
        return None
    sys.settrace(tracer)
    try:
        t.tokenize(text, m)
    except BaseException:
        pass
    finally:
        sys.settrace(None)
    return left[0] <= 0


def play(item):
    """Runs in a process forked for it alone."""
    R = random.Random(item['seed'])
    world, base = item['world'], item['base']
    confs = world['confs']
    perm = item['perm']
    table, outs = {}, []

    def num(s):
        if s not in table:
            table[s] = len(outs)
            outs.append(s)
        return table[s]
    events, dicts, toks, res, toky = [], [], [], [], []
    for ev in item['hist']:
        ev = dict(ev)
        ev['got'] = -1
        if R.random() < item['noise']:
            noise(R, world)
            events.append({'op': 'noise', 'got': -1})
        try:
            if ev['op'] == 'open':
                ev['cfg'] = perm[ev['cfg'] - 1] + 1
                dicts.append(open_conf(confs[ev['cfg'] - 1]))
                toky.append(ev['cfg'] - 1)
            elif ev['op'] == 'create':
                toks.append((dicts[ev['d'] - 1].create(mode_of(ev['m'])), ev['d'] - 1))
            elif ev['op'] == 'tok':
                t, d = toks[ev['t'] - 1]
                x = pick(R, world, base, toky[d], ev['x'])
                ev['x'] = x + 1
                if R.random() < item['broken']:
                    y = pick(R, world, base, toky[d], R.choice([ev['x'] % 5, 4, 5]))
                    if broken(t, world['texts'][y], mode_of(R.choice([1, 2, 3])), R):
                        events.append({'op': 'noise', 'got': -1})
                lg = None
                if R.random() < .3:
                    lg = logging.Logger('dump', logging.DEBUG)
                    lg.addHandler(logging.StreamHandler(io.StringIO()))
                try:
                    ms = t.tokenize(world['texts'][x], mode_of(ev['m']), lg) if lg else t.tokenize(world['texts'][x], mode_of(ev['m']))
                    if R.random() < .7:
                        s = describe(ms, R)
                    else:
                        s = None                # looked at later, or never
                    res.append((ms, None, d))
                except Exception as e:
                    s = 'ERROR ' + type(e).__name__
                    res.append((None, s, d))
                ev['got'] = num(s) if s is not None else -1
            elif ev['op'] == 'read':
                ms, s, d = res[ev['r'] - 1]
                if s is None:
                    s = describe(ms, R)
                    if describe(ms, R) != s:
                        s = 'two readings differ'
                ev['got'] = num(s)
            elif ev['op'] == 'close':
                d = ev['d'] - 1
                toks = [(None, k) if k == d else (t, k) for t, k in toks]
                res = [(None, s, k) if k == d else (ms, s, k) for ms, s, k in res]
                t = ms = lg = None
                gc.collect()
                dicts[d].close()
                dicts[d] = None
        except Exception as e:
            ev['got'] = num('FAILED %s %s' % (type(e).__name__, str(e)[:80]))
            ev['op'] = 'bad'
            events.append(ev)
            break
        events.append(ev)
    used = sorted({e['x'] for e in events if e['op'] == 'tok'})
    pos = {x: i + 1 for i, x in enumerate(used)}
    for e in events:
        if e['op'] == 'tok':
            e['x'] = pos[e['x']]
    return {'base': [[[num(o) for o in c[x - 1]] for x in used] for c in base], 'events': events, 'outs': [o[:60] + ' #' + hashlib.md5(o.encode()).hexdigest()[:10] for o in outs],
            'texts': [cps(world['texts'][x - 1]) for x in used]}


def lone(item):
    return fresh(play, item)


def main():
    what = sys.argv[2]
    wp = os.path.join(WORK, 'worlds.pickle')
    R = rng('c05', what, *sys.argv[3:])
    if what == 'base':
        R = rng('c05')
        n = 16 if QUICK else 80
        worlds = [make_world(R, os.path.join(WORK, 's', str(j)), big=j in (3, 7)) for j in range(n)]
        both = run_batch(base_of, worlds, timeout=300)
        bad = [b for b in both if not isinstance(b, tuple)]
        assert not bad, bad[:2]
        worlds, bases = [b[0] for b in both], [b[1] for b in both]
        pickle.dump((worlds, bases), open(wp, 'wb'))
        w = Writer()
        w.put({'worlds': n, 'answers': sum(len(c) * 3 for b in bases for c in b),
               'errors': sum(o.startswith('ERROR') for b in bases for c in b for x in c for o in x)})
        w.close()
        return
    worlds, bases = pickle.load(open(wp, 'rb'))
    hists = json.load(open(sys.argv[3]))
    part, parts = int(sys.argv[4]), int(sys.argv[5])
    items = []
    for i, h in enumerate(hists):
        if i % parts != part:
            continue
        k = R.randrange(len(worlds))
        items.append({'hist': h, 'world': worlds[k], 'base': bases[k], 'perm': R.sample(range(4), 4), 'seed': R.random(), 'noise': R.choice([0, 0, 0, .2]), 'broken': R.choice([0, .25, .6])})
    w = Writer()
    for it, r in zip(items, run_batch(lone, items, timeout=60)):
        if isinstance(r, dict) and r.get('exc') == 'Skipped':
            continue
        if not isinstance(r, dict) or 'events' not in r:
            r = {'base': [], 'events': [{'op': 'bad', 'got': 0}], 'outs': [str(r)[:300]], 'texts': []}
        if any(e['got'] != -1 and e['op'] in ('tok', 'read', 'bad') for e in r['events']):
            w.put(r)
    w.close()


main()

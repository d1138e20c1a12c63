"""Two or three threads, each with a tokenizer of its own, run under controlled schedules.

A thread is stopped at chosen places of the package's Python code (a line or a bytecode instruction, counted by a trace
function) and lets another one run; a thread that does not get on because of a lock the stopped one holds is left waiting
while the schedule goes on."""
import gc
import threading

from session import *

ROOT = os.path.join(BUILD, 'sudachipy')
STEP = 0.04


class Worker:
    def __init__(self, fn, opcodes=False):
        self.fn, self.opcodes = fn, opcodes
        self.go = threading.Semaphore(0)
        self.cond = threading.Condition()
        self.state = 'new'
        self.target = None            # (location, how often) to stop at
        self.trail = None             # locations seen, when recording
        self.seen = {}
        self.result = None
        self.th = threading.Thread(target=self.body, daemon=True)

    def point(self, frame):
        loc = (frame.f_code.co_filename[len(ROOT):], frame.f_lineno or 0, frame.f_lasti if self.opcodes else 0, frame.f_code.co_name)
        n = self.seen[loc] = self.seen.get(loc, 0) + 1
        if self.trail is not None:
            self.trail.append((loc, n))
        if self.target is not None and self.target == (loc, n):
            self.pause()

    def pause(self):
        with self.cond:
            self.state = 'paused'
            self.cond.notify()
        self.go.acquire()

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.point(frame)
        return self.local

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            sys.settrace(self.tracer)      # CPython 3.12 only then starts to report instructions
        return self.local

    def body(self):
        self.go.acquire()
        sys.settrace(self.tracer)
        try:
            self.result = self.fn()
        except Exception as e:
            self.result = 'ERROR ' + type(e).__name__
        finally:
            sys.settrace(None)
            with self.cond:
                self.state = 'done'
                self.cond.notify()

    def turn(self, target, limit):
        """Run until the target or the end; False if neither came within the limit."""
        with self.cond:
            if self.state == 'done':
                return True
            started = self.state
            self.target = target
            self.state = 'running'
        if started == 'new':
            self.th.start()
        if started != 'running':
            self.go.release()
        with self.cond:
            self.cond.wait_for(lambda: self.state in ('paused', 'done'), limit)
            return self.state != 'running'


def program(cf, D, text, m, own, given, seed):
    def run():
        t = D.create() if own else given
        return describe(t.tokenize(text, mode_of(m)), random.Random(seed))
    return run


def schedule(world, cf, jobs, turns, places, opcodes):
    """jobs: (text, mode, own); places: a target for each turn that does not finish."""
    D = open_conf(cf)
    workers = []
    for k, (x, m, own) in enumerate(jobs):
        workers.append(Worker(program(cf, D, world['texts'][x], m, own, None if own else D.create(), k), opcodes))
    waits = 0
    for turn, place in zip(turns, places):
        ok = workers[turn['t'] - 1].turn(None if turn['fin'] else place, STEP)
        waits += not ok
    end = time.time() + 15
    for w in workers:
        w.turn(None, STEP)
    while time.time() < end and any(w.state != 'done' for w in workers):
        for w in workers:
            if w.state == 'paused':
                w.turn(None, STEP)
        time.sleep(0.002)
    return [w.result if w.state == 'done' else 'ERROR Hang' for w in workers], waits


def trail(world, cf, job, opcodes, k):
    D = open_conf(cf)
    x, m, own = job
    w = Worker(program(cf, D, world['texts'][x], m, own, None if own else D.create(), k), opcodes)
    w.trail = []
    w.turn(None, 60)
    return w.trail


def recorded(world, cf, job, opcodes, k):
    return fresh(trail, world, cf, job, opcodes, k)


def choose(R, trails, turns):
    """A place for every turn that is cut short: often places in the same file, as shared state lives there."""
    out = []
    ref = None
    for t in turns:
        if t['fin']:
            out.append(None)
            continue
        tr = trails[t['t'] - 1]
        if ref and R.random() < .7:
            c = [p for p in tr if p[0][0] == ref[0][0] and (R.random() < .5 or p[0][3] == ref[0][3])] or tr
        elif R.random() < .8:
            # every place of the code equally often, however often it is passed
            f = R.choice(sorted({p[0][0] for p in tr}))
            locs = sorted({p[0] for p in tr if p[0][0] == f})
            loc = R.choice(locs)
            c = [p for p in tr if p[0] == loc]
        else:
            c = tr
        ref = R.choice(c)
        out.append(ref)
    return out


def play(item):
    """A batch of schedules of one group of threads."""
    R = random.Random(item['seed'])
    world, base, k = item['world'], item['base'], item['cfg']
    cf = world['confs'][k]
    jobs, opcodes = item['jobs'], item['opcodes']
    trails = [recorded(world, cf, j, opcodes, i) for i, j in enumerate(jobs)]
    table, outs = {}, []

    def num(s):
        if s not in table:
            table[s] = len(outs)
            outs.append(s)
        return table[s]
    want = [num(fresh(answer, cf, world['texts'][x], m, i)) for i, (x, m, own) in enumerate(jobs)]
    runs = []
    hung = 0
    for n in range(item['n']):
        turns = R.choice(item['shapes'])
        places = choose(R, trails, turns)
        got, waits = schedule(world, cf, jobs, turns, places, opcodes)
        hung += any(g == 'ERROR Hang' for g in got)
        runs.append({'turns': [[t['t'], '' if t['fin'] else '%s:%d %s #%d' % (p[0][0], p[0][1], p[0][3], p[1])] for t, p in zip(turns, places)],
                     'got': [num(g) for g in got], 'waits': waits})
        if hung > 2:
            break
    return {'want': want, 'runs': runs, 'points': [len(t) for t in trails], 'places': len({p[0] for t in trails for p in t}),
            'outs': [o[:60] + ' #' + hashlib.md5(o.encode()).hexdigest()[:10] for o in outs], 'kind': 'schedules'}


def stress(item):
    """No control: many switches."""
    world, k = item['world'], item['cfg']
    cf = world['confs'][k]
    sys.setswitchinterval(1e-6)
    want, runs = [], []
    jobs = item['jobs']
    table, outs = {}, []

    def num(s):
        if s not in table:
            table[s] = len(outs)
            outs.append(s)
        return table[s]
    want = [num(fresh(answer, cf, world['texts'][x], m, i)) for i, (x, m, own) in enumerate(jobs)]
    for _ in range(item['n']):
        D = open_conf(cf)
        res = [None] * len(jobs)
        bar = threading.Barrier(len(jobs))

        def body(i):
            x, m, own = jobs[i]
            t = D.create()
            bar.wait()
            try:
                res[i] = describe(t.tokenize(world['texts'][x], mode_of(m)), random.Random(i))
            except Exception as e:
                res[i] = 'ERROR ' + type(e).__name__
        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in ths:
            t.start()
        for t in ths:
            t.join(15)
        runs.append({'turns': [], 'got': [num(r if r is not None else 'ERROR Hang') for r in res], 'waits': 0})
    return {'want': want, 'runs': runs, 'points': [], 'places': 0, 'outs': [o[:60] for o in outs], 'kind': 'stress'}


def lone(item):
    return fresh(stress if item.get('stress') else play, item, limit=200)


def main():
    shapes2, shapes3 = json.load(open(sys.argv[2]))
    R = rng('c06')
    worlds = [make_world(R, os.path.join(WORK, 's', str(j)), big=False) for j in range(6 if QUICK else 24)]
    both = run_batch(base_of, worlds, timeout=300)
    assert all(isinstance(b, tuple) for b in both)
    items = []
    for wd, base in both:
        n = len(wd['texts'])
        for rep in range(12 if QUICK else 40):
            k = R.randrange(4)
            ok = [i for i in range(n) if len(wd['texts'][i]) < 25 and wd['texts'][i] and not base[k][i][2].startswith('ERROR')]
            bad = [i for i in range(n) if len(wd['texts'][i]) < 25 and base[k][i][2].startswith('ERROR')]
            if not ok:
                continue
            # texts that go through rewriting, numerals, splitting: the code with the most state
            rich = [i for i in ok if i >= n - 11 or 5 <= i <= 8] or ok
            if rep % 2:
                ok = rich
            if rep % 4 == 2:
                ok = [i for i in ok if sum(c in wd['texts'][i] for c in ('12', '21', '2一', 'アイ', 'イア')) > 0] or ok
            if rep % 4 == 1 or rep % 12 == 6:
                k = R.choice([0, 2, 3])
                ok = [i for i in range(n) if len(wd['texts'][i]) < 25 and any(c in wd['texts'][i] for c in '㍿㌔㌢') and not base[k][i][2].startswith('ERROR')] or ok
            three = rep % 4 == 3
            jobs = [(R.choice(bad if bad and R.random() < .15 else ok), R.choice([1, 2, 3]), R.random() < .4) for _ in range(3 if three else 2)]
            items.append({'world': wd, 'base': base, 'cfg': k, 'jobs': jobs, 'seed': R.random(), 'shapes': shapes3 if three else shapes2,
                          'opcodes': rep % 3 == 2, 'n': 70 if QUICK else 250})
        for rep in range(2 if QUICK else 8):
            k = R.randrange(4)
            jobs = [(R.randrange(n), R.choice([1, 2, 3]), True) for _ in range(4)]
            items.append({'world': wd, 'cfg': k, 'jobs': jobs, 'n': 15 if QUICK else 60, 'stress': 1})
    w = Writer()
    for it, r in zip(items, run_batch(lone, items, timeout=250)):
        if isinstance(r, dict) and r.get('exc') == 'Skipped':
            continue
        if not isinstance(r, dict) or 'runs' not in r:
            r = {'want': [-1], 'runs': [{'turns': [], 'got': [-2], 'waits': 0}], 'points': [], 'places': 0, 'outs': [str(r)[:200]], 'kind': 'failed'}
        w.put(r)
    w.close()


main()

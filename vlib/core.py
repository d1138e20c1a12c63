"""Shared machinery of the checks: build the code under test, run drivers, run TLC, report.

Exit codes of a check: 0 held, 1 VIOLATION, 2 the machinery itself failed.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
TLC = ['java', '-XX:+UseParallelGC', '-Xmx8g', '-Xss32m', '-Djava.io.tmpdir=' + os.path.join(VERIF, '.work'), '-cp',
       '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC']


class MachineryError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ the code under test

def source_hash():
    h = hashlib.sha256()
    root = os.path.join(REPO, 'sudachipy')
    files = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x != '__pycache__')
        for f in sorted(fs):
            if f.endswith(('.so', '.pyc')) or (f.endswith('.c') and os.path.exists(os.path.join(d, f[:-2] + '.pyx'))):
                continue
            files.append(os.path.join(d, f))
    files.append(os.path.join(REPO, 'setup.py'))
    for f in files:
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20], files


def build():
    """Copy the working tree's package to .build/<hash> and compile its extensions there."""
    h, files = source_hash()
    base = os.path.join(VERIF, '.build')
    dest = os.path.join(base, h)
    if os.path.exists(os.path.join(dest, '.done')):
        return dest
    os.makedirs(base, exist_ok=True)
    tmp = os.path.join(base, 'tmp-%s-%d' % (h, os.getpid()))
    for f in files:
        t = os.path.join(tmp, os.path.relpath(f, REPO))
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copyfile(f, t)
    for f in ('README.md',):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copyfile(os.path.join(REPO, f), os.path.join(tmp, f))
    env = clean_env()
    env['CFLAGS'] = '-O0 -g0'
    env['PATH'] = '/opt/venv/bin:' + env.get('PATH', '/usr/bin:/bin')
    r = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace'], cwd=tmp, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        raise MachineryError('the code under test does not build:\n' + r.stdout[-3000:])
    shutil.rmtree(os.path.join(tmp, 'build'), ignore_errors=True)
    open(os.path.join(tmp, '.done'), 'w').close()
    try:
        os.rename(tmp, dest)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the build folder small
    olds = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
    for d in olds[:-4]:
        if d != dest:
            shutil.rmtree(d, ignore_errors=True)
    return dest


def clean_env(builddir=None, hashseed='0'):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME')}
    env.update(LC_ALL='C.UTF-8', PYTHONUTF8='1', PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1',
               SETUPTOOLS_SCM_PRETEND_VERSION='0.5.4', PYTHONWARNINGS='ignore')
    if builddir:
        env['PYTHONPATH'] = builddir + ':' + os.path.join(VERIF, 'drivers')
        env['SUD_BUILD'] = builddir
    return env


# ------------------------------------------------------------------ one check's run

class Check:
    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.quick = self.tier == 'quick'
        self.work = os.path.join(VERIF, '.work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.violations = []       # dicts: what, case
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.distinct = set()
        self.notes = {}
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hit = set()
        self.build = build()

    # -------------------------------------------------- drivers
    def driver(self, name, args=(), timeout=600, hashseed='0', extra_env=None, out=None):
        """Run drivers/<name>.py; it writes <work>/<out>.ndjson (one case per line)."""
        out = out or name
        path = os.path.join(self.work, out + '.ndjson')
        env = clean_env(self.build, hashseed)
        env['VERIF_SEED'] = str(self.seed)
        env['VERIF_TIER'] = self.tier
        env['VERIF_WORK'] = self.work
        env.update(extra_env or {})
        r = subprocess.run([PY, os.path.join(VERIF, 'drivers', name + '.py'), path, *map(str, args)],
                           cwd=self.work, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout)
        if r.returncode != 0:
            raise MachineryError('driver %s failed (%d):\n%s\n%s' % (name, r.returncode, r.stdout[-2000:], r.stderr[-4000:]))
        cases = []
        with open(path) as f:
            for line in f:
                cases.append(json.loads(line))
        return cases, path

    # -------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=800, simulate=None, expect_ok=True, args=(), dfs=False):
        cfg = cfg or module + '.cfg'
        meta = os.path.join(self.work, 'tlc-%s-%d' % (module, len(os.listdir(self.work))))
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = TLC + ['-config', cfg, '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-nowarning']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(self.seed)]
        cmd += list(args) + [module + '.tla']
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC on %s ran out of time' % module)
        out = r.stdout.decode('utf-8', 'replace')
        shutil.rmtree(meta, ignore_errors=True)
        ok = r.returncode == 0
        if expect_ok and not ok:
            open(os.path.join(self.work, module + '.tlcout'), 'w').write(out)
            raise MachineryError('TLC on %s/%s failed (%d):\n%s' % (module, cfg, r.returncode, tlc_error(out)))
        m = re.findall(r'(\d+) states generated.*?, (\d+) distinct states found', out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        log('   tlc %s/%s: rc=%d %.1fs %s' % (module, cfg, r.returncode, time.time() - t, m[-1] if m else ''))
        return ok, out

    def model(self, module, cfg=None, name=None, **kw):
        """Design-level check: the specification alone. A failure here is not a violation of the code."""
        ok, out = self.tlc(module, cfg, **kw)
        self.notes.setdefault('models', []).append(
            {'model': (cfg or module), 'states': self._last(out)})
        return out

    @staticmethod
    def _last(out):
        m = re.findall(r'(\d+) states generated.*?, (\d+) distinct states found', out)
        return {'generated': int(m[-1][0]), 'distinct': int(m[-1][1])} if m else {}

    def generate(self, module, cfg=None, **kw):
        """Run a generator specification; collect the JSON records it prints as <<"GEN", "...">>."""
        ok, out = self.tlc(module, cfg, **kw)
        recs = []
        for m in re.finditer(r'^<<\s*"GEN",\s*("(?:[^"\\]|\\.)*")\s*>>$', out, re.M):
            recs.append(json.loads(json.loads(m.group(1))))
        if not recs:
            raise MachineryError('%s generated nothing' % module)
        return recs

    def validate(self, module, cases, path, cfg=None, env=None, what=None, max_report=5, **kw):
        """Trace validation: every case must get exactly one verdict from the trace specification."""
        if not cases:
            raise MachineryError('no cases for ' + module)
        e = {'CASES': path}
        e.update(env or {})
        ok, out = self.tlc(module, cfg, env=e, **kw)
        verdicts = {}
        for m in re.finditer(r'^<<\s*"VERDICT",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>$', out, re.M):
            verdicts.setdefault(int(m.group(1)), set()).add(m.group(2))
        miss = [i for i in range(1, len(cases) + 1) if i not in verdicts]
        if miss or len(verdicts) != len(cases):
            open(os.path.join(self.work, module + '.tlcout'), 'w').write(out)
            raise MachineryError('%s: %d cases without a verdict (first %s) %s' % (
                module, len(miss), miss[:5], out[-1500:]))
        bad = 0
        for i in range(1, len(cases) + 1):
            v = verdicts[i]
            if v == {'ok'}:
                continue
            clause = ' | '.join(sorted(v - {'ok'}))
            bad += 1
            self.violation((what or module) + ': ' + clause, {'module': module, 'case': cases[i - 1]})
        for c in cases:
            self.distinct.add(hash(json.dumps({k: v for k, v in c.items() if k != 'id'}, sort_keys=True)))
        self.traces += len(cases)
        self.evaluations += len(cases)
        if not self.samples or len(self.samples) < 3:
            self.samples.append(shorten(cases[len(cases) // 2]))
        return bad

    # -------------------------------------------------- findings
    def violation(self, what, case):
        key = json.dumps(case, sort_keys=True, ensure_ascii=True)
        for k in self.known:
            if k.get('status') == 'known' and re.search(k['match'], what + ' ' + key):
                self.known_hit.add(k['id'])
                return
        self.violations.append({'what': what, 'case': case})

    def finish(self, rule=None, distinct=None, extra=None, exhaustive=None):
        cov = {}
        if self.level == 'model_checking':
            cov['states'] = self.states
            cov['transitions'] = self.transitions
            cov['traces_validated_against_impl'] = self.traces
        cov['evaluations'] = self.evaluations
        cov['distinct_nontrivial'] = len(self.distinct) if distinct is None else distinct
        cov['rule'] = rule or ''
        cov['samples'] = self.samples[:4] or ['none']
        if exhaustive is not None:
            cov['exhaustive'] = exhaustive
        cov.update(self.notes)
        cov.update(extra or {})
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, ensure_ascii=True, indent=1)
        for k in self.known:
            if k.get('status') == 'known' and k['id'] in self.known_hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.violations:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            seen = {}
            n = 0
            for v in self.violations:
                c = v['what']
                seen[c] = seen.get(c, 0) + 1
                if seen[c] > 1 or n >= 8:
                    continue
                n += 1
                p = os.path.join(d, '%s-%d.json' % (self.pid, n))
                with open(p, 'w') as f:
                    json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier, **v}, f, ensure_ascii=True, indent=1)
                print('%s' % c[:600])
                print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(p, VERIF)))
            print('%d violating cases' % len(self.violations))
            return 1
        print('%s held: %d traces, %d spec states, %.1fs' % (self.pid, self.traces, self.states, time.time() - self.t0))
        return 0


def tlc_error(out):
    lines = [x for x in out.splitlines() if not x.startswith(('<<"GEN"', '<<"VERDICT"', 'Parsing', 'Semantic', 'Linting'))]
    for i, x in enumerate(lines):
        if x.startswith(('Error:', '***', 'Unknown operator', 'Could not', 'Fatal')) or 'rror' in x:
            return '\n'.join(lines[i:i + 60])[:5000]
    return '\n'.join(lines)[-3000:]


def shorten(x, n=1500):
    s = json.dumps(x, ensure_ascii=True)
    return x if len(s) <= n else s[:n] + '...'


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k['property'] == pid]


def dump_cases(path, cases):
    with open(path, 'w') as f:
        for c in cases:
            f.write(json.dumps(c, ensure_ascii=True) + '\n')
    return path

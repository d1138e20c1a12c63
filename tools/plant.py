"""Planted bugs: confirm them and run the checks against them, in scratch copies mounted over /repo and /verif in a namespace
of their own.

  plant.py validate [ID...]     builds, passes the stable tests, demo 0 without and nonzero with the change
  plant.py check [-t] [-p PROP] [ID...]   is it caught by its property's check (or by PROP's)?
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = HOME + '/seeded'
PB = '/tmp/pb'
CAUGHT = HOME + '/tools/design/caught.json'
NEUTRAL = '/tmp/pb/demos'


def sh(cmd, timeout=900):
    try:
        r = subprocess.run(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-2000:]


def copy(i):
    d = os.path.join(PB, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(PB, exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    rc, out = sh('cd %s && git apply %s/%s/patch.diff' % (d, SEEDED, i))
    if rc:
        raise RuntimeError(out)
    return d


def validate(i):
    d = copy(i)
    notes = []
    demo = os.path.join(NEUTRAL, i)
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(os.path.join(SEEDED, i), demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    rc, out = sh('cd /repo && bash %s/demo.sh' % demo, 300)
    if rc:
        notes.append('DEMO FAILS ON CLEAN: ' + ' | '.join(out.strip().split(chr(10))[-2:])[-300:])
    rc, out = sh("unshare -Urm bash -c 'mount --bind %s /repo && bash /opt/vp/test.sh %s/out.json >%s/log 2>&1; cat %s/out.json; rm -f %s/out.json'"
                 % (d, d, d, d, d), 600)
    try:
        passed = set(json.loads(out[out.index('{'):])['passed'])
        missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed
        if missing:
            notes.append('TESTS FAIL: ' + ' '.join(sorted(missing)[:4]))
    except ValueError:
        notes.append('no test results: ' + out[-300:])
    rc, out = sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && bash %s/demo.sh'" % (d, demo), 300)
    if rc == 0:
        notes.append('DEMO PASSES WITH THE CHANGE')
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(demo, ignore_errors=True)
    return i, notes or ['ok (%s)' % out.strip().split('\n')[-1][:90]]


def check(i, tier, prop=None):
    d = copy(i)
    v = os.path.join(PB, i + '-v')
    shutil.rmtree(v, ignore_errors=True)
    subprocess.run(['rsync', '-a', '--exclude', '.git', '--exclude', '.work', '--exclude', '.build', '--exclude', 'seeded',
                    '--exclude', 'replays', HOME + '/', v + '/'], check=False) if shutil.which('rsync') else \
        subprocess.run('mkdir -p %s && cd %s && tar c --exclude .git --exclude .work --exclude .build --exclude seeded --exclude replays . | tar x -C %s'
                       % (v, HOME, v), shell=True, check=True)
    prop = prop or json.load(open(os.path.join(SEEDED, i, 'meta.json')))['property']
    t = time.time()
    rc, out = sh("unshare -Urm bash -c 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=%s python3 run.py check %s'"
                 % (d, v, tier, prop), 3600)
    lines = [ln for ln in out.split('\n') if ln.startswith('VIOLATION property=' + prop)]
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(v, ignore_errors=True)
    if rc == 1 and lines:
        return i, ['%s caught in %d s' % (prop, time.time() - t)]
    return i, ['%s MISSED rc=%d (%d s) %s' % (prop, rc, time.time() - t, out[-600:] if rc else '')]


def main():
    what, args = sys.argv[1], sys.argv[2:]
    tier, prop = 'quick', None
    while args and args[0].startswith('-'):
        a = args.pop(0)
        if a == '-t':
            tier = 'thorough'
        elif a == '-p':
            prop = args.pop(0)
    ids = args or sorted(os.listdir(SEEDED))
    n = 4 if what == 'validate' else 3
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(validate, i) if what == 'validate' else ex.submit(check, i, tier, prop) for i in ids]
        for f in concurrent.futures.as_completed(fs):
            i, notes = f.result()
            print(i, *notes, flush=True)
            m = re.match('(C..) caught', notes[0])
            if m:
                known = json.load(open(CAUGHT)) if os.path.exists(CAUGHT) else {}
                known[i] = sorted(set(known.get(i, [])) | {m[1]})
                json.dump(known, open(CAUGHT, 'w'), indent=0, sort_keys=True)


main()

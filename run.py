#!/usr/bin/env python3
"""run.py check <ID> | run.py setup | run.py all"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402


def check(pid):
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        return mod.main()
    except core.MachineryError as e:
        print('MACHINERY FAILURE in %s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('MACHINERY FAILURE in %s' % pid)
        return 2


def main():
    cmd = sys.argv[1]
    if cmd == 'setup':
        core.build()
        return 0
    if cmd == 'check':
        return check(sys.argv[2])
    if cmd == 'all':
        import json
        import subprocess
        import time
        bad = 0
        ids = sys.argv[2:] or [c['property'] for c in json.load(open(os.path.join(core.VERIF, 'MANIFEST.json')))['checks']]
        for p in ids:
            t = time.time()
            r = subprocess.run([sys.executable, os.path.abspath(__file__), 'check', p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            print(p, 'rc=%d' % r.returncode, '%.1fs' % (time.time() - t), r.stdout.strip().splitlines()[-1:] if r.returncode == 0 else r.stdout.strip()[:700], flush=True)
            bad |= r.returncode
        return bad
    raise SystemExit('usage: run.py check ID')


if __name__ == '__main__':
    sys.exit(main())

"""C05: results do not depend on history."""
import json
import os
import random

from vlib.core import Check, MachineryError

TECHNIQUE = 'TLC: model of the reused lattice buffer; sessions enumerated and simulated from a specification, replayed under several hash seeds and validated against fresh processes'
NOTE = ('All sessions of five (thorough: six) events after the first opening over two configurations and three kinds of text, and random sessions of '
        '40 events over four configurations, texts that fail in each possible place, debug output, earlier results read again, other dictionaries '
        'built, opened, refused and closed in between, user dictionaries of both versions. The answer of a process forked for one call only is the reference.')


def main():
    c = Check('C05', 'model_checking')
    c.model('LatticeReuse')
    ok, out = c.tlc('LatticeReuse', 'LatticeReuse_bad.cfg', expect_ok=False)
    if ok or 'OwnNodes is violated' not in out:
        raise MachineryError('the buffer model no longer tells the disciplines apart')
    gens = c.generate('SessionGen', 'SessionGen.cfg' if c.quick else 'SessionGen_thorough.cfg')
    n = len(gens)
    long_ = c.generate('SessionGen', 'SessionLong.cfg', simulate=(160 if c.quick else 2500, 41), workers=1)
    seen, R = set(), random.Random(c.seed)
    R.shuffle(long_)
    for h in long_:
        k = json.dumps(h[:-1])
        if k not in seen:
            seen.add(k)
            gens.append(h)
    p = os.path.join(c.work, 'gen.json')
    json.dump(gens, open(p, 'w'))
    info, _ = c.driver('c05', ['base'], out='base')
    # the reference again under other hash seeds, then the sessions, each part under a seed of its own
    parts = 4
    for k in range(parts):
        cases, path = c.driver('c05', ['play', p, k, parts], out='play%d' % k, hashseed=str(c.seed * 10 + k + 1))
        c.validate('SessionTrace', cases, path, what='session')
    c.evaluations = sum(len(h) for h in gens)
    return c.finish(rule='sessions replayed; evaluations counts events', extra={'sessions_exhaustive': n, 'sessions_long': len(gens) - n, 'reference': info[0]}, exhaustive=False)

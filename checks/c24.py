"""C24: closing a dictionary releases it and nothing else."""
import json
import os
import random

from vlib.core import Check

TECHNIQUE = 'TLC: sessions with closings enumerated and simulated from a specification, replayed one per process; the files still mapped and the answers after every event are validated against it'
NOTE = ('All sessions of five (thorough: six) events after the first opening over two configurations that share files, and random sessions of forty events '
        'over four. Mapped files are read from the process\'s own maps and descriptors. Tokenizers and tokens are discarded by dropping the last reference, '
        'without running the cycle collector. User dictionaries of both versions.')


def main():
    c = Check('C24', 'model_checking')
    gens = c.generate('SessionGen', 'CloseGen.cfg' if c.quick else 'CloseGen_thorough.cfg')
    n = len(gens)
    long_ = c.generate('SessionGen', 'SessionLong.cfg', simulate=(150 if c.quick else 2500, 41), workers=1)
    seen, R = set(), random.Random(c.seed)
    R.shuffle(long_)
    for h in long_:
        k = json.dumps(h[:-1])
        if k not in seen:
            seen.add(k)
            gens.append(h)
    p = os.path.join(c.work, 'gen.json')
    json.dump(gens, open(p, 'w'))
    cases, path = c.driver('c24', [p])
    c.validate('CloseTrace', cases, path)
    c.evaluations = sum(len(x['events']) for x in cases)
    return c.finish(rule='sessions; evaluations counts events', extra={'sessions_exhaustive': n, 'sessions_long': len(gens) - n}, exhaustive=False)

"""C06: tokenizers of one dictionary are independent across threads."""
import json
import os

from vlib.core import Check, MachineryError

TECHNIQUE = 'TLC: model of readers sharing a file position; schedule shapes enumerated by TLC, instantiated at places of the real code and enforced on real threads, results validated against what each thread gets alone'
NOTE = ('Schedules of two threads with up to three preemptions and of three with up to three, at line and at bytecode granularity of the package\'s Python code '
        '(compiled code runs between such points); the places are sampled, those of one file together. Waiting for locks is detected by time and only changes '
        'which schedule is explored. Uncontrolled runs with minimal switch interval besides.')


def main():
    c = Check('C06', 'model_checking')
    c.model('SharedCursor')
    c.model('SharedCursor', 'SharedCursor_one.cfg')       # one preemption cannot show it ...
    ok, out = c.tlc('SharedCursor', 'SharedCursor_bad.cfg', expect_ok=False)      # ... two can
    if ok or 'OwnEntry is violated' not in out:
        raise MachineryError('the cursor model no longer tells the disciplines apart')
    s2 = c.generate('Schedules')
    s3 = c.generate('Schedules', 'Schedules3.cfg')
    p = os.path.join(c.work, 'gen.json')
    json.dump([s2, s3], open(p, 'w'))
    cases, path = c.driver('c06', [p], timeout=850)
    c.validate('ThreadTrace', cases, path)
    c.evaluations = sum(len(x['runs']) for x in cases)
    return c.finish(rule='groups of threads; evaluations counts schedules', extra={
        'schedules': sum(len(x['runs']) for x in cases if x['kind'] == 'schedules'), 'uncontrolled': sum(len(x['runs']) for x in cases if x['kind'] == 'stress'),
        'shapes': len(s2) + len(s3), 'places_max': max(x['places'] for x in cases), 'turns_that_waited': sum(r['waits'] for x in cases for r in x['runs'])}, exhaustive=False)

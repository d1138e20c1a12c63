"""C09: character categories are the union of the defining ranges."""
import json
import os

from vlib.core import Check

TECHNIQUE = 'TLC: model of the compiling sweep (safety, termination), replay of enumerated definition files, trace validation'
NOTE = ('All files of 2 lines over 6 code points and 3 categories and of 3 lines over 4 code points, in every order; random files of '
        'up to 20 lines with nesting, touching and repeated ranges; the bundled file; malformed lines.')


def main():
    c = Check('C09', 'model_checking')
    c.model('CharSweep', 'CharSweep.cfg' if c.quick else 'CharSweep_thorough.cfg')
    gen = c.generate('CharGen', 'CharGen.cfg') + c.generate('CharGen', 'CharGen3.cfg')
    if not c.quick:
        gen += c.generate('CharGen', 'CharGen_thorough.cfg')
    p = os.path.join(c.work, 'gen.json')
    json.dump(gen, open(p, 'w'))
    cases, path = c.driver('c09', ['gen', p], out='gen')
    c.validate('CharTrace', cases, path, what='enumerated definition')
    cases, path = c.driver('c09', ['rand'], out='rand')
    c.validate('CharTrace', cases, path, what='definition')
    return c.finish(rule='definition files enumerated by CharGen and random ones, probed at every boundary')

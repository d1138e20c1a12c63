"""C29: merging tokens replaces exactly them."""
import json
import os

from vlib.core import Check

TECHNIQUE = 'TLC: all short histories of merges enumerated from a specification, with their invariants, replayed in the real code; recorded histories validated against it'
NOTE = ('Every history of two merges (valid and refused ranges, with and without a normalized form, known and unknown) on paths of up to four tokens (thorough: five), and random ones of up to six '
        'on paths of up to twelve; lattices with and without words for the merged ranges. Negative positions are out of domain.')


def main():
    c = Check('C29', 'model_checking')
    gens = c.generate('MergeGen', None if c.quick else 'MergeGen_thorough.cfg')
    p = os.path.join(c.work, 'gen.json')
    json.dump(gens, open(p, 'w'))
    cases, path = c.driver('c29', [p])
    c.validate('MergeTrace', cases, path)
    c.evaluations = sum(len(x['runs']) for x in cases)
    return c.finish(rule='dictionaries; evaluations counts histories', extra={'enumerated': len(gens), 'steps': sum(len(r['ops']) for x in cases for r in x['runs'])}, exhaustive=False)

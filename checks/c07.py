"""C07: edits of the input keep every character traceable."""
import json
import os

from vlib.core import Check

TECHNIQUE = 'TLC: exhaustive edit model, replay of its behaviours, trace validation of recorded edit histories'
NOTE = ('Exhaustive for texts of up to 3 characters and 2 edits (3 in the thorough tier) including refused ranges; '
        'longer random histories on 1-4 byte characters. Trusts the projection of the builder through its byte-indexed view.')


def main():
    c = Check('C07', 'model_checking')
    gen = c.generate('EditGen', 'EditGen.cfg' if c.quick else 'EditGen_thorough.cfg')
    p = os.path.join(c.work, 'gen.json')
    json.dump(gen, open(p, 'w'))
    cases, path = c.driver('c07', ['gen', p], out='replay')
    # direction A: the specification's own behaviours, replayed into the code, compared step by step
    c.notes['behaviours_replayed'] = len(cases)
    c.validate('EditTrace', cases, path, what='replay of a generated behaviour')
    # direction B: longer random histories of the code, validated against the specification
    cases, path = c.driver('c07', ['rand', 3000 if c.quick else 20000], out='rand')
    c.validate('EditTrace', cases, path, what='recorded history')
    return c.finish(rule='all edit sequences of EditGen.cfg plus random edit histories on 1-4 byte characters')

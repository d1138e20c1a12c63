"""C25: settings and definition files that cannot be honoured are refused."""
import json
import os

from vlib.core import Check

TECHNIQUE = 'TLC: settings with up to two (thorough: three) deviations enumerated from a specification of what can be honoured, opened in the real code and validated; definition files judged line by line by the same specification'
NOTE = ('Deviations: settings file, system and user dictionaries, character definition, plugin lists (absent, empty, one or several), plugin classes and their settings, parts of speech the '
        'dictionary lacks, unsound definition files. Definition files also as random lines with random damage. Connection ids outside of the matrix are outside the property.')


def main():
    c = Check('C25', 'model_checking')
    gens = c.generate('HonourGen', None if c.quick else 'HonourGen_thorough.cfg')
    p = os.path.join(c.work, 'gen.json')
    json.dump(gens, open(p, 'w'))
    cases, path = c.driver('c25', [p])
    c.validate('HonourTrace', cases, path)
    c.evaluations = sum(len(x['runs']) for x in cases)
    return c.finish(rule='groups of openings and readings; evaluations counts these', extra={
        'settings': sum(len(x['runs']) for x in cases if x['kind'] == 'settings'), 'enumerated': len(gens),
        'refused': sum(r['got'] not in ('opened', 'crash') for x in cases for r in x['runs'])}, exhaustive=False)

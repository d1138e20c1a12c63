"""C22: configuration selects the files it names."""
import json
import os

from vlib.core import Check

TECHNIQUE = 'TLC: every combination of settings enumerated from a specification of the resolution, opened in sequences in the real code and validated against it'
NOTE = ('Dictionary type, system dictionary setting, resource directory, user dictionary list, character, category and unknown word definitions (relative, absolute) and installed '
        'packages in every combination, opened in random groups of up to four in one process (thorough: in eight different groupings). Which files were taken is observed '
        'through tokens. Fake dictionary packages stand in for the real ones.')


def main():
    c = Check('C22', 'model_checking')
    gens = c.generate('ConfigGen')
    p = os.path.join(c.work, 'gen.json')
    json.dump(gens, open(p, 'w'))
    cases, path = c.driver('c22', [p])
    c.validate('ConfigTrace', cases, path)
    c.evaluations = sum(len(x['steps']) for x in cases)
    return c.finish(rule='groups of openings in one process; evaluations counts openings', extra={'combinations': len(gens)}, exhaustive=True)

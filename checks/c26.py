"""C26: the build commands leave the dictionary they say, or none."""
import json
import os

from vlib.core import Check

TECHNIQUE = 'TLC: calls of build and ubuild with up to three (thorough: four) deviations enumerated from a specification of the commands, run as processes and validated against it'
NOTE = ('Sources in one to three files, missing files, unsound matrices and sources (noticed early or late), descriptions up to and over the limit, output names and former contents, system '
        'dictionary given or found; all calls with up to two deviations, those with more sampled. The content is compared with what the library builder makes of the same sources.')


def main():
    c = Check('C26', 'model_checking')
    gens = c.generate('BuildGen', None if c.quick else 'BuildGen_thorough.cfg')
    p = os.path.join(c.work, 'gen.json')
    json.dump(gens, open(p, 'w'))
    cases, path = c.driver('c26', [p], timeout=800)
    c.validate('BuildTrace', cases, path)
    return c.finish(rule='calls of the build commands', extra={'enumerated': len(gens), 'built': sum(x['file'] == 'built' for x in cases)}, exhaustive=False)

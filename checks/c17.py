"""C17: invalid dictionary sources are refused, never compiled wrongly."""
from vlib.core import Check

TECHNIQUE = 'TLC: the specification decides which sources may be compiled; compared with the outcome of real builds'
NOTE = ('Every column of a small source with every one of about 80 boundary values, for system and user dictionaries, every number of columns, '
        'randomly damaged sources, valid sources (which must be accepted), every length limit and matrix headers. Connection ids '
        'are only limited to 16 bits: the matrix they index is not known when words are compiled for a user dictionary.')


def main():
    c = Check('C17', 'model_checking')
    n = 0
    for part in ('mutated', 'long', 'valid'):
        cases, path = c.driver('c15', [part], out=part)
        c.validate('SourceTrace', cases, path, what=part, env={'ASPECT': 'refusals'})
        n += sum(len(x['runs']) for x in cases)
        for x in cases:
            for r in x['runs']:
                c.notes['refused'] = c.notes.get('refused', 0) + r['refused']
    c.evaluations = n
    return c.finish(rule='batches of sources; evaluations counts sources', exhaustive=False)

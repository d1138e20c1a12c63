"""C01: tokens tile the input text."""
from vlib.core import Check

TECHNIQUE = 'TLC trace validation of recorded token lists against the tiling and sequence specification'
NOTE = ('Random dictionaries (with split units that spell their word), rewriting chains, providers and path rewriting, in all three modes, on '
        'exotic and random Unicode text; list length, iteration, positive and negative indexing, indices out of range; '
        'texts of 66200 characters.')


def main():
    c = Check('C01', 'model_checking')
    cases, path = c.driver('c01')
    c.validate('Tiling', cases, path)
    c.evaluations = sum(len(x['runs']) for x in cases)
    return c.finish(rule='(configuration, text, mode) runs; evaluations counts them', exhaustive=False)

"""C02: the segmentation is a minimum-cost path."""
from vlib.core import Check

TECHNIQUE = 'TLC: incremental search equal to the enumeration of all paths on all small lattices; trace validation of recorded lattices and paths'
NOTE = ('Model: every lattice over 3 positions with up to one word per span, all 2x2 connection matrices with inhibition. Code: random '
        'dictionaries, matrices, providers, texts of up to 800 characters, and hundreds of candidates ending at one place; texts of tens of thousands of characters, '
        'whose totals leave 32 bits, on a machine that keeps costs relative to the best.')


def main():
    c = Check('C02', 'model_checking')
    c.model('LatticeModel', 'LatticeModel.cfg' if c.quick else 'LatticeModel_thorough.cfg')
    cases, path = c.driver('lattice')
    c.validate('LatTrace', cases, path, env={'ASPECT': 'path'})
    long, path = c.driver('c02', out='long')
    c.validate('LongTrace', long, path)
    c.evaluations = sum(len(x['runs']) for x in cases) + len(long)
    return c.finish(rule='random dictionaries; evaluations counts texts', exhaustive=False)

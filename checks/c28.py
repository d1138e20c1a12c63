"""C28: debug output shows the analysis that was made."""
from vlib.core import Check

TECHNIQUE = 'TLC trace validation: recorded debug output against the rewritten text, candidates, costs and paths that the specification of the whole of tokenization computes'
NOTE = ('Random complete configurations as for C27, all modes. Lines are parsed in their present format; the order of candidates with the same end, word ids of words that are in no '
        'dictionary and ids and costs of joined and split tokens are left open.')


def main():
    c = Check('C28', 'model_checking')
    cases, path = c.driver('c28')
    c.validate('DebugTrace', cases, path)
    c.evaluations = sum(len(x['runs']) for x in cases)
    return c.finish(rule='configurations; evaluations counts texts', extra={'lattice_lines': sum(len(r['lattice']) for x in cases for r in x['runs'])}, exhaustive=False)

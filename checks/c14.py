"""C14: katakana joining merges exactly the maximal katakana runs."""
from vlib.core import Check

TECHNIQUE = 'TLC: joiner machine equal to the declarative merge set; trace validation of recorded paths and lattice candidates'
NOTE = ('All sequences of up to 5 token kinds in the model (7 in the thorough tier); random dictionaries, categories, minimum lengths and texts '
        'for the code. A token counts as all-katakana if the range categories of C10 say so; among equally cheap candidates any is accepted.')


def main():
    c = Check('C14', 'model_checking')
    c.model('JoinKatModel', 'JoinKatModel.cfg' if c.quick else 'JoinKatModel_thorough.cfg')
    cases, path = c.driver('c14')
    c.validate('KatTrace', cases, path)
    c.evaluations = sum(len(x['runs']) for x in cases)
    return c.finish(rule='batches of texts; evaluations counts texts', exhaustive=False)

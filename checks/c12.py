"""C12: numerals normalize to the number they denote."""
from vlib.core import Check

TECHNIQUE = 'TLC: recognizer machine proved equal to the denotational numeral grammar up to a length, trace validation of the real recognizer'
NOTE = ('All strings up to length 4 over 12 symbols and up to 6 over 6 symbols (5 and 7 in the thorough tier), and random longer '
        'well-formed and disturbed numerals; digits drawn from both scripts. The empty string is out of domain.')


def main():
    c = Check('C12', 'model_checking')
    c.model('NumeralModel', 'NumeralModel.cfg' if c.quick else 'NumeralModel_thorough.cfg')
    n = 0
    for part in ('enum', 'rand'):
        cases, path = c.driver('c12', [part], out=part)
        c.validate('NumTrace', cases, path, what=part)
        n += sum(len(x['runs']) for x in cases)
    c.evaluations = n
    return c.finish(rule='batches of strings; evaluations counts strings', exhaustive=False)

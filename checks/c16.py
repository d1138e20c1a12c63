"""C16: lookup finds exactly the headwords that match."""
from vlib.core import Check

TECHNIQUE = 'TLC: prefix matching proved equal to a trie walk on small dictionaries; trace validation of real lookups at every byte position'
NOTE = ('Subsets of seven short headwords with every choice of unsearchable ones, random dictionaries (up to 2000 words, 20000 in the thorough tier) '
        'over one- to four-byte characters, headwords of up to 32767 bytes, up to 255 homographs, 300 nested headwords (1200), up to sixteen dictionaries. '
        'More than 255 homographs are refused when building.')


def main():
    c = Check('C16', 'model_checking')
    c.model('LookupModel', 'LookupModel.cfg' if c.quick else 'LookupModel_thorough.cfg')
    cases, path = c.driver('c16')
    c.validate('LookupTrace', cases, path)
    c.evaluations = sum(len(x['runs']) for x in cases)
    return c.finish(rule='dictionary sets; evaluations counts lookups', exhaustive=False)

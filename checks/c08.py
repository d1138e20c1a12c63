"""C08: input normalization is the documented rewriting."""
from vlib.core import Check

TECHNIQUE = 'TLC trace validation of recorded rewriting chains against a scanning specification'
NOTE = ('Every code point that lower-casing or NFKC changes, every entry of the bundled table, random tables with overlapping keys, '
        'all short strings of prolonged sound marks, and configured chains run through a tokenizer; Unicode tables themselves '
        '(lower case, NFKC of single characters) are taken from unicodedata.')


def main():
    c = Check('C08', 'model_checking')
    for part in ('unicode', 'table', 'psm', 'chain'):
        cases, path = c.driver('c08', [part], out=part)
        c.validate('NormTrace', cases, path, what=part)
    return c.finish(rule='texts of changed code points in batches, table keys in contexts, mark strings, configured chains; '
                         'distinct recorded cases', exhaustive=False)

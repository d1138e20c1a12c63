"""C15: a built dictionary returns every entry as written."""
from vlib.core import Check

TECHNIQUE = 'TLC: the entries a source states are computed by the specification and compared with those read back from real builds'
NOTE = ('Random system and user dictionary sources (1200 in the quick tier, 12000 in the thorough one) over varied text, several files, references of '
        'every form, and single fields at every length boundary up to 32767. Line breaks in fields other than newline, names of entries without '
        'reading and digits of other scripts are out of domain.')


def main():
    c = Check('C15', 'model_checking')
    n = 0
    for part in ('valid', 'mutated', 'long'):
        cases, path = c.driver('c15', [part], out=part)
        c.validate('SourceTrace', cases, path, what=part, env={'ASPECT': 'entries'})
        n += sum(len(x['runs']) for x in cases)
    c.evaluations = n
    return c.finish(rule='batches of sources; evaluations counts sources', exhaustive=False)

"""C11: out-of-vocabulary words follow the category definitions."""
from vlib.core import Check

TECHNIQUE = 'TLC trace validation of recorded provider calls against a specification of the offered words'
NOTE = ('Random category definitions (invoke, group, length, several entries per category, several categories per character) and texts; '
        'every character position, with and without other words. A length repeated at the very end of the text (the code offers it again '
        'when the limit exceeds the text) is tolerated.')


def main():
    c = Check('C11', 'model_checking')
    cases, path = c.driver('c11')
    c.validate('OovTrace', cases, path)
    c.evaluations = sum(len(x['calls']) for x in cases)
    return c.finish(rule='(definition, text) pairs; evaluations counts provider calls')

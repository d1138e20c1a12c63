"""C04: split modes A and B refine mode C consistently."""
from vlib.core import Check

TECHNIQUE = 'TLC trace validation: tokens of all modes and on-demand splits against the unit lists of the dictionary source'
NOTE = ('Random dictionary sets with unit lists (spelling the word or not, referring to system and own entries, nested); tokenizers with each '
        'default mode, calls with and without a mode in changing order.')


def main():
    c = Check('C04', 'model_checking')
    cases, path = c.driver('c04')
    c.validate('SplitTrace', cases, path)
    c.evaluations = sum(len(r['calls']) for x in cases for r in x['runs'])
    return c.finish(rule='(configuration, text) runs; evaluations counts tokenizer calls', exhaustive=False)

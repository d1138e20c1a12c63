"""C03: exactly the right candidate words compete."""
from vlib.core import Check

TECHNIQUE = 'TLC trace validation of recorded candidate lattices and provider calls against a specification of the candidate set'
NOTE = ('Random dictionary sets (system and up to 3 user dictionaries), scripted providers that depend on whether other words exist, '
        'characters that may not start unknown words; texts of up to 800 characters, and hundreds of candidates ending at one place.')


def main():
    c = Check('C03', 'model_checking')
    cases, path = c.driver('lattice')
    c.validate('LatTrace', cases, path, env={'ASPECT': 'candidates'})
    c.evaluations = sum(len(x['runs']) for x in cases)
    return c.finish(rule='random dictionaries; evaluations counts texts', exhaustive=False)

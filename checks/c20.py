"""C20: automatic costs of user words are derived as specified."""
from vlib.core import Check

TECHNIQUE = 'TLC trace validation: costs after loading against the specified function of the recorded segmentation with the dictionaries loaded before'
NOTE = ('Random sets of up to fifteen user dictionaries in which entries of any cost, automatic ones among them, mix; normalization, joining plugins and '
        'extreme costs included. The segmentation itself is C02\'s subject and taken from a dictionary with just the preceding user dictionaries. '
        'Words with an empty surface are out of domain.')


def main():
    c = Check('C20', 'model_checking')
    cases, path = c.driver('c20')
    c.validate('AutoTrace', cases, path)
    n = sum(1 for x in cases for e in x['entries'] if e['dic'] and e['c'] == -32768)
    c.evaluations = sum(len(x['entries']) for x in cases)
    return c.finish(rule='dictionary sets; evaluations counts entries', extra={'automatic_costs': n}, exhaustive=False)

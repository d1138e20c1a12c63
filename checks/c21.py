"""C21: the command line prints exactly the tokens of each line."""
from vlib.core import Check

TECHNIQUE = 'TLC trace validation: recorded runs of the command against a specification of its output built from what the Python interface reports'
NOTE = ('Random dictionaries, texts, numbers of files, line ends, standard input, and all options in random combinations and orders, the command run as its own process. '
        'Line splitting and formatting are specified in TLA+; the tokens themselves are what the Python interface reports for each line.')


def main():
    c = Check('C21', 'model_checking')
    cases, path = c.driver('c21')
    c.validate('CliTrace', cases, path)
    c.evaluations = sum(len(x['api']) for x in cases)
    return c.finish(rule='runs of the command; evaluations counts input lines', extra={'missing_files': sum(x['kind'] == 'missing' for x in cases)}, exhaustive=False)

"""C13: numeral tokens are joined exactly where they form a numeral."""
from vlib.core import Check

TECHNIQUE = 'TLC: joiner machine checked for termination, soundness and completeness; trace validation of recorded paths before and after joining'
NOTE = ('All sequences of up to 4 tokens over 10 kinds (5 in the thorough tier) and random longer ones over 50 entries whose normalized forms, '
        'parts of speech and categories vary; normalization on and off.')


def main():
    c = Check('C13', 'model_checking')
    c.model('JoinNumModel', 'JoinNumModel.cfg' if c.quick else 'JoinNumModel_thorough.cfg')
    cases, path = c.driver('c13')
    c.validate('NumJoinTrace', cases, path)
    c.evaluations = sum(len(x['runs']) for x in cases)
    return c.finish(rule='batches of texts; evaluations counts texts', exhaustive=False)

"""C23: only dictionaries of the right kind and version are accepted."""
from vlib.core import Check

TECHNIQUE = 'TLC: the file layout of every version as a specification that reads the bytes; compared with what the real reader accepts and reports'
NOTE = ('Files of all five versions from an encoder of our own and from the real builders; version numbers near the valid ones; sets mixing versions, read '
        'through tokens; headers with descriptions around the limit of 256 bytes. Creation times are 0..2^63-1, descriptions without NUL.')


def main():
    c = Check('C23', 'model_checking')
    cases, path = c.driver('c23')
    c.validate('FileTrace', cases, path)
    c.evaluations = sum(len(x['runs']) for x in cases)
    return c.finish(rule='batches of files; evaluations counts openings, reads, sets and headers', exhaustive=False)

"""C19: connection costs are those of the matrix source."""
from vlib.core import Check

TECHNIQUE = 'TLC: file layout proved to give the table the lines denote for small shapes; trace validation of built, read and edited matrices and of segmentations under them'
NOTE = ('Every shape up to 5 x 5 and random larger ones with missing and repeated pairs, blank and comment lines, then edits with the table read after '
        'each (of shapes up to 32767 x 1 and 1200 x 900 some hundred pairs); segmentations with matrices of every shape, edited or not, against the cheapest path of the specification. Lines with fewer than '
        'three columns are skipped with a warning and not generated.')


def main():
    c = Check('C19', 'model_checking')
    c.model('ConnModel')
    cases, path = c.driver('c19')
    c.validate('ConnTrace', cases, path)
    n = sum(len(x['runs']) for x in cases)
    cases, path = c.driver('lattice', ['matrix'])
    c.validate('LatTrace', cases, path, env={'ASPECT': 'path'}, what='segmentation')
    c.evaluations = n + sum(len(x['runs']) for x in cases)
    return c.finish(rule='matrices and dictionaries; evaluations counts matrices and tokenizations', exhaustive=False)

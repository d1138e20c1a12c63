"""C18: tokens report the entry of the dictionary they came from."""
from vlib.core import Check

TECHNIQUE = 'TLC trace validation: attributes of tokens and units, part-of-speech numbers and entries found by name against the dictionary sources'
NOTE = ('Random sets of up to fifteen user dictionaries with own parts of speech, dictionary forms, units, word structures and synonym groups; '
        'tokens in every mode and their units; entries looked up by surface, part-of-speech number and reading. Where two user '
        'dictionaries introduce the same part of speech, an entry is only required to be found by the number its own dictionary gives it.')


def main():
    c = Check('C18', 'model_checking')
    cases, path = c.driver('c18')
    c.validate('AttrTrace', cases, path)
    c.evaluations = sum(len(x.get('runs', [])) + len(x.get('queries', [])) for x in cases)
    return c.finish(rule='dictionary sets; evaluations counts tokenizations and lookups by name', exhaustive=False)

"""C10: byte-indexed views of the text are consistent."""
from vlib.core import Check

TECHNIQUE = 'TLC trace validation of all byte-indexed answers against a character-level specification'
NOTE = ('All texts of up to 3 characters over 8 kinds (4 over 6) with 1-4 byte characters and multiple categories, random longer texts '
        'and edited texts; every byte position, every answer.')


def main():
    c = Check('C10', 'model_checking')
    cases, path = c.driver('c10')
    c.validate('ViewTrace', cases, path)
    return c.finish(rule='texts enumerated over character kinds, and random edited texts; every byte position is asked')

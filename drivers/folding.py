"""What the specification has to be told about rewriting: the tables and the foldings of single characters."""
from unicodedata import normalize

from common import *


def parse_rewrite(path):
    """our own reading of a rewrite definition"""
    ignore, table = [], {}
    for line in open(path, encoding='utf-8'):
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        c = line.split()
        if len(c) == 1:
            ignore.append(c[0])
        else:
            table[c[0]] = c[1]
    return ignore, table


BUNDLED = parse_rewrite(os.path.join(RES, 'rewrite.def'))


def tables(stages, text):
    """the characters' foldings and the relevant part of the replacement tables, for the specification"""
    chars = set(text)
    out = []
    # everything that can appear in later stages
    for s in stages:
        if s['kind'] == 'default':
            for c in list(chars):
                lo = c.lower()
                chars |= set(lo) | set(normalize('NFKC', lo))
            ign, tab = s['def']
            rel = {k: v for k, v in tab.items() if set(k) <= chars}
            for v in rel.values():
                chars |= set(v)
        else:
            chars |= set(s['sym'])
    for s in stages:
        if s['kind'] == 'default':
            ign, tab = s['def']
            out.append({'kind': 'default', 'table': [[cps(k), cps(v)] for k, v in tab.items() if set(k) <= chars],
                        'ignore': [ord(c) for c in ign if c in chars]})
        else:
            out.append({'kind': 'psm', 'marks': [ord(m) for m in s['marks']], 'sym': cps(s['sym'])})
    if any(s['kind'] == 'default' for s in stages):
        rows = [[ord(c), cps(c.lower()), cps(normalize('NFKC', c.lower()))] for c in sorted(chars)]
    else:
        rows = []
    return out, rows

"""Debug output of tokenizations under random complete configurations."""
import re

from whole import *

LINE = re.compile(r'(\d+): (\d+) (\d+) (.*)\((-?\d+)\) (.*) (-?\d+) (-?\d+) (-?\d+):((?: -?\d+)*) ?$', re.S)
NODE = re.compile(r'(\d+): (\d+) (\d+) (.*)\((-?\d+)\) (-?\d+) (-?\d+) (-?\d+)\uffff?$', re.S)


class Keep(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def sections(lines):
    out = []
    for x in lines:
        if x.startswith('==='):
            out.append([])
        elif out:
            out[-1].append(x)
        else:
            out.append([x])
            out.append([])
    return out


def parsed(rx, lines):
    out = []
    for x in lines:
        m = rx.match(x)
        if not m:
            return None
        g = m.groups()
        w = int(g[4])
        r = {'n': int(g[0]), 'b': int(g[1]), 'e': int(g[2]), 'surf': cps(g[3]), 'dic': w >> 28 if w >= 0 else -1, 'idx': w & 0x0FFFFFFF}
        if rx is LINE:
            r.update(pos=g[5].split(','), l=int(g[6]), r=int(g[7]), c=int(g[8]), conn=[int(y) for y in g[9].split()])
        else:
            r.update(l=int(g[5]), r=int(g[6]), c=int(g[7]))
        out.append(r)
    return out


def play(item):
    d = open_dict(item['conf'])
    M = modes()
    t, plain = d.create(), d.create()
    log = logging.getLogger('verif.debug')
    log.setLevel(logging.DEBUG)
    log.propagate = False
    keep = Keep()
    log.addHandler(keep)
    runs = []
    for k, text in enumerate(item['texts']):
        m = 'CAB'[(k + item['n']) % 3]
        del keep.lines[:]
        o = {'text': cps(text), 'mode': m, 'err': '', 'toks': [], 'plain': [], 'again': [], 'late': 0, 'sections': 0, 'input': [], 'lattice': [], 'before': [], 'after': [], 'format': ''}
        try:
            o['toks'] = [token_rec(x) for x in t.tokenize(text, M[m], log)]
        except Exception as e:
            o['err'] = type(e).__name__
        try:
            o['plain'] = [token_rec(x) for x in plain.tokenize(text, M[m])]
        except Exception as e:
            o['plain'] = [type(e).__name__]
        n = len(keep.lines)
        try:      # the same tokenizer without the logger
            o['again'] = [token_rec(x) for x in t.tokenize(text, M[m])]
        except Exception as e:
            o['again'] = [type(e).__name__]
        o['late'] = len(keep.lines) - n
        del keep.lines[n:]
        s = sections(keep.lines)
        o['sections'] = len(s)
        if len(s) > 0:
            o['input'] = cps('\n'.join(s[0]))
        for name, i, rx in (('lattice', 1, LINE), ('before', 2, NODE), ('after', 3, NODE)):
            if len(s) > i:
                o[name] = parsed(rx, s[i])
                if o[name] is None:
                    o[name] = []
                    o['format'] = name
        runs.append(o)
    return {'runs': runs}


def main():
    w = Writer()
    items = [{**make(rng('c28', j), os.path.join(WORK, 'd', str(j))), 'n': j} for j in range(250 if QUICK else 2500)]
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        runs = res['runs'] if 'runs' in res else [{'text': cps(it['texts'][1]), 'mode': 'C', 'err': res['exc'] + ' ' + res.get('msg', ''), 'toks': [], 'plain': [], 'again': [], 'late': 0, 'sections': 0, 'input': [],
                                                   'lattice': [], 'before': [], 'after': [], 'format': ''}]
        st, _ = tables(it['stages'], ''.join(it['texts']))
        for r in runs:
            _, r['chars'] = tables(it['stages'], uncps(r['text']))
        w.put({'conf': {**it['cfg'], 'inp': st}, 'runs': runs})
    w.close()


main()

"""Histories of merges by a path rewriting plugin."""
from common import *
from sudachipy.plugin.path_rewrite.path_rewrite_plugin import PathRewritePlugin

CHARS = 'あア字a1𠮷é'
POSS = [NOUN, NUM, PN, SYM]


class Script(PathRewritePlugin):
    def __init__(self):
        self.ops, self.out, self.grammar = [], None, None

    def set_up(self, grammar):
        self.grammar = grammar

    def rewrite(self, text, path, lattice):
        o = self.out
        o['cands'] = [{'w': node_rec(x, self.grammar), 'c': x.get_path_cost()} for e in range(1, len(text.get_byte_text()) + 1) for x in lattice.get_nodes_with_end(e)]
        o['paths'].append([node_rec(x, self.grammar) for x in path])
        for op in self.ops:
            op = dict(op, got='')
            try:
                if op['k'] == 'whole':
                    self.concatenate(path, op['b'], op['e'], lattice, uncps(op['norm']))
                else:
                    self.concatenate_oov(path, op['b'], op['e'], self.grammar.get_part_of_speech_id(op['pos']), lattice)
            except Exception as e:
                op['got'] = type(e).__name__
            o['ops'].append(op)
            o['paths'].append([node_rec(x, self.grammar) for x in path])


def play(item):
    d = open_dict(item['conf'])
    s = Script()
    s.set_up(d.grammar)
    d.path_rewrite_plugins[:] = [s]
    t = d.create()
    runs = []
    for text, ops in item['jobs']:
        o = {'text': cps(text), 'err': '', 'ops': [], 'paths': [], 'cands': [], 'toks': []}
        s.ops, s.out = ops, o
        try:
            o['toks'] = [{'b': x.begin(), 'e': x.end(), 'norm': cps(x.normalized_form()), 'df': cps(x.dictionary_form()), 'read': cps(x.reading_form()), 'pos': list(x.part_of_speech()),
                          'oov': bool(x.is_oov()), 'dic': x.dictionary_id()} for x in t.tokenize(text)]
        except Exception as e:
            o['err'] = type(e).__name__ + ' ' + str(e)[:60].replace('"', "'")
        runs.append(o)
    return {'runs': runs}


def main():
    w = Writer()
    R = rng('c29')
    gens = json.load(open(sys.argv[2]))
    R.shuffle(gens)
    gens = gens[:9000 if QUICK else 60000]
    items = []
    per = 60
    for j in range(0, len(gens), per):
        d = os.path.join(WORK, 'm', str(j))
        # single characters on the path; longer words too dear for it, some of them equally dear
        rows = [entry(c, pos=R.choice(POSS), c=10, read=R.choice(['ヨ', 'ヨミ' + c, ' ヨ']), norm=R.choice([c, 'ノ' + c, c + ' ', '　' + c]), df=str(R.randrange(len(CHARS))), syn=R.choice(['*', '1/2'])) for c in CHARS[:-2]]
        rows += [entry('あ', pos=p, c=3000) for p in POSS]
        for _ in range(R.choice([0, 30, 80])):
            h = ''.join(R.choice(CHARS[:R.choice([2, 7])]) for _ in range(R.choice([2, 2, 3, 4])))
            rows.append(entry(h, R.randrange(3), R.randrange(3), pos=R.choice(POSS), c=R.choice([20000, 20001, 25000, R.randint(20000, 30000)]), read='ナガ', norm=R.choice([h, '長']), a=R.choice(['*', '0/1']), b=R.choice(['*', '1/2'])))
        build_system(os.path.join(d, 'system.dic'), [rows], '3 3\n')
        conf = settings(d, char=''.join('0x%04X DEFAULT\n' % ord(c) for c in CHARS), inp=[], oov=[p_simple(0, 0, 5000, R.choice(POSS))])
        jobs = []
        for g in gens[j:j + per]:
            text = ''.join(R.choice(CHARS[:R.choice([2, 7])]) for _ in range(g['n']))
            jobs.append((text, [dict(o, norm=[0x96C6] if o['norm'] else [], pos=R.choice(POSS)) for o in g['ops']]))
        for _ in range(10):
            n = R.choice([5, 8, 12])
            ops = []
            for _ in range(R.randint(1, 6)):
                b = R.randrange(n)
                ops.append({'k': R.choice(['whole', 'unknown']), 'b': b, 'e': R.choice([b, b + 1, b + 2, b + 2, b + 3, n + 1]), 'norm': R.choice([[], [0x96C6, 65]]), 'pos': R.choice(POSS)})
            jobs.append((''.join(R.choice(CHARS) for _ in range(n)), ops))
        items.append({'conf': conf, 'jobs': jobs})
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        w.put({'runs': res['runs'] if 'runs' in res else [{'text': cps('x'), 'err': res['exc'] + ' ' + res.get('msg', ''), 'ops': [], 'paths': [[]], 'cands': [], 'toks': []}]})
    w.close()


main()

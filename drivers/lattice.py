"""Candidate lattices and chosen paths of random dictionaries with scripted out-of-vocabulary providers."""
from world import *
from sudachipy.plugin.connect_cost import EditConnectionCostPlugin
from sudachipy.dictionarylib.wordinfo import WordInfo
from sudachipy.plugin.oov import OovProviderPlugin


class Scripted(OovProviderPlugin):
    def __init__(self, num, offers, log):
        self.num, self.offers, self.log = num, offers, log

    def set_up(self, grammar):
        pass

    def provide_oov(self, input_text, offset, has_other_words):
        self.log.append({'p': self.num, 'b': offset, 'others': bool(has_other_words)})
        out = []
        text = input_text.get_text()
        i = len(input_text.get_byte_text()[:offset].decode('utf-8'))
        for o in self.offers:
            if o['ch'] != ord(text[i]) or i + o['n'] > len(text):
                continue
            if (o['when'] == 'alone' and has_other_words) or (o['when'] == 'with' and not has_other_words):
                continue
            s = text[i:i + o['n']]
            n = self.create_node()
            n.set_parameter(o['l'], o['r'], o['c'])
            n.set_word_info(WordInfo(s, len(s.encode('utf-8')), 0, s, -1, s, '', [], [], [], []))
            out.append(n)
        return out


def lnode(n):
    dic = n.get_dictionary_id()
    return {'b': n.get_begin(), 'e': n.get_end(), 'l': n.get_left_id(), 'r': n.get_right_id(), 'c': n.get_path_cost(), 'dic': dic,
            'idx': (n.get_word_id() & 0x0FFFFFFF) if dic >= 0 else 0, 'oov': bool(n.is_oov())}


def play(item):
    d = open_dict(item['conf'])
    if item['edits'] or item['late']:
        g = editable(d, item['w'].paths[0])

    def edit(pairs):
        for l, r, c in pairs:
            if c == 32767:
                EditConnectionCostPlugin.inhibit_connection(g, l, r)
            else:
                g.set_connect_cost(l, r, c)
    edit(item['edits'])
    log, store = [], []

    def rec(text, path, lat):
        nodes = []
        for e in range(1, len(text.get_byte_text()) + 1):
            nodes += [lnode(n) for n in lat.get_nodes_with_end(e)]
        return nodes, [lnode(n) for n in path]
    d.oov_provider_plugins[:] = [Scripted(i + 1, o, log) for i, o in enumerate(item['provs'])]
    d.path_rewrite_plugins[:] = [recorder(store, rec)]
    t = d.create()
    runs = []
    for k, text in enumerate(item['texts']):
        if k == item['turn']:
            edit(item['late'])
        del store[:]
        del log[:]
        o = {'text': cps(text), 'err': '', 'nodes': [], 'path': [], 'calls': []}
        try:
            t.tokenize(text)
            o['nodes'], o['path'] = store[0]
        except Exception as e:
            o['err'] = type(e).__name__
        o['calls'] = list(log)
        runs.append(o)
    return {'runs': runs}


def main():
    w = Writer()
    part = sys.argv[2] if len(sys.argv) > 2 else ''
    R = rng('lattice', part)
    base = os.path.join(WORK, 'l')
    items = []
    for j in range((80 if part else 220) if QUICK else 1500):
        d = os.path.join(base, str(j))
        W = gen(R, d, users=R.choice([0, 0, 1, 2, 3]), n=R.choice([6, 12, 20]), ids=R.choice([1, 2, 3, 4]), right_ids=R.choice([None, 1, 2, 3, 5]), inhibit=R.choice([0, .1, .4]),
                all_chars=R.random() < .7 or j % 12 == 5, many=R.choice([30, 70, 90, 130, 300]) if j % 12 == 5 else 0)
        provs = []
        for _ in range(R.choice([1, 1, 2, 3])):
            offers = []
            for c in W.chars:
                for _ in range(R.choice([0, 1, 1, 2])):
                    offers.append({'ch': ord(c), 'n': R.choice([1, 1, 2, 3]), 'l': R.randrange(W.ids), 'r': R.randrange(W.rids), 'c': R.randint(0, 4000),
                                   'when': R.choice(['any', 'alone', 'alone', 'with'])})
            provs.append(offers)
        if j % 3 == 0:      # a catch-all, so that most texts have a path
            provs[-1] += [{'ch': ord(c), 'n': 1, 'l': R.randrange(W.ids), 'r': R.randrange(W.rids), 'c': 6000, 'when': 'any'} for c in W.chars]
        conf = settings(d, 'system.dic', users=['user%d.dic' % k for k in range(1, len(W.paths))], char=CHAR_TXT, inp=[])
        texts = [''.join(R.choice(W.chars) for _ in range(R.choice([1, 2, 3, 5, 8, 12]))) for _ in range(14)]
        heads = [e['h'] for x in W.dics for e in x]
        texts += [''.join(R.choice(heads) for _ in range(R.randint(1, 4))) for _ in range(10)]
        if j % 12 == 5:
            big = [h for h in heads if len(h) > 20]
            texts = texts[:12] + [R.choice(heads) + h + R.choice(heads) for h in big] + [h[:-1] for h in big]
        edits = []
        if part or R.random() < .2:
            for _ in range(R.choice([0, 1, 3])):
                a, b, c = R.randrange(W.rids), R.randrange(W.ids), R.choice([32767, 0, -1500, R.randint(0, 3000)])
                edits.append((a, b, c))
                W.matrix[a][b] = c
        # costs may also change while a tokenizer is in use
        late, after = [], W.matrix
        if edits and R.random() < .5:
            texts += R.sample(texts, 8)
            after = [list(x) for x in W.matrix]
            for _ in range(R.choice([1, 2, 5])):
                a, b, c = R.randrange(W.rids), R.randrange(W.ids), R.choice([32767, 0, -2500, R.randint(0, 3000)])
                late.append((a, b, c))
                after[a][b] = c
        items.append({'conf': conf, 'provs': provs, 'texts': texts, 'w': W, 'edits': edits, 'late': late, 'after': after, 'turn': len(texts) // 2})
    # hundreds of candidates that end at one position, the cheapest anywhere among them
    for j in range(0 if part else 3 if QUICK else 12):
        d = os.path.join(base, 'crowd%d' % j)
        W = gen(R, d, users=3, ids=3, inhibit=.2, chars=['ア', '一'], sizes=[250, 240, R.randint(1, 250), 120], tweak=lambda e: e.update(h=R.choice(['ア', 'ア', 'ア', '一', 'アア'])))
        conf = settings(d, 'system.dic', users=['user%d.dic' % k for k in (1, 2, 3)], char=CHAR_TXT, inp=[])
        items.append({'conf': conf, 'provs': [[{'ch': ord('一'), 'n': 1, 'l': 0, 'r': 1, 'c': 900, 'when': 'any'}]], 'texts': ['ア一', '一ア', 'アアア'], 'w': W, 'edits': [], 'late': [],
                      'after': [], 'turn': 0})
    # long texts
    for j in range(4 if QUICK else 12):
        d = os.path.join(base, 'long%d' % j)
        W = gen(R, d, users=j % 2, n=7, ids=3, right_ids=2, inhibit=0, all_chars=True, chars=R.sample([c for c in ALPHA if c not in 'abг'], 4))
        edits = [(R.randrange(2), R.choice([1, 2]), 32767)]      # what begins with id 0 stays permitted anywhere
        for a, b, c in edits:
            W.matrix[a][b] = c
        prov = [{'ch': ord(c), 'n': R.choice([1, 2]), 'l': 0, 'r': 1, 'c': 900, 'when': R.choice(['any', 'alone'])} for c in W.chars] \
            + [{'ch': ord(c), 'n': 1, 'l': 0, 'r': 0, 'c': 6000, 'when': 'any'} for c in W.chars]
        conf = settings(d, 'system.dic', users=['user%d.dic' % k for k in range(1, len(W.paths))], char=CHAR_TXT, inp=[])
        texts = [''.join(R.choice(W.chars) for _ in range(n)) for n in (R.randint(90, 130), R.randint(360, 420) if j else 800)]
        items.append({'conf': conf, 'provs': [prov], 'texts': texts, 'w': W, 'edits': edits, 'late': [], 'after': [], 'turn': 0})
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        W = it['w']
        runs = res['runs'] if 'runs' in res else [{'text': cps(t), 'err': res['exc'], 'nodes': [], 'path': [], 'calls': []} for t in it['texts']]
        for r in runs:
            r['cats'] = [ALPHA[chr(c)] for c in r['text']]
        k = it['turn'] if it['late'] else len(runs)
        w.put({'words': word_list(W), 'matrix': W.matrix, 'provs': it['provs'], 'runs': runs[:k]})
        if it['late']:
            w.put({'words': word_list(W), 'matrix': it['after'], 'provs': it['provs'], 'runs': runs[k:]})
    w.close()


main()

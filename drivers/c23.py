"""Dictionary files of every version, written by an encoder of our own."""
from common import *
from dartsclone import DoubleArray
from sudachipy.dictionarylib import BinaryDictionary
from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader

S1, S2 = 0x7366d3f18bd111e7, 0xce9f011a92394434
U1, U2, U3 = 0xa50f31188bd211e7, 0x9fdeb5a90168d868, 0xca9811756ff64fb0


def le8(x):
    return list((x & (1 << 64) - 1).to_bytes(8, 'little'))


def lenc(n):
    return bytes([n]) if n < 128 else bytes([0x80 | n >> 8, n & 255])


def senc(s):
    b = s.encode('utf-16-le')
    return lenc(len(b) // 2) + b


def ints(a):
    return bytes([len(a)]) + struct.pack('<%di' % len(a), *a)


def encode(v, created, desc, pos, L, Rr, matrix, ents):
    out = struct.pack('<Qq', v, created) + desc + b'\0' * (256 - len(desc))
    if v != U1:
        out += struct.pack('<h', len(pos)) + b''.join(senc(x) for p in pos for x in p)
        out += struct.pack('<hh', L, Rr) + struct.pack('<%dh' % (L * Rr), *matrix)
    keys = {}
    for i, e in enumerate(ents):
        if e['l'] >= 0:
            keys.setdefault(e['h'].encode(), []).append(i)
    table, vals = b'', []
    for k in sorted(keys):
        vals.append(len(table))
        table += bytes([len(keys[k])]) + struct.pack('<%dI' % len(keys[k]), *keys[k])
    t = DoubleArray()
    t.build(sorted(keys), lengths=[len(k) for k in sorted(keys)], values=vals)
    out += struct.pack('<I', t.size()) + bytes(t.array())
    out += struct.pack('<I', len(table)) + table
    out += struct.pack('<I', len(ents)) + b''.join(struct.pack('<hhh', e['l'], e['r'], e['c']) for e in ents)
    at = len(out) + 4 * len(ents)
    infos, offs = b'', b''
    for e in ents:
        offs += struct.pack('<I', at + len(infos))
        infos += senc(e['surf']) + lenc(len(e['h'].encode())) + struct.pack('<H', e['pos']) + senc('' if e['norm'] == e['surf'] else e['norm'])
        infos += struct.pack('<i', e['df']) + senc('' if e['read'] == e['surf'] else e['read']) + ints(e['a']) + ints(e['b']) + ints(e['w'])
        if v in (S2, U3):
            infos += ints(e['syn'])
    return out + offs + infos


def text(R, lo=1, hi=4):
    if R.random() < .05:
        return R.choice('あa𠮷') * R.choice([127, 128, 200, 256])
    return ''.join(R.choice('abあい字ア𠮷é') for _ in range(R.randint(lo, hi)))


def make(R, v, sysn, spos, salt):
    """Contents for a file of version v; sysn, spos: number of entries and parts of speech of the system dictionary (0 for one)."""
    n = R.choice([1, 2, 4, 7])
    pos = [[R.choice('名動副😀') + salt, text(R, 0, 2), '*', '*', '*', str(i)] for i in range(R.choice([1, 2, 3]))]
    if v in (U2, U3) and R.random() < .3:
        pos = []
    L, Rr = (R.choice([1, 2, 3]), R.choice([1, 2, 4])) if v in (S1, S2) else (0, 0)
    matrix = [R.choice([0, 100, -50, 32000]) for _ in range(L * Rr)]
    ents = []
    for i in range(n):
        h = text(R)
        npos = spos + (0 if v == U1 else len(pos))
        e = {'h': h, 'surf': R.choice([h, h, text(R)]), 'l': 0, 'r': 0, 'c': R.choice([0, 100, -100, 32767, 5000]), 'pos': R.randrange(npos), 'norm': R.choice(['', text(R)]),
             'read': R.choice(['', text(R)]), 'df': R.choice([-1, -1, R.randrange(n)]), 'syn': R.choice([[], [1], [5, 2147483647, -3]])}
        e['norm'] = e['norm'] or e['surf']
        e['read'] = e['read'] or e['surf']
        for f in 'abw':
            e[f] = [R.randrange(sysn) if sysn and R.random() < .5 else ((1 << 28 if sysn else 0) | R.randrange(n)) for _ in range(R.choice([0, 0, 1, 2, 3]))]
        if R.random() < .1:
            e['l'] = -1
        ents.append(e)
    if all(e['l'] < 0 for e in ents):
        ents[0]['l'] = 0
    return {'v': v, 'pos': pos, 'L': L, 'R': Rr, 'matrix': matrix, 'ents': ents}


def save(path, c, created=0, desc=b''):
    b = encode(c['v'], created, desc, c['pos'], c['L'], c['R'], c['matrix'], c['ents'])
    with open(path, 'wb') as f:
        f.write(b)
    return b


def contents(path, kind):
    b = open(path, 'rb').read()
    o = {'kind': 'contents', 'bytes': list(b), 'err': '', 'version': [], 'created': [], 'description': [], 'pos': [], 'matrix': [], 'entries': []}
    try:
        d = opener(kind)(path)
        o['version'], o['created'] = le8(d.header.version), le8(d.header.create_time)
        o['description'] = list(d.header.description.encode())
        v = d.header.version
        if d.grammar:
            g = d.grammar
            o['pos'] = [[cps(x) for x in g.get_part_of_speech_string(i)] for i in range(g.get_part_of_speech_size())]
            if kind == 'system':
                L, Rr = shape(b)
                o['matrix'] = [[int(g.get_connect_cost(a, c)) for c in range(Rr)] for a in range(L)]
        lx = d.lexicon
        for i in range(lx.size()):
            w = lx.get_word_info(i)
            o['entries'].append({'surf': cps(w.surface), 'hlen': w.length(), 'pos': w.pos_id, 'norm': cps(w.normalized_form), 'read': cps(w.reading_form), 'df': cps(w.dictionary_form),
                                 'dfid': w.dictionary_form_word_id, 'a': list(w.a_unit_split), 'b': list(w.b_unit_split), 'w': list(w.word_structure), 'syn': list(w.synonym_group_ids),
                                 'l': lx.get_left_id(i), 'r': lx.get_right_id(i), 'c': lx.get_cost(i)})
    except Exception as e:
        o['err'] = type(e).__name__ + ' ' + str(e)[:80]
    return o


def shape(b):
    p = 272
    n = struct.unpack_from('<h', b, p)[0]
    p += 2
    for _ in range(6 * n):
        k = b[p]
        p += 1
        if k >= 128:
            k = (k & 127) << 8 | b[p]
            p += 1
        p += 2 * k
    return struct.unpack_from('<hh', b, p)


def opener(kind):
    return BinaryDictionary.from_system_dictionary if kind == 'system' else BinaryDictionary.from_user_dictionary


def near(R):
    """Version numbers that are none, mostly close to one."""
    x = R.choice([S1, S2, U1, U2, U3])
    k = R.randrange(7)
    if k == 0:
        return x ^ (1 << R.randrange(64))
    if k == 1:
        return x ^ (0xff << 8 * R.randrange(8))
    if k == 2:
        return int.from_bytes(x.to_bytes(8, 'little'), 'big')
    if k == 3:
        return (x & 0xffffffff) | (R.choice([S1, S2, U1, U2, U3]) & ~0xffffffff)
    if k == 4:
        return x + R.choice([-1, 1])
    if k == 5:
        return R.choice([0, 1, (1 << 64) - 1, 1 << 63])
    return R.getrandbits(64)


def play(item):
    R = rng('c23', item['n'], item['part'])
    d = os.path.join(WORK, 'f', item['part'] + str(item['n']))
    os.makedirs(d, exist_ok=True)
    runs = []
    p = os.path.join(d, 'x.dic')
    if item['part'] == 'open':
        for _ in range(40):
            v = R.choice([S1, S2, U1, U2, U3]) if R.random() < .5 else near(R)
            layout = v if v in (S1, S2, U1, U2, U3) else R.choice([S1, S2, U1, U2, U3])
            c = make(R, layout, 3 if layout in (U1, U2, U3) else 0, 2 if layout in (U1, U2, U3) else 0, 'x')
            b = save(p, c)
            with open(p, 'wb') as f:
                f.write(struct.pack('<Q', v) + b[8:])
            for kind in ('system', 'user'):
                o = {'kind': 'open', 'version': le8(v), 'as': kind, 'opened': True, 'err': ''}
                try:
                    opener(kind)(p)
                except Exception as e:
                    o['opened'], o['err'] = False, type(e).__name__ + ' ' + str(e)[:60]
                runs.append(o)
                # the same through the front door: as the system or a user dictionary of a configuration
                if R.random() < .4:
                    o = dict(o, opened=True, err='')
                    good = os.path.join(d, 'good.dic')
                    save(good, make(random.Random(5), S2, 0, 0, 's'))
                    try:
                        open_dict(settings(d, 'x.dic') if kind == 'system' else settings(d, 'good.dic', users=['x.dic']))
                    except Exception as e:
                        o['opened'], o['err'] = False, type(e).__name__ + ' ' + str(e)[:60]
                    if not (kind == 'user' and v in (U1, U2, U3)) and not (kind == 'system' and v in (S1, S2)):
                        runs.append(o)
    elif item['part'] == 'contents':
        for _ in range(8):
            v = R.choice([S1, S2, U1, U2, U3])
            user = v in (U1, U2, U3)
            save(p, make(R, v, 5 if user else 0, 3 if user else 0, 'x'), R.choice([0, 1, 1600000000, (1 << 63) - 1, R.getrandbits(40)]),
                 R.choice([b'', b'a', 'コア辞書'.encode(), b'x' * 255, b'x' * 256, ('あ' * 85 + 'x').encode(), b'y' * R.randint(0, 256)]))
            runs.append(contents(p, 'user' if user else 'system'))
        # and what the builders write
        build_system(p, [[entry('あ', pos=PN, read='ヨミ', norm='a', syn='1/2', df='1'), entry('a' * 130, a='0/1', w='0')]], '2 3\n0 1 5\n1 2 -7\n', desc='d', ctime=7)
        runs.append(contents(p, 'system'))
        q = os.path.join(d, 'u.dic')
        build_user(q, [[entry('い', pos=['x', 'y', 'z', '*', '*', '*'], a='0/U0', syn='3'), entry('う', pos=PN)]], p, desc='ユーザー', ctime=1 << 33)
        runs.append(contents(q, 'user'))
    elif item['part'] == 'set':
        for _ in range(4):
            s = make(R, R.choice([S1, S2]), 0, 0, 's')
            s['ents'].append({'h': 'x', 'surf': 'x', 'l': 0, 'r': 0, 'c': 0, 'pos': 0, 'norm': 'x', 'read': 'x', 'df': -1, 'syn': [9], 'a': [], 'b': [], 'w': []})
            s['pos'][0] = NOUN
            for e in s['ents']:
                e['l'] = 0
            files = [list(save(os.path.join(d, 'system.dic'), s))]
            heads = [e['h'] for e in s['ents']]
            us = []
            for k in range(R.choice([1, 1, 2, 3])):
                u = make(R, R.choice([U1, U2, U3]), len(s['ents']), len(s['pos']), 'u%d' % k)
                for e in u['ents']:
                    e['l'] = 0
                    e['c'] = -20000 + R.randint(0, 500)
                files.append(list(save(os.path.join(d, 'user%d.dic' % k), u)))
                us.append('user%d.dic' % k)
                heads += [e['h'] for e in u['ents']]
            o = {'kind': 'set', 'files': files, 'err': '', 'toks': []}
            try:
                D = open_dict(settings(d, 'system.dic', users=us, inp=[]))
                M = modes()
                for h in sorted(set(heads)):
                    for m in D.create().tokenize(h, R.choice([M.A, M.B, M.C])):
                        if m.dictionary_id() >= 0:
                            o['toks'].append({'dic': m.dictionary_id(), 'idx': m.word_id() & 0x0fffffff, 'pos': [cps(x) for x in m.part_of_speech()], 'norm': cps(m.normalized_form()),
                                              'read': cps(m.reading_form()), 'df': cps(m.dictionary_form()), 'syn': list(m.synonym_group_ids())})
            except Exception as e:
                o['err'] = type(e).__name__ + ' ' + str(e)[:80]
            runs.append(o)
    else:
        for _ in range(60):
            n = R.choice([0, 1, 100, 254, 255, 256, 257, 258, 300, 1000])
            desc = R.choice(['x' * n, ('あ' * (n // 3) + 'y' * (n % 3)), ('𠮷' * (n // 4) + 'é' * (n % 4 // 2) + 'z' * (n % 2)), ''.join(R.choice('a あ') for _ in range(n // 3))])
            v = R.choice([S1, S2, U1, U2, U3, near(R)])
            t = R.choice([0, 1, 1700000000, (1 << 63) - 1, 1 << 32, R.getrandbits(62)])
            o = {'kind': 'header', 'version': le8(v), 'created': le8(t), 'description': list(desc.encode()), 'refused': False, 'bytes': [], 'back': {}, 'system': False, 'user': False}
            try:
                h = DictionaryHeader(v, t, desc)
                b = h.to_bytes()
                o['bytes'] = list(b)
                g = DictionaryHeader.from_bytes(b'junk' + b + b'\x01\x02', 4)
                o['back'] = {'version': le8(g.version), 'created': le8(g.create_time), 'description': list(g.description.encode())}
                o['system'], o['user'] = bool(g.is_system_dictionary()), bool(g.is_user_dictionary())
            except Exception:
                o['refused'] = True
            runs.append(o)
    import shutil
    shutil.rmtree(d)
    return {'runs': runs}


def main():
    w = Writer()
    k = 2 if QUICK else 10
    items = [{'n': i, 'part': p} for p, n in (('open', 24 * k), ('contents', 16 * k), ('set', 24 * k), ('header', 8 * k)) for i in range(n)]
    for it, res in zip(items, run_batch(play, items)):
        if res.get('exc') == 'Skipped':
            continue
        if 'runs' not in res:
            res = {'runs': [{'kind': 'failed', 'err': res['exc'] + ' ' + res.get('msg', '') + res.get('tb', '')[-300:]}]}
        w.put(res)
    w.close()


main()

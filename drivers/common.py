"""Shared by the drivers, which run under the repository's interpreter with the freshly built code on sys.path."""
import csv as _csv
import io
import json
import logging
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
BUILD = os.environ['SUD_BUILD']
sys.path.insert(0, BUILD)
import sudachipy  # noqa: E402
assert sudachipy.__file__.startswith(BUILD), sudachipy.__file__

SEED = int(os.environ.get('VERIF_SEED', '1'))
QUICK = os.environ.get('VERIF_TIER', 'quick') != 'thorough'
WORK = os.environ['VERIF_WORK']
NPROC = 8


def rng(*salt):
    return random.Random('%d/%s' % (SEED, '/'.join(map(str, salt))))


def cps(s):
    return [ord(c) for c in s]


def uncps(a):
    return ''.join(map(chr, a))


class Writer:
    def __init__(self, path=None):
        self.f = open(path or sys.argv[1], 'w')
        self.n = 0

    def put(self, case):
        self.n += 1
        case['id'] = self.n
        self.f.write(json.dumps(case, ensure_ascii=True) + '\n')

    def close(self):
        self.f.close()


# ------------------------------------------------------------------ guarded execution

def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


class _Child:
    def __init__(self, fn, items, idx):
        self.fn, self.items, self.idx = fn, items, idx
        self.buf = b''
        self.spawn()

    def spawn(self):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            code = 0
            try:
                for i in self.idx:
                    try:
                        res = self.fn(self.items[i])
                    except Exception as e:
                        res = {'exc': type(e).__name__, 'msg': str(e)[:200],
                               'tb': traceback.format_exc()[-600:]}
                    _send(w, (i, res))
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r
        self.buf = b''
        self.last = time.time()


def run_batch(fn, items, timeout=20, procs=None, max_hangs=3):
    """fn(item) for every item, in forked children; a hang or a crash becomes that item's result.
    Items not run because too many others hung come back as {'exc': 'Skipped'}."""
    procs = min(procs or NPROC, max(1, len(items)))
    out = [None] * len(items)
    hangs = 0
    chunks = [list(range(k, len(items), procs)) for k in range(procs)]
    children = [_Child(fn, items, c) for c in chunks if c]

    def restart(ch, result):
        nonlocal hangs
        i = ch.idx[0]
        out[i] = result
        ch.idx = ch.idx[1:]
        os.close(ch.fd)
        if ch.idx and hangs < max_hangs * 2:
            ch.spawn()
        else:
            for j in ch.idx:
                out[j] = {'exc': 'Skipped'}
            children.remove(ch)

    while children:
        fds = {c.fd: c for c in children}
        ready, _, _ = select.select(list(fds), [], [], 0.5)
        now = time.time()
        for fd in ready:
            ch = fds[fd]
            data = os.read(fd, 1 << 20)
            if not data:
                _, st = os.waitpid(ch.pid, 0)
                if ch.idx:
                    hangs += 1
                    restart(ch, {'exc': 'Crash', 'msg': 'status %d' % st})
                else:
                    os.close(ch.fd)
                    children.remove(ch)
                continue
            ch.buf += data
            ch.last = now
            while len(ch.buf) >= 4:
                n = struct.unpack('<I', ch.buf[:4])[0]
                if len(ch.buf) < 4 + n:
                    break
                i, res = pickle.loads(ch.buf[4:4 + n])
                ch.buf = ch.buf[4 + n:]
                assert ch.idx[0] == i
                ch.idx = ch.idx[1:]
                out[i] = res
        for ch in list(children):
            if ch.idx and now - ch.last > timeout and ch.fd not in ready:
                os.kill(ch.pid, signal.SIGKILL)
                os.waitpid(ch.pid, 0)
                hangs += 1
                restart(ch, {'exc': 'Hang'})
    return out


# ------------------------------------------------------------------ dictionaries and settings

NOUN = ['名詞', '普通名詞', '一般', '*', '*', '*']
NUM = ['名詞', '数詞', '*', '*', '*', '*']
PN = ['名詞', '固有名詞', '地名', '一般', '*', '*']
SYM = ['補助記号', '一般', '*', '*', '*', '*']

quiet = logging.getLogger('verif.quiet')
quiet.disabled = True


def entry(h, l=0, r=0, c=100, pos=NOUN, read=None, norm=None, df='*', t='C', a='*', b='*', w='*', syn='*', surf=None):
    return [h, str(l), str(r), str(c), h if surf is None else surf, *pos, h if read is None else read,
            h if norm is None else norm, str(df), t, a, b, w, syn]


def csv_text(rows):
    out = io.StringIO()
    w = _csv.writer(out, lineterminator='\n')
    for r in rows:
        w.writerow(r)
    return out.getvalue()


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    return path


def matrix_text(L, R, cells):
    return '%d %d\n' % (L, R) + ''.join('%d %d %d\n' % x for x in cells)


def build_system(path, sources, matrix='1 1\n0 0 0\n', version=None, ctime=0, desc=''):
    """sources: list of row lists (one per source file)."""
    from sudachipy import dictionarylib as dl
    from sudachipy.dictionarylib.dictionarybuilder import DictionaryBuilder
    from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
    os.makedirs(os.path.dirname(path), exist_ok=True)
    names = []
    for i, rows in enumerate(sources):
        names.append(write('%s.%d.csv' % (path, i), rows if isinstance(rows, str) else csv_text(rows)))
    with open(path, 'wb') as f:
        f.write(DictionaryHeader(version or dl.SYSTEM_DICT_VERSION_2, ctime, desc).to_bytes())
        DictionaryBuilder(logger=quiet).build(names, io.StringIO(matrix), f)
    return path


def build_user(path, sources, sysdic, version=None, ctime=0, desc=''):
    from sudachipy import dictionarylib as dl
    from sudachipy.dictionarylib import BinaryDictionary
    from sudachipy.dictionarylib.dictionaryheader import DictionaryHeader
    from sudachipy.dictionarylib.userdictionarybuilder import UserDictionaryBuilder
    os.makedirs(os.path.dirname(path), exist_ok=True)
    names = []
    for i, rows in enumerate(sources):
        names.append(write('%s.%d.csv' % (path, i), rows if isinstance(rows, str) else csv_text(rows)))
    d = BinaryDictionary.from_system_dictionary(sysdic)
    with open(path, 'wb') as f:
        f.write(DictionaryHeader(version or dl.USER_DICT_VERSION_3, ctime, desc).to_bytes())
        UserDictionaryBuilder(d.grammar, d.lexicon, logger=quiet).build(names, None, f)
    return path


RES = os.path.join(BUILD, 'sudachipy', 'resources')
CHAR_DEF = open(os.path.join(RES, 'char.def'), encoding='utf-8').read()
UNK_DEF = open(os.path.join(RES, 'unk.def'), encoding='utf-8').read()

P_DEFAULT = {'class': 'sudachipy.plugin.input_text.DefaultInputTextPlugin'}


def p_prolonged(marks=('ー', '-', '⁓', '〜', '〰'), sym='ー'):
    return {'class': 'sudachipy.plugin.input_text.ProlongedSoundMarkInputTextPlugin',
            'prolongedSoundMarks': list(marks), 'replacementSymbol': sym}


def p_simple(l=0, r=0, c=6000, pos=NOUN):
    return {'class': 'sudachipy.plugin.oov.SimpleOovProviderPlugin', 'oovPOS': list(pos), 'leftId': l, 'rightId': r, 'cost': c}


def p_mecab(char='char.def', unk='unk.def'):
    return {'class': 'sudachipy.plugin.oov.MeCabOovProviderPlugin', 'charDef': char, 'unkDef': unk}


def p_numeric(norm=True):
    return {'class': 'sudachipy.plugin.path_rewrite.JoinNumericPlugin', 'enableNormalize': norm}


def p_katakana(minlen=3, pos=NOUN):
    return {'class': 'sudachipy.plugin.path_rewrite.JoinKatakanaOovPlugin', 'oovPOS': list(pos), 'minLength': minlen}


def settings(dir_, system='system.dic', users=(), char=None, inp=None, oov=None, path=None, unk=None, name='sudachi.json'):
    os.makedirs(dir_, exist_ok=True)
    write(os.path.join(dir_, 'char.def'), CHAR_DEF if char is None else char)
    if unk is not None:
        write(os.path.join(dir_, 'unk.def'), unk)
    j = {'systemDict': system, 'userDict': list(users), 'characterDefinitionFile': 'char.def',
         'inputTextPlugin': [P_DEFAULT] if inp is None else inp,
         'oovProviderPlugin': [p_simple()] if oov is None else oov,
         'pathRewritePlugin': [] if path is None else path}
    return write(os.path.join(dir_, name), json.dumps(j))


def open_dict(conf, resource_dir=None):
    from sudachipy.dictionary import Dictionary
    return Dictionary(conf, resource_dir or os.path.dirname(conf))


def modes():
    from sudachipy.tokenizer import Tokenizer
    return Tokenizer.SplitMode


def wid(x):
    """A word id as [dictionary, index]: TLC's integers end at 2^31-1."""
    return [x >> 28, x & 0x0FFFFFFF]


def token(m, grammar=None):
    """Everything a token reports."""
    return {'b': m.begin(), 'e': m.end(), 's': m.surface(), 'pos': list(m.part_of_speech()),
            'norm': m.normalized_form(), 'df': m.dictionary_form(), 'read': m.reading_form(),
            'oov': bool(m.is_oov()), 'dic': m.dictionary_id(), 'wid': wid(m.word_id()) if m.dictionary_id() >= 0 else [-1, 0],
            'syn': list(m.synonym_group_ids())}


def outcome(fn):
    try:
        return {'err': '', 'toks': fn()}
    except Exception as e:
        return {'err': type(e).__name__, 'toks': []}


# ------------------------------------------------------------------ paths

def node_rec(n, grammar):
    wi = n.get_word_info()
    dic = n.get_dictionary_id()
    return {'b': n.get_begin(), 'e': n.get_end(), 'surf': cps(wi.surface), 'norm': cps(wi.normalized_form),
            'read': cps(wi.reading_form), 'df': cps(wi.dictionary_form),
            'pos': list(grammar.get_part_of_speech_string(wi.pos_id)) if wi.pos_id >= 0 else [],
            'oov': bool(n.is_oov()), 'dic': dic, 'idx': (n.get_word_id() & 0x0FFFFFFF) if dic >= 0 else 0,
            'units': len(wi.a_unit_split) + len(wi.b_unit_split) + len(wi.word_structure) + len(wi.synonym_group_ids)}


def recorder(store, fn):
    """A path rewriting plugin that records and changes nothing."""
    from sudachipy.plugin.path_rewrite.path_rewrite_plugin import PathRewritePlugin

    class Recorder(PathRewritePlugin):
        def set_up(self, grammar):
            pass

        def rewrite(self, text, path, lattice):
            store.append(fn(text, path, lattice))
    return Recorder()

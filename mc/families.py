"""The spaces of schemas and commands that the codec checks enumerate."""
import multiprocessing as mp
from .model import *
from .engine import Chunk, dexp, hexp
from . import matrix


def kstr(ls):
    return None


def e_op(i, s, toks):
    e = encode(s, toks)
    return f'E {i} ' + ' '.join(toks), f'{len(e)} {e.hex()}', e


def w_op(i, s, toks, fill, pre, post):
    e, m = encode(s, toks), own_mask(s, toks)
    return f'W {i} {fill} {pre} {post} ' + ' '.join(toks), f'~ {len(e)} {pre} {post} {fill} {e.hex()} {m.hex()}'.replace('~ ', '~ ', 1)


def d_op(i, s, ls, data, start=0):
    return f'D {i} {start} {data.hex()}', dexp(s, ls, data, start)


def in_parallel(fn, args, procs=8):
    with mp.get_context('fork').Pool(procs) as p:
        return p.map(fn, args, chunksize=1)


def walk(nbits):
    """every single bit set / every single bit clear, the constants and two counters"""
    n = nbits // 8
    full = (1 << nbits) - 1
    yield bytes(n)
    yield b'\xff' * n
    for i in range(nbits):
        yield (1 << i).to_bytes(n, 'little')
    for i in range(nbits):
        yield (full ^ (1 << i)).to_bytes(n, 'little')
    yield bytes((0x11 * (i % 15 + 1)) & 255 for i in range(n))
    yield bytes((0xA7 + 29 * i) & 255 for i in range(n))


# ------------------------------------------------------------------ scalars
def scalar_types(split=True):
    """(type name, list of widths) work units of similar size"""
    out = []
    for tn in matrix.NUM:
        b = Basic(tn).bits
        ws = list(range(1, b + 1))
        k = max(1, b // 16) if split else 1
        for j in range(k):
            out.append((tn, ws[j::k]))
    return out


def scalar_structs(tn, ws, orders=(None, 'big')):
    return [matrix.place(f'M{tn}w{w}{o or "l"}', Basic(tn), w, o) for w in ws for o in orders]


def _scalar_enc(a):
    tn, ws, full = a
    st = scalar_structs(tn, ws)
    cm, ex = [], []
    for i, s in enumerate(st):
        for v in matrix.vectors(leaves(s), full):
            c, x, _ = e_op(i, s, v)
            cm.append(c)
            ex.append(x)
    return Chunk(f'scalar-{tn}-w{ws[0]}..{ws[-1]}', Schema('mx', st), cm, ex)


def scalar_enc(full=True):
    return in_parallel(_scalar_enc, [(t, w, full) for t, w in scalar_types()])


def _scalar_dec(a):
    tn, ws, full = a
    st = scalar_structs(tn, ws)
    cm, ex = [], []
    for i, s in enumerate(st):
        ls = leaves(s)
        for k, b in enumerate(walk(s.fixed_bits())):
            c, x = d_op(i, s, ls, b)
            cm.append(c)
            ex.append(x)
        c, x = d_op(i, s, ls, b'\xc3' * 3 + b + b'\x5a', 3)
        cm.append(c)
        ex.append(x)
    return Chunk(f'scalar-{tn}-w{ws[0]}..{ws[-1]}', Schema('mx', st), cm, ex)


def scalar_dec(full=True):
    return in_parallel(_scalar_dec, [(t, w, full) for t, w in scalar_types()])


# ------------------------------------------------------------------ arrays
def array_struct(tn, w, o, n, offsets):
    return matrix.place(f'A{tn}w{w}{o or "l"}n{n}', Basic(tn), w, o, n=n, offsets=offsets)


def _array(a):
    """encode and decode of arrays of every element width"""
    tn, ws, n, offs, ops = a
    st = [array_struct(tn, w, o, n, offs(w, o)) for w in ws for o in (None, 'big')]
    cm, ex = [], []
    for i, s in enumerate(st):
        ls = leaves(s)
        if 'e' in ops:
            for v in array_vectors(ls):
                c, x, _ = e_op(i, s, v)
                cm.append(c)
                ex.append(x)
        if 'w' in ops:
            for k, v in enumerate(array_vectors(ls)[::9]):
                c, x = w_op(i, s, v, (0, 255, 165)[k % 3], k % 3, 1)
                cm.append(c)
                ex.append(x)
        if 'd' in ops:
            for k, b in enumerate(walk(s.fixed_bits())):
                c, x = d_op(i, s, ls, b)
                cm.append(c)
                ex.append(x)
            c, x = d_op(i, s, ls, b'\xc3' * 3 + b + b'\x5a', 3)
            cm.append(c)
            ex.append(x)
    return Chunk(f'array{n}-{tn}-w{ws[0]}..{ws[-1]}', Schema('mx', st), cm, ex)


def array_vectors(ls):
    """neighbouring elements always differ; every value of the reduced domain in every element"""
    doms = [matrix.dom(l.kind, l.type.bits, l.width) for l in ls]
    pad = [l.path[-1][0].startswith('p') for l in ls]
    L = max(len(d) for d, p in zip(doms, pad) if not p)
    out = []
    for i in range(L):
        out.append([str(((1 << l.width) - 1) * ((i + j) % 2)) if p else d[(i + j * 5) % len(d)]
                    for j, (l, d, p) in enumerate(zip(ls, doms, pad))])
    return out


def all_offsets(w, o):
    return range(8)


def array_all(n=5, ops='ed', types=('bool', 'int8', 'uint8', 'int16', 'uint32', 'int64', 'float32', 'float64')):
    u = []
    for tn in types:
        b = Basic(tn).bits
        ws = list(range(1, b + 1))
        k = max(1, b // 8)
        u += [(tn, ws[j::k], n, all_offsets, ops) for j in range(k)]
    return in_parallel(_array, u)


# ------------------------------------------------------------------ sequences of field kinds
EN8 = Enum('EnSmall', 8, [('EN_A', 0), ('EN_B', None), ('EN_C', 0x7f), ('EN_D', 255)])
EN12 = Enum('EnWide', 12, [('EW_A', 0), ('EW_B', 0x123), ('EW_C', 0xfff)])
FIX = Struct('FixPart', [Field('normal', Basic('uint8'), 'fa', bits=4), Field('normal', Basic('int16'), 'fb', bits=12, order='big')])
DYN = Struct('DynPart', [Field('normal', Basic('uint16'), 'da', bits=16, order='big'), Field('normal', Str(), 'db'), Field('normal', Basic('uint8'), 'dc')])
DYN2 = Struct('DynByt', [Field('normal', Byt(), 'ea'), Field('normal', Basic('int8'), 'eb')])


def _n(t, **kw):
    return lambda i: Field('normal', t, f'x{i}', **kw)


KINDS = {
    'u3': _n(Basic('uint8'), bits=3),
    'i12b': _n(Basic('int16'), bits=12, order='big'),
    'u24': _n(Basic('uint32'), bits=24),
    'u64': _n(Basic('uint64')),
    'f32': _n(Basic('float32')),
    'f64b': _n(Basic('float64'), order='big'),
    'b1': _n(Basic('bool'), bits=1),
    'en': _n(EN8),
    'ew': _n(EN12),
    'v5': lambda i: Field('void', bits=5),
    'c8': lambda i: Field('const', Basic('uint8'), f'k{i}', value=0xA5),
    'c12': lambda i: Field('const', Basic('int16'), None, bits=12, order='big', value=-3),
    'str': _n(Str()),
    'byt': _n(Byt()),
    'fs': _n(FIX),
    'ds': _n(DYN),
    'au8': _n(Basic('uint8'), n=3),
    'ai12': _n(Basic('int16'), n=5, bits=60),
    'af': _n(Basic('float32'), n=5, order='big'),
    'ab': _n(Basic('bool'), n=5, bits=5),
    'aen': _n(EN12, n=5, bits=60),
    'as2': _n(Str(), n=2),
    'as5': _n(Str(), n=5),
    'aby5': _n(Byt(), n=5),
    'afs2': _n(FIX, n=2),
    'afs5': _n(FIX, n=5),
    'ads2': _n(DYN, n=2),
    'ads5': _n(DYN2, n=5),
    'emb': lambda i: Field('embed', Struct(f'EmbX{i}Y', [])),   # replaced in seq()
}
ALIGNED = {'str', 'byt', 'fs', 'ds', 'as2', 'as5', 'aby5', 'afs2', 'afs5', 'ads2', 'ads5', 'emb'}


def embf(i):
    return Struct(f'Emb{i}', [Field('normal', Basic('uint8'), f'y{i}', bits=6), Field('normal', Basic('uint32'), f'z{i}', bits=18, order='big')])


EMB = [embf(i) for i in range(4)]


def seq(name, kinds):
    fs, pos = [], 0
    for i, k in enumerate(kinds):
        if k in ALIGNED and pos % 8:
            fs.append(Field('void', bits=8 - pos % 8))
            pos = 0
        f = Field('embed', EMB[i % 4]) if k == 'emb' else KINDS[k](i)
        fs.append(f)
        if f.dyn():
            pos = 0
        else:
            pos += f.type.fixed_bits() if f.kind == 'embed' else f.width()
    if pos % 8:
        fs.append(Field('void', bits=8 - pos % 8))
    return Struct(name, fs)


STRS = ['', 'a', 'h\u00e9llo', '\u4f60\u597d', '\U0001f600x']
BYTS = [b'', b'\x00', b'\xff\x80', bytes(range(5)), b'Z' * 127, b'Q' * 128]


def leaf_tok(l, k):
    """k-th token of a leaf's small domain"""
    if l.kind == 'str':
        return 's' + STRS[k % len(STRS)].encode().hex()
    if l.kind == 'bytes':
        return 'b' + BYTS[k % len(BYTS)].hex()
    if l.kind == 'enum':
        d = [str(v) for _, v in l.type.numbers()]
        return d[k % len(d)]
    if l.kind == 'f32':
        return ['00000000', '3f800000', 'c2f6e979', '80000000', '7f7fffff'][k % 5]
    if l.kind == 'f64':
        return ['0000000000000000', '3ff0000000000000', 'c0934a456d5cfaad', '0000000000000001', '7fefffffffffffff'][k % 5]
    if l.kind == 'bool':
        return str(k % 2)
    m = (1 << l.width) - 1
    r = [0, m, 0x0123456789ABCDEF & m, 0xFEDCBA9876543210 & m, 1][k % 5]
    return tok_of(Basic(('int' if l.kind == 'int' else 'uint') + str(l.type.bits)), l.width, r)


def seq_vectors(ls, n=4):
    return [[leaf_tok(l, k + j * (1 + k)) for j, l in enumerate(ls)] for k in range(n)]


SEQ_DEFS = [EN8, EN12, FIX, DYN, DYN2] + EMB


def seq_chunk(name, seqs, ops='edpw', nv=4):
    st = [seq('S' + '_'.join(k for k in ks).replace('_', 'Q'), ks) for ks in seqs]
    S = Schema('mx', SEQ_DEFS + st)
    base = len(S.structs()) - len(st)
    cm, ex = [], []
    for i, s in enumerate(st):
        i += base
        ls = leaves(s)
        for k, v in enumerate(seq_vectors(ls, nv)):
            c, x, e = e_op(i, s, v)
            if 'e' in ops:
                cm.append(c)
                ex.append(x)
            if 'w' in ops:
                c, x = w_op(i, s, v, (0, 255, 165)[k % 3], k % 3, (k + 1) % 2)
                cm.append(c)
                ex.append(x)
            if 'd' in ops:
                for data, start in ((e, 0), (b'\xee' + e + b'\xff\x00', 1)):
                    c, x = d_op(i, s, ls, data, start)
                    cm.append(c)
                    ex.append(x)
            if 'p' in ops:
                cm.append(f'P {i} {e.hex()}')
                ex.append(pexp(s, e))
    return Chunk(name, S, cm, ex)


def pexp(s, data):
    out = []
    for k in range(len(data) + 1):
        q, z = size_probe(s, data[:k])
        out.append(str(z if q == 'ok' else -z))
    return '%' + ' '.join(out)


def _seq(a):
    return seq_chunk(*a)


def pairs(kinds=None, ops='edpw', nv=4, n=2, per=48):
    import itertools
    kinds = kinds or list(KINDS)
    al = list(itertools.product(kinds, repeat=n))
    al = [(k,) for k in kinds] + al if n == 2 else al
    return in_parallel(_seq, [(f'seq{n}-{i}', al[i:i + per], ops, nv) for i in range(0, len(al), per)])


# ------------------------------------------------------------------ enums
def enums(ops='ed'):
    """enum fields of every width 1..64 at every bit offset, both orders, declared
    values below 2^31"""
    return in_parallel(_enums, [(ws, ops, 31) for ws in (range(1, 33, 4), range(2, 33, 4), range(3, 33, 4), range(4, 33, 4))])


def uint32_enums(ops='ed'):
    """declared values of 32 bits"""
    return in_parallel(_enums, [((32,), ops, 32)])


def long_enums(ops='ed'):
    """the same for fields of 33..64 bits"""
    return in_parallel(_enums, [(ws, ops, 31) for ws in (range(33, 65, 2), range(34, 65, 2))])


def wide_enums(ops='ed'):
    """enums with declared values of 32 bits and more"""
    return in_parallel(_enums, [(ws, ops, 63) for ws in (range(32, 65, 2), range(33, 65, 2))])


def enum_of(w, vmax):
    m = (1 << w) - 1
    vs = {0, 1, m, m >> 1, (m >> 1) + 1, 0x5555555555555555 & m, 0x0123456789ABCDEF & m, 0xFEDCBA9876543210 & m} | {1 << k for k in range(0, w, 7)}
    if vmax < w:
        vs |= {(1 << vmax) - 1, 1 << vmax - 1, 0x5A5A5A5A5A5A5A5A & ((1 << vmax) - 1)}
    vs = sorted(v for v in vs if v < 1 << min(63, vmax))
    return Enum(f'En{w}', w, [(f'V{w}X{k}', v) for k, v in enumerate(vs)])


def _enums(a):
    ws, ops, vmax = a
    es = [enum_of(w, vmax) for w in ws]
    st = []
    for e in es:
        for o in (None, 'big'):
            s = matrix.place(f'P{e.bits}{o or "l"}', e, e.bits, o)
            st.append(s)
    S = Schema('mx', es + st)
    cm, ex = [], []
    for i, s in enumerate(st):
        ls = leaves(s)
        doms = [[str(v) for _, v in l.type.numbers()] if l.kind == 'enum' else ['0', str((1 << l.width) - 1)] for l in ls]
        for k in range(max(len(d) for d in doms)):
            v = [d[(k + 3 * j) % len(d)] for j, d in enumerate(doms)]
            c, x, e = e_op(i, s, v)
            if 'e' in ops:
                cm.append(c)
                ex.append(x)
            if 'd' in ops:
                c, x = d_op(i, s, ls, b'\x99' * (k % 2) + e + b'\x77' * (k % 3), k % 2)
                cm.append(c)
                ex.append(x)
    return Chunk(f'enum{vmax}-w{ws[0]}', S, cm, ex)


# ------------------------------------------------------------------ constants
def const_vals(t, w):
    m = (1 << w) - 1
    if t.kind == 'bool':
        return [False, True]
    if t.kind == 'uint':
        r = [0, 1, m, 1 << (w - 1), 0x5555555555555555 & m, 0xAAAAAAAAAAAAAAAA & m, 0x0123456789ABCDEF & m, 0xFEDCBA9876543210 & m]
    elif t.kind == 'int':
        r = [x - (1 << w) if x >> (w - 1) & 1 else x for x in [0, 1, m, 1 << (w - 1), m >> 1, 0x0123456789ABCDEF & m, 0xFEDCBA9876543210 & m]]
    else:
        r = [0.0, 1.0, -2.5, 3.14159, 1e10, 1e-9, 0.1, float("inf"), float("-inf")]
    return [v for v in dict.fromkeys(r) if isinstance(v, float) or -(1 << 63) < v < (1 << 63)]


def const_structs(tn, ws, offs):
    t, out = Basic(tn), []
    for w in ws:
        for o in (None, 'big'):
            for off in offs:
                fs, pos = [], 0
                for i, v in enumerate(const_vals(t, w)):
                    d = (off - pos) % 8
                    if d:
                        fs.append(Field('normal', Basic('uint8'), f'p{i}', bits=d))
                        pos += d
                    fs.append(Field('const', t, f'c{i}' if i % 2 else None, bits=w, order=o, value=v))
                    pos += w
                d = -pos % 8
                if d:
                    fs.append(Field('normal', Basic('uint8'), 'pp', bits=d))
                out.append(Struct(f'K{tn}w{w}{o or "l"}o{off}', fs))
    return out


def _consts(a):
    tn, ws, offs, dyn = a
    st = const_structs(tn, ws, offs)
    if dyn:
        for s in st:
            s.fields.insert(0, Field('normal', Str(), 'lead'))
    cm, ex = [], []
    for i, s in enumerate(st):
        ls = leaves(s)
        for bg in (0, -1):
            tk = ['s6162' if x.kind == 'str' else str(((1 << x.width) - 1) & bg) for x in ls]
            c, x, e = e_op(i, s, tk)
            cm.append(c)
            ex.append(x)
            # every single-bit corruption of the frame: refused iff the bit belongs to a constant
            for flip in [None] + list(range(24 if dyn else 0, 8 * len(e))):
                if flip is not None and bg and flip % 3 and len(e) > 16:
                    continue
                b = bytearray(e)
                if flip is not None:
                    b[flip // 8] ^= 1 << (flip % 8)
                c, x = d_op(i, s, ls, bytes(b))
                cm.append(c)
                ex.append(x)
    return Chunk(f'const-{tn}-w{ws[0]}..{ws[-1]}{"d" if dyn else ""}', Schema('mx', st), cm, ex)


def consts(offs=(0, 3), types=matrix.NUM):
    u = []
    for tn in types:
        t = Basic(tn)
        ws = list(range(1, t.bits + 1)) if t.kind in ('int', 'uint') else [t.bits]
        k = max(1, len(ws) // 16)
        u += [(tn, ws[j::k], offs, False) for j in range(k)]
    u += [('uint16', [5, 9, 12, 16], (0,), True), ('int32', [3, 17, 32], (0, 3), True)]
    return in_parallel(_consts, u)


# ------------------------------------------------------------------ arrays, quick
QW = [1, 3, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 57, 63, 64]


def array_quick(n=5, ops='ed'):
    u = []
    for tn in ('bool', 'int8', 'uint8', 'int16', 'uint32', 'int64', 'uint64', 'float32', 'float64'):
        b = Basic(tn).bits
        ws = list(range(1, 9)) if b == 8 else [w for w in QW if w <= b]
        if tn == 'uint64':
            ws = [33, 49, 64]
        if tn[0] == 'f':
            ws = [w for w in (b, b - 8, 13)]
        k = max(1, b // 8)
        u += [(tn, ws[j::k], n, all_offsets, ops) for j in range(k) if ws[j::k]]
    return in_parallel(_array, u)


def array_len(lens=(1, 2, 3, 4, 5, 6, 7)):
    """every element kind x array length; a leading void shifts the bit-packed ones"""
    el = [('u8', Basic('uint8'), None, None), ('i12', Basic('int16'), 12, 'big'), ('u3', Basic('uint8'), 3, None), ('b1', Basic('bool'), 1, None),
          ('u64', Basic('uint64'), 64, 'big'), ('i33', Basic('int64'), 33, None), ('f32', Basic('float32'), None, None), ('f64', Basic('float64'), None, 'big'),
          ('en', EN12, 12, None), ('str', Str(), None, None), ('byt', Byt(), None, None), ('fs', FIX, None, None), ('ds', DYN, None, None), ('db', DYN2, None, None)]
    out = []
    for part in (el[:5], el[5:9], el[9:]):
        st = []
        for nm, t, w, o in part:
            for n in lens:
                for lead in (0, 3, 's'):
                    fx = isinstance(t, (Basic, Enum))
                    if lead == 3 and not fx:
                        continue
                    fs = [Field('normal', Str(), 'lead')] if lead == 's' else [Field('void', bits=lead)] if lead else []
                    fs.append(Field('normal', t, 'xs', n=n, bits=w * n if w else None, order=o))
                    r = -sum(f.width() for f in fs if not f.dyn()) % 8
                    if r:
                        fs.append(Field('void', bits=r))
                    fs.append(Field('normal', Basic('uint16'), 'tail', order='big'))
                    st.append(Struct(f'L{nm}n{n}l{lead}', fs))
        S = Schema('mx', [EN12, FIX, DYN, DYN2] + st)
        base = 3
        cm, ex = [], []
        for i, s in enumerate(st):
            ls = leaves(s)
            for k, v in enumerate(seq_vectors(ls, 3)):
                c, x, e = e_op(i + base, s, v)
                cm.append(c)
                ex.append(x)
                c, x = w_op(i + base, s, v, (255, 0, 165)[k], k, 1)
                cm.append(c)
                ex.append(x)
                c, x = d_op(i + base, s, ls, b'\xee' * k + e + b'\x01', k)
                cm.append(c)
                ex.append(x)
                cm.append(f'P {i + base} {e.hex()}')
                ex.append(pexp(s, e))
        out.append(Chunk(f'arraylen-{part[0][0]}', S, cm, ex))
    return out


# ------------------------------------------------------------------ dirty buffers
WKINDS = ['u3', 'i12b', 'u24', 'f64b', 'b1', 'ew', 'v5', 'c12', 'str', 'byt', 'fs', 'ds', 'au8', 'ai12', 'ab', 'as2', 'afs5', 'ads5', 'emb']
TRI = ['u3', 'i12b', 'v5', 'c12', 'str', 'byt', 'ds', 'ai12', 'afs5', 'ads2', 'emb']


def voids():
    st = []
    for a in range(1, 17):
        for b in (1, 3, 8, 12, 17):
            for t in 'uad':
                f = [Field('void', bits=a), Field('normal', Basic('uint32'), 'x', bits=b)]
                if t == 'a':
                    f.append(Field('normal', Basic('uint8'), 'y', n=3, bits=9))
                    f.append(Field('void', bits=3))
                    f.append(Field('normal', Basic('bool'), 'z', n=5, bits=5))
                if t == 'd':
                    f = [Field('normal', Str(), 's')] + f
                r = -(sum(q.width() for q in f)) % 8
                if r:
                    f.append(Field('void', bits=r))
                st.append(Struct(f'V{a}{t}{b}', f))
    out = []
    for p in range(4):
        part = st[p::4]
        cm, ex = [], []
        for i, s in enumerate(part):
            ls = leaves(s)
            for fill in (0, 255, 165):
                for pre, post in ((0, 0), (2, 1)):
                    for v in (0, 1, -1):
                        tk = ['s616263' if x.kind == 'str' else str(((1 << x.width) - 1) * (v == -1) + (v == 1)) for x in ls]
                        c, x = w_op(i, s, tk, fill, pre, post)
                        cm.append(c)
                        ex.append(x)
        out.append(Chunk(f'void-{p}', Schema('mx', part), cm, ex))
    return out


def _scalar_w(a):
    tn, ws = a
    st = scalar_structs(tn, ws)
    cm, ex = [], []
    for i, s in enumerate(st):
        vs = matrix.vectors(leaves(s), False)
        for k, v in enumerate(vs[:: max(1, len(vs) // 12)]):
            for fill in (0, 255, 165):
                c, x = w_op(i, s, v, fill, k % 3, (k + fill) % 2)
                cm.append(c)
                ex.append(x)
    return Chunk(f'scalarw-{tn}-w{ws[0]}..{ws[-1]}', Schema('mx', st), cm, ex)


def scalar_w(quick=True):
    u = []
    for tn in ('bool', 'int8', 'uint16', 'int32', 'uint64', 'float32', 'float64'):
        b = Basic(tn).bits
        ws = [w for w in range(1, b + 1) if not quick or b == 8 or w in QW]
        k = max(1, b // 16)
        u += [(tn, ws[j::k]) for j in range(k) if ws[j::k]]
    return in_parallel(_scalar_w, u)


# ------------------------------------------------------------------ hostile input
def hostile_catalogue():
    N = lambda t, name, **k: Field('normal', t, name, **k)
    U8, U16, I8, BO = Basic('uint8'), Basic('uint16'), Basic('int8'), Basic('bool')
    en = Enum('HEn', 8, [('HZero', 0), ('HOne', 1), ('HBig', 97)])
    inb = Struct('HInB', [N(Byt(), 'd')])
    ins = Struct('HInS', [N(U8, 'k'), N(Str(), 's'), N(U8, 'l')])
    ink = Struct('HInK', [Field('const', U8, 'k', value=1), N(U8, 'v')])
    ine = Struct('HInE', [N(Byt(), 'eb'), N(U8, 'et')])
    defs = [en, inb, ins, ink, ine]
    V = [
        [N(Str(), 'a')],
        [N(Byt(), 'a')],
        [N(U8, 'x'), N(Byt(), 'a'), N(U8, 'y')],
        [N(Byt(), 'a'), N(Str(), 'b')],
        [N(Str(), 'a', n=2)],
        [N(Str(), 'a', n=5)],
        [N(Byt(), 'a', n=2), N(U8, 'y')],
        [N(Byt(), 'a', n=5)],
        [N(U8, 'k'), N(inb, 'i'), N(Str(), 's')],
        [N(inb, 'i', n=2), N(U8, 'z')],
        [N(ins, 'i', n=5)],
        [N(U16, 'h'), N(ins, 'i', n=2)],
        [Field('const', U8, 'm', value=1), N(Byt(), 'd'), Field('const', U8, 'e', value=97)],
        [N(en, 'e'), N(Str(), 's')],
        [N(en, 'e', n=3), N(BO, 'b')],
        [N(U16, 'a', order='big'), N(I8, 'b'), N(BO, 'c', bits=3), N(U8, 'd', bits=5)],
        [Field('embed', ine), N(Byt(), 'after')],
        [Field('const', U8, 'm', value=97), N(Str(), 's'), N(U8, 'x')],
        [N(Byt(), 'd'), N(U8, 'a', bits=3), N(U16, 'b', bits=13, order='big')],
        [N(ink, 'i'), N(ink, 'j', n=2)],
        [N(ink, 'j', n=5)],
        [N(inb, 'i', n=5)],
    ]
    return defs, [Struct(f'Ho{k}', v) for k, v in enumerate(V)]


def _hostile(a):
    import itertools
    name, sel, alpha, lmax = a
    defs, st = hostile_catalogue()
    st = [s for k, s in enumerate(st) if k in sel]
    S = Schema('mx', defs + st)
    base = len(S.structs()) - len(st)
    cm, ex = [], []
    for i, s in enumerate(st):
        ls = leaves(s)
        if lmax:
            inputs = (bytes(x) for n in range(lmax + 1) for x in itertools.product(alpha, repeat=n))
        else:
            inputs = varint_bombs()
        for k, d in enumerate(inputs):
            cm.append(f'D {i + base} {k % 2} ' + (b'\xcc' * (k % 2) + d).hex())
            ex.append(hexp(s, ls, d))
    return Chunk(name, S, cm, ex)


def varint_bombs():
    """every length prefix of 1..10 bytes from {80, ff}* with every ending, bare
    and with up to two bytes behind it"""
    import itertools
    for pre in (b'', b'\x01', b'\x02a'):
        for n in range(0, 11):
            for body in itertools.product((0x80, 0xff), repeat=n) if n <= 4 else {(x,) * (n - m) + (y,) * m for x in (0x80, 0xff) for y in (0x80, 0xff, 0xfe) for m in range(n + 1)}:
                for last in (0, 1, 2, 4, 8, 0x10, 0x3f, 0x7f):
                    for post in (b'', b'a\x00'):
                        yield pre + bytes(body) + bytes([last]) + post


def hostile(quick=True):
    nn = len(hostile_catalogue()[1])
    A = (0, 1, 2, 0x61, 0x80, 0xff)
    jobs = [(f'hostile{k}', (k, k + 1), A, 4 if quick else 5) for k in range(0, nn, 2)]
    if not quick:
        jobs += [(f'hostilex{k}', (k, k + 1), (0, 1, 0x80, 0xff), 7) for k in range(0, nn, 2)]
    jobs += [(f'bombs{k}', sel, (), 0) for k, sel in enumerate([(1, 2, 3), (6, 7, 8), (9, 16, 18, 21)])]
    return in_parallel(_hostile, jobs)


def _corrupt(a):
    name, sq, nv, subs = a
    st = [seq('Z' + 'Q'.join(ks), ks) for ks in sq]
    S = Schema('mx', SEQ_DEFS + st)
    base = len(S.structs()) - len(st)
    cm, ex = [], []
    for i, s in enumerate(st):
        ls = leaves(s)
        seen = set()
        for v in seq_vectors(ls, nv):
            e = encode(s, v)
            if len(e) > 60:
                continue
            ins = [e[:k] for k in range(len(e))] + [e[:k] + bytes([x]) + e[k + 1:] for k in range(len(e)) for x in {*subs, e[k] ^ 1, e[k] ^ 0x80}]
            for k, d in enumerate(ins):
                if d not in seen:
                    seen.add(d)
                    cm.append(f'D {i + base} {k % 2} ' + (b'\xcc' * (k % 2) + d).hex())
                    ex.append(hexp(s, ls, d))
    return Chunk(name, S, cm, ex)


def corrupt(quick=True):
    """every truncation and every single-byte substitution of valid messages"""
    ks = list(KINDS)
    dyn = ['str', 'byt', 'ds', 'ads5']
    sq = [(k,) for k in ks] + ([(d, k) for d in dyn for k in ks] if not quick else [('byt', k) for k in ks])
    n = 15
    return in_parallel(_corrupt, [(f'corrupt{k}', sq[k:k + n], 3 if quick else 5, (0, 0xff) if quick else (0, 0x7f, 0x80, 0xff)) for k in range(0, len(sq), n)])

"""Histories of operations on message objects and buffers, explored exhaustively
up to a depth.  The model of an object is the list of its leaf values (None when
a failed decode left it unspecified); the model of a buffer is its bytes."""
import itertools
from .model import *
from .engine import Chunk
from . import families as F


def gexp(ls, toks):
    """expected answer of G"""
    if any(l.kind in ('f32', 'f64') for l in ls):
        return '^' + ''.join({'f32': 'f', 'f64': 'd'}.get(l.kind, '.') for l in ls) + ' . ' + ' '.join(toks)
    return ('. ' + ' '.join(toks)).rstrip()


def qexp(s, toks):
    """expected answer of Q: the encoding, void bits unspecified (they are zero in a fresh buffer or not)"""
    e = encode(s, toks)
    return f'{len(e)} {e.hex()}'.rstrip()


class Sim:
    """explores one history: the commands and the answers the model gives"""
    def __init__(self, sid, s, ls):
        self.sid, self.s, self.ls = sid, s, ls
        self.obj, self.buf = {}, {}
        self.c, self.x = [], []

    def put(self, c, x):
        self.c.append(c)
        self.x.append(x)

    def new(self, o):
        self.obj[o] = None               # defaults differ between targets
        self.put(f'N {o} {self.sid}', 'ok')

    def load(self, b, data):
        self.buf[b] = data
        self.put(f'B {b} {data.hex()}', 'ok')

    def set_all(self, o, toks):
        self.obj[o] = list(toks)
        self.put(f'T {o} ' + ' '.join(toks), 'ok')

    def set_one(self, o, i, tok):
        if self.obj[o] is not None:
            self.obj[o][i] = tok
        self.put(f'S {o} {i} {tok}', 'ok')

    def decode(self, o, b, start=0):
        r, t = decode(self.s, self.buf[b][start:])
        self.obj[o] = None if r < 0 else list(t)
        self.put(f'X {o} {b} {start}', '-1' if r < 0 else str(r))

    def get(self, o):
        if self.obj[o] is None:
            return                       # arrays may be absent from an object that was never filled
        self.put(f'G {o}', gexp(self.ls, self.obj[o]))

    def enc(self, o):
        if self.obj[o] is None:
            return                       # an unset enum may be refused
        self.put(f'Q {o}', qexp(self.s, self.obj[o]))

    def show(self, b):
        self.put(f'Z {b}', self.buf[b].hex())

    def line(self):
        return ';'.join(self.c), ';' + ';'.join(self.x)


def has_const(s):
    return any(f.kind == 'const' for f in flat_fields(s))


def corrupt_const(s, e):
    """a message in which only a constant is wrong"""
    for bit in range(8 * len(e) - 1, -1, -1):
        b = bytearray(e)
        b[bit // 8] ^= 1 << bit % 8
        if size_probe(s, bytes(b)) == ('ok', len(e)) and decode(s, bytes(b))[0] < 0:
            return bytes(b)
    return None


def reuse_structs(extra=()):
    ks = [(k, 'c8') for k in F.KINDS if k not in ('c8', 'c12', 'v5')]
    ks += [('str', 'byt', 'c8'), ('u3', 'v5', 'str'), ('aby5', 'as2', 'c8'), ('ads5', 'byt', 'c8'), ('c12', 'i12b', 'c8'), ('emb', 'ds', 'c8'), ('byt', 'c8', 'ads2')]
    return [F.seq('R' + 'Q'.join(k), k) for k in [*ks, *extra]]


def _reuse(a):
    name, st, depth = a
    S = Schema('mx', F.SEQ_DEFS + st)
    base = len(S.structs()) - len(st)
    cm, ex = [], []
    for i, s in enumerate(st):
        ls = leaves(s)
        v = F.seq_vectors(ls, 4)
        m = [encode(s, x) for x in v]
        bad = corrupt_const(s, m[1])
        ops = [('T', v[0]), ('T', v[2]), ('X', 0), ('X', 1), ('X', 2), ('Q',), ('O',)]
        if bad:
            ops.append(('X', 3))
        if ls:
            ops.append(('S', len(ls) - 1, v[3][-1]))
        for n in range(1, depth + 1):
            for h in itertools.product(range(len(ops)), repeat=n):
                z = Sim(i + base, s, ls)
                z.new(0)
                z.load(0, m[1])
                z.load(1, b'\xb7' + m[3] + b'\x99')
                z.load(2, m[1][:-1])
                if bad:
                    z.load(3, bad)
                if any(ops[k][0] == 'O' for k in h):
                    z.new(1)
                    z.load(4, m[2])
                for k in h:
                    o = ops[k]
                    if o[0] == 'T':
                        z.set_all(0, o[1])
                    elif o[0] == 'S':
                        z.set_one(0, o[1], o[2])
                    elif o[0] == 'X':
                        z.decode(0, o[1], 1 if o[1] == 1 else 0)
                    elif o[0] == 'Q':
                        z.enc(0)
                    else:
                        z.decode(1, 4)          # another object of the type
                z.get(0)
                z.enc(0)
                z.get(0)
                if 1 in z.obj:
                    z.get(1)
                    z.enc(1)
                c, x = z.line()
                cm.append(c)
                ex.append(x)
    return Chunk(name, S, cm, ex)


def reuse(quick=True):
    st = reuse_structs()
    n = 5
    return F.in_parallel(_reuse, [(f'reuse{k}', st[k:k + n], 3 if quick else 4) for k in range(0, len(st), n)])


# ------------------------------------------------------------------ ownership
def dyn_spans(s, data):
    """per leaf: (offset, length) of the content of a string/bytes leaf in a complete message, else None"""
    out = []

    def walk(st, pos):
        for f in flat_fields(st):
            if f.kind in ('void', 'const'):
                pos += f.bits if f.kind == 'void' else f.width()
                continue
            for _ in range(f.n or 1):
                t = f.type
                if isinstance(t, Struct):
                    pos = walk(t, pos)
                elif isinstance(t, Str):
                    z = data.index(b'\0', pos // 8)
                    out.append((pos // 8, z - pos // 8))
                    pos = (z + 1) * 8
                elif isinstance(t, Byt):
                    p, ln, sh = pos // 8, 0, 0
                    while True:
                        b = data[p]
                        p += 1
                        ln |= (b & 0x7f) << sh
                        sh += 7
                        if not b & 0x80:
                            break
                    out.append((p, ln))
                    pos = (p + ln) * 8
                else:
                    out.append((pos // 8, -1) if isinstance(t, Enum) else None)
                    pos += f.elem_width()
        return pos
    walk(s, 0)
    return out


class Own(Sim):
    """like Sim, with the documented zero-copy semantics of the kinds in alias"""
    def __init__(self, sid, s, ls, alias):
        super().__init__(sid, s, ls)
        self.alias, self.ref, self.dead = alias, {}, set()

    def new(self, o):
        super().new(o)
        self.ref[o] = {}

    def set_all(self, o, toks):
        super().set_all(o, toks)
        self.ref[o] = {}

    def set_one(self, o, i, tok):
        super().set_one(o, i, tok)
        self.ref[o].pop(i, None)

    def decode(self, o, b, start=0):
        super().decode(o, b, start)
        self.ref[o] = {}
        if self.obj[o] is None:
            return
        for i, sp in enumerate(dyn_spans(self.s, self.buf[b][start:])):
            if sp and sp[1] >= 0 and self.ls[i].kind in self.alias:
                self.ref[o][i] = (b, start + sp[0], sp[1])

    def refresh(self):
        for o, r in self.ref.items():
            for i, (b, p, n) in r.items():
                self.obj[o][i] = self.obj[o][i][0] + self.buf[b][p:p + n].hex()

    def write(self, b, i, v):
        d = bytearray(self.buf[b])
        d[i] = v
        self.buf[b] = bytes(d)
        self.refresh()

    def poke_buf(self, b, i, v):
        self.put(f'K {b} {i} {v}', 'ok')
        self.write(b, i, v)

    def poke_leaf(self, o, i, j, v):
        self.put(f'M {o} {i} {j} {v}', 'ok')
        if i in self.ref[o]:
            b, p, _ = self.ref[o][i]
            self.write(b, p + j, v)
        else:
            d = bytearray.fromhex(self.obj[o][i][1:])
            d[j] = v
            self.obj[o][i] = self.obj[o][i][0] + d.hex()

    def encode_to(self, o, b, start):
        e = encode(self.s, self.obj[o])
        self.put(f'Y {o} {b} {start}', str(len(e)))
        d = bytearray(self.buf[b])
        d[start:start + len(e)] = e
        self.buf[b] = bytes(d)

    def free(self, b):
        self.put(f'F {b}', 'ok')
        del self.buf[b]


OWN = [('byt',), ('str',), ('byt', 'str'), ('u24', 'byt', 'u24'), ('aby5',), ('as2', 'aby5'), ('ds', 'ds'), ('ads5',), ('ads2', 'byt'),
       ('en', 'au8', 'str', 'byt'), ('i12b', 'c12', 'byt', 'f64b'), ('emb', 'byt'), ('afs5', 'str')]


def own_toks(ls, k):
    out = []
    for j, l in enumerate(ls):
        if l.kind == 'str':
            out.append('s' + (b'abc', b'wxyz', b'q')[(j + k) % 3].hex())
        elif l.kind == 'bytes':
            out.append('b' + (b'\x01\x02\x03', b'\xf0\xe0', b'\x11\x22\x33\x44')[(j + k) % 3].hex())
        else:
            out.append(F.leaf_tok(l, k + 1 + j))
    return out


def _own(a):
    name, st, depth, alias = a
    S = Schema('mx', F.SEQ_DEFS + st)
    base = len(S.structs()) - len(st)
    cm, ex = [], []
    for i, s in enumerate(st):
        ls = leaves(s)
        v1, v2 = own_toks(ls, 0), own_toks(ls, 1)
        m1, m2 = encode(s, v1), encode(s, v2)
        sp = [(k, q) for k, q in enumerate(dyn_spans(s, m1)) if q]
        enums = {q[0] for _, q in sp if q[1] < 0}          # must stay declared values
        sp = [(k, q) for k, q in sp if q[1] >= 0]
        pos = sorted({0, len(m1) - 1} - enums | {x for _, (p, n) in sp[:2] + sp[-1:] for x in (p, p + n - 1)})
        covered = {p + x: ls[k].kind for k, (p, n) in sp for x in range(n)}
        ops = [('K', p) for p in pos if p in covered or not any(p in (q - 1, q + n) for _, (q, n) in sp)]
        by = [k for k, _ in sp if ls[k].kind == 'bytes']
        ops += [('M', k) for k in dict.fromkeys(by[:1] + by[-1:])]
        ops += [('X1',), ('T',), ('S', len(ls) - 1), ('Y',), ('K1',), ('Q',)]
        if not alias:
            ops.append(('F',))
        pre = 1
        for n in range(0, depth + 1):
            for h in itertools.product(range(len(ops)), repeat=n):
                if sum(ops[k][0] == 'F' for k in h) > 1:
                    continue
                z = Own(i + base, s, ls, alias)
                z.new(0)
                z.load(0, b'\x7f' * pre + m1 + b'\x7e')
                room = 2 + max(len(m1), len(m2)) + 8
                z.load(1, b'\xee' * room)
                z.decode(0, 0, pre)
                ok = True
                for k in h:
                    o = ops[k]
                    if 0 not in z.buf and o[0] in ('K', 'X1'):
                        ok = False
                        break
                    if o[0] == 'K':
                        # a constant or a length must keep its meaning for a later decode
                        z.poke_buf(0, pre + o[1], 0x7a if covered.get(o[1]) == 'str' else z.buf[0][pre + o[1]] ^ 0x15)
                    elif o[0] == 'M':
                        z.poke_leaf(0, o[1], 0, 0xc4)
                    elif o[0] == 'X1':
                        if 1 not in z.obj:
                            z.new(1)
                        z.decode(1, 0, pre)
                    elif o[0] == 'T':
                        z.set_all(0, v2)
                    elif o[0] == 'S':
                        z.set_one(0, o[1], v2[o[1]])
                    elif o[0] == 'Y':
                        z.encode_to(0, 1, 2)
                    elif o[0] == 'K1':
                        z.poke_buf(1, 3, 0x5c)
                    elif o[0] == 'Q':
                        z.enc(0)
                    else:
                        z.free(0)
                if not ok:
                    continue
                for o in z.obj:
                    z.get(o)
                    z.enc(o)
                for b in z.buf:
                    z.show(b)
                c, x = z.line()
                cm.append(c)
                ex.append(x)
    return Chunk(name, S, cm, ex)


def own(quick=True):
    """-> {alias kinds: chunks}"""
    st = [F.seq('W' + 'Q'.join(k), k) for k in OWN]
    # void bits have no owner: leave them out
    st = [s for s in st if not any(f.kind == 'void' for f in flat_fields(s))]
    out = {}
    n = 4
    for alias in ((), ('bytes',), ('bytes', 'str')):
        out[alias] = F.in_parallel(_own, [(f'own{k}{"".join(alias)}', st[k:k + n], 3 if quick else 4, alias) for k in range(0, len(st), n)])
    return out


# ------------------------------------------------------------------- equality
EQ = [(k,) for k in F.KINDS if k not in ('c8', 'c12', 'v5')] + \
    [('byt', 'u24', 'byt'), ('str', 'as2', 'c8'), ('emb', 'byt'), ('ads5', 'byt'), ('u3', 'v5', 'aen', 'f32', 'i12b'), ('en', 'fs', 'emb', 'aby5'), ('f32', 'af', 'f64b')]


def zeros(ls, v):
    """the vector with the sign of its zeros turned, None without one"""
    w = [{'00000000': '80000000', '0000000000000000': '8' + 15 * '0'}.get(t, t) if l.kind in ('f32', 'f64') else t for l, t in zip(ls, v)]
    return w if w != v else None


def _equal(a):
    name, st, full = a
    S = Schema('mx', F.SEQ_DEFS + st)
    base = len(S.structs()) - len(st)
    cm, ex = [], []
    for i, s in enumerate(st):
        ls = leaves(s)
        v0, v1 = F.seq_vectors(ls, 2)
        vs = [v0] + [v0[:k] + [F.leaf_tok(ls[k], q)] + v0[k + 1:] for k in range(len(ls)) for q in range(5)]
        vs = [list(x) for x in dict.fromkeys(map(tuple, vs + [v1] + ([zeros(ls, v0)] if zeros(ls, v0) else [])))]
        neg = lambda v: [{'80000000': '00000000', '8' + 15 * '0': 16 * '0'}.get(t, t) if l.kind in ('f32', 'f64') else t for l, t in zip(ls, v)]
        n0 = [neg(v) for v in vs]
        ways = ['T', 'X', 'XT', 'TX', 'ST']

        def make(z, o, way, v):
            z.new(o)
            for w in way:
                if w == way[-1]:
                    x = v
                else:
                    x = v1
                if w == 'S':                # field by field, last one first
                    z.set_all(o, v1)
                    for k in reversed(range(len(ls))):
                        z.set_one(o, k, v[k])
                elif w == 'T':
                    z.set_all(o, x)
                else:
                    b = 2 * o + (w != way[-1])
                    z.load(b, b'\x5a' * (1 + o) + encode(s, x) + b'\x77')
                    z.decode(o, b, 1 + o)
        for p in range(len(vs)):
            for q in range(len(vs)):
                if p and q and p != q and not full:
                    continue
                for a1 in ways:
                    for b1 in (ways if full or p == q else ways[:2]):
                        z = Sim(i + base, s, ls)
                        make(z, 0, a1, vs[p])
                        make(z, 1, b1, vs[q])
                        x = 'eq' if vs[p] == vs[q] else 'eq|ne' if n0[p] == n0[q] else 'ne'
                        z.put('= 0 1', x)
                        z.get(0)
                        z.get(1)
                        # equal again once both hold the same
                        z.set_all(1, vs[p])
                        z.put('= 1 0', 'eq')
                        c, x = z.line()
                        cm.append(c)
                        ex.append(x)
        # objects that were never filled
        z = Sim(i + base, s, ls)
        z.new(0)
        z.new(1)
        z.put('= 0 1', 'eq')
        z.set_all(1, v1)
        z.put('= 0 1', 'ne')
        c, x = z.line()
        cm.append(c)
        ex.append(x)
    return Chunk(name, S, cm, ex)


def equal(quick=True):
    st = [F.seq('E' + 'Q'.join(k), k) for k in EQ]
    n = 4
    return F.in_parallel(_equal, [(f'equal{k}', st[k:k + n], not quick) for k in range(0, len(st), n)])

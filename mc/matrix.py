"""Enumeration of (type, width, byte order, bit offset, array length) field placements
and of the values driven through them."""
from .model import *

NUM = ['bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float32', 'float64']


def dom(kind, tbits, w):
    """token domain of a leaf: exhaustive up to 8 bits, otherwise the vectors
    that determine a bit permutation (every single bit set and clear) and the
    boundary and truncation vectors"""
    full = (1 << tbits) - 1
    m = (1 << w) - 1
    if kind == 'bool':
        return ['0', '1']
    if kind in ('int', 'uint') and w <= 8:
        raw = list(range(1 << w))
    else:
        raw = [0, m]
        raw += [1 << i for i in range(w)]
        raw += [m ^ (1 << i) for i in range(w)]
        raw += [0x5555555555555555 & m, 0xAAAAAAAAAAAAAAAA & m, 0x0123456789ABCDEF & m, 0xFEDCBA9876543210 & m]
    out = []
    for r in raw:
        out.append(tok_of(Basic({'int': 'int', 'uint': 'uint'}[kind] + str(tbits)), w, r) if kind in ('int', 'uint') else
                   ('%08x' % r if kind == 'f32' else '%016x' % r))
    if w < tbits:
        # values that do not fit the field: only the low w bits travel
        ov = [full, full ^ m, 1 << w, (1 << (tbits - 1)) | 1, 0xA5A5A5A5A5A5A5A5 & full]
        for r in ov:
            if kind == 'int':
                out.append(str(r - (1 << tbits) if r >> (tbits - 1) else r))
            elif kind == 'uint':
                out.append(str(r))
            else:
                out.append('%08x' % r if kind == 'f32' else '%016x' % r)
    out = list(dict.fromkeys(out))
    return [t for t in out if not is_nan(kind, t)]


class Case:
    """one struct of the matrix and the leaf vectors to drive through it"""
    def __init__(self, struct, widths):
        self.struct = struct
        self.ls = leaves(struct)
        self.widths = widths

    def doms(self):
        return [dom(l.kind, l.type.bits, l.width) if not isinstance(l.type, Enum) else enum_dom(l.type, l.width) for l in self.ls]


def enum_dom(e, w):
    return [str(v) for _, v in e.numbers() if v < (1 << w)]


def place(name, t, w, order, n=None, offsets=range(8)):
    """one struct holding the field at every given bit offset, separated by uint8 pads"""
    fs, pos = [], 0
    for k in offsets:
        d = (k - pos) % 8
        if d:
            fs.append(Field('normal', Basic('uint8'), f'p{len(fs)}', bits=d))
            pos += d
        fs.append(Field('normal', t, f'f{len(fs)}', n=n, bits=w * (n or 1), order=order))
        pos += w * (n or 1)
    d = -pos % 8
    if d:
        fs.append(Field('normal', Basic('uint8'), f'p{len(fs)}', bits=d))
    return Struct(name, fs)


def vectors(ls, full):
    """leaf vectors: every value of every field domain, on a background of
    all-zero and all-one pads, neighbours taking different values"""
    doms = [dom(l.kind, l.type.bits, l.width) if not isinstance(l.type, Enum) else enum_dom(l.type, l.width) for l in ls]
    pad = [l.path[-1][0].startswith('p') for l in ls]
    L = max(len(d) for d, p in zip(doms, pad) if not p)
    out = []
    for bg in (0, 1):
        for i in range(L):
            v = []
            for j, (d, p) in enumerate(zip(doms, pad)):
                if p:
                    v.append(str(((1 << ls[j].width) - 1) * bg))
                else:
                    v.append(d[(i + j * 3) % len(d)])
            out.append(v)
    if not full:
        # quick tier of wide helper matrices: one background per vector
        out = [v for k, v in enumerate(out) if (k // L + k) % 2 == 0]
    return out


def scalar_structs(types=NUM, widths=None, orders=(None, 'big')):
    for tn in types:
        t = Basic(tn)
        for w in range(1, t.bits + 1):
            if widths and w not in widths(t):
                continue
            for o in orders:
                yield place(f'M{tn}w{w}{o or "l"}', t, w, o)


def array_structs(types=NUM, n=3, widths=None, orders=(None, 'big'), offsets=range(8)):
    for tn in types:
        t = Basic(tn)
        for w in range(1, t.bits + 1):
            if widths and w not in widths(t):
                continue
            for o in orders:
                yield place(f'A{tn}w{w}{o or "l"}n{n}', t, w, o, n=n, offsets=offsets)

"""Reference model of a Bubbler schema and of its wire format.

Written from README.md ("Protocol Syntax") with big integers and explicit bit
positions; it shares no code and no algorithm with the generators (which work
byte-wise with masks and shifts).
"""
from dataclasses import dataclass, field as dcfield
from typing import List, Optional, Tuple
import struct as _struct


# ---------------------------------------------------------------- types
@dataclass(frozen=True)
class Basic:
    name: str           # bool int8.. uint64 float32 float64
    @property
    def bits(self):
        return {'bool': 8}.get(self.name) or int(''.join(c for c in self.name if c.isdigit()))
    @property
    def kind(self):
        if self.name == 'bool':
            return 'bool'
        if self.name.startswith('uint'):
            return 'uint'
        if self.name.startswith('int'):
            return 'int'
        return 'f32' if self.name == 'float32' else 'f64'


@dataclass(frozen=True)
class Str:
    kind = 'str'
    name = 'string'


@dataclass(frozen=True)
class Byt:
    kind = 'bytes'
    name = 'bytes'


@dataclass
class Enum:
    name: str
    bits: int
    values: List[Tuple[str, Optional[int]]]
    kind = 'enum'

    def numbers(self):
        out, prev = [], -1
        for n, v in self.values:
            prev = prev + 1 if v is None else v
            out.append((n, prev))
        return out


@dataclass
class Field:
    kind: str                    # normal const void embed
    type: object = None          # Basic/Str/Byt/Enum/Struct
    name: Optional[str] = None
    n: Optional[int] = None      # array length
    bits: Optional[int] = None   # explicit size
    order: Optional[str] = None
    value: object = None         # python value for const
    value_text: Optional[str] = None
    inline: bool = False         # struct type defined in place
    methods: List[str] = dcfield(default_factory=list)

    def big(self):
        return self.order == 'big'

    def dyn(self):
        t = self.type
        if self.kind == 'void':
            return False
        return isinstance(t, (Str, Byt)) or (isinstance(t, Struct) and t.dyn())

    def width(self):
        """total fixed bits (0 for string/bytes)"""
        if self.bits is not None:
            return self.bits
        t = self.type
        if isinstance(t, (Str, Byt)):
            return 0
        w = t.fixed_bits() if isinstance(t, Struct) else t.bits
        return w * (self.n if self.n else 1)

    def elem_width(self):
        return self.width() // (self.n if self.n else 1)


@dataclass
class Struct:
    name: str
    fields: List[Field]
    kind = 'struct'
    size_bits: Optional[int] = None   # declared

    def dyn(self):
        return any(f.dyn() for f in self.fields)

    def fixed_bits(self):
        return sum(f.type.fixed_bits() if f.kind == 'embed' else f.width() for f in self.fields)


# ---------------------------------------------------------------- text
def size_text(bits):
    b, r = divmod(bits, 8)
    if b and r:
        return f'{b}#{r}'
    return f'#{r}' if r else f'{b}'


def type_text(t):
    return t.name


def lit(v, t=None):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, str):
        return '"' + v + '"'
    return str(v)


def field_text(f, ind='    '):
    if f.kind == 'void':
        return f'{ind}void [{size_text(f.bits)}];'
    if f.kind == 'embed':
        if f.inline:
            return struct_text(f.type, ind) + ';'
        return f'{ind}{f.type.name};'
    s = struct_text(f.type, ind) if f.inline else ind + type_text(f.type)
    if f.n is not None:
        s += f'<{f.n}>'
    if f.name:
        s += ' ' + f.name
    if f.bits is not None:
        s += f'[{size_text(f.bits)}]'
    if f.kind == 'const':
        s += ' = ' + (f.value_text or lit(f.value))
    if f.order:
        s += f' [order = "{f.order}"]'
    if f.methods:
        s += ' {\n' + ''.join(f'{ind}    {m}\n' for m in f.methods) + ind + '}'
    return s + ';'


def struct_text(s, ind=''):
    head = f'{ind}struct {s.name}'
    if s.size_bits is not None:
        head += f'[{size_text(s.size_bits)}]'
    return head + ' {\n' + '\n'.join(field_text(f, ind + '    ') for f in s.fields) + f'\n{ind}}}'


def enum_text(e):
    vs = ' '.join((n if v is None else f'{n} = {v}') + ',' for n, v in e.values)
    return f'enum {e.name}[{size_text(e.bits)}] {{ {vs} }}'


@dataclass
class Schema:
    package: str
    defs: list                    # Enum / Struct in order
    options: dict = dcfield(default_factory=dict)
    imports: list = dcfield(default_factory=list)
    home: dict = dcfield(default_factory=dict)     # type name -> Schema of the imported file that defines it

    def text(self):
        o = [f'package {self.package};']
        for k, v in self.options.items():
            o.append(f'option {k} = {lit(v)};')
        for i in self.imports:
            o.append(f'import "{i}";')
        for d in self.defs:
            o.append((enum_text(d) if isinstance(d, Enum) else struct_text(d)) + ';')
        return '\n'.join(o) + '\n'

    def structs(self):
        out = []
        for d in self.defs:
            if isinstance(d, Struct):
                out.append(d)
        return out

    def enums(self):
        return [d for d in self.defs if isinstance(d, Enum)]


# ---------------------------------------------------------------- leaves
@dataclass
class Leaf:
    path: tuple       # ((name, idx|None), ...)
    kind: str
    type: object
    width: int
    big: bool


def flat_fields(st):
    """fields with embedded structs flattened"""
    for f in st.fields:
        if f.kind == 'embed':
            yield from flat_fields(f.type)
        else:
            yield f


def leaves(st, prefix=()):
    out = []
    for f in flat_fields(st):
        if f.kind != 'normal':
            continue
        for i in ([None] if f.n is None else range(f.n)):
            p = prefix + ((f.name, i),)
            if isinstance(f.type, Struct):
                out += leaves(f.type, p)
            else:
                out.append(Leaf(p, f.type.kind, f.type, f.elem_width(), f.big()))
    return out


# ---------------------------------------------------------------- codec
def vbit(w, big, f):
    """which bit of the w-bit value travels at bit f of the field"""
    if not big:
        return f
    k, r = divmod(f, 8)
    return max(w - 8 * (k + 1), 0) + r


def wire_of(w, big, v):
    """the field's w bits in wire order (wire bit f at bit f)"""
    v &= (1 << w) - 1
    if not big or w <= 8:
        return v
    out, full = 0, w // 8
    for k in range(full):                    # whole bytes, most significant first
        out |= (v >> (w - 8 * (k + 1)) & 255) << (8 * k)
    r = w % 8
    return out | (v & ((1 << r) - 1)) << (8 * full)


def value_of(w, big, x):
    """inverse of wire_of"""
    if not big or w <= 8:
        return x
    out, full = 0, w // 8
    for k in range(full):
        out |= (x >> (8 * k) & 255) << (w - 8 * (k + 1))
    return out | x >> (8 * full)


class _W:
    """bits written so far as one big integer, bit p of the frame = bit p"""
    def __init__(self):
        self.v, self.n = 0, 0

    @property
    def b(self):
        return self.v.to_bytes((self.n + 7) // 8, 'little')

    def need(self, bits):
        self.n = max(self.n, bits)

    def put(self, pos, w, big, v):
        self.need(pos + w)
        self.v |= wire_of(w, big, v) << pos


def raw_of(kind, tok):
    """token -> unsigned raw value (bit pattern)"""
    if kind in ('int', 'uint', 'bool', 'enum'):
        return int(tok)
    return int(tok, 16)


def const_raw(f):
    t, v = f.type, f.value
    if isinstance(t, Enum):
        return dict(t.numbers())[v] if isinstance(v, str) else v
    if t.kind == 'f32':
        return int.from_bytes(_struct.pack('<f', v), 'little')
    if t.kind == 'f64':
        return int.from_bytes(_struct.pack('<d', v), 'little')
    return int(v)


def varint(n):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        out.append(b | (0x80 if n else 0))
        if not n:
            return bytes(out)


def own_mask(st, toks):
    """bit mask (bytes) of the bits the encoding owns: everything but void"""
    w, m = _W(), _W()
    _enc(st, iter(toks), w, 0, m)
    w.need(0)
    m.need(w.n)
    return bytes(m.b)


def encode(st, toks):
    w, m = _W(), _W()
    it = iter(toks)
    pos = _enc(st, it, w, 0, m)
    w.need(pos)
    assert pos % 8 == 0, (st.name, pos)
    return bytes(w.b)


def _enc(st, it, w, pos, m):
    for f in flat_fields(st):
        if f.kind == 'void':
            pos += f.bits
            w.need(pos)
            continue
        if f.kind == 'const':
            if isinstance(f.type, Str):
                data = f.value.encode() + b'\0'
                assert pos % 8 == 0
                w.need(pos)
                for c in data:
                    w.put(pos, 8, False, c)
                    m.put(pos, 8, False, 255)
                    pos += 8
                continue
            w.put(pos, f.width(), f.big(), const_raw(f))
            m.put(pos, f.width(), False, -1)
            pos += f.width()
            continue
        for _ in range(f.n or 1):
            t = f.type
            if isinstance(t, Struct):
                pos = _enc(t, it, w, pos, m)
                continue
            tok = next(it)
            if isinstance(t, (Str, Byt)):
                assert pos % 8 == 0
                d = bytes.fromhex(tok[1:])
                d = d + b'\0' if isinstance(t, Str) else varint(len(d)) + d
                for c in d:
                    w.put(pos, 8, False, c)
                    m.put(pos, 8, False, 255)
                    pos += 8
            else:
                ew = f.elem_width()
                w.put(pos, ew, f.big(), raw_of(t.kind, tok))
                m.put(pos, ew, False, -1)
                pos += ew
    return pos


class Short(Exception):
    """data insufficient"""


class Bad(Exception):
    """malformed: no continuation can be a valid frame"""


def size_probe(st, data):
    """-> ('ok', size) | ('need', minimal size of any complete frame with this prefix) | ('bad', None)"""
    n = len(data)
    state = {'short': False}

    def walk(s, pos):
        for f in flat_fields(s):
            if f.kind == 'void':
                pos += f.bits
                continue
            if f.kind == 'const' and isinstance(f.type, Str):
                pos = dynstr(pos)
                continue
            if f.kind == 'const':
                pos += f.width()
                continue
            for _ in range(f.n or 1):
                t = f.type
                if isinstance(t, Struct):
                    pos = walk(t, pos)
                elif isinstance(t, Str):
                    pos = dynstr(pos)
                elif isinstance(t, Byt):
                    pos = dynbytes(pos)
                else:
                    pos += f.elem_width()
        return pos

    def dynstr(pos):
        p = pos // 8
        if p >= n:
            state['short'] = True
            return pos + 8
        z = data.find(b'\0', p)
        if z < 0:
            state['short'] = True
            return (n + 1) * 8
        return (z + 1) * 8

    def dynbytes(pos):
        p = pos // 8
        ln, sh = 0, 0
        while True:
            if p >= n:
                state['short'] = True
                p += 1
                break
            b = data[p]
            p += 1
            ln |= (b & 0x7f) << sh
            sh += 7
            if not b & 0x80:
                break
        if ln >= 1 << 31:
            raise Bad()
        if p + ln > n:
            state['short'] = True
        return (p + ln) * 8

    try:
        total = walk(st, 0)
    except Bad:
        return ('bad', None)
    total = (total + 7) // 8
    if total > n or state['short']:
        return ('need', max(total, n + 1))
    return ('ok', total)


def get(data, pos, w, big):
    x = int.from_bytes(data[pos // 8:(pos + w + 7) // 8], 'little') >> (pos % 8) & ((1 << w) - 1)
    return value_of(w, big, x)


def tok_of(t, w, raw):
    k = t.kind
    if k == 'bool':
        return '1' if raw else '0'
    if k in ('uint', 'enum'):
        return str(raw)
    if k == 'int':
        return str(raw - (1 << w) if raw >> (w - 1) & 1 else raw)
    if k == 'f32':
        return '%08x' % raw
    return '%016x' % raw


def decode(st, data):
    """-> (ret, tokens) ; ret -1 on failure"""
    k, size = size_probe(st, data)
    if k != 'ok':
        return -1, None
    toks = []

    def walk(s, pos):
        for f in flat_fields(s):
            if f.kind == 'void':
                pos += f.bits
                continue
            if f.kind == 'const':
                if isinstance(f.type, Str):
                    z = data.index(b'\0', pos // 8)
                    if data[pos // 8:z] != f.value.encode():
                        raise Bad()
                    pos = (z + 1) * 8
                    continue
                w = f.width()
                if get(data, pos, w, f.big()) != const_raw(f) & ((1 << w) - 1):
                    raise Bad()
                pos += w
                continue
            for _ in range(f.n or 1):
                t = f.type
                if isinstance(t, Struct):
                    pos = walk(t, pos)
                elif isinstance(t, Str):
                    z = data.index(b'\0', pos // 8)
                    toks.append('s' + data[pos // 8:z].hex())
                    pos = (z + 1) * 8
                elif isinstance(t, Byt):
                    p, ln, sh = pos // 8, 0, 0
                    while True:
                        b = data[p]
                        p += 1
                        ln |= (b & 0x7f) << sh
                        sh += 7
                        if not b & 0x80:
                            break
                    toks.append('b' + data[p:p + ln].hex())
                    pos = (p + ln) * 8
                else:
                    w = f.elem_width()
                    toks.append(tok_of(t, w, get(data, pos, w, f.big())))
                    pos += w
        return pos
    try:
        walk(st, 0)
    except Bad:
        return -1, None
    return size, toks


def is_nan(kind, tok):
    if kind == 'f32':
        v = int(tok, 16)
        return v & 0x7f800000 == 0x7f800000 and v & 0x7fffff != 0
    if kind == 'f64':
        v = int(tok, 16)
        return v & 0x7ff0000000000000 == 0x7ff0000000000000 and v & 0xfffffffffffff != 0
    return False


def canon(ls, toks):
    """canonical tokens: all NaNs equal"""
    return ['nan' if l.kind in ('f32', 'f64') and is_nan(l.kind, t) else t for l, t in zip(ls, toks)]

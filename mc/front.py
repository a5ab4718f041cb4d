"""Reference model of the schema language's static rules (README "Protocol
Syntax"), written independently of the compiler: an abstract schema renders to
source text, and check() says which declarations break a rule.

A field is a tuple:
  ('n', type, name, size, tail)   normal; tail is text for options/methods
  ('v', size)                     void
  ('c', basic, name|None, size, value_text, value)   constant, value: int/float/bool/('id', NAME)
  ('e', type)                     embedded
type: 'uint8' .. 'float64' 'bool' 'string' 'bytes' | Name | ('arr', type, n) | ('def', SDef) | ('kw', 'struct'|'enum', Name)
size: None or (text, bits) where text goes between brackets
"""
from dataclasses import dataclass, field as dcf
from typing import List

BITS = {'bool': 8, 'int8': 8, 'int16': 16, 'int32': 32, 'int64': 64, 'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64, 'float32': 32, 'float64': 64}
DYN = None          # size of a variable-size type
MAX = 1 << 63       # sizes are bit counts in a 63-bit range


@dataclass
class SDef:
    name: str
    fields: list
    size: object = None
    line: int = 0


@dataclass
class EDef:
    name: str
    size: object
    values: list        # (name, None|int|('id', NAME)|other text)
    line: int = 0


def sz(nbytes=None, nbits=None):
    if nbytes is None:
        return (f'#{nbits}', nbits)
    if nbits is None:
        return (f'{nbytes}', nbytes * 8)
    return (f'{nbytes}#{nbits}', nbytes * 8 + nbits)


def tname(t):
    if isinstance(t, tuple):
        if t[0] == 'arr':
            return f'{tname(t[1])}<{t[2]}>'
        if t[0] == 'kw':
            return f'{t[1]} {t[2]}'
        raise ValueError(t)
    return t


class Render:
    """renders definitions to text, one declaration per line, and remembers the lines"""
    def __init__(self, head='package p;'):
        self.lines = head.split('\n')
        self.at = {}            # id(object) -> (first line, last line)

    def sdef(self, d, tail=';'):
        a = len(self.lines) + 1
        self.lines.append(f'struct {d.name}' + (f'[{d.size[0]}]' if d.size else '') + ' {')
        for f in d.fields:
            self.field(f)
        self.lines.append('}' + tail)
        self.at[id(d)] = (a, len(self.lines))

    def field(self, f):
        a = len(self.lines) + 1
        k = f[0]
        if k == 'v':
            self.lines.append(f'void[{f[1][0]}];')
        elif k == 'c':
            self.lines.append(f[1] + (f' {f[2]}' if f[2] else '') + (f'[{f[3][0]}]' if f[3] else '') + f' = {f[4]};')
        else:
            t = f[1]
            tail = ''
            if k == 'n':
                tail = f' {f[2]}' + (f'[{f[3][0]}]' if f[3] else '') + (f' {f[4]}' if len(f) > 4 and f[4] else '')
            inner = t[1] if isinstance(t, tuple) and t[0] == 'arr' else t
            if isinstance(inner, tuple) and inner[0] == 'def':
                arr = f'<{t[2]}>' if inner is not t else ''
                self.sdef(inner[1], arr + tail + ';')
            else:
                self.lines.append(tname(t) + tail + ';')
        self.at[id(f)] = (a, len(self.lines))

    def edef(self, d):
        a = len(self.lines) + 1
        self.lines.append(f'enum {d.name}[{d.size[0]}] {{')
        for n, v in d.values:
            self.lines.append(n + ('' if v is None else f' = {v[1] if isinstance(v, tuple) else v}') + ',')
        self.lines.append('};')
        self.at[id(d)] = (a, len(self.lines))

    def text(self):
        return '\n'.join(self.lines) + '\n'


class Check:
    """the rules; errs collects (line range, reason)"""
    def __init__(self, r):
        self.r, self.errs = r, []
        self.types = {}         # name -> ('struct', bits|DYN, {flattened names}) / ('enum', bits)
        self.names = set()

    def err(self, o, why):
        self.errs.append((self.r.at[id(o)], why))

    def declare(self, o, name):
        if name in self.names:
            self.err(o, f'duplicate name {name}')
            return False
        self.names.add(name)
        return True

    def edef(self, d):
        ok = self.declare(d, d.name)
        if d.size[1] <= 0:
            self.err(d, 'enum size')
        if not d.values:
            self.err(d, 'empty enum')
        seen = set()
        for n, v in d.values:
            if n in seen:
                self.err(d, 'duplicate value')
            seen.add(n)
            self.declare(d, n)
        if ok:
            self.types[d.name] = ('enum', d.size[1])

    # -> ('struct'|'enum'|'basic'|'str'|'bytes', bits|DYN, extra) or None when in error
    def rtype(self, t, f):
        if isinstance(t, tuple):
            if t[0] == 'arr':
                e = self.rtype(t[1], f)
                if e is None:
                    return None
                if t[2] <= 0:
                    self.err(f, 'array length')
                    return None
                if e[1] is not DYN and e[1] * t[2] >= MAX:
                    self.err(f, 'array size out of range')
                    return None
                return ('arr', DYN if e[1] is DYN else e[1] * t[2], (e, t[2]))
            if t[0] == 'def':
                return self.sdef(t[1])
            if t[0] == 'kw':
                x = self.types.get(t[2])
                if x is None:
                    self.err(f, f'unknown type {t[2]}')
                elif x[0] != t[1]:
                    self.err(f, f'{t[2]} is not a {t[1]}')
                    x = None
                return x
        if t in BITS:
            return ('basic', BITS[t], t)
        if t == 'string' or t == 'bytes':
            return (t, DYN, None)
        x = self.types.get(t)
        if x is None:
            self.err(f, f'unknown type {t}')
        return x

    @staticmethod
    def must_align(x):
        while x[0] == 'arr':
            x = x[2][0]
        return x[0] in ('struct', 'string', 'bytes')

    def sdef(self, d):
        n0 = len(self.errs)
        self.declare(d, d.name)
        if d.size and not 0 < d.size[1] < MAX:
            self.err(d, 'struct size')
        pos, dyn, seen = 0, False, set()

        def name(f, n):
            if n is None:
                return
            if n in seen:
                self.err(f, f'duplicate field {n}')
            seen.add(n)

        for f in d.fields:
            k = f[0]
            if k == 'v':
                if not 0 < f[1][1] < MAX:
                    self.err(f, 'void size')
                    continue
                w = f[1][1]
            elif k == 'c':
                w = BITS[f[1]]
                if f[3] is not None:
                    if not 0 < f[3][1] <= w:
                        self.err(f, 'constant size')
                        continue
                    w = f[3][1]
                if not self.const_ok(f):
                    self.err(f, 'constant type')
                name(f, f[2])
            elif k == 'n':
                x = self.rtype(f[1], f)
                if x is None:
                    continue
                w = x[1]
                if f[3] is not None:
                    s = f[3][1]
                    if x[1] is DYN:
                        self.err(f, 'size on a variable-size type')
                        continue
                    if not 0 < s <= x[1] or (x[0] == 'arr' and s % x[2][1]) or (x[0] == 'struct' and s != x[1]):
                        self.err(f, 'field size')
                        continue
                    w = s
                name(f, f[2])
                if self.must_align(x) and pos % 8:
                    self.err(f, 'alignment')
                if w is DYN:
                    dyn, w = True, 0
            else:
                x = self.rtype(f[1], f)
                if x is None:
                    continue
                if x[0] != 'struct':
                    self.err(f, 'only a struct can be embedded')
                    continue
                # embedding means: its fields stand here
                name(f, f[1][1].name if isinstance(f[1], tuple) and f[1][0] == 'def' else (f[1][2] if isinstance(f[1], tuple) else f[1]))
                off = pos
                for fk, fw, fn, al, fo in x[2]:
                    name(f, fn)
                    if al and off % 8:
                        self.err(f, 'alignment')
                        if id(fo) in self.r.at:
                            self.err(fo, 'alignment')
                    if fw is not DYN:
                        off += fw
                w = off - pos
                dyn = dyn or x[1] is DYN
            pos += w
            if pos >= MAX:
                self.err(d, "struct size out of range")
        if not d.fields:
            self.err(d, 'empty struct')
        if len(self.errs) == n0:
            if pos % 8:
                self.err(d, 'struct not whole bytes')
            if d.size and (dyn or d.size[1] != pos):
                self.err(d, 'declared struct size')
        if len(self.errs) > n0:
            return None
        flat = []
        for f in d.fields:
            if f[0] == 'v':
                flat.append(('v', f[1][1], None, False, f))
            elif f[0] == 'c':
                flat.append(('c', f[3][1] if f[3] else BITS[f[1]], f[2], False, f))
            elif f[0] == 'n':
                x = self.rt(f[1])
                flat.append(('n', x[1] if f[3] is None else f[3][1], f[2], self.must_align(x), f))
            else:
                t = f[1]
                x = self.rt(t)
                flat.append(('e', 0, t[1].name if isinstance(t, tuple) and t[0] == 'def' else (t[2] if isinstance(t, tuple) else t), False, f))
                flat += x[2]
        x = ('struct', DYN if dyn else pos, flat)
        self.types_inner[d.name] = x
        return x

    types_inner = None

    def rt(self, t):
        """type already checked"""
        if isinstance(t, tuple):
            if t[0] == 'arr':
                e = self.rt(t[1])
                return ('arr', DYN if e[1] is DYN else e[1] * t[2], (e, t[2]))
            if t[0] == 'def':
                return self.types_inner[t[1].name]
            return self.types[t[2]]
        if t in BITS:
            return ('basic', BITS[t], t)
        if t in ('string', 'bytes'):
            return (t, DYN, None)
        return self.types[t]

    def const_ok(self, f):
        v, t = f[5], f[1]
        if isinstance(v, bool):
            return t == 'bool'
        if isinstance(v, int):
            return t.startswith('uint') and v >= 0 or t.startswith('int')
        if isinstance(v, float):
            return t.startswith('float')
        return False

    def run(self, defs):
        self.types_inner = {}
        for d in defs:
            if isinstance(d, EDef):
                self.edef(d)
            else:
                x = self.sdef(d)
                if x is not None:
                    self.types[d.name] = x
        return self.errs


def analyse(defs, head='package p;'):
    """-> (source text, [(line range, reason)])"""
    r = Render(head)
    for d in defs:
        r.edef(d) if isinstance(d, EDef) else r.sdef(d)
    return r.text(), Check(r).run(defs)

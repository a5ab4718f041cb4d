"""Accessor expressions: an enumeration of typed expression trees, their text,
and what they mean.

Meaning is mathematical.  An input is used only where every language can be
expected to agree on it: every intermediate result fits the accessor's type
(unsigned types: its lower half, because Java has no unsigned types), divisions
are exact and remainders are of non-negative numbers."""
import itertools, struct
from .model import Basic

INTS = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64']
ARITH = ['+', '-', '*', '/', '%', '<<', '>>', '&', '^', '|']
CMP = ['<', '<=', '>', '>=', '==', '!=']
PREC = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '<=': 7, '>': 7, '>=': 7, '==': 6, '!=': 6,
        '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}
V = ('v',)


def rng(t):
    b = Basic(t).bits
    return (0, (1 << b - 1) - 1) if t[0] == 'u' else (-(1 << b - 1), (1 << b - 1) - 1)


class Out(Exception):
    """not in the domain"""


def ev(e, v, t):
    """value of e where 'value' is v and t the type of arithmetic"""
    def fit(x, ty):
        if ty == 'bool':
            return x
        if ty == 'float64':
            return float(x)
        lo, hi = rng(ty)
        if not lo <= x <= hi or x != int(x):
            raise Out
        return int(x)
    k = e[0]
    if k == 'v':
        return v
    if k == 'c':
        return e[1]
    if k == 'cast':
        return fit(ev(e[2], v, t), e[1])
    if k == 'u':
        x = ev(e[2], v, t)
        return (not x) if e[1] == '!' else fit({'-': lambda: -x, '+': lambda: x, '~': lambda: ~x}[e[1]](), t)
    if k == 't':
        # both branches count: some languages evaluate nothing lazily here
        c, a, b = ev(e[1], v, t), ev(e[2], v, t), ev(e[3], v, t)
        return a if c else b
    op = e[1]
    a, b = ev(e[2], v, t), ev(e[3], v, t)
    if op in CMP:
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if op in ('&&', '||'):
        return (a and b) if op == '&&' else (a or b)
    if t == 'float64':
        if op == '/' and b == 0:
            raise Out
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
    if op in '/%' and (b == 0 or op == '%' and (a < 0 or b < 0)):
        raise Out
    if op == '/' and (a % b or abs(a) > 1 << 53):
        raise Out
    if op in ('<<', '>>') and not (0 <= b < Basic(t).bits and a >= 0):
        raise Out
    if op == '**':
        if not 0 <= b < 64 or abs(a) > 1 << 16 or abs(a ** b) > 1 << 53:
            raise Out
        return fit(a ** b, t)
    return fit({'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a // b, '%': lambda: a % b, '<<': lambda: a << b,
                '>>': lambda: a >> b, '&': lambda: a & b, '^': lambda: a ^ b, '|': lambda: a | b}[op](), t)


def divides(e):
    """the value may be a binary floating point number in JavaScript and Python"""
    k = e[0]
    if k == 'b':
        return e[1] == '/' or e[1] in '+-*%' and (divides(e[2]) or divides(e[3]))
    return k == 'u' and e[1] in '+-' and divides(e[2])


def text(e, t, lvl=0):
    """with no more parentheses than the grammar needs"""
    k = e[0]
    if k == 'v':
        return 'value'
    if k == 'c':
        if isinstance(e[1], bool):
            return 'true' if e[1] else 'false'
        x = f'(({t}){e[1]})' if t in ('int64', 'uint64') else repr(e[1])
        return f'({x})' if x[0] == '-' and lvl > 12 else x
    if k == 'cast':
        s, p = f'({e[1]}){text(e[2], t, 11)}', 11
    elif k == 'u':
        a = ('cast', t, e[2]) if e[1] == '~' and divides(e[2]) else e[2]
        s, p = e[1] + text(a, t, 13 if a[0] in 'uc' and (a[0] == 'u' or str(a[1])[0] == '-') else 12), 12
    elif k == 't':
        br = lambda x: f'({t}){text(x, t, 11)}' if e[4] else f'(bool){text(x, t, 11)}'
        s, p = f'{text(e[1], t, 1)} ? {br(e[2])} : {br(e[3])}', 0
    elif e[1] == '**':
        f = lambda x: text(x if x[0] in 'vc' else ('cast', t, x), t, 11)     # Go: no float64(1 << x)
        return f'(({t})(((float64){f(e[2])}) ** ((float64){f(e[3])})))'
    else:
        p = PREC[e[1]]
        f = lambda x: ('cast', t, x) if e[1] in ('<<', '>>', '&', '^', '|') and t != 'bool' and divides(x) else x
        s = f'{text(f(e[2]), t, p)} {e[1]} {text(f(e[3]), t, p + 1)}'
    return f'({s})' if p < lvl else s


def inputs(t, full=True):
    if t == 'bool':
        return [False, True]
    if t == 'float64':
        return [0.0, 1.0, -1.0, 2.5, -7.25, 1024.0, 3.0, -0.5, 1e9]
    lo, hi = rng(t)
    if Basic(t).bits == 8:
        return list(range(lo, hi + 1))
    xs = list(range(max(lo, -20), 34)) + [1 << k for k in range(5, Basic(t).bits)] + [(1 << k) - 1 for k in range(5, Basic(t).bits)]
    xs += [-(1 << k) for k in range(5, Basic(t).bits)] + [hi, hi - 1, hi // 2, hi // 3, lo, lo + 1, 1000, 12345, 100, 48, 60, 96]
    return sorted({x for x in xs if lo <= x <= hi})


def shapes(t, depth):
    """expression trees whose constants are holes ('h', i)"""
    H = lambda i: ('h', i)
    B = lambda op, a, b: ('b', op, a, b)
    out = []
    if t == 'bool':
        L = ['&&', '||', '==', '!=']
        U = lambda a: ('u', '!', a)
        T = lambda c, a, b: ('t', c, a, b, False)
        base = [V, ('c', True), ('c', False)]
        d1 = [U(V)] + [B(o, a, b) for o in L for a, b in ((V, base[1]), (V, base[2]), (base[1], V), (base[2], V), (V, V))] + [T(V, base[1], base[2]), T(V, base[2], base[1])]
        out += [V] + d1
        for o in L:
            for x in d1:
                for c in base:
                    out += [B(o, x, c), B(o, c, x)]
        out += [U(x) for x in d1] + [T(x, c, U(c)) for x in d1 for c in base[:2]]
        return out
    ar = ARITH[:4] if t == 'float64' else [o for o in ARITH + ['**'] if not (Basic(t).bits == 64 and o in ('<<', '>>'))]
    un = ['-', '+', '~'] if t in INTS and t[0] == 'i' else ['+'] if t in INTS else ['-', '+']
    if t in ('int64', 'uint64'):
        un = [u for u in un if u != '+']      # JavaScript: + of a BigInt
    U = lambda o, a: ('u', o, a)
    T = lambda c, a, b: ('t', c, a, b, True)
    h0, h1, h2 = H(0), H(1), H(2)
    d1 = [B(o, a, b) for o in ar for a, b in ((V, h0), (h0, V), (V, V))] + [U(o, V) for o in un]
    d1 += [T(B(o, V, h0), h1, h2) for o in CMP] + [T(B('<', h0, V), V, h1)]
    out += [V] + d1
    for a, b in itertools.product(ar, repeat=2):
        out += [B(b, B(a, V, h0), h1), B(a, h0, B(b, V, h1)), B(b, B(a, h0, V), V), B(a, V, B(b, h0, V)), B(a, V, B(b, V, h0))]
    for u in un:
        for a in ar:
            out += [U(u, B(a, V, h0)), B(a, U(u, V), h0), B(a, h0, U(u, V))]
        out += [U(u, U(w, V)) for w in un] + [U(u, U(u, U(w, V))) for w in un]
    for c in CMP:
        for a in ar:
            out += [T(B(c, B(a, V, h0), h1), V, h2), T(B(c, h1, B(a, V, h0)), h2, V)]
        for l in ('&&', '||', '==', '!='):
            for d in CMP:
                out += [T(B(l, B(c, V, h0), B(d, h1, V)), h2, V)]
        out += [T(('u', '!', B(c, V, h0)), h1, V)]
        for a in ar[:3]:
            out += [B(a, T(B(c, V, h0), V, h1), h2), B(a, h2, T(B(c, V, h0), h1, V))]
    for l, m in itertools.product(('&&', '||'), repeat=2):
        p, q, r = B('<', V, h0), B('>', V, h1), B('!=', V, h2)
        out += [T(B(m, B(l, p, q), r), V, h0), T(B(l, p, B(m, q, r)), V, h0), T(B(m, ('u', '!', p), q), h2, V), T(('u', '!', B(m, p, q)), h2, V)]
    if depth > 2:
        for a, b, c in itertools.product(ar, repeat=3):
            x, y = B(a, V, h0), B(c, h1, V)
            out += [B(b, x, y), B(c, B(b, x, V), h2), B(c, B(b, h2, x), V), B(a, V, B(b, h0, B(c, V, h1))), B(a, h1, B(c, B(b, V, h0), V))]
    if t != 'float64' and t[0] == 'i':
        n = ('c', -3)
        out += [B(o, V, n) for o in ('+', '-', '*', '&', '|', '^')] + [B(o, n, V) for o in ('+', '-', '*', '&', '|', '^')]
        out += [B(o, V, U(u, n)) for o in ('+', '-') for u in un] + [B('-', V, U(u, U(w, n))) for u in un for w in un]
    if t == 'uint32':
        out = [e for e in out if not shift_by_value(e)]
    return list(dict.fromkeys(out))


def shift_by_value(e):
    """C# has no shift of or by an unsigned 32-bit value but uint << constant"""
    if e[0] == 'b' and e[1] in ('<<', '>>') and (has_v(e[3]) or not has_v(e[2])):
        return True
    return any(shift_by_value(x) for x in e if isinstance(x, tuple))


def has_v(e):
    return e == V or any(has_v(x) for x in e if isinstance(x, tuple))


def fill(e, cs):
    if e[0] == 'h':
        return ('c', cs[e[1]])
    return tuple(fill(x, cs) if isinstance(x, tuple) else x for x in e)


def holes(e):
    return {e[1]} if e[0] == 'h' else set().union(*[holes(x) for x in e if isinstance(x, tuple)], set())


CONSTS = [(2, 3, 1), (1, 2, 3), (5, 1, 2), (3, 2, 7), (7, 4, 5), (1, 6, 2), (12, 3, 2), (3, 5, 1)]


def results(e, t, ins):
    out = []
    for v in ins:
        try:
            out.append((v, ev(e, v, t)))
        except Out:
            pass
    return out


def exprs(t, depth=2, per=1):
    """(expression, text, [(input, result)]): for every shape the constants that
    give the most inputs and, among them, the most different results"""
    ins = inputs(t)
    for s in shapes(t, depth):
        n = len(holes(s))
        cand = []
        for cs in CONSTS if n else CONSTS[:1]:
            if t == 'float64':
                cs = tuple(c + 0.5 if i % 2 else float(c) for i, c in enumerate(cs))
            e = fill(s, cs)
            r = results(e, t, ins)
            if r:
                cand.append((min(len({x for _, x in r}), 12), min(len(r), 12), -len(cand), e, r))
        cand.sort(key=lambda c: c[:3], reverse=True)
        for *_, e, r in cand[:per]:
            if len(r) > 24:
                r = r[:8] + r[len(r) // 2 - 4:len(r) // 2 + 4] + r[-8:]
            yield e, text(e, t), r

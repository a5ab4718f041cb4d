"""C12 and the other checks of the compiler front end"""
import itertools, os, re
from mc import batch, front as F
from mc.front import SDef, EDef, sz

DIAG = re.compile(r'^(\S+\.bb):(-?\d+):(-?\d+): (?:compile )?error', re.M)


def where(r):
    """lines of the main diagnostics"""
    return [int(m.group(2)) for m in DIAG.finditer(r.err)]


def judge(c, r):
    """c.expect: {'errs': [((first line, last line), reason)]} (empty: accepted)"""
    errs = c.expect['errs']
    src = c.files.get('a.bb', '')
    key = c.tag
    if r.panic:
        return key, f'crash on {src!r}: {r.panic[:300]}'
    if not errs:
        if r.rc != 0:
            return key, f'valid schema refused (exit {r.rc}): {r.err.strip()[-200:]} -- {src!r}'
        if c.tree and not any(k.startswith('out/') and not k.endswith('/') for k in r.tree):
            return key, f'nothing generated for {src!r}'
        return None
    if r.rc != 1:
        return key, f'invalid schema ({errs[0][1]}) accepted (exit {r.rc}): {src!r}'
    at = where(r)
    if not at:
        return key, f'no diagnostic with a position for {src!r}: {r.err.strip()[:200]}'
    if not any(a <= x <= b for x in at for (a, b), _ in errs):
        return key, f'diagnostic points to line {at}, the fault ({errs}) is elsewhere: {src!r}'
    if any(k.startswith('out/') for k in r.tree):
        return key, f'output generated although the schema was refused: {src!r}'
    return None


def replay(rp, prop):
    c = batch.Case(**rp['case'], tag=rp['tag'], expect=rp['expect'])
    r = batch.cli(c)
    j = JUDGES.get(prop, judge)
    v = j(c, r)
    return [f'{v[0]}: {v[1]}'] if v else []


JUDGES = {}


def case(tag, defs, target='c', flags=()):
    src, errs = F.analyse(defs)
    return batch.Case({'a.bb': src}, ['-t', target, '-o', 'out', *flags, 'a.bb'], tree=True, tag=tag, expect={'errs': [(list(a), b) for a, b in errs]})


ENUMS = [EDef('Ea', sz(None, 3), [('E_A', None), ('E_B', None)]), EDef('Eb', sz(1), [('E_C', None)]), EDef('Ec', sz(1, 4), [('E_D', None)])]
STRUCTS = [SDef('Fa', [('n', 'uint8', 'q', None, '')]), SDef('Fc', [('n', 'uint16', 'q', sz(1, 4), ''), ('v', sz(None, 4)), ('n', 'bool', 'r', None, '')]),
           SDef('Dy', [('n', 'uint8', 'l', None, ''), ('n', 'string', 's', None, '')])]
BASE = ENUMS + STRUCTS

TYPES = ['bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64', 'string', 'bytes', 'Ea', 'Eb', 'Ec', 'Fa', 'Fc', 'Dy']


def sizes():
    out = [None]
    out += [sz(b) for b in (0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24)]
    out += [sz(None, k) for k in (*range(0, 20), 23, 24, 25, 31, 32, 33, 40, 48, 63, 64, 65, 96, 128)]
    out += [sz(b, k) for b in (0, 1, 2, 3, 4, 7, 8) for k in (0, 1, 4, 7, 8, 9)]
    out += [('0x2', 16), ('010', 64), ('#0x8', 8), ('#010', 8), ('#0X1f', 31), ('00', 0), ('#00', 0)]
    return out


HUGE = [('2305843009213693953', 2305843009213693953 * 8), ('2305843009213693952', 1 << 64), ('1152921504606846976', 1 << 63), ('1152921504606846975', (1 << 63) - 8),
        ('1152921504606846975#8', 1 << 63), ('#9223372036854775807', (1 << 63) - 1), ('1#9223372036854775807', (1 << 63) + 7), ('9223372036854775807', ((1 << 63) - 1) * 8),
        ('1152921504606846975#7', (1 << 63) - 1), ('4611686018427387904#8', (1 << 65) + 8)]


def single(q):
    """one field of every type with every size, at byte and bit offsets, with and without fixing the total"""
    lens = (None, 1, 2, 3, 8) if q else (None, 1, 2, 3, 4, 5, 8, 9, 16)
    for t in TYPES:
        for n in lens:
            for s in sizes() + HUGE:
                ty = t if n is None else ('arr', t, n)
                for off in (0, 4) if q else (0, 1, 4, 7):
                    f = ('n', ty, 'a', s, '')
                    fs = ([('v', sz(None, off))] if off else []) + [f]
                    # complete the struct to whole bytes
                    probe = SDef('S', fs)
                    _, e = F.analyse([*BASE, probe])
                    name = f'{F.tname(ty)}[{s[0] if s else ""}]@{off}'
                    yield case('field:' + name, [*BASE, probe])
                    if any(w == 'struct not whole bytes' for _, w in e):
                        for k in range(1, 8):
                            fit = SDef('S', [*fs, ('v', sz(None, k))])
                            if not F.analyse([*BASE, fit])[1]:
                                yield case('padded:' + name, [*BASE, fit])
                                break
                        yield case('short:' + name, [*BASE, SDef('S', [*fs, ('v', sz(None, k % 7 + 1 if k != 8 else 1))])])


def consts(q):
    vals = [('0', 0), ('1', 1), ('-1', -1), ('+3', 3), ('0x7f', 127), ('017', 15), ('true', True), ('false', False), ('1.5', 1.5), ('-2.5e3', -2500.0), ('.5', .5), ('2.', 2.0), ('inf', 1e400),
            ('9223372036854775807', 2**63 - 1)]
    for t in F.BITS:
        for s in sizes() if not q else sizes()[::3]:
            for name in ('k', None):
                for txt, v in vals:
                    f = ('c', t, name, s, txt, v)
                    for k in range(8):
                        d = SDef('S', [f] + ([('v', sz(None, k))] if k else []))
                        src, e = F.analyse([d])
                        if not any(w == 'struct not whole bytes' for _, w in e):
                            break
                    yield case(f'const:{t}[{s[0] if s else ""}]={txt}{"" if name else " unnamed"}', [d])


ALPHA = [('v', sz(None, 4)), ('v', sz(1)), ('n', 'uint8', None, sz(None, 4), ''), ('n', 'bool', None, sz(None, 1), ''), ('n', 'uint16', None, None, ''), ('n', 'int64', None, sz(3), ''),
         ('n', 'string', None, None, ''), ('n', 'bytes', None, None, ''), ('n', 'Fc', None, None, ''), ('n', 'Dy', None, None, ''), ('n', 'Ea', None, None, ''),
         ('n', ('arr', 'uint8', 3), None, sz(None, 12), ''), ('n', ('arr', 'Fa', 2), None, None, ''), ('n', ('arr', 'string', 2), None, None, ''), ('n', ('arr', 'Dy', 2), None, None, ''),
         ('e', 'Fc'), ('e', 'Dy'), ('c', 'uint8', None, sz(None, 4), '5', 5), ('c', 'uint16', None, None, '0x1234', 0x1234), ('n', 'float32', None, sz(None, 31), ''),
         ('n', ('def', None), None, None, ''), ('e', ('def', None))]


def fresh(f):
    """the same field as another object"""
    f = list(f)
    if f[0] in 'ne' and isinstance(f[1], tuple) and f[1][0] == 'def':
        d = f[1][1]
        f[1] = ('def', SDef(d.name, [fresh(x) for x in d.fields], d.size))
    return tuple(f)


def inst(f, i):
    f = list(f)
    if f[0] == 'n':
        f[2] = f'f{i}'
    if f[0] in 'ne' and isinstance(f[1], tuple) and f[1][0] == 'def':
        f[1] = ('def', SDef(f'In{i}', [('n', 'uint8', f'g{i}', None, '')]))
    return tuple(f)


def seqs(q):
    """every sequence of fields, with the declared struct size absent, right, and wrong"""
    n = 3 if q else 4
    for k in range(0, n + 1):
        for h in itertools.product(range(len(ALPHA)), repeat=k):
            fs = [inst(ALPHA[x], i) for i, x in enumerate(h)]
            tag = 'seq:' + '.'.join(map(str, h))
            yield case(tag, [*BASE, SDef('S', fs)])
            tot = 0
            for x in fs:
                tot += width(x)
            for d in (0, 8, -8, 1) if k < 4 else (0,):
                if tot + d > 0:
                    s = sz((tot + d) // 8) if (tot + d) % 8 == 0 and (tot + d) else sz(None, tot + d)
                    yield case(f'{tag}:size{d:+d}', [*BASE, SDef('S', fs, s)])
                    if d == 0 and tot % 8 == 0:
                        yield case(f'{tag}:sizebits', [*BASE, SDef('S', fs, sz(None, tot))])


WID = {'Fa': 8, 'Fc': 24, 'Dy': 8, 'Ea': 3}


def width(f):
    if f[0] == 'v':
        return f[1][1]
    if f[0] == 'c':
        return f[3][1] if f[3] else F.BITS[f[1]]
    if f[0] == 'n' and f[3]:
        return f[3][1]

    def tw(t):
        if isinstance(t, tuple):
            if t[0] == 'arr':
                return tw(t[1]) * t[2] if t[1] not in ('string', 'Dy') else 0
            return 8
        return 0 if t in ('string', 'bytes') or (t == 'Dy' and f[0] == 'n') else WID.get(t) or F.BITS[t]
    return tw(f[1])


def misc():
    """definitions without content, arrays without length, wrong kinds, duplicate names"""
    U = ('n', 'uint8', 'a', None, '')
    yield case('empty struct', [SDef('S', [])])
    yield case('empty inner struct', [SDef('S', [U, ('n', ('def', SDef('T', [])), 'b', None, '')])])
    yield case('empty enum', [EDef('E', sz(1), [])])
    for n in (0, 1, 2, 255, 65535, 1 << 20):
        for t in ('uint8', 'string', 'Fa', 'Dy', 'Eb'):
            if n <= 4 or t in ('uint8',):
                yield case(f'array {t}<{n}>', [*BASE, SDef('S', [('n', ('arr', t, n), 'a', None, '')])])
    for n in (1 << 60, (1 << 60) - 1, (1 << 61), (1 << 62), (1 << 63) - 1):
        for t in ('uint8', 'uint16', 'int64', 'Fa', 'Eb'):
            if {'uint16': 16, 'int64': 64}.get(t, 8) * n < F.MAX:
                continue                 # valid, but C output has a statement per element
            yield case(f'array {t}<{n}>', [*BASE, SDef('S', [('n', ('arr', t, n), 'a', None, '')])])
            yield case(f'array {t}<{n}>[1]', [*BASE, SDef('S', [('n', ('arr', t, n), 'a', sz(1), '')])])
    for a in HUGE[2:]:
        for b in HUGE[2:]:
            yield case(f'void {a[0]} {b[0]}', [SDef('S', [('v', a), ('v', b)])])
        for k in range(8):
            yield case(f'void {a[0]} + {k}', [SDef('S', [('v', a)] + ([('v', sz(None, k))] if k else []))])
            yield case(f'void {a[0]} + 1#{k}', [SDef('S', [('v', a), ('v', sz(1, k))])])
        yield case(f'struct [{a[0]}]', [SDef('S', [U], a)])
        yield case(f'struct [{a[0]}] void', [SDef('S', [('v', a)], a)])
    for kw in ('struct', 'enum'):
        for n in ('Fa', 'Fc', 'Dy', 'Ea', 'Eb', 'Nope'):
            yield case(f'{kw} {n} a', [*BASE, SDef('S', [('n', ('kw', kw, n), 'a', None, ''), ('v', sz(None, 8))])])
            yield case(f'{kw} {n} a;pad', [*BASE, SDef('S', [('n', ('kw', kw, n), 'a', None, ''), ('v', sz(None, 5))])])
            yield case(f'{kw} {n}', [*BASE, SDef('S', [U, ('e', ('kw', kw, n))])])
    for t in TYPES + ['Nope', 'S']:
        yield case(f'embed {t}', [*BASE, SDef('S', [('e', t)])])
        yield case(f'embed {t} behind 4 bits', [*BASE, SDef('S', [('v', sz(None, 4)), ('e', t)])])
        yield case(f'embed {t}<2>', [*BASE, SDef('S', [('e', ('arr', t, 2))])])
        yield case(f'use {t}', [*BASE, SDef('S', [U, ('n', t, 'b', None, '')])])
    # names inside one struct: fields, constants, embedded structs and what they bring along
    el = [('n', 'uint8', 'q', None, ''), ('n', 'uint8', 'r', None, ''), ('c', 'uint8', 'q', None, '1', 1), ('c', 'uint8', None, None, '1', 1), ('e', 'Fa'), ('e', 'Fc'),
          ('n', ('def', SDef('Fd', [('n', 'uint8', 'q', None, '')])), 'z', None, ''), ('e', ('def', SDef('Fe', [('n', 'uint8', 'q', None, '')]))),
          ('e', ('def', SDef('Ff', [('n', 'uint8', 'x', None, ''), ('e', ('def', SDef('Fg', [('n', 'uint8', 'y', None, '')])))]))), ('n', 'uint8', 'y', None, ''), ('e', 'Fh')]
    more = [SDef('Fh', [('e', 'Fa')])]
    for k in (1, 2, 3):
        for h in itertools.product(range(len(el)), repeat=k):
            yield case('names:' + '.'.join(map(str, h)), [*BASE, *more, SDef('S', [fresh(el[x]) for x in h])])


def methods():
    """accessors only on basic types, with a name of their own, and one type per name"""
    M = {'g': 'get {n}({t}): value;', 's': 'set {n}({t}): value;'}
    out = []
    for t in TYPES + [('arr', 'uint8', 2)]:
        out.append((f'method on {F.tname(t)}', t, 'get m(uint8): value;', t in F.BITS))
    pairs = [(k, n, ty) for k in 'gs' for n in ('m', 'n', 'a', 'b') for ty in ('uint8', 'float64')]
    for a in pairs:
        out.append((f'm1 {a}', 'uint8', M[a[0]].format(n=a[1], t=a[2]), a[1] not in 'ab'))
        for b in pairs:
            ok = a[1] not in 'ab' and b[1] not in 'ab' and not (a[1] == b[1] and (a[0] == b[0] or a[2] != b[2]))
            out.append((f'm2 {a}{b}', 'uint8', M[a[0]].format(n=a[1], t=a[2]) + ' ' + M[b[0]].format(n=b[1], t=b[2]), ok))
    for tag, t, m, ok in out:
        pad = {3: 5, 12: 4}.get({'Ea': 3, 'Ec': 12}.get(t), 0)
        d = SDef('S', [('n', t, 'a', None, '{ %s }' % m)] + ([('v', sz(None, pad))] if pad else []) + [('n', 'uint8', 'b', None, '')])
        src, errs = F.analyse([*BASE, d])
        assert not errs, errs
        ln = [i + 1 for i, x in enumerate(src.split('\n')) if '{ get' in x or '{ set' in x or x.endswith(' b;') or x == 'uint8 b;']
        yield batch.Case({'a.bb': src}, ['-t', 'c', '-o', 'out', 'a.bb'], tree=True, tag=tag, expect={'errs': [] if ok else [([min(ln), max(ln)], 'method')]})


def C12(rep):
    q = rep.tier == 'quick'
    rep.assumptions.append('schemas accepted by the model are compiled for C')
    batch.run(itertools.chain(misc(), methods(), consts(q), single(q), seqs(q)), judge, rep)

"""C14: every text is either compiled or refused, never anything else"""
import itertools, re
from mc import batch, gram

TARGETS = ['c', 'cpp', 'csharp', 'commonjs', 'esmodule', 'go', 'java', 'kotlin', 'python']
TOKENS = ['syntax', 'import', 'get', 'set', 'value', 'package', 'option', 'void', 'bool', 'int8', 'int64', 'uint8', 'uint16', 'float32', 'float64', 'string', 'bytes', 'enum', 'struct', 'true',
          '#', ';', '=', '?', '(', ')', '[', ']', '{', '}', '<', '<=', '>', '>=', '==', '!=', '.', ',', ':', '+', '-', '*', '/', '%', '**', '<<', '>>', '&', '|', '^', '~', '&&', '||', '!',
          '"s"', '0', '7', '0xff', '1.5', 'nan', 'x', 'X', 'T', 'V', 'p', '$', '"', '9223372036854775808']
BASES = {
    'all': '''package p.q ; option omit_empty = true ; enum K [ #4 ] { V = 1 , W = V , U [ a = 1 ] ; } ; struct T [ 2 ] { uint16 t [ order = "big" ] ; } ;
struct S { uint8 a [ #4 ] ; K k ; T n ; T < 2 > m ; uint8 c [ #4 ] = 5 ; void [ #4 ] ; struct In { int8 z ; } i ; struct Em { uint8 e ; } ; string s ; bytes b ; float32 f ; uint16 < 3 > arr [ 6 ] [ order = "little" ] ;
uint16 g { get h ( uint8 ) : value / 2 + ( 1 << 3 ) ; set h ( uint8 ) : value == 0 ? 0 : - value ; } ; } ;''',
    'small': 'package p ; enum K [ 1 ] { V , } ; struct S { uint8 x [ #3 ] ; K y [ #5 ] ; }',
    'methods': 'package p ; struct S { int16 v [ #12 ] { get a ( float32 ) : ( float32 ) value * 2.5 ; set a ( float32 ) : ( int16 ) ( value / 2.5 ) ; get b ( bool ) : value > 3 && ! ( value != 7 ) ; } ; void [ #4 ] ; } ;',
    'consts': 'package p ; struct S { uint8 = 0x1f ; int16 n = - 5 [ order = "big" ] ; bool [ #1 ] = true ; void [ #7 ] ; float32 f = 1.5 ; uint8 k [ #3 ] = 7 ; uint8 [ #5 ] = 0 ; } ;',
}
CTX = {     # contexts in which token sequences stand
    'file': '@', 'top': 'package p ; struct T { uint8 t ; } ; @', 'struct': 'package p ; struct T { uint8 t ; } ; struct S { uint8 x ; @ } ;', 'enum': 'package p ; enum K [ 1 ] { V , @ } ; struct S { uint8 x ; }',
    'field': 'package p ; struct T { uint8 t ; } ; struct S { uint8 x @ ; } ;', 'type': 'package p ; enum K [ 1 ] { V , } ; struct T { uint8 t ; } ; struct S { uint16 @ x ; } ;', 'size': 'package p ; struct S { uint16 x [ @ ] ; uint8 y ; } ;',
    'value': 'package p ; struct S { uint8 x = @ ; } ;', 'expr': 'package p ; struct S { uint8 x { get g ( uint8 ) : @ ; } ; } ;', 'method': 'package p ; struct S { uint8 x { @ } ; } ;', 'option': 'package p ; option @ ; struct S { uint8 x ; } ;',
    'foption': 'package p ; struct S { uint16 x [ @ ] ; } ;', 'import': 'package p ; import @ ; struct S { uint16 x ; } ;', 'package': 'package @ ; struct S { uint8 x ; } ;',
}


def case(tag, text, tgt='c'):
    f = text if isinstance(text, str) else batch.raw(text)
    return batch.Case({'a.bb': f}, ['-t', tgt, '-o', 'out', 'a.bb'], tree=True, tag=tag, expect={'t': tgt})


def judge(c, r):
    f = c.files['a.bb']
    src = batch.content(f, '').decode('utf-8', 'replace')
    tgt = c.expect['t']
    show = src if len(src) < 300 else src[:300] + '...'
    if r.panic:
        p = r.panic if r.panic.startswith('no answer') else re.sub(r'\s+', ' ', r.panic)[:400]
        # one report per place that crashes
        m = re.findall(r'^\t\S*?/((?:compiler|generator|definition|util|fileio|parser)/\S+\.go):\d+', r.panic, re.M)
        return f'crash:{tgt}:{m[0] if m else c.tag}', f'{tgt}: {show!r} does not end in an answer: {p}'
    if r.rc not in (0, 1):
        return f'exit:{tgt}:{c.tag}', f'{tgt}: {show!r} exits with {r.rc}: {r.err[:300]}'
    outs = [k for k in r.tree if k.startswith('out/') and not k.endswith('/')]
    if r.rc == 1:
        if not r.err.strip():
            return f'silent:{c.tag}', f'{show!r} is refused without a message'
        if outs and tgt == 'c':
            return f'output:{c.tag}', f'{show!r} is refused, but output is generated'
        n = src.count('\n') + 1
        for m in re.finditer(r'a\.bb:(-?\d+):(-?\d+):', r.err):
            if int(m.group(1)) > n:
                return f'place:{c.tag}', f'{show!r} has {n} lines, reported line {m.group(1)}: {r.err[:200]}'
        if 'syntax error' in r.err and tgt == 'c' and gram.grammatical(src):
            return f'grammar:{c.tag}', f'{show!r} follows the grammar, but is a syntax error: {r.err[:200]}'
    else:
        if tgt == 'c':
            if not gram.grammatical(src):
                return f'accepted:{c.tag}', f'{show!r} is outside the grammar, but is accepted'
            if not outs and 'omit_empty' not in src:
                return f'nothing:{c.tag}', f'{show!r} is accepted, but nothing is generated'
    return None


def mutations(base, q):
    t = BASES[base].split()
    n = len(t)
    yield 'self', t
    for i in range(n):
        yield f'del{i}', t[:i] + t[i + 1:]
        yield f'dup{i}', t[:i + 1] + t[i:]
        yield f'cut{i}', t[:i]
        yield f'tail{i}', t[i:]
        if i + 1 < n:
            yield f'swap{i}', t[:i] + [t[i + 1], t[i]] + t[i + 2:]
        for x in TOKENS:
            if x != t[i]:
                yield f'put{i}{x}', t[:i] + [x] + t[i + 1:]
            yield f'ins{i}{x}', t[:i] + [x] + t[i:]
    # any stretch removed or repeated
    for i in range(n):
        for j in range(i + 2, n + 1):
            if j - i > 12 and q:
                break
            yield f'cutout{i}-{j}', t[:i] + t[j:]
            if j - i <= 12:
                yield f'rep{i}-{j}', t[:j] + t[i:]
    if not q and n < 60:
        for i in range(n):
            for j in range(i + 1, n):
                yield f'del{i},{j}', t[:i] + t[i + 1:j] + t[j + 1:]
                yield f'swap{i},{j}', t[:i] + [t[j]] + t[i + 1:j] + [t[i]] + t[j + 1:]
                for x in TOKENS:
                    yield f'put{i},{j}{x}', t[:i] + [x] + t[i + 1:j] + [x] + t[j + 1:]


def texts(q):
    for b in BASES:
        for tag, t in mutations(b, q):
            yield f'{b}:{tag}', ' '.join(t)
    for cx, tmpl in CTX.items():
        for k in range(0, 3 if q else 4):
            if k == 3 and cx in ('top', 'value', 'package', 'import'):
                continue
            for s in itertools.product(TOKENS, repeat=k):
                yield f'{cx}:{" ".join(s)}', tmpl.replace('@', ' '.join(s))
    # layout: the same tokens glued together, on separate lines, with comments, with other newlines
    for b, s in BASES.items():
        for nm, sep in (('newline', '\n'), ('crlf', '\r\n'), ('cr', '\r'), ('tab', '\t'), ('ff', '\f'), ('comment', '/**/'), ('line', '//x\n'), ('line2', ' // ; } "\n'), ('block', ' /* ; } " // */ '), ('blockln', '/*\n*/')):
            yield f'layout:{b}:{nm}', sep.join(s.split())
            yield f'layout:{b}:{nm}:2', sep + sep.join(s.split()) + sep
        g = re.sub(r' ?([^\w ]) ?', r'\1', s)
        yield f'layout:{b}:glued', g
    small = 'package p;enum K[1]{V,};struct S{K k;uint8 x[#8]=0x1f;string s;}'
    for i in range(len(small) + 1):
        yield f'trunc{i}', small[:i]
        for b in range(256):
            yield f'insbyte{i}:{b}', small[:i].encode() + bytes([b]) + small[i:].encode()
            if i < len(small):
                yield f'setbyte{i}:{b}', small[:i].encode() + bytes([b]) + small[i + 1:].encode()
    for k in (0, 1) if q else (0, 1, 2):
        for s in itertools.product(range(256), repeat=k):
            yield f'bytes:{bytes(s).hex()}', bytes(s)
    for w in ('﻿package p;struct S{uint8 x;}', 'package p;\u2028struct S{uint8 x;}', 'package ü;struct S{uint8 x;}', 'package p;struct Sé{uint8 x;}', 'package p;/*ü*/struct S{uint8 x;}//é', 'package p;option go_package="ü";struct S{uint8 x;}', 'package p;option go_package="\\377";struct S{uint8 x;}'):
        yield f'unicode:{w!r}', w
    # nesting and length
    for n in (0, 1, 2, 3, 4, 5, 6, 14):
        for inner in ('', '<2>'):
            for name in (' d{0}', ''):
                if n == 14 and (inner or not name):
                    continue
                if inner and not name:
                    continue
                ins = 'uint8 z;'
                for i in range(n):
                    ins = f'struct D{i} {{ uint8 y{i}; {ins} }}{inner}{name.format(i)};'
                yield f'nest{inner}{name}:{n}'.replace(' ', ''), f'package p; struct S {{ {ins} }}'
        yield f'nest-open:{n}', 'package p; struct S { ' + ' '.join(f'struct D{i} {{' for i in range(n))
    for n in ((1, 2, 5, 20, 60) if q else (1, 2, 5, 20, 60, 150, 400)):
        yield f'embed:{n}', 'package p; struct E0 { uint8 x0; } ' + ' '.join(f'struct E{i} {{ E{i - 1}; uint8 x{i}; }}' for i in range(1, n))
        yield f'hold:{n}', 'package p; struct E0 { uint8 x0; } ' + ' '.join(f'struct E{i} {{ E{i - 1} e; uint8 x{i}; }}' for i in range(1, n))
        yield f'fields:{n}', 'package p; struct S { ' + ' '.join(f'uint8 f{i};' for i in range(n * 10)) + ' }'
        yield f'structs:{n}', 'package p; ' + ' '.join(f'struct S{i} {{ uint8 f; }}' for i in range(n * 5))
        yield f'values:{n}', 'package p; enum K[4] { ' + ' '.join(f'V{i},' for i in range(n * 20)) + ' } struct S { K k; }'
        for op, cl in (('(', ')'), ('-', ''), ('!', ''), ('(uint8)', ''), ('value + (', ')'), ('value ? value : (', ')')):
            yield f'expr {op} {n}', f'package p; struct S {{ uint8 x {{ get g(uint8): {op * n}value{cl * n}; }}; }}'
            yield f'expr open {op} {n}', f'package p; struct S {{ uint8 x {{ get g(uint8): {op * n}; }}; }}'
        for op in ('+', '**', '?', ':', '&&', '<<', ''):
            yield f'chain {op} {n}', f'package p; struct S {{ uint8 x {{ get g(uint8): {f" {op} ".join(["value"] * (n + 1))}; }}; }}'
        yield f'name:{n}', f'package {"p" * n * 20}; struct S{"s" * n * 20} {{ uint8 x{"x" * n * 20}; }}'
        yield f'dots:{n}', f'package {".".join(["p"] * min(n, 60))}; struct S {{ uint8 x; }}'
        yield f'semis:{n}', 'package p; struct S { uint8 x; }' + ';' * n * 100
        yield f'comment:{n}', 'package p; struct S { uint8 x; }' + '/*' * n * 100 + '*/'
        yield f'faults:{n}', 'package p; struct S { ' + 'uint8 x[#9];' * n + ' }'


def C14(rep):
    q = rep.tier == 'quick'
    accepted = []

    def j(c, r):
        v = judge(c, r)
        if r.rc == 0 and not r.panic and c.expect['t'] == 'c':
            accepted.append(c)
        return v

    batch.run((case(t, s) for t, s in texts(q)), j, rep, conform=1000)
    seen, rest = set(), []
    for c in accepted:
        if c.files['a.bb'] not in seen:
            seen.add(c.files['a.bb'])
            rest.append(c)
    rep.add(accepted=len(rest))

    def others():
        for c in rest:
            for t in TARGETS[1:]:
                yield batch.Case(c.files, ['-t', t, '-o', 'out', 'a.bb'], tree=False, tag=c.tag, expect={'t': t})
    batch.run(others(), judge, rep, conform=1000)


def replay(rp, prop):
    c = batch.Case(**rp['case'], tag=rp['tag'], expect=rp['expect'])
    v = judge(c, batch.cli(c))
    return [f'{v[0]}: {v[1]}'] if v else []

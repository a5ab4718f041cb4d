"""C18: spelling rules of names"""
import itertools, re
from mc import batch

KINDS = {     # (capitalized?, standard, template, line of the name)
    'struct': (1, 'pascal', 'package p;\nstruct {n} {{ uint8 x; }};\n'),
    'inline struct': (1, 'pascal', 'package p;\nstruct Outer {{ uint8 w;\nstruct {n} {{ uint8 x; }};\n}};\n'),
    'nested struct': (1, 'pascal', 'package p;\nstruct Outer {{ uint8 w;\nstruct {n} {{ uint8 x; }} y;\n}};\n'),
    'enum': (1, 'pascal', 'package p;\nenum {n}[1] {{ VALUE, }};\nstruct S {{ uint8 x; }};\n'),
    'value': (1, 'allcap', 'package p;\nenum Kind[1] {{\n{n} = 3, }};\nstruct S {{ uint8 x; }};\n'),
    'field': (0, 'snake', 'package p;\nstruct S {{ uint8 w;\nuint8 {n}; }};\n'),
    'array field': (0, 'snake', 'package p;\nstruct S {{ uint8 w;\nuint8<2> {n}; }};\n'),
    'constant': (0, 'snake', 'package p;\nstruct S {{ uint8 w;\nuint8 {n} = 7; }};\n'),
    'getter': (0, 'snake', 'package p;\nstruct S {{ uint8 w {{\nget {n}(uint8): value; }}; }};\n'),
    'setter': (0, 'snake', 'package p;\nstruct S {{ uint8 w {{\nget gg(uint8): value;\nset {n}(uint8): value; }}; }};\n'),
}
# a name of this form is certainly standard / only a name of this form can be
SURE = {'pascal': r'([A-Z][a-z]+)+[0-9]*', 'snake': r'[a-z]+[0-9]*(_[a-z]+[0-9]*)*', 'allcap': r'[A-Z]+[0-9]*(_[A-Z]+[0-9]*)*'}
MUST = {'pascal': r'_*[A-Z][A-Za-z0-9]*_*', 'snake': r'_*[a-z][a-z0-9]*(_[a-z0-9]+)*_*', 'allcap': r'_*[A-Z][A-Z0-9]*(_[A-Z0-9]+)*_*'}
RES = {'value', 'struct', 'enum', 'get', 'set', 'void', 'bool', 'true', 'false', 'inf', 'nan', 'import', 'option', 'package', 'string', 'bytes', 'syntax'}



def case(kind, n, rec=None):
    src = KINDS[kind][2].format(n=n)
    ln = 1 + src[:src.index(n if kind != 'struct' else f'struct {n}')].count('\n')
    return batch.Case({'a.bb': src}, ['-t', 'c', '-o', 'out', 'a.bb'], tree=True, tag=f'{kind}:{n}', expect={'kind': kind, 'name': n, 'line': ln, 'rec': rec})


REC = {}


def judge(c, r):
    kind, n = c.expect['kind'], c.expect['name']
    up, std, _ = KINDS[kind]
    if r.panic:
        return c.tag, f'{kind} name {n!r}: crash: {r.panic[:300]}'
    first = n.lstrip('_')[:1]
    ok = first.isupper() if up else first.islower()
    if not ok:
        if r.rc != 1:
            return c.tag, f'{kind} name {n!r} must be refused (exit {r.rc})'
        if f':{c.expect["line"]}:' not in r.err:
            return c.tag, f'{kind} name {n!r}: no diagnostic at line {c.expect["line"]}: {r.err[:200]}'
        if any(k.startswith('out/') for k in r.tree):
            return c.tag, f'{kind} name {n!r} refused, but output generated'
        return None
    if r.rc != 0:
        return c.tag, f'{kind} name {n!r} must be accepted: {r.err[:300]}'
    # only the warnings that quote this name
    ws = [m.group(2) for m in re.finditer(r"warning:[^\n]*'([^'\n]*)'[^\n]*'([^'\n]*)'", r.err) if m.group(1) == n]
    if c.expect['rec'] and ws:
        return c.tag, f'{kind} name {n!r} is what the compiler recommends for {c.expect["rec"]!r}, yet it draws a warning: use {ws[0]!r}'
    if re.fullmatch(SURE[std], n) and ws:
        return c.tag, f'{kind} name {n!r} is standard, but draws a warning: use {ws[0]!r}'
    if not re.fullmatch(MUST[std], n) and not ws:
        return c.tag, f'{kind} name {n!r} is not in the recommended style, but draws no warning: {r.err[:200]}'
    if ws:
        rec = ws[0]
        if rec == n:
            return c.tag, f'{kind} name {n!r}: the recommended name is the name itself'
        if rec.replace('_', '').lower() != n.replace('_', '').lower():
            return c.tag, f'{kind} name {n!r}: recommended {rec!r} is another name'
        REC.setdefault((kind, rec), n)
    return None


def words(alpha, n):
    for k in range(1, n + 1):
        for h in itertools.product(alpha, repeat=k):
            w = ''.join(h)
            if not w[0].isdigit() and w not in RES:
                yield w


def C18(rep):
    q = rep.tier == 'quick'
    rep.assumptions.append('names whose first non-underscore character is a digit have no first letter and are refused')
    REC.clear()
    ws = list(words('Ab1_', 6 if q else 7))
    if not q:
        ws += list(words('AZaz09_', 4))
    ws = list(dict.fromkeys(ws))
    ws += ['HelloWorld', 'helloWorld', 'hello_world', 'HELLO_WORLD', 'Hello_World', 'HTTPServer', 'httpServer2', 'A1B2', '_hello__World_', 'x1y2z3', 'Z9', 'sensorID', 'Sensor_ID_2', 'zZ', 'Zz', 'aZ_zA']
    batch.run((case(k, w) for k in KINDS for w in ws), judge, rep)
    # the recommendations: accepted in turn, without a warning
    batch.run((case(k, w, n) for (k, w), n in list(REC.items())), judge, rep)


def replay(rp, prop):
    c = batch.Case(**rp['case'], tag=rp['tag'], expect=rp['expect'])
    v = judge(c, batch.cli(c))
    return [f'{v[0]}: {v[1]}'] if v else []

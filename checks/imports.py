"""C11: import graphs, visibility, global uniqueness, path spellings"""
import itertools, os
from mc import batch
from . import frontend

PATHS = ['a.bb', 'd/b.bb', 'd/e/c.bb', 'f.bb', 'd/g.bb']


def rel(i, j, style=0):
    """text of an import of file j in file i"""
    p = os.path.relpath(PATHS[j], os.path.dirname(PATHS[i]) or '.')
    d = os.path.dirname(PATHS[i]) or '.'
    up = os.path.relpath('.', d)
    return {0: p, 1: './' + p, 2: f'{up}/{PATHS[j]}', 3: f'{up}/d/../{PATHS[j]}', 4: p.replace('/', '//'), 5: f'@BASE@/{PATHS[j]}', 6: f'@BASE@/d/./../{PATHS[j]}'}[style]


def project(n, edges, body, style=None, order=1, omit=()):
    """files of an import graph; body[i]: text of file i"""
    files = {}
    for i in range(n):
        im = [j for a, j in edges if a == i]
        im = im[::order]
        files[PATHS[i]] = f'package p{i};\n' + ''.join(f'import "{rel(i, j, style(i, j) if style else 0)}";\n' for j in im) + body[i]
    return files


def reach(n, edges, s):
    seen, todo = {s}, [s]
    while todo:
        x = todo.pop()
        for a, b in edges:
            if a == x and b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


def cyclic(n, edges, live):
    e = [(a, b) for a, b in edges if a in live and b in live]
    left = set(live)
    while True:
        leaf = [x for x in left if not any(a == x and b in left for a, b in e)]
        if not leaf:
            return bool(left)
        left -= set(leaf)


def judge(c, r):
    e = c.expect
    desc = '; '.join(f'{k}: {v!r}' for k, v in sorted(c.files.items()))[:900]
    if r.panic:
        return c.tag, f'crash: {r.panic[:300]} -- {desc}'
    out = sorted(k for k in r.tree if k.startswith('out/') and not k.endswith('/'))
    if e['ok']:
        if r.rc != 0:
            return c.tag, f'valid project refused: {r.err.strip()[-300:]} -- {desc}'
        want = sorted(f'out/{p}.bb.{x}' for p in e['units'] for x in 'ch')
        if out != want:
            return c.tag, f'generated files {out}, expected {want} -- {desc}'
        for k in r.tree:
            if k.endswith('.bb'):
                return c.tag, f'{k} was changed'
        return None
    if r.rc != 1:
        return c.tag, f'{e["why"]}: accepted (exit {r.rc}) -- {desc}'
    if not r.err.strip():
        return c.tag, f'{e["why"]}: no message'
    if any(k.startswith('out/') for k in r.tree):
        return c.tag, f'{e["why"]}: refused, but output was generated'
    return None


def case(tag, files, ok, units=(), why='', main='a.bb', cwd='', args=(), dirs=(), links=None):
    out = os.path.relpath('out', cwd or '.')
    return batch.Case(files, ['-t', 'c', '-o', out, *args, main], tree=True, tag=tag, cwd=cwd, dirs=dirs, links=links,
                      expect={'ok': ok, 'units': sorted(units), 'why': why})


def graphs(n, selfs=True):
    prs = [(i, j) for i in range(n) for j in range(n) if selfs or i != j]
    for m in range(1 << len(prs)):
        yield m, [p for k, p in enumerate(prs) if m >> k & 1]


def all_graphs(n, selfs=True, full=False):
    """every import graph of n files (main file first)"""
    for m, e in graphs(n, selfs):
        live = reach(n, e, 0)
        if len(live) < n and not full:
            continue
        cyc = cyclic(n, e, live)
        body = [f'struct S{i} {{ uint8 x; }};\n' for i in range(n)]
        yield case(f'graph{n}{"s" if selfs else ""}:{m}', project(n, e, body), not cyc, [f'p{i}' for i in live], 'import cycle')


def dags(n):
    prs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for m in range(1 << len(prs)):
        yield m, [p for k, p in enumerate(prs) if m >> k & 1]


USES = {'field': 'struct U { T%d a; };', 'embed': 'struct U { T%d; };', 'array': 'struct U { T%d<2> a; };', 'kw': 'struct U { struct T%d a; };', 'enum': 'struct U { E%d a; };',
        'enumkw': 'struct U { enum E%d a; };', 'const': 'struct U { uint8 a = V%d; };', 'value': 'enum U[1] { VU = V%d, };', 'inner': 'struct U { T%d a; struct Iu { T%d b; }; };'}


def visibility(n, orders=(1, -1)):
    for m, e in dags(n):
        live = reach(n, e, 0)
        for o in orders:
            for i in range(n):
                for j in range(n):
                    if i == j:
                        continue
                    for u, t in USES.items():
                        body = [f'enum E{k}[1] {{ V{k} = {k}, }};\nstruct T{k} {{ uint8 x{k}; struct In{k} {{ uint8 y{k}; }}; }};\n' for k in range(n)]
                        body[i] += t.replace('%d', str(j)) + '\n'
                        ok = i not in live or j in reach(n, e, i)
                        yield case(f'visible{n}:{m}:{o}:{i}-{j}:{u}', project(n, e, body, order=o), ok, [f'p{x}' for x in live], f'type of file {j} used in file {i}, which does not import it')


DEFS = {'struct': 'struct Dup { uint8 x; };', 'enum': 'enum Dup[1] { VX%d, };', 'value': 'enum Ee%d[1] { Dup, };', 'inline': 'struct Oo%d { struct Dup { uint8 x; }; };', 'field': 'struct Oo%d { struct Dup { uint8 x; } f; };',
        'package': None}


def unique(n):
    for m, e in dags(n):
        live = reach(n, e, 0)
        for i in range(n):
            for j in range(i + 1, n):
                for a in DEFS:
                    for b in DEFS:
                        if (a == 'package') != (b == 'package'):
                            continue
                        body = [f'struct S{k} {{ uint8 x; }};\n' for k in range(n)]
                        if a != 'package':
                            body[i] += DEFS[a].replace('%d', str(i)) + '\n'
                            body[j] += DEFS[b].replace('%d', str(j)) + '\n'
                        fs = project(n, e, body)
                        un = {k: f'p{k}' for k in live}
                        if a == 'package':
                            fs[PATHS[j]] = fs[PATHS[j]].replace(f'package p{j};', f'package p{i};', 1)
                            if j in un:
                                un[j] = f'p{i}'
                        yield case(f'unique{n}:{m}:{i}-{j}:{a}-{b}', fs, not (i in live and j in live), un.values(), f'{a} of file {i} and {b} of file {j} have one name')


def spellings():
    n = 4
    body = [f'struct S{i} {{ uint8 x; }};\n' for i in range(n)]
    # the same file reached through differently spelled imports is one file
    diamond = [(0, 1), (0, 2), (1, 3), (2, 3)]
    for e, tag in ((diamond, 'diamond'), ([(0, 1), (1, 2), (2, 0)], 'cycle'), ([(0, 0)], 'self'), ([(0, 1), (1, 1)], 'self1'), ([(0, 3), (3, 1), (1, 2)], 'chain'), ([(0, 2), (2, 1), (1, 2)], 'cycle2')):
        for st in itertools.product(range(7), repeat=min(len(e), 4)):
            if len(e) == 4 and len(set(st[:2])) > 1:
                continue
            m = dict(zip(e, st))
            live = reach(n, e, 0)
            yield case(f'spelling:{tag}:{st}', project(n, e, body, style=lambda i, j: m[i, j]), not cyclic(n, e, live), [f'p{x}' for x in live], 'import cycle')
    for k in (2, 3):
        for st in itertools.product(range(7), repeat=k):
            fs = {PATHS[0]: 'package p0;\n' + ''.join(f'import "{rel(0, 1, s)}";\n' for s in st) + body[0], PATHS[1]: 'package p1;\n' + body[1]}
            yield case(f'spelling:again:{st}', fs, True, ['p0', 'p1'])
    # the command line names the main file; imports are relative to the importing file
    for e in ([(0, 1), (1, 2)], diamond):
        fs = project(n, e, body)
        live = [f'p{x}' for x in reach(n, e, 0)]
        for main, cwd in (('a.bb', ''), ('./a.bb', ''), ('d/../a.bb', ''), ('@BASE@/a.bb', ''), ('@BASE@/d/../a.bb', ''), ('../a.bb', 'd'), ('../../a.bb', 'd/e'), ('@BASE@/a.bb', 'd'), ('../../a.bb', 'x/y')):
            yield case(f'main:{main}@{cwd}:{len(e)}', fs, True, live, main=main, cwd=cwd, dirs=['x/y', 'd/e'])
        cyc = project(n, [*e, (2, 0)], body)
        for main, cwd in (('./a.bb', ''), ('d/../a.bb', ''), ('@BASE@/a.bb', ''), ('@BASE@/d/../a.bb', ''), ('@BASE@//a.bb', ''), ('../a.bb', 'd')):
            yield case(f'main cycle:{main}@{cwd}:{len(e)}', cyc, False, why='import cycle', main=main, cwd=cwd, dirs=['x/y'])
    # what an import statement may say
    ok1 = {'b.bb': 'package p1;\nstruct T { uint8 x; };\n', 'other.proto': 'package p1;\nstruct T { uint8 x; };\n', 'a b.bb': 'package p1;\nstruct T { uint8 x; };\n', 'ü.bb': 'package p1;\nstruct T { uint8 x; };\n',
           'noext': 'package p1;\nstruct T { uint8 x; };\n', "q'q.bb": 'package p1;\nstruct T { uint8 x; };\n'}
    for txt, ok in (('"b.bb"', 1), ("'b.bb'", 1), ('"\\x62.bb"', 1), ('"other.proto"', 1), ('"a b.bb"', 1), ("'a b.bb'", 1), ('"ü.bb"', 1), ('"noext"', 1), ('"q\'q.bb"', 1),
                    ('"missing.bb"', 0), ("'missing.bb'", 0), ('"d"', 0), ('"d/"', 0), ('"."', 0), ('".."', 0), ('"b.bb/"', None), ('"B.bb"', 0), ('"b"', 0), ('"d/b.bb"', 0), ('b.bb', 0), ('"b.bb', 0), ('', 0), ('5', 0), ('"b.bb" "b.bb"', 0), ('"b.bb", "b.bb"', 0)):
        if ok is None:
            continue
        for use in ('T t;', 'uint8 x;'):
            yield case(f'import {txt} {use}', {'a.bb': f'package p0;\nimport {txt};\nstruct S {{ {use} }};\n', **ok1}, bool(ok), ['p0', 'p1'], f'import {txt}', dirs=['d'])
    # imports may stand before or behind the package, options and definitions
    parts = ['package p0;\n', 'import "b.bb";\n', 'option omit_empty = true;\n', 'struct S { T t; };\n']
    for p in itertools.permutations(parts):
        yield case(f'order:{[parts.index(x) for x in p]}', {'a.bb': ''.join(p), 'b.bb': ok1['b.bb']}, True, ['p0', 'p1'])
    # faults in an imported file fail the whole run
    for bad in ('', 'struct T { uint8 x; };', 'package p1;\nstruct T { uint8 x[#3]; };', 'package p1;\nstruct T { Nope x; };', 'package p1;\nimport "zz.bb";', 'package p1;\nenum E[1] { A = 1', 'package p1;\npackage p2;', 'package p0;\n', '\x00', 'package p1;\noption omit_empty = 1;\n'):
        for e in ([(0, 1)], [(0, 1), (1, 2)], [(0, 1), (0, 2)], [(0, 2), (0, 1)], [(0, 1), (0, 2), (1, 2)], [(0, 1), (0, 2), (2, 1)]):
            fs = project(3, e, body)
            tgt = 1 if (1, 2) not in e else 2
            fs[PATHS[tgt]] = bad
            if (1, 2) in e or tgt == 1:
                yield case(f'faulty import {bad!r} {e}', fs, False, why='fault in an imported file')


def C11(rep):
    q = rep.tier == 'quick'
    rep.assumptions.append('output judged for the C target')
    sp = [spellings(), all_graphs(2, full=True), all_graphs(3, full=True), visibility(3), unique(3)]
    if q:
        sp += [all_graphs(4, selfs=False, full=True), visibility(4), unique(4)]
    else:
        sp += [all_graphs(4, full=True), visibility(4), unique(4), visibility(5, (1,))]
    batch.run(itertools.chain(*sp), judge, rep)


def replay(rp, prop):
    c = batch.Case(**rp['case'], tag=rp['tag'], expect=rp['expect'])
    v = judge(c, batch.cli(c))
    return [f'{v[0]}: {v[1]}'] if v else []

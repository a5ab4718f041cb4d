"""C15: generated files of a project are where they are documented to be, and
together they form a program that compiles and works, whatever the packages,
the import graph and the placement options"""
import itertools
from mc import batch, drv, engine, project

EXT = {'c': ('.bb.h', '.bb.c'), 'cpp': ('.bb.hpp', '.bb.cpp'), 'csharp': ('.bb.cs',), 'commonjs': ('.bb.js',), 'esmodule': ('.bb.js',), 'python': ('_bb.py',)}
OPT = {'go': 'go_package', 'java': 'java_package', 'kotlin': 'kotlin_package', 'cpp': 'cpp_namespace', 'csharp': 'csharp_namespace'}
TYPED = {'java': '.java', 'kotlin': '.kt'}
TGTS = ['c', 'cpp', 'csharp', 'commonjs', 'esmodule', 'go', 'java', 'kotlin', 'python']


def base(t, pkg, opts):
    o = OPT.get(t)
    if t in ('go', 'java', 'kotlin') and o in opts:
        return opts[o].replace('.', '/') if t != 'go' else opts[o]
    return pkg.replace('.', '/')


def paths(t, pkg, opts, types):
    """documented output files of one .bb file"""
    b = base(t, pkg, opts)
    if t in TYPED:
        return [f'{b}/{n}{TYPED[t]}' for n in types]
    if t == 'go':
        return [f'{b}/{b.split("/")[-1]}.bb.go']
    return [b + e for e in EXT[t]]


def strip(p, rms):
    for r in rms:
        r = r.rstrip('/')
        if r and p.startswith(r + '/'):
            return p[len(r):].lstrip('/')
    return p


def placed(c, r):
    e = c.expect
    if r.panic or r.rc != 0:
        return c.tag, f'{c.tag}: exit {r.rc}: {(r.panic or r.err)[:300]}'
    have = {k: v for k, v in r.tree.items() if not k.endswith('/')}
    if sorted(have) != e['files']:
        return c.tag, f'{c.tag}: files {sorted(have)}, expected {e["files"]}'
    for k, v in have.items():
        if not v.strip():
            return c.tag, f'{c.tag}: {k} is empty'


PKGS = ['p', 'p.q', 'p.q.r', 'p.qq', 'x', 'x.p.q', 'pq.r', 'p1._q', 'Pp.qQ']
VALS = {'go': ['g', 'g/h', 'g/h.i/j', 'github.com/xaxys/bubbler/proto/rpc', 'p/q'], 'java': ['j', 'j.k', 'com.example.rovlink', 'p.q'], 'kotlin': ['k', 'k.l', 'com.example.rovlink', 'p.q'],
        'cpp': ['n', 'n::m'], 'csharp': ['N', 'N.M']}


def place_cases(q):
    for t in TGTS:
        vals = [None, *VALS.get(t, ())]
        pool = [(p, v) for p in PKGS for v in vals]
        solo = [((p, v),) for p, v in pool]
        duo = [(a, b) for a, b in itertools.product(pool, repeat=2) if a[0] != b[0]]
        if q:
            duo = [x for x in duo if x[0][0] in ('p', 'p.q', 'x.p.q') or x[1][0] in ('p', 'p.q')][::3 if len(vals) > 1 else 1]
        for fs in solo + duo:
            opts = [{OPT[t]: v} if v else {} for _, v in fs]
            names = [[f'Ka{i}', f'Sa{i}', f'In{i}'] for i in range(len(fs))]
            ps = [paths(t, p, o, n) for (p, _), o, n in zip(fs, opts, names)]
            flat = sum(ps, [])
            if len(set(flat)) < len(flat):
                continue                                   # two files claim one place
            if t in ('go', 'java', 'kotlin') and len({base(t, p, o) for (p, _), o in zip(fs, opts)}) < len(fs):
                continue                                   # the same for packages
            b0 = base(t, fs[0][0], opts[0]).split('/')
            rms = {(): None}
            for k in range(1, len(b0)):
                pre = '/'.join(b0[:k])
                rms[(pre,)] = rms[(pre + '/',)] = None
                rms[(pre[:-1],)] = rms[('zz', pre)] = rms[('p1', pre)] = None
            if t in TYPED or t == 'go':
                rms[('/'.join(b0),)] = None
            rms[('zz',)] = rms[(b0[0] + 'x',)] = rms[(b0[-1],)] = None
            if len(fs) == 2:
                b1 = base(t, fs[1][0], opts[1]).split('/')
                rms[('/'.join(b0[:-1]) or 'zz', '/'.join(b1[:-1]) or 'zz')] = None
            for rm in rms:
                if '' in rm:
                    continue
                want = [strip(f, rm) for f in flat]
                if len(set(want)) < len(want) or any(not w for w in want):
                    continue
                if sum(any(f.startswith(r.rstrip('/') + '/') for f in flat) for r in set(x.rstrip('/') for x in rm)) > 1 and any(a != b and (b + '/').startswith(a + '/') for a in rm for b in rm):
                    continue                               # which of two nested prefixes goes is not documented
                for rp in ((), ('-relpath',)) if not rm else ((),):
                    files = {}
                    for i, ((p, _), o) in enumerate(zip(fs, opts)):
                        files[f'm{i}.bb'] = f'package {p};\n' + ''.join(f'option {k} = "{v}";\n' for k, v in o.items()) + (f'import "m{i + 1}.bb";\n' if i + 1 < len(fs) else '') + \
                            f'enum Ka{i}[1] {{ V{i}, }};\nstruct Sa{i} {{ Ka{i} k; struct In{i} {{ uint8 z; }} i; ' + (f'Sa{i + 1} n; Ka{i + 1} o; ' if i + 1 < len(fs) else '') + '};\n'
                    args = ['-t', t, '-o', 'out', *rp] + (['-rmpath', ','.join(rm)] if rm else [])
                    yield batch.Case(files, [*args, 'm0.bb'], tree=True, tag=f'place {t} {" ".join(rp)} {",".join(rm)} ' + ' '.join(f'{p}={v}' for p, v in fs), expect={'files': sorted('out/' + w for w in want)})
        # -single: exactly the file named by -o (csharp and the script targets name it in full)
        if t in TYPED:
            continue
        for p in PKGS:
            for o in ('out', 'd/out.txt', './x.y/../z.q', 'd/e/f'):
                files = {'m0.bb': f'package {p};\nimport "m1.bb";\nstruct S0 {{ T1 a; }};\n', 'm1.bb': 'package y.z;\nstruct T1 { uint8 x; };\n'}
                for rm in ((), ('-rmpath', 'd'), ('-rmpath', p.split('.')[0])):
                    yield batch.Case(files, ['-t', t, '-single', *rm, '-o', o, 'm0.bb'], tree=True, tag=f'single {t} {p} {o} {rm}', expect={'files': [{'./x.y/../z.q': 'z.q'}.get(o, o)]})


LAY = {'flat': ['m', 'x'], 'child': ['p', 'p.x'], 'parent': ['p.q', 'p'], 'sib': ['p.q', 'p.x'], 'deep': ['p.q.r', 'p.x'], 'far': ['p.q', 'y.z.x'], 'same': ['p.q', 'x.q'], 'top': ['a.b.c', 'x'], 'up': ['x', 'a.b.c'], 'under': ['a.b_c', 'a_b.c'],
       'chain': (['p.q', 'p.x', 'z'], [(0, 1), (1, 2)]), 'dia': (['p.q', 'p.x', 'q.x', 'z.q'], [(0, 1), (0, 2), (1, 3), (2, 3)]), 'two': (['p.q', 'p.x', 'q.x'], [(0, 1), (0, 2)]), 'both': (['p', 'p.q', 'p.q.r'], [(0, 1), (1, 2), (0, 2)]),
       'long': (['p.q', 'p.x', 'z', 'q.x', 'p.y'], [(0, 1), (1, 2), (2, 3), (3, 4)])}
LAY = {k: v if isinstance(v, tuple) else (v, [(0, 1)]) for k, v in LAY.items()}
HUB = {'hub': (['p.q', 'h', 'p.x'], [(0, 1), (1, 2)]), 'hub2': (['p.q', 'h', 'p.x', 'z'], [(0, 1), (1, 2), (1, 3), (2, 3)])}
RELP = ('c', 'cpp', 'go', 'python')
SINGLE = ('c', 'cpp', 'csharp', 'commonjs', 'esmodule', 'go', 'python')
VAL = {'cpp': lambda i: f'ns{i}::in', 'csharp': lambda i: f'Ns{i}.In', 'java': lambda i: f'jp{i}.in.deep', 'go': lambda i: f'drv/gp{i}/in'}


def flags(lang, q=True):
    yield ()
    if lang in RELP or not q:
        yield ('-relpath',)
    if lang in SINGLE or not q:
        yield ('-single',)
    if not q:
        yield ('-inner',)


def small_dags(n):
    prs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for m in range(1 << len(prs)):
        e = [p for k, p in enumerate(prs) if m >> k & 1]
        live, todo = {0}, [0]
        while todo:
            x = todo.pop()
            for a, b in e:
                if a == x and b not in live:
                    live.add(b)
                    todo.append(b)
        if len(live) == n:
            yield m, e


def jobs(q):
    """(chunk, lang, flags)"""
    out = []
    for n, (l, e) in LAY.items():
        ch = project.build(f'layout {n}', l, e)
        out += [(ch, g, f) for g in drv.LANGS for f in flags(g, q)]
    for u in project.USES:
        for n in ('chain',) if q else ('chain', 'same', 'dia'):
            if u in ('via', 'embvia') and n == 'same':
                continue
            ch = project.build(f'only {u} {n}', *LAY[n], only=u)
            out += [(ch, g, f) for g in drv.LANGS for f in (((),) if q else flags(g))]
    for n, (l, e) in HUB.items():
        for o in ({}, {'omit_empty': True}):
            ch = project.build(f'{n} {o}', l, e, [o if i == 1 else {} for i in range(len(l))], hubs=(1,))
            out += [(ch, g, f) for g in drv.LANGS for f in flags(g, q) if not q or o or not f]
    for g, val in VAL.items():
        for n in ('chain', 'dia', 'under', 'same') if q else LAY:
            l, e = LAY[n]
            for which in (range(9), (0,), (1,)) if q else [*[(i,) for i in range(len(l))], range(9)]:
                ch = project.build(f'options {n} {list(which)[:4]}', l, e, [{OPT[g]: val(i)} if i in which else {} for i in range(len(l))])
                out += [(ch, g, f) for f in flags(g, False) if f in ((), ('-single',)) or not q]
    # files in folders, imported by relative paths
    for n in ('chain', 'dia') if q else LAY:
        l, e = LAY[n]
        ch = project.build(f'folders {n}', l, e, paths=['s.bb', 'd/m1.bb', 'd/e/m2.bb', 'm3.bb'][:len(l)])
        out += [(ch, g, ()) for g in drv.LANGS]
    if not q:
        for m, e in small_dags(4):
            ch = project.build(f'dag4 {m}', ['p.q', 'p.x', 'q.x', 'z'], e)
            out += [(ch, g, f) for g in drv.LANGS for f in flags(g)]
        comp = [x for k in (1, 2, 3) for x in itertools.product('pq', repeat=k)]
        for a, b in itertools.permutations(comp, 2):
            ch = project.build(f'pair {".".join(a)} {".".join(b)}', ['.'.join(a), '.'.join(b)], [(0, 1)])
            out += [(ch, g, f) for g in drv.LANGS for f in flags(g)]
    return out


def C15(rep):
    q = rep.tier == 'quick'
    rep.assumptions += ['Kotlin placement is checked, Kotlin programs are not compiled (no Kotlin compiler here)', 'projects whose files claim one output path are left out', 'relative Go imports are resolved by the driver (Go modules refuse them)']
    batch.run(place_cases(q), placed, rep)
    by = {}
    for ch, g, f in jobs(q):
        by.setdefault(id(ch), (ch, []))[1].append((g, list(f)))
    engine.matrix_check(rep, *[([ch], combos) for ch, combos in by.values()])


def replay(rp, prop):
    if rp.get('kind') == 'codec':
        res = engine.replay_codec(rp)
        return [w for _, w, _ in res['viol']] or ([res['infra']] if res['infra'] else [])
    c = batch.Case(**rp['case'], tag=rp['tag'], expect=rp['expect'])
    v = placed(c, batch.cli(c))
    return [f'{v[0]}: {v[1]}'] if v else []

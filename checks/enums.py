"""C13: numbering of enum values"""
import itertools
from mc import batch, consts, core, drv, engine, front as F
from . import frontend

MAXI = (1 << 63) - 1
IMP = 'package imp;\nenum Impe[1] { IMP_X = 77, IMP_Y, };\n'
HEAD = 'package p;\nimport "imp.bb";'
EARLY = F.EDef('Basee', F.sz(2), [('BASE_A', None), ('BASE_B', 300), ('BASE_C', None)])
LATE = F.EDef('Latee', F.sz(2), [('LATE_A', 9)])
# text -> number, or the reason it is refused
VAL = {None: None, '0': 0, '1': 1, '5': 5, '0x10': 16, '017': 15, '0X7f': 127, '+7': 7, '2147483647': 2147483647, '4294967295': 4294967295, '9223372036854775807': MAXI,
       'BASE_A': 0, 'BASE_B': 300, 'BASE_C': 301, 'IMP_Y': 78}
BADV = ['-1', '-9223372036854775808', '9223372036854775808', '0x8000000000000000', '1.5', 'true', '"s"', 'NOPE', 'LATE_A', 'Basee', 'SELF']
QUICK = [None, '0', '5', '0x10', '017', '+7', '4294967295', '9223372036854775807', 'BASE_B', 'BASE_A', 'IMP_Y']


def number(spec):
    """numbers of a sequence of value texts, or None and the index of the first faulty one"""
    out, prev = [], -1
    for i, t in enumerate(spec):
        if t == 'SELF' or t in BADV:
            return None, i
        v = prev + 1 if t is None else VAL[t]
        if v > MAXI:
            return None, i
        out.append(v)
        prev = v
    return out, None


def seq_cases(alpha, n):
    for k in range(1, n + 1):
        for h in itertools.product(alpha, repeat=k):
            spec = list(h)
            if spec[0] == 'SELF':
                continue
            vals = [(f'V{i}', 'V0' if t == 'SELF' else t) for i, t in enumerate(spec)]
            e = F.EDef('Ee', F.sz(8), vals)
            r = F.Render(HEAD)
            for d in (EARLY, e, LATE):
                r.edef(d)
            ok, bad = number(spec)
            yield batch.Case({'a.bb': r.text(), 'imp.bb': IMP}, ['-t', 'c', '-o', 'out', 'a.bb'], tree=True, tag='enum:' + ','.join(map(str, spec)),
                             expect={'errs': [] if ok is not None else [(list(r.at[id(e)]), f'enum value {bad}')]})


def const_cases():
    """constant fields that name enum values"""
    for t in F.BITS:
        for n, ok in (('BASE_A', 1), ('BASE_B', 1), ('BASE_C', 1), ('IMP_X', 1), ('IMP_Y', 1), ('LATE_A', 0), ('NOPE', 0), ('Basee', 0)):
            for name in (' k', ''):
                if t[:1] in 'bf':
                    continue        # only integers are documented to take enum values
                src = f'{HEAD}\nenum Basee[2] {{ BASE_A, BASE_B = 300, BASE_C, }};\nstruct S {{\n{t}{name} = {n};\n}};\nenum Latee[2] {{ LATE_A = 9, }};\n'
                yield batch.Case({'a.bb': src, 'imp.bb': IMP}, ['-t', 'c', '-o', 'out', 'a.bb'], tree=True, tag=f'const {t}{name} = {n}',
                                 expect={'errs': [] if ok else [([5, 5], 'unknown value')]})


LIMIT = {'java': 1 << 32, 'commonjs': 1 << 53, 'esmodule': 1 << 53}


def program(lang, alpha, n):
    """every valid sequence as an enum of its own"""
    es, src, exp = [], [HEAD, 'enum Basee[2] { BASE_A, BASE_B = 300, BASE_C, };'], {'BASE_A': 0, 'BASE_B': 300, 'BASE_C': 301}
    i = 0
    for k in range(1, n + 1):
        for h in itertools.product(alpha, repeat=k):
            v, _ = number(h)
            if v is None or max(v) >= LIMIT.get(lang, 1 << 64):
                continue
            e = f'E{i}'
            names = [f'X{i}V{j}' for j in range(k)]
            src.append(f'enum {e}[{4 if max(v) < 1 << 32 else 8}] {{ ' + ' '.join(a + ('' if t is None else f' = {t}') + ',;'[(i + j) % 2] for j, (a, t) in enumerate(zip(names, h))) + ' };')
            es.append((e, names))
            exp.update(zip(names, v))
            i += 1
    es.append(('Basee', ['BASE_A', 'BASE_B', 'BASE_C']))
    src.append('struct S { uint8 a; };')
    return src, es, exp


def widths(lang):
    """every width with the bounds of its range"""
    es, src, exp = [], ['package p;', 'import "imp.bb";'], {}
    for w in range(1, 65):
        vs = sorted({0, 1, (1 << w) - 1, 1 << (w - 1), (1 << w - 1) - 1, 0x5555555555555555 & (1 << w) - 1})
        vs = [v for v in vs if v <= MAXI and v < ((1 << 31) if lang == 'java' and w > 32 else LIMIT.get(lang, 1 << 64))]
        names = [f'W{w}V{j}' for j in range(len(vs))]
        src.append(f'enum W{w}[{w // 8}#{w % 8}] {{ ' + ' '.join(f'{a} = {hex(v) if j % 2 else v},' for j, (a, v) in enumerate(zip(names, vs))) + ' };')
        es.append((f'W{w}', names))
        exp.update(zip(names, vs))
    src.append('struct S { uint8 a; };')
    return src, es, exp


BIG = {'java': [('more than 31 bits in an enum of more than 32', 8, 1 << 31), ('more than 32 bits', 8, 1 << 32)],
       'commonjs': [('more than 53 bits', 8, (1 << 53) + 1)], 'esmodule': [('more than 53 bits', 8, (1 << 53) + 1)]}


def big(lang, k):
    what, n, v = BIG[lang][k]
    return ['package p;', 'import "imp.bb";', f'enum Be[{n}] {{ BIG_A = {v}, }};', 'struct S { uint8 a; };'], [('Be', ['BIG_A'])], {'BIG_A': v}


def one(job):
    lang, kind, arg, flags = job
    src, es, exp = {'seqs': lambda: program(lang, *arg), 'widths': lambda: widths(lang), 'big': lambda: big(lang, arg)}[kind]()
    try:
        # the generated names live beside those of other enums, in one namespace
        got = consts.print_all(lang, {'a.bb': '\n'.join(src) + '\n', 'imp.bb': IMP}, 'a.bb', es, 'p', flags)
    except drv.BuildFail as x:
        return job, len(exp), 0, [(f'{lang}:{kind}{arg if kind == "big" else ""}:{x.stage}', f'{lang} {flags}: generated enums do not {x.stage}: {x.msg[:600]}')]
    except core.Infra as x:
        return job, 0, 0, str(x)
    bad = []
    line = {n: ln for ln in src for e, ns in es for n in ns if f' {n} ' in ln or f' {n},' in ln or f' {n};' in ln} if any(got.get(n) != str(v) for n, v in exp.items()) else {}
    for n, v in exp.items():
        if lang == 'java' and (got.get(n) or 'x').lstrip('-').isdigit():
            got[n] = str(int(got[n]) % (1 << 32))        # int bit patterns
        if got.get(n) != str(v) and len(bad) < 3:
            bad.append((f'{lang}:{kind}{arg if kind == "big" else ""}:number', f'{lang} {flags}: {n} is {got.get(n)}, not {v}: {line.get(n, "")}'))
    return job, len(exp), len(es), bad


def C13(rep):
    q = rep.tier == 'quick'
    rep.assumptions.append('numbers printed through the generated constants; Kotlin is not compiled')
    batch.run(itertools.chain(const_cases(), seq_cases([*VAL, *BADV], 3), () if q else seq_cases(QUICK + ['-1', 'NOPE', 'SELF'], 5)), frontend.judge, rep)
    jobs = []
    for lang in drv.LANGS:
        for fl in ((), ('-decnum', '-minimal')) if not q else ((),):
            jobs += [(lang, 'seqs', (QUICK if q and lang in ('java', 'csharp', 'cpp') else list(VAL), 3), list(fl)), (lang, 'widths', None, list(fl))]
        jobs += [(lang, 'big', k, []) for k in range(len(BIG.get(lang, [])))]
    for _, r in engine.prun(rep, jobs, fn=one, order=sorted(range(len(jobs)), key=lambda i: jobs[i][0] not in ('java', 'csharp', 'cpp', 'go'))):
        job, n, e, bad = r
        if isinstance(bad, str):
            rep.infra(bad)
            continue
        rep.add(transitions=n, states=n, programs=1)
        for k, w in bad:
            rep.violation(k.replace(' ', '_'), w, {'kind': 'values', 'job': job})


def replay(rp, prop):
    if rp.get('kind') == 'values':
        j = rp['job']
        j[2] = tuple(j[2]) if isinstance(j[2], list) else j[2]
        r = one(tuple(j))
        return [r[3]] if isinstance(r[3], str) else [w for _, w in r[3]]
    return frontend.replay(rp, prop)

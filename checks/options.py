"""C19: options in schemas and on the command line"""
import itertools, re, threading
from mc import batch

FILE_OPTS = {'omit_empty': 'bool', 'csharp_namespace': 'str', 'cpp_namespace': 'str', 'go_package': 'str', 'java_package': 'str', 'kotlin_package': 'str'}
UNKNOWN = ['nope', 'omitempty', 'order', 'Omit_empty', 'go_packages', 'python_package', '_']
# text -> kind; a float or int literal may carry a sign
LITS = {'true': 'bool', 'false': 'bool', '0': 'int', '1': 'int', '-1': 'int', '+1': 'int', '0x10': 'int', '017': 'int', '1.5': 'float', '-.5': 'float', '1e3': 'float', 'inf': 'float', 'nan': 'float',
        '"a"': 'str', "'a'": 'str', '"big"': 'str', "'little'": 'str', '"true"': 'str', '"a.b"': 'str', '"a/b"': 'str', '"\\x61"': 'str'}
NOT_LITS = ['', 'a', 'A', 'true false', '"a" "b"', '1 2', '[1]', '"a', '--1', '-true', '-"a"', 'value', '0x', '09', '1.2.3', '99999999999999999999', '1e999']
STRUCT = 'struct S {\n uint8 x;\n};\n'


def cs(tag, files, ok, lines=(), warn=(), nowarn=False, args=None, tgt='c', out=True):
    """lines: a refused case must be diagnosed at one of these lines; warn: names that must be warned about"""
    return batch.Case(files, args or ['-t', tgt, '-o', 'out', 'a.bb'], tree=True, tag=tag, expect={'k': 'acc', 'ok': ok, 'lines': list(lines), 'warn': list(warn), 'nowarn': nowarn, 'out': out})


def judge(c, r):
    x = c.expect
    return {'acc': j_acc, 'same': j_same, 'cli': j_cli, 'files': j_files}[x['k']](c, r, x)


def outs(r):
    return {k: v for k, v in r.tree.items() if k.startswith('out') and not k.endswith('/')}


def j_acc(c, r, x):
    if r.panic:
        return c.tag, f'{c.tag}: crash: {r.panic[:300]}'
    if x['ok']:
        if r.rc != 0:
            return c.tag, f'{c.tag}: must be accepted (exit {r.rc}): {r.err[:300]}'
        if x['out'] and not outs(r):
            return c.tag, f'{c.tag}: accepted, but nothing generated'
        w = [l for l in r.err.split('\n') if 'compile warning:' in l]
        for n in x['warn']:
            if not any(n in l for l in w):
                return c.tag, f'{c.tag}: no warning about the unknown option {n}: {r.err[:200]}'
        if x['nowarn'] and w:
            return c.tag, f'{c.tag}: unexpected warning: {w[0]}'
    else:
        if r.rc != 1:
            return c.tag, f'{c.tag}: must be refused (exit {r.rc})'
        at = [int(m) for m in re.findall(r':(\d+):\d+: (?:compile|syntax)? ?error', r.err)]
        if x['lines'] and not set(at) & set(x['lines']):
            return c.tag, f'{c.tag}: no diagnostic at line {x["lines"]}: {r.err[:300]}'
        if not r.err.strip():
            return c.tag, f'{c.tag}: refused without a message'
        if outs(r):
            return c.tag, f'{c.tag}: refused, but output generated: {sorted(outs(r))}'


_ref, _rl = {}, threading.Lock()


def ref_tree(files, args):
    key = repr((sorted(files.items()), args))
    with _rl:
        if key in _ref:
            return _ref[key]
    r = batch.cli(batch.Case(files, args, tree=True))
    v = (r.rc, outs(r), r.out)
    with _rl:
        _ref[key] = v
    return v


def j_same(c, r, x):
    """same exit code, output files (and standard output) as another command line"""
    rc, tree, out = ref_tree(c.files, x['ref'])
    if r.panic:
        return c.tag, f'{c.tag}: crash: {r.panic[:300]}'
    if r.rc != rc or (rc != 0) != bool(x.get('fails')):
        return c.tag, f'{c.tag}: exit {r.rc}, bubbler {" ".join(x["ref"])} exits {rc}: {r.err[:200]}'
    t = outs(r)
    if t != tree:
        d = sorted(k for k in {*t, *tree} if t.get(k) != tree.get(k))
        return c.tag, f'{c.tag}: output differs from bubbler {" ".join(x["ref"])}: {d[:5]}'
    if x.get('stdout', True) and r.out != out:
        return c.tag, f'{c.tag}: standard output differs from bubbler {" ".join(x["ref"])}'


def j_cli(c, r, x):
    if r.panic:
        return c.tag, f'{c.tag}: crash: {r.panic[:300]}'
    if x['rc'] == 'ok' and r.rc != 0:
        return c.tag, f'{c.tag}: exit {r.rc}: {r.err[:200]}'
    if x['rc'] == 'fail':
        if r.rc == 0:
            return c.tag, f'{c.tag}: must fail, exits 0'
        if not r.err.strip():
            return c.tag, f'{c.tag}: fails without a message'
        if outs(r):
            return c.tag, f'{c.tag}: fails, but generates {sorted(outs(r))}'
    if x['rc'] == 'ok' and x.get('out') and not outs(r):
        return c.tag, f'{c.tag}: nothing generated'


def j_files(c, r, x):
    """exactly these packages have output files"""
    if r.panic:
        return c.tag, f'{c.tag}: crash: {r.panic[:300]}'
    if r.rc != 0:
        return c.tag, f'{c.tag}: exit {r.rc}: {r.err[:300]}'
    names = sorted(outs(r))
    for p, want in x['pk'].items():
        have = [n for n in names if re.search(rf'(?<![a-z0-9]){p}(?![0-9])', n)]
        if bool(have) != want:
            return c.tag, f'{c.tag}: package {p} {"has no" if want else "must have no"} output: {names}'


def file_options(q):
    for n in [*FILE_OPTS, *UNKNOWN]:
        for t, k in LITS.items():
            ok = FILE_OPTS.get(n, k) == k
            src = f'package p;\n\noption {n} = {t};\n' + STRUCT
            w = () if n in FILE_OPTS else (n,)
            yield cs(f'file option {n} = {t}', {'a.bb': src}, ok, () if ok else (3,), w, nowarn=n in FILE_OPTS)
        for t in NOT_LITS:
            yield cs(f'file option {n} = {t}', {'a.bb': f'package p;\n\noption {n} = {t};\n' + STRUCT}, False)
        for t in (f'option {n};', f'option {n} =;', f'option = true;', f'option {n} = true', f'option {n} true;', f'option a.{n} = true;', f'option ({n}) = true;', f'option {n} = true, {n} = true;'):
            yield cs(f'file option text {t}', {'a.bb': f'package p;\n\n{t}\n' + STRUCT}, False)
    # two options: order, place, duplicates
    vals = {'bool': ['true', 'false'], 'str': ['"a"', '"b"']}
    names = [*FILE_OPTS, 'nope', 'other']
    for a, b in itertools.product(names, repeat=2):
        va, vb = vals[FILE_OPTS.get(a, 'str')], vals[FILE_OPTS.get(b, 'str')]
        for x, y in itertools.product(va, vb):
            for form in ('package p;\nA\nB\nS', 'A\npackage p;\nS\nB', 'S\nA\nB\npackage p;', 'B\nS\npackage p;\nA'):
                src = form.replace('S', STRUCT.replace('\n', ' ')).replace('A', f'option {a} = {x};').replace('B', f'option {b} = {y};')
                ln = [i + 1 for i, l in enumerate(src.split('\n')) if l.startswith('option')]
                if a == b and a not in FILE_OPTS:
                    continue            # not documented
                yield cs(f'file options {form!r} {a}={x} {b}={y}', {'a.bb': src + '\n'}, a != b, () if a != b else ln, [z for z in (a, b) if z not in FILE_OPTS])
    # three: a valid option between two faulty ones is still reported
    bad = {n: ('1', 'true' if k == 'str' else '"x"') for n, k in FILE_OPTS.items()}
    for a, b, c_ in itertools.permutations(FILE_OPTS, 3):
        for m in itertools.product((0, 1), repeat=3):
            src = 'package p;\n' + ''.join(f'option {n} = {bad[n][1] if z else vals[FILE_OPTS[n]][0]};\n' for n, z in zip((a, b, c_), m)) + STRUCT
            ln = [2 + i for i in range(3) if m[i]]
            yield cs(f'file options {a} {b} {c_} {m}', {'a.bb': src}, not any(m), ln, nowarn=not any(m))


FIELDS = {'uint8': 'uint8 a{o};', 'int16': 'int16 a{o};', 'bool': 'bool a{o};', 'float32': 'float32 a{o};', 'enum': 'K a{o};', 'sized': 'uint16 a[#12]{o}; uint8 z[#4];', 'array': 'uint16<3> a{o};', 'struct': 'T a{o};',
          'struct array': 'T<2> a{o};', 'string': 'string a{o};', 'bytes': 'bytes a{o};', 'constant': 'uint16 a{e};', 'unnamed constant': 'uint16{e};', 'void': 'void[2]{o};', 'embedded': 'T{o};', 'inline': 'struct In {{ uint8 q; }} a{o};', 'accessor': 'uint16 a{o} {{ get g(uint8): 1; }};'}


def fld(kind, opt, cval='7'):
    o = f' [{opt}]' if opt is not None else ''
    return 'package p;\nenum K[1] { V, };\nstruct T { uint8 t; };\nstruct S {\n uint8 before;\n' + FIELDS[kind].format(o=o, e=f' = {cval}{o}') + '\n uint8 after;\n};\n'


def field_options(q):
    for kind in FIELDS:
        for t, k in LITS.items():
            ok = t in ('"big"', "'little'")
            yield cs(f'{kind}: [order = {t}]', {'a.bb': fld(kind, f'order = {t}')}, ok, () if ok else (6,), nowarn=True)
        for t in ('"Big"', '"BIG"', '"le"', '"big "', '" big"', '"littl"', '""', '"bi\\x67"', "'big'", '"little"'):
            ok = t in ('"bi\\x67"', "'big'", '"little"')
            yield cs(f'{kind}: [order = {t}]', {'a.bb': fld(kind, f'order = {t}')}, ok, () if ok else (6,))
        for n in ('nope', 'Order', 'omit_empty', 'orders', 'go_package'):
            for t in ('true', '1', '"big"', '1.5'):
                yield cs(f'{kind}: [{n} = {t}]', {'a.bb': fld(kind, f'{n} = {t}')}, True, warn=(n,))
        for t in ('', 'order', 'order =', '= "big"', 'order = big', 'order "big"', 'order = "big",', ', order = "big"', 'order = "big"; nope = 1', 'order = "big" nope = 1', 'order: "big"', 'order = value'):
            yield cs(f'{kind}: [{t}]', {'a.bb': fld(kind, t)}, False)
        for a, b in itertools.product(('order = "big"', 'order = "little"', 'nope = 1', 'other = "x"', 'order = 1', 'order = "x"'), repeat=2):
            dup = a.split()[0] == b.split()[0]
            if dup and a.split()[0] != 'order':
                continue
            bad = a in ('order = 1', 'order = "x"') or b in ('order = 1', 'order = "x"')
            w = [z.split()[0] for z in (a, b) if not z.startswith('order')]
            yield cs(f'{kind}: [{a}, {b}]', {'a.bb': fld(kind, f'{a}, {b}')}, not dup and not bad, (6,) if dup or bad else (), w)
    # enum values take options too: all unknown
    for t in ('nope = 1', 'order = "big"', 'a = "x", b = true'):
        yield cs(f'enum value [{t}]', {'a.bb': f'package p;\nenum K[1] {{\nV = 1 [{t}],\n W [{t}],\n}};\n' + STRUCT}, True)
    for t in ('', 'nope', 'nope =', 'nope = x', 'nope = 1,'):
        yield cs(f'enum value [{t}]', {'a.bb': f'package p;\nenum K[1] {{\nV = 1 [{t}],\n}};\n' + STRUCT}, False)


def omit(q):
    tg = ['c', 'cpp', 'csharp', 'commonjs', 'esmodule', 'go', 'java', 'kotlin', 'python']
    per_type = {'java', 'kotlin'}
    body = {'struct': 'struct S{} {{ uint8 x; }};\n', 'enum': 'enum K{}[1] {{ V{}, }};\n', 'none': ''}
    for t in tg:
        for form in itertools.product(('struct', 'enum', 'none'), ('true', 'false', None), ('struct', 'enum', 'none'), ('true', 'false', None)):
            b0, o0, b1, o1 = form
            f = {}
            for i, (b, o) in enumerate(((b0, o0), (b1, o1))):
                f['ab'[i] + '.bb'] = f'package pk{i};\n' + ('import "b.bb";\n' if i == 0 else '') + (f'option omit_empty = {o};\n' if o else '') + body[b].format(i, i)
            pk = {}
            for i, (b, o) in enumerate(((b0, o0), (b1, o1))):
                if b != 'none':
                    pk[f'pk{i}'] = True
                elif o == 'true' or t in per_type:
                    pk[f'pk{i}'] = False
                elif o == 'false' or o is None:
                    pk[f'pk{i}'] = True
            if t == 'csharp':
                pk = {k: v for k, v in pk.items() if v is False or form[int(k[2]) * 2] != 'none'}
            yield batch.Case(f, ['-t', t, '-o', 'out', 'a.bb'], tree=True, tag=f'omit_empty {t} {form}', expect={'k': 'files', 'pk': pk})


PROJ = {'a.bb': 'package m.n;\nimport "b.bb";\nenum K[1] { V, W = 5, };\nstruct S { T t; K k; int16<3> arr; int8 i[#5]; uint8 j[#3]; string s; bytes b; T<6> ts; uint8 c = 0x1f; };\n', 'b.bb': 'package m.o;\nstruct T[3] { uint16 x [order = "big"]; bool y; };\n'}
ALIAS = {'csharp': ['cs'], 'commonjs': ['cjs'], 'esmodule': ['javascript', 'js', 'mjs', 'esm'], 'kotlin': ['kt'], 'python': ['py'], 'c': [], 'cpp': [], 'go': [], 'java': []}


def same(tag, args, ref, files=PROJ, **kw):
    return batch.Case(files, args, tree=True, tag=tag, expect={'k': 'same', 'ref': ref, **kw})


def cli_options(q):
    flags = ['-relpath', '-inner', '-single', '-minimal', '-decnum', '-memcpy', '-compat', '-signext shift', '-signext arith', '-signext default', '-unroll -1', '-unroll 0', '-unroll 3', '-rmpath m']
    for t, al in ALIAS.items():
        ok = {}
        for n in (0, 1, 2):
            for fl in itertools.combinations(flags, n):
                if sum(f.startswith('-signext') for f in fl) > 1 or sum(f.startswith('-unroll') for f in fl) > 1:
                    continue
                fs = ' '.join(fl).split()
                o = 'out.gen' if '-single' in fl else 'out'
                ref = ['-t', t, '-o', o, *fs, 'a.bb']
                yield batch.Case(PROJ, ref, tree=True, tag=f'{t} {fl}', expect={'k': 'cli', 'rc': 'ok', 'out': True})
                for a in al:
                    if n < 2 or not q:
                        yield same(f'alias {a} {fl}', ['-t', a, '-o', o, *fs, 'a.bb'], ref)
                if n == 2:
                    # the order of the options says nothing
                    f2 = ' '.join(fl[::-1]).split()
                    yield same(f'order {t} {fl}', [*f2, '-o', o, '-t', t, 'a.bb'], ref)
                if n < 2:
                    # other spellings of the same option
                    eq = [f'-{f.replace(" ", "=")}' for f in fl]
                    yield same(f'spelling {t} {eq}', [f'--t={t}', f'-o={o}', *eq, 'a.bb'], ref)
                    yield same(f'dashdash {t} {eq}', ref[:-1] + ['--', 'a.bb'], ref)
                    # verbose output never touches the generated files
                    yield same(f'verbose {t} {fl}', ['-v', *ref], ref, stdout=False)
                    for f in ('-relpath', '-inner', '-single', '-minimal', '-decnum', '-memcpy', '-compat', '-v'):
                        if f not in fl:
                            yield same(f'{t} {f}=false {fl}', [f + '=false', *ref], ref)
                    for f, v in (('-signext', ''), ('-signext', 'default'), ('-unroll', '4'), ('-rmpath', '')):
                        if not any(z.startswith(f) for z in fl):
                            yield same(f'{t} {f}={v} {fl}', [f'{f}={v}', *ref], ref)
    for t in ('', 'C', 'c ', ' c', 'cxx', 'c++', 'rust', 'golang', 'ts', 'json', 'dump', 'c,cpp', 'Python', '-', '0'):
        yield batch.Case(PROJ, ['-t', t, '-o', 'out', 'a.bb'], tree=True, tag=f'target {t!r}', expect={'k': 'cli', 'rc': 'fail'})
    yield batch.Case(PROJ, ['-o', 'out', 'a.bb'], tree=True, tag='no target', expect={'k': 'cli', 'rc': 'fail'})
    for t in ALIAS:
        pre = ['-t', t, '-o', 'out']
        for s in ('shif', 'shift ', 'xor', '0', 'arithmetic', 'shift,arith', '-'):
            yield batch.Case(PROJ, [*pre, '-signext', s, 'a.bb'], tree=True, tag=f'{t} signext {s!r}', expect={'k': 'cli', 'rc': 'fail'})
        for u in ('-2', '-3', '-100', '-9223372036854775808', 'x', '1.5', '', '9223372036854775808'):
            yield batch.Case(PROJ, [*pre, f'-unroll={u}', 'a.bb'], tree=True, tag=f'{t} unroll {u!r}', expect={'k': 'cli', 'rc': 'fail'})
        for u in ('-1', '0', '1', '2', '3', '5', '6', '7', '9223372036854775807', '0x4'):
            yield batch.Case(PROJ, [*pre, f'-unroll={u}', 'a.bb'], tree=True, tag=f'{t} unroll {u!r}', expect={'k': 'cli', 'rc': 'ok', 'out': True})
        # inputs
        for inp in ([], ['a.bb', 'b.bb'], ['a.bb', 'a.bb'], ['a.bb', '-v'], ['nope.bb'], ['nodir/a.bb'], [''], ['.'], ['d']):
            yield batch.Case(PROJ, [*pre, *inp], dirs=['d'], tree=True, tag=f'{t} inputs {inp}', expect={'k': 'cli', 'rc': 'fail'})
        for f in ('-nope', '-single=maybe', '-memcpy=2', '-t', '-unroll', '-signext'):
            yield batch.Case(PROJ, [*pre, f], tree=True, tag=f'{t} flag {f}', expect={'k': 'cli', 'rc': 'fail'})
    # without arguments: usage, and success
    yield batch.Case(PROJ, [], tree=True, tag='no arguments', expect={'k': 'cli', 'rc': 'ok'})
    for h in ('-h', '-help', '--help'):
        yield batch.Case(PROJ, [h], tree=True, tag=h, expect={'k': 'cli', 'rc': 'ok'})


def C19(rep):
    q = rep.tier == 'quick'
    rep.assumptions.append('two unknown options of one name, and files without types in C#, are not judged (undocumented)')
    for f in (file_options, field_options, omit, cli_options):
        batch.run(f(q), judge, rep)


def replay(rp, prop):
    c = batch.Case(**rp['case'], tag=rp['tag'], expect=rp['expect'])
    v = judge(c, batch.cli(c))
    return [f'{v[0]}: {v[1]}'] if v else []

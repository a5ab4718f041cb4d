"""C07: no generation option changes what the generated code does.  One schema
holds every kind of field; it is generated under every combination of options
and every distinct output is built and driven through the same commands, whose
answers the reference model gives without looking at the options.  Outputs that
differ in their leading comment only are built once."""
import hashlib, itertools, os, shutil
from mc import core, drv, engine, families as F
from mc.drv import LANGS
from mc.model import *
from .codec import replay                       # noqa: F401

SW = {'-minimal': ('-minimal',), '-decnum': ('-decnum',), '-memcpy': ('-memcpy',), '-compat': ('-compat',), '-single': ('-single',),
      '-relpath': ('-relpath',), '-inner': ('-inner',),
      'shift': ('-signext', 'shift'), 'arith': ('-signext', 'arith'), 'default': ('-signext', 'default'),
      'u-1': ('-unroll', '-1'), 'u0': ('-unroll', '0'), 'u1': ('-unroll', '1'), 'u4': ('-unroll', '4'), 'u9': ('-unroll', '9')}
AXES = [('', '-minimal'), ('', '-decnum'), ('', '-memcpy'), ('', '-compat'), ('', '-single'), ('', '-relpath'),
        ('', 'shift', 'arith'), ('', 'u-1', 'u0', 'u4')]


def schema():
    n = lambda t, nm, **k: Field('normal', t, nm, **k)
    B = Basic
    kinds = [k for k in F.KINDS]
    st = [F.seq(f'Sq{i}', kinds[i::6]) for i in range(6)]
    # narrow signed fields at every offset, both orders, every width class
    fs, pos = [], 0
    for i, (t, w, o) in enumerate([('int8', 3, None), ('int8', 5, 'big'), ('int16', 9, None), ('int16', 11, 'big'), ('int32', 17, None),
                                   ('int32', 29, 'big'), ('int64', 33, None), ('int64', 63, 'big'), ('int8', 7, None), ('int16', 15, 'big'),
                                   ('int32', 31, None), ('int64', 61, None), ('uint8', 5, None), ('uint16', 13, 'big'), ('uint32', 27, None),
                                   ('uint64', 59, 'big'), ('int8', 1, None), ('int64', 9, 'big')]):
        fs.append(n(B(t), f'm{i}', bits=w, order=o))
        pos += w
    fs.append(Field('void', bits=-pos % 8))
    st.append(Struct('Narrow', fs))
    # arrays of 1, 2, 4, 5 and 10 elements: around every unroll limit
    for j, (t, w, o) in enumerate([('int8', 8, None), ('uint16', 16, 'big'), ('int16', 11, None), ('int32', 22, 'big'), ('int64', 64, None),
                                   ('uint8', 3, None), ('uint64', 64, 'big'), ('bool', 1, None), ('float64', 64, None)]):
        fs, pos = [], 0
        for L in (1, 2, 4, 5, 10):
            fs.append(n(B(t), f'a{L}', n=L, bits=w * L, order=o))
            pos += w * L
        if pos % 8:
            fs.append(Field('void', bits=-pos % 8))
        st.append(Struct(f'Arr{j}', fs))
    inn = Struct('InlA', [n(B('int16'), 'ia', bits=12), n(B('uint8'), 'ib', bits=4), n(Str(), 'ic')])
    st.append(Struct('Inl', [n(B('uint8'), 'h'), Field('normal', inn, 'p', inline=True),
                             Field('normal', Struct('InlB', [n(B('uint32'), 'ja', order='big')]), 'q', n=5, inline=True),
                             Field('embed', Struct('InlC', [n(B('int8'), 'ka'), n(Byt(), 'kb')]), inline=True)]))
    st.append(Struct('Cst', [Field('const', B('int8'), 'c0', bits=5, value=-3), Field('const', B('uint16'), 'c1', bits=11, order='big', value=0x2AB),
                             Field('const', B('float64'), 'c2', value=-1.5), Field('const', B('bool'), 'c3', bits=1, value=True),
                             n(B('uint8'), 'cx', bits=7), Field('const', B('uint64'), 'c4', order='big', value=0x0123456789ABCDEF)]))
    return Schema('vr', list(F.SEQ_DEFS) + st), st


def chunk(nv):
    S, st = schema()
    base = len(S.structs()) - len(st)
    names = [x.name for x in S.structs()]
    cm, ex = [], []
    for s in st:
        i = names.index(s.name)
        ls = leaves(s)
        for k, v in enumerate(F.seq_vectors(ls, nv)):
            c, x, e = F.e_op(i, s, v)
            cm.append(c), ex.append(x)
            c, x = F.w_op(i, s, v, (255, 0, 165)[k % 3], k % 3, 1)
            cm.append(c), ex.append(x)
            for data, start in ((e, 0), (b'\xee' + e + b'\xff', 1)):
                c, x = F.d_op(i, s, ls, data, start)
                cm.append(c), ex.append(x)
            if k < 2:
                cm.append(f'P {i} {e.hex()}')
                ex.append(F.pexp(s, e))
            if any(f.kind == "const" for f in s.fields) and k == 0:
                # a frame whose constants do not match
                for p in range(len(e)):
                    bad = e[:p] + bytes([e[p] ^ 0x41]) + e[p + 1:]
                    cm.append(f'D {i} 0 {bad.hex()}')
                    ex.append(engine.hexp(s, ls, bad))
    return engine.Chunk('variants', S, cm, ex)


def combos(tier):
    """option sets: {} , every single option value, every pair / the full product"""
    out = [()] + [(k,) for k in SW]
    if tier == 'quick':
        out += [c for a, b in itertools.combinations(AXES, 2) for c in itertools.product(a[1:], b[1:])]
        out += [('-minimal', '-decnum', '-memcpy', '-compat', '-single', 'shift', 'u0'), ('-minimal', '-decnum', '-memcpy', '-compat', 'arith', 'u-1', '-relpath')]
    else:
        out += [tuple(x for x in c if x) for c in itertools.product(*AXES)]
    return list(dict.fromkeys(out))


def strip(lang, data):
    """without the leading comment"""
    mark = b'#' if lang == 'python' else b'//'
    ls = data.split(b'\n')
    i = 0
    while i < len(ls) and (not ls[i].strip() or ls[i].startswith(mark)):
        i += 1
    return b'\n'.join(ls[i:])


CH = None


def digest(job):
    """what generating with these options gives, as a digest of everything the driver is built from"""
    _, lang, flags, _ = job
    d = drv.make(lang, CH.schema, flags)
    try:
        try:
            d.generate()
        except drv.BuildFail as e:
            return 'refused', e.msg[-500:]
        d.write_driver()
        h = hashlib.sha256()
        for root, ds, fs in os.walk(d.dir):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                rel = os.path.relpath(p, d.dir)
                with open(p, 'rb') as fh:
                    data = fh.read()
                if rel.startswith('out'):
                    data = strip(lang, data)
                h.update(rel.encode() + b'\0' + data.replace(d.dir.encode(), b'@') + b'\0')
        return 'ok', h.hexdigest()
    finally:
        shutil.rmtree(d.dir, True)


def C07(rep):
    global CH
    CH = chunk(3 if rep.tier == 'quick' else 6)
    cs = combos(rep.tier)
    jobs = []
    for lang in LANGS:
        for c in cs:
            jobs.append((CH.name, lang, [y for x in c for y in SW[x]], None))
    seen, run = {}, []
    for j, (st, h) in engine.prun(rep, jobs, fn=digest, label=lambda j: f'{j[1]} {j[2]}'):
        if st != 'ok':
            rep.violation(f'{j[1]}:{",".join(j[2])}:variants:generate', f'{j[1]} {" ".join(j[2])}: the schema is refused with these options: {h}',
                          engine.replay(CH, j[1], j[2], {}, None, [], []))
        elif (j[1], h) not in seen:
            seen[(j[1], h)] = j[2]
            run.append((j[1], j[2]))
    rep.add(transitions=0, option_sets=len(cs), generations=len(jobs), distinct_outputs=len(run))
    engine.matrix_check(rep, ([CH], sorted(run)))

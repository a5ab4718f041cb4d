"""C09: nesting and embedding.  Every content is wrapped in every form of nesting
and embedding (named, in place, arrays, twice), and every form must put the
content's fields where the flat struct has them"""
import itertools
from mc import engine, families as F
from mc.drv import LANGS
from mc.model import *
from .codec import all_langs, replay            # noqa: F401


def content(kinds):
    """fields of one content, a whole number of bytes"""
    return F.seq('tmp', kinds).fields


def forms(name, kinds):
    """structs around one content, by form; the named types they need go first"""
    U = lambda n: Field('normal', Basic('uint8'), n)
    X = lambda suffix: Struct(f'X{name}{suffix}', content(kinds))
    N = Struct(f'X{name}', content(kinds))
    nest = Struct(f'Y{name}', [U('ya'), Field('normal', N, 'yx'), U('yb')])
    emb = Struct(f'Z{name}', [U('za'), Field('embed', N), U('zb')])
    named = [N, nest, emb]
    out = {
        'flat': content(kinds),
        'embed': [Field('embed', N)],
        'embed inline': [Field('embed', X('Ei'), inline=True)],
        'nest': [Field('normal', N, 'inn')],
        'nest inline': [Field('normal', X('Ni'), 'inn', inline=True)],
        'array': [Field('normal', N, 'inn', n=2)],
        'array inline': [Field('normal', X('Ai'), 'inn', n=3, inline=True)],
        'rolled': [Field('normal', N, 'inn', n=5)],
        'rolled inline': [Field('normal', X('Ri'), 'inn', n=6, inline=True)],
        'nest nest': [Field('normal', nest, 'inn')],
        'nest embed': [Field('normal', emb, 'inn')],
        'embed nest': [Field('embed', nest)],
        'embed embed': [Field('embed', emb)],
        'embed inline embed': [Field('embed', Struct(f'V{name}', [U('va'), Field('embed', X('Vi'), inline=True), U('vb')]), inline=True)],
        'nest inline nest': [Field('normal', Struct(f'W{name}', [U('wa'), Field('normal', X('Wi'), 'wx', inline=True), U('wb')]), 'inn', inline=True)],
        'embed inline nest': [Field('embed', Struct(f'P{name}', [U('pa'), Field('normal', X('Pi'), 'px', inline=True), U('pb')]), inline=True)],
        'nest inline embed': [Field('normal', Struct(f'Q{name}', [U('qa'), Field('embed', X('Qi'), inline=True), U('qb')]), 'inn', inline=True)],
        'array nest': [Field('normal', nest, 'inn', n=5)],
        'array embed': [Field('normal', emb, 'inn', n=2)],
    }
    structs = []
    for k, (f, fs) in enumerate(out.items()):
        structs.append(Struct(f'S{name}f{k}', [U('head'), *fs, Field('normal', Basic('int16'), 'tail', order='big')]))
    return named, structs


def chunk(args):
    name, items, nv, ops = args
    defs, structs = list(F.SEQ_DEFS), []
    for nm, kinds in items:
        n, s = forms(nm, kinds)
        defs += n
        structs += s
    S = Schema('nx', defs + structs)
    base = len(S.structs()) - len(structs)
    cm, ex = [], []
    for i, s in enumerate(structs):
        i += base
        ls = leaves(s)
        for k, v in enumerate(F.seq_vectors(ls, nv)):
            c, x, e = F.e_op(i, s, v)
            cm.append(c), ex.append(x)
            c, x = F.w_op(i, s, v, (255, 165)[k % 2], k % 3, 1)
            cm.append(c), ex.append(x)
            for data, start in ((e, 0), (b'\xee' + e + b'\xff', 1)):
                c, x = F.d_op(i, s, ls, data, start)
                cm.append(c), ex.append(x)
            if k == 0 or 'p' in ops:
                cm.append(f'P {i} {e.hex()}')
                ex.append(F.pexp(s, e))
    return engine.Chunk(name, S, cm, ex)


def chunks(contents, per, nv, ops=''):
    it = [(''.join(f'{k}Q' for k in ks), ks) for ks in contents]
    return F.in_parallel(chunk, [(f'nested {i}', it[i:i + per], nv, ops) for i in range(0, len(it), per)])


def C09(rep):
    kinds = [k for k in F.KINDS]
    one = [(k,) for k in kinds]
    mini = ['u3', 'i12b', 'ew', 'v5', 'c12', 'str', 'byt', 'ds', 'ai12', 'as5', 'afs5', 'ads5', 'emb']
    if rep.tier == 'quick':
        engine.matrix_check(rep, (chunks(one, 3, 2), all_langs()))
    else:
        two = list(itertools.product(mini, repeat=2))
        engine.matrix_check(rep, (chunks(one, 3, 5, 'p'), all_langs((), ('-unroll', '0'), ('-unroll', '-1'), ('-memcpy',), ('-single',), ('-compat',), ('-inner',))), (chunks(two, 3, 2), all_langs()))

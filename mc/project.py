"""Multi-file projects: layouts, and chunks that drive the main file's structs"""
import os
from .model import *
from . import families as F
from .engine import Chunk


def types(k):
    """what an imported file defines: an enum, a fixed-size struct, a struct with both
    nested, a dynamic struct"""
    E = Enum(f'Kind{k}', 6, [(f'V{k}A', None), (f'V{k}B', 5), (f'V{k}C', 40)])
    T = Struct(f'Fix{k}', [Field('normal', Basic('uint16'), 'tx', bits=12, order=None), Field('normal', Basic('int8'), 'ty', bits=4), Field('normal', Basic('uint32'), 'tz', order='big')])
    N = Struct(f'Nest{k}', [Field('normal', E, f'ne{k}', bits=6), Field('normal', Basic('bool'), f'nb{k}', bits=2), Field('normal', T, f'nt{k}'), Field('normal', E, f'nf{k}', n=8)])
    D = Struct(f'Dyn{k}', [Field('normal', Basic('uint8'), 'dx'), Field('normal', Str(), 'dsx'), Field('normal', Basic('int16'), 'dy'), Field('normal', E, 'de', bits=6), Field('normal', Basic('bool'), 'df', bits=2)])
    return E, T, N, D


def uses(k, E, T, N, D):
    """fields that use an imported file's types, by kind of use"""
    n = lambda s: f'{s}{k}'
    return {'enum': [Field('normal', E, n('en'), bits=6), Field('normal', Basic('uint8'), n('pad'), bits=2)], 'fix': [Field('normal', T, n('fx'))], 'arr': [Field('normal', T, n('fa'), n=2)],
            'rolled': [Field('normal', T, n('fr'), n=6)], 'enums': [Field('normal', E, n('ea'), n=4)], 'enumr': [Field('normal', E, n('eb'), n=8)],
            'nest': [Field('normal', N, n('ns'))], 'nests': [Field('normal', N, n('nr'), n=5)], 'dyn': [Field('normal', D, n('dn'))], 'dyns': [Field('normal', D, n('da'), n=2)], 'dynr': [Field('normal', D, n('db'), n=5)]}


EMB = {'embfix': 1, 'embnest': 2, 'embdyn': 3}
USES = list(uses('', *types(''))) + list(EMB) + ['via', 'embvia']


def build(name, pkgs, edges, options=None, paths=None, only=None, hubs=()):
    """file 0 is main; edges (i, j): file i imports file j.  The main struct uses all
    types main can see, or (only) those of the first imported file in one way.
    hubs: files without types of their own"""
    n = len(pkgs)
    options = options or [{} for _ in range(n)]
    paths = paths or ['s.bb'] + [f'm{i}.bb' for i in range(1, n)]
    defs = {}
    for i in range(n - 1, 0, -1):
        if i in hubs:
            defs[i] = []
            continue
        extra = []
        for a, j in edges:
            if a == i and defs.get(j):
                u = uses(j, *defs[j][:4])
                extra += [Struct(f'Via{i}x{j}', u['enum'] + u['fix'] + u['arr'] + [Field('normal', Basic('uint8'), f'end{i}')])]
        defs[i] = [*types(i), *extra]
    schemas = [None] * n
    for i in range(n - 1, -1, -1):
        im = [os.path.relpath(paths[j], os.path.dirname(paths[i]) or '.') for a, j in edges if a == i]
        if i:
            schemas[i] = Schema(pkgs[i], defs[i], options[i], im)
        else:
            live, todo = set(), [0]
            while todo:
                a = todo.pop()
                for x, y in edges:
                    if x == a and y not in live:
                        live.add(y)
                        todo.append(y)
            live = sorted(j for j in live if defs[j])
            own = types(0)
            if only:
                j = live[0]
                if only in EMB:
                    fs = [Field('embed', defs[j][EMB[only]])]
                elif only == 'via':
                    fs = [Field('normal', v, 'via' + v.name[3:]) for v in defs[j][4:]]
                elif only == 'embvia':
                    fs = [Field('embed', v) for v in defs[j][4:]]
                else:
                    fs = uses(j, *defs[j][:4])[only]
                schemas[0] = Schema(pkgs[0], [Struct('Main', [Field('normal', Basic('uint8'), 'head'), *fs, Field('normal', Basic('uint8'), 'tail')])], options[0], im)
                continue
            fs, structs = [], []
            for j in live:
                for u in uses(j, *defs[j][:4]).values():
                    fs += u
                for v in defs[j][4:]:
                    fs.append(Field('normal', v, 'via' + v.name[3:]))
                structs.append(Struct(f'Emb{j}', [Field('normal', Basic('int8'), f'eb{j}'), Field('embed', defs[j][1]), Field('embed', defs[j][2]), Field('embed', defs[j][3]), Field('normal', Basic('uint8'), f'ee{j}')]))
                structs.append(Struct(f'Arr{j}', [Field('normal', defs[j][1], f'only{j}', n=3)]))
            for u in uses(0, *own).values():
                fs += u
            main = Struct('Main', [Field('normal', Basic('uint8'), 'head')] + fs + [Field('normal', Basic('uint8'), 'tail')])
            schemas[0] = Schema(pkgs[0], [*own, *structs, main], options[0], im)
    S = schemas[0]
    for j in range(1, n):
        for t in defs[j]:
            S.home[t.name] = schemas[j]
    files = {paths[j]: schemas[j].text() for j in range(1, n)}
    cmds, exps = [], []
    for i, s in enumerate(S.structs()):
        ls = leaves(s)
        for v in F.seq_vectors(ls, 2):
            c, x, _ = F.e_op(i, s, v)
            cmds.append(c), exps.append(x)
            c, x = F.d_op(i, s, ls, encode(s, v))
            cmds.append(c), exps.append(x)
    return Chunk(name, S, cmds, exps, files=files)

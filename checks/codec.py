"""Checks that drive generated code of every executable target against the
reference model over exhaustively enumerated schemas, values and frames."""
from mc import core, drv, engine, families as F
from mc.drv import LANGS


BIGENUM = ('c', 'cpp', 'csharp', 'go', 'python')                     # enum values of 32 bits and more


def all_langs(*flagsets, langs=LANGS):
    return [(l, list(f)) for f in (flagsets or ((),)) for l in langs]


def replay(r, prop):
    res = engine.replay_codec(r)
    return [w for _, w, _ in res['viol']] or ([res['infra']] if res['infra'] else [])


def enum_pairs(op, *fl):
    nojs = [l for l in LANGS if l not in ('commonjs', 'esmodule')]
    return [(F.enums(op) + F.uint32_enums(op), all_langs(*fl)), (F.long_enums(op), all_langs(*fl, langs=nojs)),
            (F.wide_enums(op), all_langs(*fl, langs=BIGENUM))]


def C01(rep):
    """encode: every (type, width, order, bit offset), every value of the field domain"""
    rep.assumptions += ['values wider than 8 bits: every single-bit and single-zero pattern, bounds and mixed patterns']
    fl = ((),) if rep.tier == 'quick' else ((), ('-decnum', '-minimal'), ('-memcpy', '-unroll', '0'), ('-compat',), ('-single',))
    engine.matrix_check(rep, (F.scalar_enc(), all_langs(*fl)), *enum_pairs('e', *fl))


def C02(rep):
    """decode: every (type, width, order, bit offset), walking bits through the whole frame"""
    fl = ((),) if rep.tier == 'quick' else ((), ('-signext', 'shift'), ('-signext', 'arith'), ('-memcpy', '-decnum'), ('-compat',), ('-single',))
    engine.matrix_check(rep, (F.scalar_dec(), all_langs(*fl)), *enum_pairs('d', *fl))


def C03(rep):
    """compositions of field kinds"""
    if rep.tier == 'quick':
        engine.matrix_check(rep, (F.pairs(ops='edp'), all_langs()))
    else:
        ch = F.pairs(ops='edp')
        engine.matrix_check(rep, (ch, all_langs((), ('-memcpy',), ('-unroll', '0'), ('-unroll', '-1'), ('-compat',), ('-single',))))
        engine.matrix_check(rep, (F.pairs(F.TRI, ops='edp', n=3, nv=3), all_langs()))


def C05(rep):
    """constant fields"""
    if rep.tier == 'quick':
        engine.matrix_check(rep, (F.consts(), all_langs()))
    else:
        engine.matrix_check(rep, (F.consts(offs=range(8)), all_langs((), ('-decnum', '-unroll', '0'), ('-memcpy',), ('-compat',))))


def C06(rep):
    """arrays: element placement, rolled and unrolled"""
    if rep.tier == 'quick':
        engine.matrix_check(rep, (F.array_quick(), all_langs()))
        engine.matrix_check(rep, (F.array_len(), all_langs(*[('-unroll', str(u)) for u in (-1, 0, 2, 3, 6)])))
    else:
        engine.matrix_check(rep, (F.array_len(), all_langs(*[('-unroll', str(u)) for u in (-1, 0, 1, 2, 3, 4, 5, 6, 7, 31)])))
        engine.matrix_check(rep, (F.array_all(5), all_langs()))
        engine.matrix_check(rep, (F.array_all(3), all_langs((), ('-unroll', '0'))))


def C21(rep):
    """encode into caller-supplied, non-zero buffers at an offset"""
    q = rep.tier == 'quick'
    ch = F.voids() + F.pairs(ops='w', kinds=None if not q else F.WKINDS) + F.scalar_w(q)
    fl = ((), ('-unroll', '0')) if q else ((), ('-unroll', '0'), ('-unroll', '-1'), ('-memcpy',), ('-compat',), ('-single',))
    engine.matrix_check(rep, (ch, all_langs(*fl)))

"""C04: decoders on arbitrary input"""
from mc import engine, families as F
from checks.codec import all_langs, replay      # noqa: F401


def C04(rep):
    q = rep.tier == 'quick'
    rep.assumptions += ['bytes outside the alphabet are covered by single-byte substitutions only',
                        'C and C++ decode() take no length: it is called when decode_size() accepted the buffer',
                        'strings that are not UTF-8 and undeclared enum values have no prescribed representation: decode may map or refuse them']
    fl = ((), ('-memcpy',)) if q else ((), ('-memcpy',), ('-unroll', '0'), ('-compat',))
    langs = all_langs(*fl)
    if q:
        langs = [(l, f) for l, f in langs if not f or l in ('c', 'cpp', 'go')]
    engine.matrix_check(rep, (F.hostile(q), langs), (F.corrupt(q), all_langs()), opt={'asan': True}, timeout=150)

"""C08, C22: histories over message objects and buffers"""
from mc import engine, histories as H
from checks.codec import all_langs, replay, LANGS      # noqa: F401


def C22(rep):
    q = rep.tier == 'quick'
    rep.assumptions += ['the content of an object after a failed decode is unspecified until it is set or decoded again',
                        'generated objects are used from one thread']
    fl = ((),) if q else ((), ('-memcpy',), ('-unroll', '0'), ('-compat',))
    engine.matrix_check(rep, (H.reuse(q), all_langs(*fl)))


ALIAS = {'c': ('bytes', 'str'), 'cpp': ('bytes',), 'go': ('bytes',), 'csharp': ('bytes',)}


def C08(rep):
    q = rep.tier == 'quick'
    rep.assumptions += ['generated objects are used from one thread']
    ch = H.own(q)
    sets = [(), ('-compat', '-minimal'), ('-unroll', '0', '-decnum')] if q else \
        [a + b + c + d for a in ((), ('-compat',)) for b in ((), ('-unroll', '0'), ('-unroll', '-1')) for c in ((), ('-single',)) for d in ((), ('-minimal', '-decnum'))]
    pairs = []
    for f in sets:
        pairs += [(ch[()], [(l, ['-memcpy', *f]) for l in ALIAS] + [(l, [*f]) for l in LANGS if l not in ALIAS])]
        pairs += [(ch[a], [(l, [*f]) for l in ALIAS if ALIAS[l] == a]) for a in ch if a]
    engine.matrix_check(rep, *pairs, opt={'asan': True})


def C23(rep):
    q = rep.tier == 'quick'
    rep.assumptions += ['NaN is outside of the domain; whether 0.0 equals -0.0 is not judged, only that equals and hash code agree on it',
                        'Kotlin: not executable here']
    fl = ((), ('-memcpy',), ('-minimal', '-single')) if q else ((), ('-memcpy',), ('-minimal', '-single'), ('-compat', '-unroll', '0'), ('-memcpy', '-minimal', '-single'))
    engine.matrix_check(rep, (H.equal(q), all_langs(*fl, langs=('java', 'csharp'))))

"""Runs (chunk x target x flags) jobs: builds generated code for one chunk of
structs, drives every command of the chunk through it and compares every answer
with the answer of the reference model."""
import base64, hashlib, multiprocessing as mp, os, pickle, time, traceback, zlib
from . import core, drv
from .model import *


class Chunk:
    """schema + commands + expected answers.  An expected answer is the exact
    output line; one that starts with '~' is a masked one (see same())."""
    def __init__(self, name, schema, cmds, exps, files=None, nontrivial=None):
        self.name, self.schema, self.cmds, self.exps = name, schema, cmds, exps
        self.files = files or {}
        self.nontrivial = nontrivial


def same(exp, out):
    out = out.strip()
    if '|' in exp and exp[:1] != ';':
        return out in exp.split('|')
    if exp[:1] == ';':
        # a history: one answer per step, '?' where nothing is specified
        e, v = exp[1:].split(';'), out.split(';')
        return len(e) == len(v) and all(x == '?' and not y.startswith('!') or same(x, y) for x, y in zip(e, v))
    if exp[:1] == '~':
        # ~ret pre post fill hex mask : a buffer whose owned bits are given
        _, ret, pre, post, fill, hx, mk = exp.split(' ')
        a = out.split(' ')
        if len(a) > 2 or a[0] != ret:
            return False
        try:
            b = bytes.fromhex(a[1]) if len(a) > 1 else b''
        except ValueError:
            return False
        pre, post, fill = int(pre), int(post), int(fill)
        e, m = bytes.fromhex(hx), bytes.fromhex(mk)
        if len(b) != pre + len(e) + post:
            return False
        if any(x != fill for x in b[:pre]) or any(x != fill for x in b[pre + len(e):]):
            return False
        bi, ei, mi = (int.from_bytes(x, 'little') for x in (b[pre:pre + len(e)], e, m))
        return (bi ^ ei) & mi == 0
    if exp[:1] == '%':
        # decode_size of every prefix: the size for complete data, otherwise
        # minus a size that exceeds what is there and that no complete frame
        # with this prefix undercuts
        m, v = exp[1:].split(' '), out.split(' ')
        if len(m) != len(v):
            return False
        try:
            for k, (a, b) in enumerate(zip(m, v)):
                a, b = int(a), int(b)
                if a > 0 and a != b or a <= 0 and not k < -b <= -a:
                    return False
        except ValueError:
            return False
        return True
    if exp[:1] == '&':
        # decode of arbitrary input: see hexp()
        e, v = exp[1:].split(' '), out.split(' ')
        try:
            n, kind, z, r = int(e[0]), e[1], int(v[0]), int(v[1])
        except (ValueError, IndexError):
            return False
        if 'm' in kind and z <= 0 and r < 0:
            return len(v) == 2           # malformed length: refused
        if 's' in kind and z == int(e[2]) and r < 0:
            return len(v) == 2           # undecodable string or undeclared enum value: refused
        if kind[0] == 'n':
            return n < -z <= int(e[2]) and r < 0 and len(v) == 2
        if kind[0] == 'x':
            return False
        if z != int(e[2]) or len(v) != len(e) - 2:
            return False
        if int(e[3]) < 0:
            return r < 0
        return r == int(e[3]) and all(a == '*' or a == b for a, b in zip(e[4:], v[2:]))
    if exp[:1] == '|':
        # any of the alternatives
        return any(same(x, out) for x in exp[1:].split('|'))
    if exp[:1] == '^':
        # ^kinds rest: NaN payloads are not significant
        kinds, rest = exp[1:].split(' ', 1)
        a, b = rest.split(' '), out.split(' ')
        if len(a) != len(b):
            return False
        h = len(a) - len(kinds)
        if a[:h] != b[:h]:
            return False
        for k, x, y in zip(kinds, a[h:], b[h:]):
            if x != y:
                kk = {'f': 'f32', 'd': 'f64'}.get(k)
                try:
                    if kk and is_nan(kk, x) and is_nan(kk, y):
                        continue
                except ValueError:
                    pass
                return False
        return True
    return exp.strip() == out


KCH = {'f32': 'f', 'f64': 'd'}


def dexp(st, ls, data, start=0):
    """expected answer of D"""
    k, size = size_probe(st, data[start:])
    if k == 'bad':
        return '|-|'      # replaced by caller
    z = size if k == 'ok' else -size
    r, t = decode(st, data[start:])
    if r < 0:
        return f'{z} -1'
    if any(l.kind in KCH for l in ls):
        return '^' + ''.join(KCH.get(l.kind, '.') for l in ls) + f' {z} {r} ' + ' '.join(t)
    return f'{z} {r} ' + ' '.join(t)


def hexp(st, ls, data):
    """expected answer of D on arbitrary bytes: '&<n> <kind> <size> <ret> tok..'
    kind: o complete, n needs more, x malformed; m: may also be refused as
    malformed; s: decode may also fail.  Strings that are not UTF-8 and enum
    values that were not declared have no prescribed representation."""
    n = len(data)
    k, size = size_probe(st, data)
    if k == 'bad':
        return f'&{n} xm'
    m = 'm' if longvar(st, data) else ''
    if k == 'need':
        return f'&{n} n{m} {size}'
    r, t = decode(st, data)
    if r < 0:
        return f'&{n} o{m} {size} -1'
    t = list(t)
    for i, l in enumerate(ls):
        if l.kind == 'str':
            try:
                bytes.fromhex(t[i][1:]).decode('utf-8')
            except UnicodeDecodeError:
                t[i] = '*'
        elif l.kind == 'enum' and int(t[i]) not in [v for _, v in l.type.numbers()]:
            t[i] = '*'
        elif l.kind in KCH and is_nan(l.kind, t[i]):
            t[i] = '*'
    return (f'&{n} o{m}{"s" if any(x == "*" and l.kind in ("str", "enum") for x, l in zip(t, ls)) else ""} {size} {r} ' + ' '.join(t)).rstrip()


def longvar(st, data):
    """four continuation bytes in a row: a length of 2^28 and more, or overlong"""
    run = 0
    for b in data:
        run = run + 1 if b & 0x80 else 0
        if run >= 4:
            return True
    return False


def work(job):
    """-> dict(ok, n, viol=[(key, what, replay)])"""
    chunk, lang, flags, opt = job
    opt = dict(opt)
    tmo = opt.pop('timeout', 400)
    t0 = time.time()
    res = {'lang': lang, 'flags': flags, 'chunk': chunk.name, 'n': 0, 'viol': [], 'infra': None}
    try:
        d = drv.make(lang, chunk.schema, flags, files=chunk.files, **opt)
        try:
            d.build()
        except drv.BuildFail as e:
            cul = culprits(chunk, lang, flags, opt)
            for s in cul or [None]:
                nm = s.name if s else chunk.name
                res['viol'].append((f'{lang}:{",".join(flags)}:{nm}:build',
                                    f'{lang} {" ".join(flags)}: generated code for {nm} is refused at stage {e.stage}: {e.msg[-700:]}',
                                    replay(chunk, lang, flags, opt, s, [], [])))
            return res
        if 'parent' in getattr(d, 'relative', ()):
            res['viol'].append(('go:-relpath:parent', 'go -relpath: import paths are relative to the parent of the importing package\'s folder, no Go tool resolves them that way: generated by ' + chunk.name,
                                replay(chunk, lang, flags, opt, None, [], [])))
        t1 = time.time()
        outs = d.run(chunk.cmds, timeout=tmo)
        bad = {}
        for c, x, o in zip(chunk.cmds, chunk.exps, outs):
            if same(x, o):
                continue
            if o == '!SKIPPED':
                continue
            bad.setdefault(sid_of(c), []).append((c, x, o))
        res['n'] = len(outs)
        res['traces'] = len({sid_of(c) for c in chunk.cmds if ' ' in c})
        for sid, l in bad.items():
            c, x, o = l[0]
            if sid != '':
                # must fail again on its own in a fresh process
                o2 = d.run([c], timeout=60)[0]
                if same(x, o2):
                    what = f'history dependent: first {o[:200]} then alone {o2[:200]}'
                else:
                    what = ''
                s = chunk.schema.structs()[int(sid)]
            else:
                s, what = None, ''
            nm = s.name if s else chunk.name
            res['viol'].append((f'{lang}:{",".join(flags)}:{nm}:{c[0]}',
                                f'{lang} {" ".join(flags)} struct {nm}: {c[:300]} -> {o[:300]} but the specification gives {x[:300]} ({len(l)} such answers) {what}',
                                replay(chunk, lang, flags, opt, s, [c], [x])))
        res['times'] = (t1 - t0, time.time() - t1)
    except core.Infra as e:
        res['infra'] = str(e)
    except Exception:
        res['infra'] = traceback.format_exc()[-1500:]
    finally:
        try:
            import shutil
            shutil.rmtree(d.dir, True)
        except Exception:
            pass
    return res


def sid_of(c):
    """the struct a command is about"""
    if c[0] in 'EWDPV':
        return c.split(' ', 2)[1]
    if c[0] == 'N':
        return c.split(';', 1)[0].split(' ')[2]
    return ''


def with_sid(c, sid):
    if c[0] == 'N':
        out = []
        for q in c.split(';'):
            t = q.split(' ')
            if t[0] == 'N':
                t[2] = sid
            out.append(' '.join(t))
        return ';'.join(out)
    return ' '.join([c.split(' ')[0], sid] + c.split(' ')[2:])


def culprits(chunk, lang, flags, opt):
    """which single structs of the chunk do not build"""
    out = []
    ss = [x for x in chunk.schema.defs if isinstance(x, Struct)]
    if len(ss) > 200:
        return out
    def builds(defs):
        en = [x for x in chunk.schema.defs if not isinstance(x, Struct)]
        S = Schema(chunk.schema.package, en + defs, chunk.schema.options, chunk.schema.imports)
        d = drv.make(lang, S, flags, files=chunk.files, **opt)
        try:
            d.build()
            return True
        except drv.BuildFail:
            return False
        finally:
            import shutil
            shutil.rmtree(d.dir, True)
    if refs(ss):
        return out
    def bis(l, depth=0):
        if len(out) >= 2:
            return
        if len(l) == 1:
            out.append(l[0])
            return
        h = len(l) // 2
        for part in (l[:h], l[h:]):
            if not builds(part):
                bis(part, depth + 1)
                return
    try:
        bis(ss)
    except Exception:
        pass
    return out


def refs(ss):
    return any(isinstance(f.type, Struct) for s in ss for f in s.fields)


def replay(chunk, lang, flags, opt, s, cmds, exps):
    sch = chunk.schema
    if s is not None and not refs([x for x in sch.defs if isinstance(x, Struct)]):
        sch = Schema(sch.package, [x for x in sch.defs if not isinstance(x, Struct)] + [s], sch.options, sch.imports)
        cmds = [with_sid(c, '0') for c in cmds]
    job = (Chunk(chunk.name, sch, cmds, exps, chunk.files), lang, flags, opt)
    return {'kind': 'codec', 'lang': lang, 'flags': flags, 'bb': sch.text()[:4000], 'cmds': cmds, 'expected': exps,
            'job': base64.b64encode(zlib.compress(pickle.dumps(job))).decode()}


def replay_codec(r):
    job = pickle.loads(zlib.decompress(base64.b64decode(r['job'])))
    return work(job)


_jobs = None
_fn = None


def _call(i):
    return i, _fn(_jobs[i])


def prun(rep, jobs, fn=work, procs=8, label=lambda j: str(j)[:80], order=None):
    """fork pool over jobs; yields results; stops at the deadline"""
    global _jobs, _fn
    core.bubbler()
    core.scratch()
    _jobs, _fn = jobs, fn
    idx = order or list(range(len(jobs)))
    ctx = mp.get_context('fork')
    pool = ctx.Pool(procs, initializer=_noexit)
    done = set()
    try:
        it = pool.imap_unordered(_call, idx, chunksize=1)
        while len(done) < len(jobs):
            left = rep.left()
            if left <= 0:
                raise mp.TimeoutError
            i, r = it.next(timeout=left)
            done.add(i)
            yield jobs[i], r
    except mp.TimeoutError:
        rest = [label(jobs[i]) for i in idx if i not in done]
        for x in rest[:20]:
            rep.skip('out of time: ' + x)
    except StopIteration:
        pass
    finally:
        pool.terminate()
        pool.join()


def _noexit():
    """the scratch directory belongs to the parent"""
    import atexit, signal
    atexit._clear()
    signal.signal(signal.SIGINT, signal.SIG_IGN)


WEIGHT = {'cpp': 6, 'csharp': 4, 'java': 3, 'c': 2, 'go': 2}


def matrix_check(rep, *pairs, opt=None, prof=None, timeout=400):
    """pairs: (chunks, combos); every chunk through every (lang, flags) of its pair"""
    opt = dict(opt or {})
    opt['timeout'] = timeout
    jobs = [(c, l, list(f), opt) for chunks, combos in pairs for c in chunks for l, f in combos]
    chunks = [c for chunks, _ in pairs for c in chunks]
    order = sorted(range(len(jobs)), key=lambda i: -WEIGHT.get(jobs[i][1], 1) * (len(jobs[i][0].cmds) + 40 * len(jobs[i][0].schema.defs)))
    rep.add(states=sum(len(set(c.exps)) for c in chunks), programs=0)
    for j, r in prun(rep, jobs, order=order, label=lambda j: f'{j[1]} {j[2]} {j[0].name}'):
        rep.add(transitions=r['n'], traces_validated_against_impl=r.get('traces', 0), programs=1)
        if prof is not None:
            prof.append(r)
        if r['infra']:
            rep.infra(f'{r["lang"]} {r["flags"]} {r["chunk"]}: {r["infra"]}')
        for k, w, p in r['viol']:
            rep.violation(k, w, p)
    for c in chunks[:3]:
        if c.cmds:
            rep.sample({'chunk': c.name, 'command': c.cmds[len(c.cmds) // 2][:200], 'expected': c.exps[len(c.cmds) // 2][:200]})

"""C16: a run that reports success has written every file completely, whatever
fails and wherever it is interrupted; C17: what is written depends on the schema
and the options alone"""
import itertools, os, shutil, subprocess
from mc import core, engine, families as F, instr
from . import variants

TGTS = ['c', 'cpp', 'csharp', 'commonjs', 'esmodule', 'go', 'java', 'kotlin', 'python']
ONE = '''package one.two;
enum Kind[#4] { KIND_A, KIND_B = 5, };
struct First { Kind k; uint16 a[#12] { get half(uint16): value / 2; set half(uint16): value * 2; }; string s; };
struct Second { First f; int32<5> b; bytes c; };
'''
GRAPH = {
    'a.bb': 'package top.in.app;\noption go_package = "ex.org/app";\noption java_package = "org.ex.app";\nimport "d/b.bb";\nimport "d/c.bb";\nimport "e.bb";\nstruct Top { Mid m; Mix<3> x; Leafe l; };\n',
    'd/b.bb': 'package mid;\nimport "../e.bb";\nimport "c.bb";\noption csharp_namespace = "Mid.Space";\nstruct Mid { Leafe l; Mix x; Dat d; };\nstruct Other { uint8 o; };\n',
    'd/c.bb': 'package mid.mix;\nimport "../e.bb";\noption cpp_namespace = "mix::ns";\nstruct Mix { Dat d; uint8 a[#3]; uint8 b[#5]; };\n',
    'e.bb': 'package leaf;\nenum Leafe[1] { LEAF_A, LEAF_B, };\nstruct Dat { int16 x[#12]; Leafe y; void[#4]; };\nstruct Zed { bytes z; };\nstruct Alpha { string z; };\n',
}
PROJ = {'one': {'a.bb': ONE}, 'graph': GRAPH}
REFUSED = {
    'errors': {'a.bb': 'package p;\nimport "b.bb";\nstruct S { uint8 a; uint8 a; uint16 b[3]; Nope c; uint8 d[#3]; };\nstruct S { uint8 x; };\nenum E[1] { A_A, A_A, B_B = 300, };\nstruct bad { uint8 BadName; };\n', 'b.bb': 'package q;\nstruct T { uint8 a[#3]; uint8 Bad; };\n'},
    'warnings': {'a.bb': 'package p;\noption nope = 1;\noption foo = true;\noption bar = "x";\nstruct SS_s { uint8 aB; uint16 cD; };\nenum Ee[1] { Aa, Bb, };\n'},
    'cycle': {'a.bb': 'package a;\nimport "b.bb";\nimport "c.bb";\nstruct A { uint8 a; };\n', 'b.bb': 'package b;\nimport "c.bb";\nstruct B { uint8 a; };\n', 'c.bb': 'package c;\nimport "b.bb";\nimport "a.bb";\nstruct C { uint8 a; };\n'},
}


def write(d, files):
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(t)


def tree(d):
    """content of a directory: files, directories and links"""
    out = {}
    for root, ds, fs in os.walk(d):
        for x in ds + fs:
            p = os.path.join(root, x)
            r = os.path.relpath(p, d)
            if os.path.islink(p):
                out[r] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                out[r] = 'dir'
            else:
                with open(p, 'rb') as f:
                    out[r] = f.read()
    return out


def run(bb, args, cwd, env=None, stdout=None, timeout=60):
    e = dict(core.ENV)
    for k, v in (env or {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    try:
        r = subprocess.run([bb] + args, cwd=cwd, env=e, stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise core.Infra('timeout: ' + ' '.join(args))
    return r.returncode, r.stdout or b'', core.ANSI.sub('', r.stderr.decode('utf-8', 'replace'))


def crashed(rc, err):
    return rc < 0 or 'goroutine ' in err or 'panic:' in err


# ------------------------------------------------------------------ C16
BB = None
SINGLE = {'c': 'g.h', 'cpp': 'g.hpp', 'csharp': 'g.cs', 'commonjs': 'g.js', 'esmodule': 'g.js', 'go': 'g.go', 'python': 'g.py'}
ERRNO = {'ENOSPC': '28', 'EIO': '5', 'EACCES': '13'}


class Scn:
    """one command line; the directory it runs in is made anew for every run"""
    def __init__(self, tgt, proj, flags):
        self.tgt, self.proj, self.flags = tgt, proj, flags
        self.out = 'out/' + SINGLE[tgt] if '-single' in flags else 'out'
        self.name = f'{tgt} {" ".join(flags)} {proj}'

    def args(self):
        return ['-t', self.tgt, *self.flags, '-o', self.out, 'a.bb']

    def setup(self, prep=()):
        d = core.subdir('w')
        write(d, PROJ[self.proj])
        for what, p, data in prep:
            q = os.path.join(d, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if what == 'file':
                with open(q, 'wb') as f:
                    f.write(data)
            elif what == 'dir':
                os.makedirs(q, exist_ok=True)
            elif what == 'link':
                os.symlink(data, q)
        return d


def one_scn(job):
    """all faults of one scenario -> list of (key, what, replay), counts"""
    tgt, proj, flags, thorough = job
    s = Scn(tgt, proj, list(flags))
    viol, n = [], 0

    def bad(tag, what, prep, env):
        viol.append((f'{s.name}:{tag}', f'{s.name}: {what}', {'kind': 'output', 'scn': [tgt, proj, list(flags)], 'tag': tag}))

    def go(tag, prep=(), env=None, again=True, mayfail=True, foreign=()):
        """run with a fault, judge, run again without it, judge"""
        nonlocal n
        n += 1
        d = s.setup(prep)
        try:
            e = {k: v.replace('@', d) for k, v in (env or {}).items()}
            rc, o, err = run(BB, s.args(), d, e)
            t = tree(d)
            if rc != 77 and crashed(rc, err):
                return bad(tag, f'crash: exit {rc} {err[-300:]}', prep, env)
            if rc == 0 and any(t.get(p) != c for p, c in clean.items()):
                p = [p for p, c in clean.items() if t.get(p) != c][0]
                return bad(tag, f'exit 0, but {p} is {"missing" if p not in t else "not what a run without faults writes"}', prep, env)
            if rc != 0 and not mayfail:
                return bad(tag, f'exit {rc}: {err[-300:]}', prep, env)
            if rc not in (0, 77) and not err.strip():
                return bad(tag, f'exit {rc} without a diagnostic', prep, env)
            for p, c in PROJ[proj].items():
                if t.get(p) != c.encode():
                    return bad(tag, f'the schema {p} was changed', prep, env)
            for p in foreign:
                if t.get(p) != before(prep, p):
                    return bad(tag, f'{p}, which is not generated, was changed', prep, env)
            known = set(clean) | set(PROJ[proj]) | set(foreign) | {x[1] for x in prep} | dirs
            if rc == 0:
                known |= {os.path.dirname(x) for x in known}
                extra = [p for p in t if p not in known]
                if extra:
                    return bad(tag, f'{extra[0]} was written, but a run without faults does not write it', prep, env)
            if again:
                n += 1
                rc, o, err = run(BB, s.args(), d)
                t = tree(d)
                if rc != 0:
                    return bad(tag, f'the next run fails: exit {rc} {err[-300:]}', prep, env)
                p = [p for p, c in clean.items() if t.get(p) != c]
                if p:
                    return bad(tag, f'the next run leaves {p[0]} {"missing" if p[0] not in t else "different from a first run"}', prep, env)
        finally:
            shutil.rmtree(d, True)

    def before(prep, p):
        for what, q, data in prep:
            if q == p:
                return data if what == 'file' else ('link', data) if what == 'link' else 'dir'

    # the run without faults: what it writes, and the calls it makes
    d = s.setup()
    try:
        log = os.path.join(d, 'log')
        rc, o, err = run(BB, s.args(), d, {'BBV_ROOT': os.path.join(d, 'out'), 'BBV_LOG': log})
        if rc != 0:
            return [(f'{s.name}:clean', f'{s.name}: exit {rc} {err[-300:]}', {'kind': 'output', 'scn': [tgt, proj, list(flags)], 'tag': 'clean'})], 1, 0
        with open(log) as f:
            ops = f.read().splitlines()
        os.remove(log)
        t = tree(d)
        clean = {p: c for p, c in t.items() if p.startswith('out') and isinstance(c, bytes)}
        dirs = {p for p, c in t.items() if c == 'dir'}
    finally:
        shutil.rmtree(d, True)
    if not clean:
        return [(f'{s.name}:clean', f'{s.name}: nothing written', {'kind': 'output', 'scn': [tgt, proj, list(flags)], 'tag': 'clean'})], 1, 0
    # a fault in every call, a crash before and in the middle of every call
    for k, op in enumerate(ops):
        name = op.split(' ')[0]
        hows = [('fail', 'ENOSPC'), ('kill', 'EIO')]
        if thorough:
            hows += [('fail', 'EIO'), ('fail', 'EACCES')]
        if name == 'write':
            hows += [('half', 'ENOSPC'), ('short', 'EIO'), ('killhalf', 'EIO')]
        for how, er in hows:
            go(f'op {k} {name} {how} {er}', env={'BBV_ROOT': '@/out', 'BBV_K': str(k), 'BBV_HOW': how, 'BBV_ERR': ERRNO[er]}, mayfail=how != 'short')
    # what is there already
    fs = sorted(clean)
    for p in fs:
        c = clean[p]
        for tag, data in (('longer', c + b'\n#error stale\n' * 40), ('longer by one', c + b'x'), ('empty', b''), ('cut', c[:len(c) // 2]), ('other', bytes(x ^ 1 for x in c)), ('same', c)):
            go(f'{p} exists: {tag}', [('file', p, data)], again=False, mayfail=False)
        go(f'{p} is a full device', [('link', p, '/dev/full')], again=False)
        go(f'{p} is a directory', [('dir', p, None)], again=False)
        go(f'{p} is a directory with files', [('file', p + '/x', b'keep')], again=False, foreign=[p + '/x'])
        go(f'{p} is a dangling link', [('link', p, '/nonexistent-dir/x')], again=False)
    # a deeper tree under a file
    for q in sorted(dirs | {'out'}):
        if q.startswith('out') and q not in clean:
            go(f'{q} is a file', [('file', q, b'keep')], again=False, foreign=[q])
            # links to directories are followed
            go(f'{q} is a directory already, with other files', [('file', q + '/notes.txt', b'keep'), ('file', q + '/sub/notes.c', b'keep')], again=True, mayfail=False, foreign=[q + '/notes.txt', q + '/sub/notes.c'])
    go('all exist, longer', [('file', p, clean[p] + b'\n#error stale\n' * 40) for p in fs], mayfail=False)
    return viol, n, len(ops)


def stdout_scn(job):
    """without -o: faults while writing standard output"""
    tgt, proj, flags, thorough = job
    s = Scn(tgt, proj, list(flags))
    args = ['-t', tgt, *flags, 'a.bb']
    viol, n = [], 0
    rp = {'kind': 'output', 'scn': [tgt, proj, list(flags)], 'stdout': True}
    d = s.setup()
    try:
        log = os.path.join(d, 'log')
        rc, o, err = run(BB, args, d, {'BBV_ROOT': '-', 'BBV_LOG': log})
        with open(log) as f:
            ops = f.read().splitlines()
        os.remove(log)
        if rc != 0 or not o:
            viol.append((f'{s.name}:stdout', f'{s.name} without -o: exit {rc}, {len(o)} bytes {err[-200:]}', rp))
            return viol, 1, 0
        t0 = tree(d)
        if set(t0) != {q for q in t0 if q in PROJ[proj] or t0[q] == 'dir'}:
            viol.append((f'{s.name}:stdout:files', f'{s.name} without -o wrote files: {sorted(t0)}', rp))
        for k in range(len(ops)):
            for how in ('fail', 'half', 'short'):
                n += 1
                rc, o2, err = run(BB, args, d, {'BBV_ROOT': '-', 'BBV_K': str(k), 'BBV_HOW': how, 'BBV_ERR': '28'})
                if crashed(rc, err):
                    viol.append((f'{s.name}:stdout {how} {k}', f'{s.name} without -o: crash {err[-300:]}', rp))
                elif rc == 0 and o2 != o:
                    viol.append((f'{s.name}:stdout {how} {k}', f'{s.name} without -o: exit 0 although write {k} to standard output failed ({len(o2)} of {len(o)} bytes)', rp))
                elif how == 'short' and rc != 0:
                    viol.append((f'{s.name}:stdout {how} {k}', f'{s.name} without -o: exit {rc} after a short write', rp))
                elif rc != 0 and not err.strip():
                    viol.append((f'{s.name}:stdout {how} {k}', f'{s.name} without -o: exit {rc} without a diagnostic', rp))
        with open('/dev/full', 'wb') as full:
            n += 1
            rc, _, err = run(BB, args, d, stdout=full)
            if rc == 0:
                viol.append((f'{s.name}:stdout full', f'{s.name} without -o: exit 0 although standard output is a full device', rp))
    finally:
        shutil.rmtree(d, True)
    return viol, n, len(ops)


def both(job):
    return (stdout_scn if job[0] == 'stdout' else one_scn)(job[1:])


def C16(rep):
    global BB
    BB = instr.build(['000'])['000']
    th = rep.tier != 'quick'
    jobs = []
    for t in TGTS:
        fl = [()]
        if t in SINGLE:
            fl.append(('-single',))
        if th:
            fl += [('-minimal',), ('-rmpath', 'one,mid')]
        for p in PROJ:
            for f in fl:
                jobs.append(('out', t, p, f, th))
                if f == () or th and f != ('-rmpath', 'one,mid'):
                    jobs.append(('stdout', t, p, f, th))
    for j, (viol, n, ops) in engine.prun(rep, jobs, fn=both):
        rep.add(transitions=n, states=ops, traces_validated_against_impl=n)
        for k, w, r in viol:
            rep.violation(k, w, r)
    rep.sample({'scenario': 'c graph', 'fault': 'op 4 write half ENOSPC', 'expected': 'exit not 0 with a diagnostic, or every file complete; the next run writes every file'})


def replay(r, prop):
    global BB
    if prop == 'C16':
        BB = instr.build(['000'])['000']
        v, _, _ = (stdout_scn if r.get('stdout') else one_scn)((*r['scn'], True))
        return [w for _, w, _ in v]
    return replay17(r)


# ------------------------------------------------------------------ C17
BINS = {}


def moves():
    """ways to run one command line that must not matter: (name, env, cwd, input, output, extra)"""
    P = 'proj'
    out = []
    for tag, env in (('plain', {}), ('no HOME', {'HOME': None, 'USER': None}), ('TZ', {'TZ': 'Asia/Kathmandu', 'LANG': 'tr_TR.UTF-8', 'LC_ALL': 'tr_TR.UTF-8'}), ('one cpu', {'GOMAXPROCS': '1'}),
                     ('gc', {'GOGC': '1'}), ('term', {'TERM': 'dumb', 'NO_COLOR': '1', 'COLUMNS': '20'}), ('random env', {'BUBBLER': '1', 'DEBUG': '1', 'VERBOSE': '1', 'SOURCE_DATE_EPOCH': '1'})):
        out.append((tag, env, P, 'a.bb', '@/o'))
    for cwd, inp in (('.', P + '/a.bb'), ('other', '../proj/a.bb'), (P, './a.bb'), (P, '../proj/a.bb'), (P, '@/proj/a.bb'), ('other', '@/other/../proj/a.bb'), (P, './/a.bb'), ('other', 'lnk/a.bb')):
        out.append((f'cwd {cwd} input {inp}', {}, cwd, inp, '@/o'))
    for o in ('@/o', '@/o/', '@/./o', '@/proj/../o', '../o', '../o/', '../../@N/o'):
        out.append((f'output {o}', {}, P, 'a.bb', o))
    return out


def det(job):
    """all runs of one (project, target, options): everything written must be the same"""
    name, files, tgt, flags, seeds, ok = job
    viol, n = [], 0
    base = core.subdir('det')
    # every run in a directory of its own name and depth, except where diagnostics (which quote paths) are compared
    rp = {'kind': 'det', 'files': files, 'tgt': tgt, 'flags': list(flags), 'ok': ok}
    label = f'{tgt} {" ".join(flags)} {name}'
    sfx = '/' + SINGLE[tgt] if '-single' in flags else ''

    def go(d, bb, env, cwd, inp, out):
        nonlocal n
        n += 1
        f = lambda x: x.replace('@N', os.path.basename(d)).replace('@', d)
        return run(bb, ['-t', tgt, *flags, '-o', f(out).rstrip('/') + sfx if sfx else f(out), f(inp)], os.path.join(d, cwd), env)

    def fresh(d):
        shutil.rmtree(d, True)
        os.makedirs(os.path.join(d, 'other'))
        write(os.path.join(d, 'proj'), files)
        os.symlink('../proj', os.path.join(d, 'other', 'lnk'))

    try:
        d = os.path.join(base, 'd')
        ref = None
        for s in seeds:
            fresh(d)
            rc, o, err = go(d, BINS[s], {}, 'proj', 'a.bb', '@/o')
            got = (rc, o, err, tree(os.path.join(d, 'o')))
            if ref is None:
                ref = got
                if (rc == 0) != ok:
                    viol.append((f'{label}:rc', f'{label}: exit {rc} {err[-300:]}', rp))
                    return viol, n
            elif got != ref:
                what = [p for p in sorted(set(ref[3]) | set(got[3])) if ref[3].get(p) != got[3].get(p)]
                viol.append((f'{label}:schedule', f'{label}: the order of map iterations or the time changes ' + (f'the file {what[0]}' if what else f'the diagnostics: {ref[2][-200:]!r} / {err[-200:]!r}') + f' (schedule {seeds[0]} against {s})', rp))
                break
        if ok:
            for k, (tag, env, cwd, inp, out) in enumerate(moves()):
                d = os.path.join(base, 'x' * (k + 1))
                fresh(d)
                rc, o, err = go(d, BINS[seeds[0]], env, cwd, inp, out)
                t = tree(os.path.join(d, 'o'))
                if rc != 0 or t != ref[3]:
                    what = [p for p in sorted(set(ref[3]) | set(t)) if ref[3].get(p) != t.get(p)]
                    viol.append((f'{label}:{tag}', f'{label}: {tag} changes what is written: exit {rc} {what[:3]} {err[-200:] if rc else ""}', rp))
                shutil.rmtree(d, True)
            # twice into the same place; and after an older version of the schema was generated there
            d = os.path.join(base, 'd')
            for tag, first in (('again', files), ('after an older version', {k: v.replace('uint8', 'uint32').replace('#3', '#19').replace('#5', '#13').replace('#12', '#12') if k == 'a.bb' else v for k, v in files.items()})):
                fresh(d)
                write(os.path.join(d, 'proj'), first)
                go(d, BINS[seeds[0]], {}, 'proj', 'a.bb', '@/o')
                write(os.path.join(d, 'proj'), files)
                rc, o, err = go(d, BINS[seeds[0]], {}, 'proj', 'a.bb', '@/o')
                t = tree(os.path.join(d, 'o'))
                if rc != 0 or any(t.get(p) != c for p, c in ref[3].items()):
                    viol.append((f'{label}:{tag}', f'{label}: a run {tag} gives other files: exit {rc} {err[-200:]}', rp))
    finally:
        shutil.rmtree(base, True)
    return viol, n


def schedules(th):
    return ([f'{a}{b}{t}' for a in range(8) for b in range(8) for t in range(8)] if th else [f'0{b}{t}' for t in (0, 1, 3) for b in range(8)])


def c17jobs(th):
    big = {'a.bb': variants.schema()[0].text()}
    seeds = schedules(th)
    jobs = []
    for name, files, ok in [('one', PROJ['one'], True), ('graph', GRAPH, True), ('big', big, True)] + [(k, v, k == 'warnings') for k, v in REFUSED.items()]:
        for t in TGTS if ok and name != 'warnings' else ('c', 'go'):
            for f in [()] + ([('-single',)] if t in SINGLE and ok and name != 'warnings' else []) + ([('-minimal', '-decnum', '-memcpy', '-unroll', '0')] if th else []):
                jobs.append((name, files, t, f, seeds, ok))
    # every other option at once, and prefixes that nest
    for t in TGTS:
        jobs.append(('graph', GRAPH, t, ('-minimal', '-decnum', '-memcpy', '-compat', '-unroll', '0', '-signext', 'arith', '-rmpath', 'org,top,top/in,org/ex,ex.org'), seeds, True))
    return jobs


def C17(rep):
    global BINS
    th = rep.tier != 'quick'
    BINS = instr.build(schedules(th))
    rep.add(schedules=len(BINS))
    for j, (viol, n) in engine.prun(rep, c17jobs(th), fn=det):
        rep.add(transitions=n, states=1, traces_validated_against_impl=n)
        for k, w, r in viol:
            rep.violation(k, w, r)
    rep.sample({'scenario': 'java graph', 'schedule': 'iteration i of every map starts at slot s + i*t', 'expected': 'the same files, byte by byte, and the same diagnostics'})


def replay17(r):
    global BINS
    s = schedules(False)
    BINS = instr.build(s)
    return [w for _, w, _ in det(('replay', r['files'], r['tgt'], tuple(r['flags']), s, r['ok']))[0]]

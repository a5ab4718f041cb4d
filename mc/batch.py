"""Runs many bubbler command lines quickly.

A build overlay turns package main into a server: main() is renamed, os.Exit in
package main becomes a recorded exit, and every request runs the real main with
its own arguments, files, working directory, stdout and stderr.  Nothing else of
the tree is touched.  A case that crashes or hangs the server, and every case on
which a check is about to report a violation, is run again through the real
binary, whose answer is the one that counts."""
import base64, json, os, queue, re, select, shutil, subprocess, threading, time
from . import core
from .core import REPO

SERVER = r'''package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
)

type bbvReq struct {
	Files map[string]string `json:"files"`
	Dirs  []string          `json:"dirs"`
	Links map[string]string `json:"links"`
	Cwd   string            `json:"cwd"`
	Args  []string          `json:"args"`
	Tree  bool              `json:"tree"`
}

type bbvRes struct {
	RC    int               `json:"rc"`
	Panic string            `json:"panic"`
	Out   string            `json:"out"`
	Err   string            `json:"err"`
	Tree  map[string]string `json:"tree"`
}

type bbvExitCode struct{ code int }

func bbvExit(c int) { panic(bbvExitCode{c}) }

func bbvOne(base string, q *bbvReq) (res bbvRes) {
	os.Chdir("/")
	os.RemoveAll(base)
	os.MkdirAll(base, 0755)
	for _, d := range q.Dirs {
		os.MkdirAll(filepath.Join(base, d), 0755)
	}
	for n, c := range q.Files {
		if strings.HasPrefix(c, "@B64@") {
			b, err := base64.StdEncoding.DecodeString(c[5:])
			if err != nil {
				panic(err)
			}
			c = string(b)
			q.Files[n] = c
		} else if strings.Contains(c, "@BASE@") {
			c = strings.ReplaceAll(c, "@BASE@", base)
			q.Files[n] = c
		}
		p := filepath.Join(base, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte(c), 0644); err != nil {
			panic(err)
		}
	}
	for n, c := range q.Links {
		os.Symlink(c, filepath.Join(base, n))
	}
	os.Chdir(filepath.Join(base, q.Cwd))
	so, se := os.Stdout, os.Stderr
	ro, wo, _ := os.Pipe()
	re, we, _ := os.Pipe()
	co, ce := make(chan string, 1), make(chan string, 1)
	go func() { b, _ := io.ReadAll(ro); co <- string(b) }()
	go func() { b, _ := io.ReadAll(re); ce <- string(b) }()
	os.Stdout, os.Stderr = wo, we
	os.Args = []string{"bubbler"}
	for _, a := range q.Args {
		os.Args = append(os.Args, strings.ReplaceAll(a, "@BASE@", base))
	}
	flag.CommandLine = flag.NewFlagSet("bubbler", flag.PanicOnError)
	flag.CommandLine.SetOutput(we)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(bbvExitCode); ok {
					res.RC = e.code
					return
				}
				if err, ok := r.(error); ok {
					if err == flag.ErrHelp {
						return
					}
					if strings.Contains(string(debug.Stack()), "flag.(*FlagSet).Parse") {
						res.RC = 2
						return
					}
				}
				res.RC = 2
				res.Panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
		}()
		bubblerMain()
	}()
	os.Stdout, os.Stderr = so, se
	wo.Close()
	we.Close()
	res.Out, res.Err = <-co, <-ce
	ro.Close()
	re.Close()
	os.Chdir("/")
	if q.Tree {
		res.Tree = map[string]string{}
		filepath.Walk(base, func(p string, i os.FileInfo, err error) error {
			if err != nil || p == base {
				return nil
			}
			rel, _ := filepath.Rel(base, p)
			if i.IsDir() {
				res.Tree[rel+"/"] = ""
			} else if b, err := os.ReadFile(p); err == nil {
				if old, ok := q.Files[rel]; !ok || old != string(b) {
					res.Tree[rel] = string(b)
				}
			}
			return nil
		})
	}
	return
}

func main() {
	base := os.Args[1]
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		ln, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q bbvReq
		if err := json.Unmarshal(ln, &q); err != nil {
			panic(err)
		}
		r := bbvOne(base, &q)
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
'''

_srv = None
_sl = threading.Lock()


def server():
    """path of the server binary, or None when it cannot be built"""
    global _srv
    with _sl:
        if _srv is None:
            _srv = (_build(),)
        return _srv[0]


def _build():
    core.bubbler()
    d = os.path.join(core.scratch(), 'batch')
    os.makedirs(d, exist_ok=True)
    rep = {}
    ov = core.parse_cache_overlay()
    if ov:
        with open(ov) as f:
            rep.update(json.load(f)['Replace'])
    n = 0
    for x in sorted(os.listdir(REPO)):
        if not x.endswith('.go') or x.endswith('_test.go'):
            continue
        with open(os.path.join(REPO, x)) as f:
            s = f.read()
        if not re.search(r'^package main\b', s, re.M):
            continue
        t = re.sub(r'\bos\.Exit\(', 'bbvExit(', s)
        t, k = re.subn(r'^func main\(\)', 'func bubblerMain()', t, flags=re.M)
        n += k
        if not re.search(r'\bos\.', t):
            t += '\nvar _ = os.Args\n'
        p = os.path.join(d, x)
        with open(p, 'w') as f:
            f.write(t)
        rep[os.path.join(REPO, x)] = p
    if n != 1:
        return None
    p = os.path.join(d, 'zz_bbv_server.go')
    with open(p, 'w') as f:
        f.write(SERVER)
    rep[os.path.join(REPO, 'zz_bbv_server.go')] = p
    j = os.path.join(d, 'overlay.json')
    with open(j, 'w') as f:
        json.dump({'Replace': rep}, f)
    out = os.path.join(d, 'server')
    rc, o, e = core.run(['go', 'build', '-overlay', j, '-o', out, '.'], cwd=REPO, timeout=600)
    if rc != 0:
        return None
    return out


class Case:
    """one command line in a fresh directory"""
    __slots__ = ('files', 'args', 'dirs', 'links', 'cwd', 'tree', 'tag', 'expect')

    def __init__(self, files, args, dirs=(), links=None, cwd='', tree=False, tag=None, expect=None):
        self.files, self.args, self.dirs, self.links, self.cwd, self.tree = files, list(args), list(dirs), links or {}, cwd, tree
        self.tag, self.expect = tag, expect

    def d(self):
        return {'files': self.files, 'args': self.args, 'dirs': self.dirs, 'links': self.links, 'cwd': self.cwd, 'tree': self.tree}


class Res:
    __slots__ = ('rc', 'panic', 'out', 'err', 'tree')

    def __init__(self, rc, panic, out, err, tree):
        self.rc, self.panic, self.tree = rc, panic, tree or {}
        self.out, self.err = core.ANSI.sub('', out), core.ANSI.sub('', err)

    def __repr__(self):
        return f'rc={self.rc} panic={self.panic[:200]!r} out={self.out[:300]!r} err={self.err[:600]!r} tree={sorted(self.tree)[:12]}'


def cli(case, timeout=60, env=None, keep=None, pre=None):
    """the same case through the real command-line tool"""
    base = keep or core.subdir('cli')
    os.makedirs(base, exist_ok=True)
    try:
        for x in case.dirs:
            os.makedirs(os.path.join(base, x), exist_ok=True)
        for n, c in case.files.items():
            p = os.path.join(base, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(content(c, base))
        for n, c in case.links.items():
            os.symlink(c, os.path.join(base, n))
        cmd = [*(pre or []), core.bubbler(), *(a.replace('@BASE@', base) for a in case.args)]
        rc, o, e = core.run(cmd, cwd=os.path.join(base, case.cwd), timeout=timeout, env=env)
        panic = ''
        if rc == 2 and re.search(r'^goroutine \d+ ', e, re.M):
            panic = e
        if rc == 'timeout':
            panic = 'no answer within %s s' % timeout
        tree = {}
        if case.tree:
            tree = read_tree(base, case.files)
        return Res(rc, panic, o, e, tree)
    finally:
        if not keep:
            shutil.rmtree(base, True)


def content(c, base):
    """bytes of a file: text (with @BASE@) or @B64@ and base64"""
    if c.startswith('@B64@'):
        return base64.b64decode(c[5:])
    return c.replace('@BASE@', base).encode('utf-8', 'surrogateescape')


def raw(b):
    """file content for arbitrary bytes"""
    return '@B64@' + base64.b64encode(b).decode()


def read_tree(base, files=()):
    tree = {}
    for r, ds, fs in os.walk(base):
        for x in ds:
            tree[os.path.relpath(os.path.join(r, x), base) + '/'] = ''
        for x in fs:
            p = os.path.join(r, x)
            rel = os.path.relpath(p, base)
            try:
                with open(p, 'rb') as f:
                    b = f.read().decode('utf-8', 'replace')
            except OSError:
                continue
            c = files.get(rel) if files else None
            if c is None or content(c, base).decode('utf-8', 'replace') != b:
                tree[rel] = b
    return tree


class _Worker:
    def __init__(self, k):
        self.base = os.path.join(core.scratch(), f'bw{k}', 'case')
        os.makedirs(os.path.dirname(self.base), exist_ok=True)
        self.p = None

    def start(self):
        self.p = subprocess.Popen([server(), self.base], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env={**core.ENV, 'GOMAXPROCS': '2', 'GOGC': '400'}, cwd='/', bufsize=0)
        self.buf = b''

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def one(self, case, timeout):
        if server() is None:
            return cli(case, timeout)
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(case.d()).encode() + b'\n')
            end = time.time() + timeout
            while b'\n' not in self.buf:
                left = end - time.time()
                if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                    raise TimeoutError
                b = os.read(self.p.stdout.fileno(), 1 << 20)
                if not b:
                    raise EOFError
                self.buf += b
            ln, self.buf = self.buf.split(b'\n', 1)
            r = json.loads(ln)
            return Res(r['rc'], r['panic'], r['out'], r['err'], r['tree'])
        except (TimeoutError, EOFError, BrokenPipeError):
            self.stop()
            return cli(case, timeout)


def run(cases, judge, rep=None, workers=8, timeout=20, conform=200):
    """runs every case (an iterable of Case, taken lazily); judge(case, res) ->
    None or (key, what).  A verdict is only kept if the real command-line tool
    gives the same one.  Some cases spread over the whole space also go through
    the real tool for comparison.  -> (cases run, [(case, key, what)])"""
    server()
    it = iter(cases)
    lock = threading.Lock()
    bad, count, same = [], [0], [0]
    keys = set()
    err = []

    def loop(k):
        w = _Worker(k)
        try:
            while True:
                with lock:
                    if err or (rep is not None and rep.expired()):
                        return
                    blk = []
                    for c in it:
                        blk.append((count[0], c))
                        count[0] += 1
                        if len(blk) == 8:
                            break
                if not blk:
                    return
                for i, c in blk:
                    r = w.one(c, timeout)
                    v = judge(c, r)
                    if v:
                        with lock:
                            if v[0] in keys:
                                continue
                        r2 = cli(c, timeout)
                        v2 = judge(c, r2)
                        if v2:
                            with lock:
                                if v2[0] not in keys:
                                    keys.add(v2[0])
                                    bad.append((c, v2[0], v2[1]))
                    elif conform and i % max(1, conform) == conform // 2:
                        r2 = cli(c, timeout)
                        v2 = judge(c, r2)
                        with lock:
                            same[0] += 1
                            if v2 and v2[0] not in keys:
                                keys.add(v2[0])
                                bad.append((c, v2[0], v2[1]))
        except Exception as x:      # noqa
            import traceback
            with lock:
                err.append(traceback.format_exc())
        finally:
            w.stop()

    ts = [threading.Thread(target=loop, args=(k,)) for k in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise core.Infra('batch: ' + err[0][-1500:])
    if rep is not None:
        rep.add(evaluations=count[0], states=count[0], transitions=count[0], traces_validated_against_impl=same[0] + len(bad))
        rest = next(it, None)
        if rest is not None:
            rep.skip('time budget reached: remaining cases not run')
        for c, key, what in bad:
            rep.violation(key, what, {'kind': 'case', 'case': c.d(), 'expect': c.expect, 'tag': c.tag})
    return count[0], bad

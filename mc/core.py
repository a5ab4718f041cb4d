"""Shared machinery: scratch space, building bubbler from /repo, reporting."""
import atexit, json, os, shutil, subprocess, sys, tempfile, time, hashlib, re, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known-findings.txt')

ENV = dict(os.environ)
ENV.update({
    'HOME': ENV.get('HOME', '/root'), 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
    'GOTOOLCHAIN': 'local', 'GOPROXY': 'off', 'GOFLAGS': '-mod=readonly -buildvcs=false', 'GOWORK': 'off',
    'DOTNET_CLI_TELEMETRY_OPTOUT': '1', 'DOTNET_NOLOGO': '1', 'DOTNET_TieredPGO': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    # bubbler allocates heavily; a lazier collector shortens generation by a third
    'GOGC': '800', 'GOMEMLIMIT': '3GiB',
})

_scratch = None
T0 = time.time()


class Infra(Exception):
    """our own machinery could not do its work (not a verdict about bubbler)"""


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='bbverif.')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def subdir(tag='d'):
    return tempfile.mkdtemp(prefix=tag, dir=scratch())


def run(cmd, cwd=None, timeout=300, env=None, input=None, text=True):
    e = dict(ENV)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, input=input, capture_output=True)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        rc, out, err = 'timeout', x.stdout or b'', x.stderr or b''
    if text:
        out, err = out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')
    return rc, out, err


PARSE_LINE = 'tmpl := template.Must(template.New("").Funcs(fns).Parse(templ))'
PARSE_CACHE = '''package util

import (
	"sort"
	"strings"
	"sync"
	"text/template"
	"text/template/parse"
)

var bbvMu sync.Mutex
var bbvTrees = map[string]map[string]*parse.Tree{}

// bbvParse is template.Must(template.New("").Funcs(fns).Parse(templ)) that
// parses the same text only once.
func bbvParse(fns template.FuncMap, templ string) *template.Template {
	names := make([]string, 0, len(fns))
	for n := range fns {
		names = append(names, n)
	}
	sort.Strings(names)
	key := strings.Join(names, ",") + "\\x00" + templ
	bbvMu.Lock()
	trees, ok := bbvTrees[key]
	bbvMu.Unlock()
	if !ok {
		t := template.Must(template.New("").Funcs(fns).Parse(templ))
		trees = map[string]*parse.Tree{}
		for _, x := range t.Templates() {
			trees[x.Name()] = x.Tree
		}
		bbvMu.Lock()
		bbvTrees[key] = trees
		bbvMu.Unlock()
		return t
	}
	t := template.New("").Funcs(fns)
	for n, tr := range trees {
		template.Must(t.AddParseTree(n, tr))
	}
	return t
}
'''


def parse_cache_overlay():
    """bubbler re-parses its templates for every field; a build overlay that
    replaces just that expression by a memoised equivalent makes generation
    several times faster.  Every other byte of the tree is compiled as it is."""
    src = os.path.join(REPO, 'util', 'template.go')
    try:
        with open(src) as f:
            s = f.read()
    except OSError:
        return None
    if s.count(PARSE_LINE) != 1 or os.environ.get('BBV_NO_OVERLAY'):
        return None
    d = os.path.join(scratch(), 'overlay')
    os.makedirs(d, exist_ok=True)
    a, b, j = (os.path.join(d, x) for x in ('template.go', 'bbv_cache.go', 'overlay.json'))
    # the file stays on its line numbers; only the parse call changes
    with open(a, 'w') as f:
        f.write(s.replace(PARSE_LINE, 'tmpl := bbvParse(fns, templ)'))
    with open(b, 'w') as f:
        f.write(PARSE_CACHE)
    with open(j, 'w') as f:
        json.dump({'Replace': {src: a, os.path.join(REPO, 'util', 'bbv_cache.go'): b}}, f)
    return j


_bub = None
_bl = threading.Lock()


def bubbler():
    """build the compiler from /repo's working tree, once per run"""
    global _bub
    with _bl:
        if _bub is None:
            out = os.path.join(scratch(), 'bubbler')
            rc, o, e = 1, '', ''
            ov = parse_cache_overlay()
            if ov:
                rc, o, e = run(['go', 'build', '-overlay', ov, '-o', out, '.'], cwd=REPO, timeout=600)
            if rc != 0:
                rc, o, e = run(['go', 'build', '-o', out, '.'], cwd=REPO, timeout=600)
            if rc != 0:
                raise Infra('go build failed: ' + e[-2000:])
            _bub = out
    return _bub


ANSI = re.compile(r'\x1b\[[0-9;]*m')


def gen(target, bb, out, flags=(), cwd=None, timeout=60):
    rc, o, e = run([bubbler(), '-t', target, '-o', out, *flags, bb], cwd=cwd, timeout=timeout)
    return rc, ANSI.sub('', o), ANSI.sub('', e)


def pmap(fn, items, workers=8):
    """parallel map; returns results in order; exceptions propagate"""
    with ThreadPoolExecutor(max_workers=workers) as ex:
        return list(ex.map(fn, items))


class Report:
    def __init__(self, prop, tier, level='model_checking', budget=None):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.budget = budget or (540 if tier == 'quick' else 6000)
        self.viol = []          # (key, what, replay dict)
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.exhaustive = True
        self.skipped = []
        self.infras = []
        self.lock = threading.Lock()
        self.known = load_findings(prop)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def expired(self):
        return self.left() <= 0

    def skip(self, what):
        """part of the space was not explored in time"""
        with self.lock:
            self.exhaustive = False
            self.skipped.append(what)

    def infra(self, what):
        """our machinery failed on a part of the space: no verdict there"""
        with self.lock:
            self.exhaustive = False
            self.infras.append(what)
            self.skipped.append('machinery: ' + what[-300:])

    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)

    def violation(self, key, what, replay):
        with self.lock:
            if not any(v[0] == key for v in self.viol):
                self.viol.append((key, what, replay))

    def finish(self):
        new = []
        known_hit = {}
        for key, what, rp in self.viol:
            k = self.known.get(key)
            if k is not None:
                known_hit[key] = what
            else:
                new.append((key, what, rp))
        for key, desc in self.known.items():
            if key in known_hit:
                print(f'KNOWN-FINDING: property={self.prop} {key} {desc}')
        os.makedirs(EVID, exist_ok=True)
        paths = []
        rdir = os.path.join(EVID, 'replay')
        if new:
            os.makedirs(rdir, exist_ok=True)
        for i, (key, what, rp) in enumerate(new[:20]):
            h = hashlib.sha1(key.encode()).hexdigest()[:10]
            p = os.path.join(rdir, f'{self.prop}-{h}.json')
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'key': key, 'what': what, 'replay': rp}, f, indent=1, default=str)
            paths.append(p)
        cov = dict(self.cov)
        cov.setdefault('states', cov.get('evaluations', 0))
        cov.setdefault('transitions', cov.get('evaluations', 0))
        cov.setdefault('traces_validated_against_impl', cov.get('evaluations', 0))
        cov['samples'] = self.samples
        cov['exhaustive'] = self.exhaustive
        if self.skipped:
            cov['not_explored'] = self.skipped[:50]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new),
              'known_findings_hit': sorted(known_hit)}
        tmp = os.path.join(EVID, f'.{self.prop}.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, f'{self.prop}.json'))
        for (key, what, rp), p in zip(new, paths):
            print(f'VIOLATION property={self.prop} replay={p}')
            print(f'  {key}: {what}'[:1500])
        print(f'{self.prop} {self.tier}: {len(new)} violation(s), {len(known_hit)} known; '
              + ', '.join(f'{k}={v}' for k, v in self.cov.items()) + f'; exhaustive={self.exhaustive}; {time.time() - self.t0:.1f}s')
        for w in self.infras[:5]:
            print('machinery problem: ' + w, file=sys.stderr)
        if new:
            return 1
        # a check whose machinery broke down has no answer
        return 2 if self.infras else 0


def load_findings(prop):
    """known-findings.txt lines:  finding: property=C04 key=<key> <description>"""
    out = {}
    try:
        with open(FINDINGS) as f:
            for ln in f:
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', ln)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return out

"""Instrumented builds of the compiler.  Only the Go standard library below it is
replaced (build overlay); every file of /repo is compiled as it is.

* map iteration: the starting point of every iteration, hash seeds and hash keys
  come from the schedule "sst" instead of the random generator: iteration i of the
  process starts at slot s + i*t
* system calls: call number BBV_K (0, 1, ...) of those that change something
  below BBV_ROOT, or that write standard output (BBV_ROOT=-), fails or is cut short
  the way BBV_HOW says; the calls are logged to the file BBV_LOG
"""
import json, os, re
from . import core

MAPVAR = '''package maps

// BbvSeed is set by the linker
var BbvSeed = "000"

var bbvCount uint64

func bbvOffset() uint64 {
	s, t := uint64(BbvSeed[0]-'0')*8+uint64(BbvSeed[1]-'0'), uint64(BbvSeed[2]-'0')
	bbvCount++
	return s + bbvCount*t
}

func bbvConst() uint64 {
	return (uint64(BbvSeed[0]-'0')*8+uint64(BbvSeed[1]-'0')+1)*0x9E3779B97F4A7C15 | 1
}
'''
SYS = '''package syscall

const (
	bbvNone = iota
	bbvFail
	bbvHalf
	bbvKill
	bbvKillHalf
	bbvShort
)

var (
	bbvOn   bool
	bbvInit bool
	bbvRoot string
	bbvHow  string
	bbvErr  Errno
	bbvK    int
	bbvN    int
	bbvLog  = -1
	bbvFds  [4096]bool
)

func bbvSetup() {
	if bbvInit {
		return
	}
	bbvInit = true
	var ok bool
	if bbvRoot, ok = Getenv("BBV_ROOT"); !ok {
		return
	}
	bbvOn = true
	bbvHow, _ = Getenv("BBV_HOW")
	k, _ := Getenv("BBV_K")
	bbvK = -1
	if k != "" {
		bbvK = 0
		for i := 0; i < len(k); i++ {
			bbvK = bbvK*10 + int(k[i]-'0')
		}
	}
	e, _ := Getenv("BBV_ERR")
	for i := 0; i < len(e); i++ {
		bbvErr = bbvErr*10 + Errno(e[i]-'0')
	}
	if l, ok := Getenv("BBV_LOG"); ok {
		bbvLog, _ = bbvOrigOpen(l, O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC, 0644)
	}
}

func bbvIn(path string) bool {
	bbvSetup()
	if !bbvOn || bbvRoot == "-" {
		return false
	}
	return len(path) >= len(bbvRoot) && path[:len(bbvRoot)] == bbvRoot
}

// bbvEvent counts a call that changes something; what is to happen to it
func bbvEvent(name, arg string) int {
	n := bbvN
	bbvN++
	if bbvLog >= 0 {
		write(bbvLog, []byte(name+" "+arg+"\\n"))
	}
	if n != bbvK {
		return bbvNone
	}
	switch bbvHow {
	case "half":
		return bbvHalf
	case "short":
		return bbvShort
	case "kill":
		return bbvKill
	case "killhalf":
		return bbvKillHalf
	}
	return bbvFail
}

func bbvDie() {
	RawSyscall(SYS_EXIT_GROUP, 77, 0, 0)
}

func bbvPath(name, path string) error {
	if !bbvIn(path) {
		return nil
	}
	switch bbvEvent(name, path) {
	case bbvFail, bbvHalf:
		return bbvErr
	case bbvKill, bbvKillHalf:
		bbvDie()
	}
	return nil
}

func Open(path string, mode int, perm uint32) (fd int, err error) {
	w := mode&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC) != 0 && bbvIn(path)
	if w {
		if err := bbvPath("open", path); err != nil {
			return -1, err
		}
	}
	fd, err = bbvOrigOpen(path, mode, perm)
	if w && err == nil && fd < len(bbvFds) {
		bbvFds[fd] = true
	}
	return
}

func Mkdir(path string, mode uint32) (err error) {
	if err := bbvPath("mkdir", path); err != nil {
		return err
	}
	return bbvOrigMkdir(path, mode)
}

func Rename(oldpath string, newpath string) (err error) {
	if err := bbvPath("rename", newpath); err != nil {
		return err
	}
	return bbvOrigRename(oldpath, newpath)
}

func bbvFd(fd int) bool {
	bbvSetup()
	return bbvOn && (bbvRoot == "-" && fd == 1 || fd >= 0 && fd < len(bbvFds) && bbvFds[fd])
}

func Write(fd int, p []byte) (n int, err error) {
	if bbvFd(fd) {
		switch bbvEvent("write", "") {
		case bbvFail:
			return -1, bbvErr
		case bbvHalf:
			// a short write; the next call fails
			bbvK++
			bbvHow = "fail"
			if len(p) > 1 {
				return bbvOrigWrite(fd, p[:len(p)/2])
			}
			return -1, bbvErr
		case bbvShort:
			// a short write, and all goes on
			if len(p) > 1 {
				return bbvOrigWrite(fd, p[:len(p)/2])
			}
		case bbvKillHalf:
			bbvOrigWrite(fd, p[:len(p)/2])
			bbvDie()
		case bbvKill:
			bbvDie()
		}
	}
	return bbvOrigWrite(fd, p)
}

func Close(fd int) (err error) {
	if bbvFd(fd) && fd > 2 {
		bbvFds[fd] = false
		switch bbvEvent("close", "") {
		case bbvFail, bbvHalf:
			bbvOrigClose(fd)
			return bbvErr
		case bbvKill, bbvKillHalf:
			bbvDie()
		}
	}
	return bbvOrigClose(fd)
}
'''
FUNCS = [('syscall/syscall_linux.go', ('Open', 'Mkdir', 'Rename')), ('syscall/syscall_unix.go', ('Write',)), ('syscall/zsyscall_linux_%s.go', ('Close',))]
EDITS = {
    'internal/runtime/maps/table.go': [('it.entryOffset = rand()', 'it.entryOffset = bbvOffset()'), ('it.dirOffset = rand()', 'it.dirOffset = bbvOffset()')],
    'internal/runtime/maps/map.go': [('m.seed = uintptr(rand())', 'm.seed = uintptr(bbvConst())')],
    'internal/runtime/maps/runtime_alg.go': [('bootstrapRand()', 'bbvConst()')],
    'time/time.go': [('sec, nsec, mono := runtimeNow()\n\tif mono == 0', 'sec, nsec, mono := runtimeNow()\n\tsec += int64(len(BbvYears)) * 31600000\n\tif mono == 0')],
}


def build(seeds, faults=True):
    """-> {seed: binary}"""
    root = core.run(['go', 'env', 'GOROOT', 'GOARCH'], cwd=core.REPO)[1].split('\n')
    src, arch = os.path.join(root[0], 'src'), root[1]
    d = core.subdir('instr')
    rep = {}

    def put(rel, text):
        p = os.path.join(d, rel.replace('/', '_'))
        with open(p, 'w') as f:
            f.write(text)
        rep[os.path.join(src, rel)] = p

    def get(rel):
        with open(os.path.join(src, rel)) as f:
            return f.read()
    for rel, ed in EDITS.items():
        t = get(rel)
        for a, b in ed:
            if a not in t:
                raise core.Infra(f'{rel} of this Go release has no {a!r}')
            t = t.replace(a, b)
        put(rel, t)
    put('internal/runtime/maps/bbv.go', MAPVAR)
    put('time/bbv.go', 'package time\n\n// BbvYears is set by the linker\nvar BbvYears = ""\n')
    for rel, names in FUNCS:
        rel = rel % arch if '%' in rel else rel
        t = get(rel)
        for n in names:
            t, k = re.subn(r'^func %s\(' % n, 'func bbvOrig%s(' % n, t, flags=re.M)
            if k != 1:
                raise core.Infra(f'{rel} of this Go release has no {n}')
        put(rel, t)
    put('syscall/bbv.go', SYS)
    j = os.path.join(d, 'overlay.json')
    with open(j, 'w') as f:
        json.dump({'Replace': rep}, f)

    def one(seed):
        out = os.path.join(d, 'bubbler_' + seed)
        rc, o, e = core.run(['go', 'build', '-overlay', j, '-ldflags', f'-X internal/runtime/maps.BbvSeed={seed} -X time.BbvYears={"y" * int(seed[1])}', '-o', out, '.'], cwd=core.REPO, timeout=700)
        if rc != 0:
            raise core.Infra('instrumented build failed: ' + (o + e)[-1500:])
        return out
    first = one(seeds[0])
    return dict(zip(seeds, [first] + core.pmap(one, seeds[1:])))

"""Per-language drivers for generated code.

A driver is a program built around one generated schema.  It reads commands,
one per line, and prints exactly one line per command:

  E sid tok..              fresh object, set leaves, -> "<encode_size> <hex>"
  W sid fill pre post tok.. encode at offset pre into a buffer of pre+size+post bytes
                           filled with <fill>  -> "<ret> <whole buffer hex>"
  D sid start hex          -> "<decode_size> <decode ret> tok.."  (decoding at <start>)
  P sid hex                -> decode_size of every prefix, space separated
  N o sid / S o i tok / G o / Q o      object slots: new, set leaf, get leaves, encode (size hex)
  T o tok..                set all leaves of a slot
  B b hex / K b i v / Z b / F b        buffer slots: load, poke, show, scribble+free
  X o b start              decode slot o from buffer b -> ret
  Y o b start              encode slot o into buffer b -> ret
  V sid b start            decode_size
  M o i j v                poke byte j of the bytes leaf i in place

Tokens: ints decimal, bool 0/1, floats hex of the IEEE bits, enums decimal,
strings "s<hex utf8>", bytes "b<hex>".  An exception/panic prints "!<name>".
A line may hold several commands separated by ';' (a history); the answers are
separated by ';' too.
"""
import os, subprocess, re
from . import core
from .model import *

LANGS = ['c', 'cpp', 'go', 'java', 'csharp', 'commonjs', 'esmodule', 'python']
OBJ, BUF = 8, 8
CC, CXX = os.environ.get('BBV_CC', 'clang'), os.environ.get('BBV_CXX', 'clang++')


class BuildFail(Exception):
    def __init__(self, stage, msg):
        super().__init__(stage + ': ' + msg)
        self.stage, self.msg = stage, msg


def cap(s):
    return s[0].upper() + s[1:]


class Target:
    ext = ''

    def __init__(self, lang, schema, flags=(), asan=False, files=None, tag='t'):
        self.lang, self.schema, self.flags, self.asan = lang, schema, list(flags), asan
        self.files = files or {}          # extra .bb files: name -> text
        self.dir = core.subdir(tag + '_' + lang + '_')
        self.out = os.path.join(self.dir, 'out')
        self.structs = schema.structs()
        self.enums = schema.enums()
        self.leaves = [leaves(s) for s in self.structs]
        self.sid = {s.name: i for i, s in enumerate(self.structs)}
        self.single = '-single' in self.flags and self.single_name is not None
        self.memcpy = '-memcpy' in self.flags
        self.compat = '-compat' in self.flags
        self.minimal = '-minimal' in self.flags
        # flags that start with '@' are the driver's: '@acc' reads and writes
        # every field through its raw accessors, whole arrays in turn with items
        self.acc = '@acc' in self.flags

    def unit(self, t):
        """the file that defines a type"""
        return self.schema.home.get(t.name, self.schema)

    # -- generation
    single_name = None

    def generate(self):
        bb = os.path.join(self.dir, 's.bb')
        with open(bb, 'w') as f:
            f.write(self.schema.text())
        for n, t in self.files.items():
            p = os.path.join(self.dir, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(t)
        out = self.out
        if self.single:
            os.makedirs(self.out, exist_ok=True)
            out = os.path.join(self.out, self.single_name)
        rc, o, e = core.gen(self.lang, bb, out, [f for f in self.flags if f[0] != '@'])
        if rc != 0:
            raise BuildFail('generate', f'rc={rc} {o[-400:]} {e[-400:]}')

    def build(self):
        self.generate()
        self.write_driver()
        self.compile()
        return self

    def cc(self, cmd, cwd=None, timeout=600, env=None):
        rc, o, e = core.run(cmd, cwd=cwd or self.dir, timeout=timeout, env=env)
        if rc == 'timeout':
            raise core.Infra('compiler timeout: ' + ' '.join(map(str, cmd[:6])))
        if rc != 0:
            raise BuildFail('compile', (o + e)[-3000:])

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, name, text):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)
        return p

    def cmd(self):
        raise NotImplementedError

    env = {}

    def run(self, cmds, timeout=300):
        """run commands; a crash is reported as '!CRASH ...' for the command that
        was executing, and the rest is run in a new process"""
        outs = []
        i = 0
        crashes = 0
        while i < len(cmds):
            p = self.path('cmds.txt')
            with open(p, 'w') as f:
                f.write('\n'.join(cmds[i:]) + '\n')
            e = dict(core.ENV)
            e.update(self.env)
            try:
                r = subprocess.run(self.cmd() + [p], env=e, capture_output=True, timeout=timeout, cwd=self.dir)
                rc, out, err = r.returncode, r.stdout, r.stderr
            except subprocess.TimeoutExpired as x:
                rc, out, err = 'timeout', x.stdout or b'', x.stderr or b''
            lines = out.decode('utf-8', 'replace').split('\n')
            if lines and lines[-1] == '':
                lines.pop()
            elif lines and rc != 0:
                lines.pop()          # partial line
            outs += lines[:len(cmds) - i]
            i = len(outs)
            if i < len(cmds):
                crashes += 1
                msg = err.decode('utf-8', 'replace')
                m = re.search(r'(ERROR: \w+Sanitizer: [\w-]+|runtime error: [^\n]*)', msg)
                why = m.group(1) if m else (msg.strip().split('\n') or [''])[0][:200]
                outs.append(f'!CRASH rc={rc} {why}')
                i += 1
                if crashes > 25:
                    outs += ['!SKIPPED'] * (len(cmds) - len(outs))
                    break
        return outs


# =========================================================================== C
CTYPE = {'bool': 'bool', 'float32': 'float', 'float64': 'double', 'string': 'char*', 'bytes': 'struct bytes'}


def ctype(t):
    if isinstance(t, Enum):
        return 'enum ' + t.name
    return CTYPE.get(t.name) or t.name + '_t'


def cpath(path, base='o->'):
    return base + '.'.join(n if i is None else f'{n}[{i}]' for n, i in path)


def member(s, n):
    return next(f for f in flat_fields(s) if f.name == n)


class CAcc:
    """raw accessors of C (cxx false) and C++ (cxx true) as driver code"""
    def __init__(self, cxx):
        self.cxx = cxx

    def call(self, s, o, what, *args):
        if self.cxx:
            return f'({o})->{what}({", ".join(args)})'
        return f'{s.name}_{what}({", ".join((o,) + args)})'

    def item(self, s, o, n, i):
        if i is None:
            return self.call(s, o, f'get_{n}')
        return self.call(s, o, f'get_{n}_item', str(i)) if i % 2 == 0 else f'({self.call(s, o, f"get_{n}")})[{i}]'

    def tmp(self, d, e):
        return f'auto t{d} = {e};' if self.cxx else f'__typeof__({e}) t{d} = {e};'

    def rd(self, s, path, o='o', d=0):
        (n, i), rest = path[0], path[1:]
        e = self.item(s, o, n, i)
        if not rest:
            return e
        return f'({{ {self.tmp(d, e)} {self.rd(member(s, n).type, rest, f"&t{d}", d + 1)}; }})'

    def wr(self, s, path, v, o='o', d=0):
        (n, i), rest = path[0], path[1:]
        pre = ''
        if rest:
            pre = f'{self.tmp(d, self.item(s, o, n, i))} {self.wr(member(s, n).type, rest, v, f"&t{d}", d + 1)} '
            v = f't{d}'
        if i is None:
            return f'{{ {pre}{self.call(s, o, f"set_{n}", v)}; }}'
        if i % 2 == 0:
            return f'{{ {pre}{self.call(s, o, f"set_{n}_item", str(i), v)}; }}'
        N = member(s, n).n
        ty = f'std::decay_t<decltype({self.call(s, o, f"get_{n}_item", "0")})>' if self.cxx else f'__typeof__({self.call(s, o, f"get_{n}_item", "0")})'
        return (f'{{ {pre}{ty} a{d}[{N}]; for(int k=0;k<{N};k++) a{d}[k]=({self.call(s, o, f"get_{n}")})[k]; a{d}[{i}]={v}; '
                f'uint64_t l{d}={self.call(s, o, f"get_{n}_length")}; if(l{d}!={N}) printf("LENGTH%d",(int)l{d}); {self.call(s, o, f"set_{n}", f"a{d}", str(N))}; }}')


def go_rd(s, path, o='o'):
    (n, i), rest = path[0], path[1:]
    e = f'{o}.Get{cap(n)}()' + ('' if i is None else f'[{i}]')
    return go_rd(member(s, n).type, rest, e) if rest else e


def go_wr(s, path, v, o='o', d=0):
    (n, i), rest = path[0], path[1:]
    t = f't{d}'
    get, put = f'{t} := {o}.Get{cap(n)}()', f'{o}.Set{cap(n)}({t})'
    if not rest:
        return f'{o}.Set{cap(n)}({v})' if i is None else f'{{ {get}; {t}[{i}] = {v}; {put} }}'
    m = member(s, n).type
    return f'{{ {get}; {go_wr(m, rest, v, t if i is None else f"{t}[{i}]", d + 1)}; {put} }}'


C_COMMON = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
static int hexv(int c){ return c<='9'?c-'0':(c|32)-'a'+10; }
static uint8_t* unhex(const char*s, uint64_t*n, int extra){
  size_t l=strlen(s)/2; uint8_t*p=(uint8_t*)malloc(l+extra? l+extra:1);
  for(size_t i=0;i<l;i++) p[i]=(uint8_t)(hexv(s[2*i])<<4|hexv(s[2*i+1]));
  for(int i=0;i<extra;i++) p[l+i]=0; *n=l; return p; }
static void phex(const uint8_t*p, uint64_t n){ for(uint64_t i=0;i<n;i++) printf("%02x",p[i]); }
static float f32_of(const char*t){ uint32_t v=(uint32_t)strtoul(t,0,16); float f; memcpy(&f,&v,4); return f; }
static double f64_of(const char*t){ uint64_t v=strtoull(t,0,16); double f; memcpy(&f,&v,8); return f; }
static void pf32(float f){ uint32_t v; memcpy(&v,&f,4); printf(" %08" PRIx32,v); }
static void pf64(double f){ uint64_t v; memcpy(&v,&f,8); printf(" %016" PRIx64,v); }
static int64_t i_of(const char*t){ return t[0]=='-'?strtoll(t,0,10):(int64_t)strtoull(t,0,10); }
#define MAXT 4096
'''

C_MAIN = r'''
static void* slot[8]; static int slotsid[8]; static uint8_t* buf[8]; static uint64_t blen[8];
static char* toks[MAXT]; static char* line=0; static size_t cap_=0;
int main(int argc,char**argv){
  FILE*f=fopen(argv[1],"r"); if(!f) return 3;
  while(getline(&line,&cap_,f)>=0){
    int part=0; char*s0=line; for(char*seg=line;seg;){ char*end=strchr(seg,';'); if(end) *end=0; s0=seg; seg=end?end+1:0; if(part++) printf(";");
    int n=0; char*sv=0; for(char*t=strtok_r(s0," \n",&sv);t&&n<MAXT;t=strtok_r(0," \n",&sv)) toks[n++]=t;
    if(n==0) continue;
    char op=toks[0][0]; uint64_t L=0;
    #define ARG(i) atoi(toks[i])
    if(op=='E'){ int s=ARG(1); void*o=mnew(s); for(int i=2;i<n;i++) mset(s,o,i-2,toks[i]);
      uint64_t z=mencsz(s,o); uint8_t*b=(uint8_t*)calloc(z?z:1,1); uint64_t r=menc(s,o,b,z);
      printf("%" PRIu64 " ",z); phex(b,r<=z?r:z); if(r!=z) printf(" RET=%" PRIu64,r); free(b); mdel(s,o); }
    else if(op=='W'){ int s=ARG(1); int fill=ARG(2),pre=ARG(3),post=ARG(4); void*o=mnew(s);
      for(int i=5;i<n;i++) mset(s,o,i-5,toks[i]);
      uint64_t z=mencsz(s,o); uint64_t tot=pre+z+post; uint8_t*b=(uint8_t*)malloc(tot?tot:1); memset(b,fill,tot);
      uint64_t r=menc(s,o,b+pre,z+post); printf("%" PRIu64 " ",r); phex(b,tot); free(b); mdel(s,o); }
    else if(op=='D'){ int s=ARG(1), st=ARG(2); uint8_t*b=unhex(n>3?toks[3]:"",&L,0); void*o=mnew(s);
      int64_t z=mdecsz(s,b+st,L-st); printf("%" PRId64,z);
      int64_t r=z>0?mdec(s,b+st,L-st,o):-1; printf(" %" PRId64,r); if(r>=0) mget(s,o); mdel(s,o); free(b); }
    else if(op=='P'){ int s=ARG(1); uint8_t*b=unhex(n>2?toks[2]:"",&L,0);
      for(uint64_t k=0;k<=L;k++){ uint8_t*c=(uint8_t*)malloc(k?k:1); memcpy(c,b,k); printf("%s%" PRId64,k?" ":"",mdecsz(s,c,k)); free(c);} free(b); }
    else if(op=='N'){ int o=ARG(1); slotsid[o]=ARG(2); slot[o]=mnew(slotsid[o]); printf("ok"); }
    else if(op=='S'){ int o=ARG(1); mset(slotsid[o],slot[o],ARG(2),toks[3]); printf("ok"); }
    else if(op=='T'){ int o=ARG(1); for(int i=2;i<n;i++) mset(slotsid[o],slot[o],i-2,toks[i]); printf("ok"); }
    else if(op=='G'){ int o=ARG(1); printf("."); mget(slotsid[o],slot[o]); }
    else if(op=='Q'){ int o=ARG(1); uint64_t z=mencsz(slotsid[o],slot[o]); uint8_t*b=(uint8_t*)calloc(z?z:1,1);
      uint64_t r=menc(slotsid[o],slot[o],b,z); printf("%" PRIu64 " ",z); phex(b,r<=z?r:z); if(r!=z) printf(" RET=%" PRIu64,r); free(b); }
    else if(op=='B'){ int k=ARG(1); free(buf[k]); buf[k]=unhex(n>2?toks[2]:"",&blen[k],0); printf("ok"); }
    else if(op=='K'){ int k=ARG(1); buf[k][ARG(2)]=(uint8_t)ARG(3); printf("ok"); }
    else if(op=='Z'){ int k=ARG(1); phex(buf[k],blen[k]); }
    else if(op=='F'){ int k=ARG(1); memset(buf[k],0xEE,blen[k]); free(buf[k]); buf[k]=0; blen[k]=0; printf("ok"); }
    else if(op=='X'){ int o=ARG(1),k=ARG(2),st=ARG(3); int64_t z=mdecsz(slotsid[o],buf[k]+st,blen[k]-st);
      printf("%" PRId64, z>0?mdec(slotsid[o],buf[k]+st,blen[k]-st,slot[o]):-1); }
    else if(op=='Y'){ int o=ARG(1),k=ARG(2),st=ARG(3); printf("%" PRIu64, menc(slotsid[o],slot[o],buf[k]+st,blen[k]-st)); }
    else if(op=='V'){ int s=ARG(1),k=ARG(2),st=ARG(3); printf("%" PRId64, mdecsz(s,buf[k]+st,blen[k]-st)); }
    else if(op=='M'){ int o=ARG(1); mpoke(slotsid[o],slot[o],ARG(2),ARG(3),ARG(4)); printf("ok"); }
    else printf("?");
    }
    puts(""); fflush(stdout);
  }
  return 0; }
'''


class C(Target):
    single_name = 'gen.h'

    def hdr(self):
        return 'gen.h' if self.single else self.schema.package.replace('.', '/') + '.bb.h'

    def write_driver(self):
        o = [C_COMMON.replace('#include <stdio.h>', '#define _GNU_SOURCE\n#include <stdbool.h>\n#include <stdio.h>', 1),
             f'#include "{self.hdr()}"']
        for k, (s, ls) in enumerate(zip(self.structs, self.leaves)):
            T = 'struct ' + s.name
            o.append(f'static void set_{k}({T}*o,int i,const char*t){{ uint64_t n; switch(i){{')
            A = CAcc(False)
            for i, l in enumerate(ls):
                p = cpath(l.path)
                if self.acc:
                    w = lambda v: A.wr(s, l.path, v)
                    o.append(f'case {i}: ' + {
                        'str': f'{{ char*q=(char*)unhex(t+1,&n,1); {w("q")} }}',
                        'bytes': f'{{ struct bytes q; q.data=unhex(t+1,&n,0); q.length=n; {w("q")} }}',
                        'f32': w('f32_of(t)'), 'f64': w('f64_of(t)'),
                        'bool': w('(bool)i_of(t)')}.get(l.kind, w(f'({ctype(l.type)})i_of(t)')) + ' break;')
                    continue
                o.append(f'case {i}: ' + {
                    'str': f'{p}=(char*)unhex(t+1,&n,1);',
                    'bytes': f'{p}.data=unhex(t+1,&n,0); {p}.length=n;',
                    'f32': f'{p}=f32_of(t);', 'f64': f'{p}=f64_of(t);',
                    'bool': f'{p}=(bool)i_of(t);'}.get(l.kind, f'{p}=({ctype(l.type)})i_of(t);') + ' break;')
            o.append('} (void)n; }')
            o.append(f'static void get_{k}({T}*o){{')
            for l in ls:
                p = A.rd(s, l.path) if self.acc else cpath(l.path)
                o.append({
                    'str': f'printf(" s"); phex((uint8_t*){p},strlen({p}));',
                    'bytes': f'printf(" b"); phex({p}.data,{p}.length);',
                    'f32': f'pf32({p});', 'f64': f'pf64({p});', 'bool': f'printf(" %d",(int){p});',
                    'int': f'printf(" %" PRId64,(int64_t){p});',
                }.get(l.kind, f'printf(" %" PRIu64,(uint64_t){p});'))
            o.append('}')
            o.append(f'static void poke_{k}({T}*o,int i,int j,int v){{ switch(i){{')
            o += [f'case {i}: {cpath(l.path)}{".data" if l.kind == "bytes" else ""}[j]=v; break;' for i, l in enumerate(ls) if l.kind in ('bytes', 'str')]
            o.append('} }')
            o.append(f'static void init_{k}({T}*o){{')
            for l in ls:
                if l.kind == 'str':
                    o.append(f'{cpath(l.path)}=(char*)"";')
            o.append('}')
        def sw(name, sig, body, default):
            o.append(f'static {sig} {{ switch(s){{')
            for k, s in enumerate(self.structs):
                o.append(f'case {k}: {body(k, s)}')
            o.append(f'}} {default} }}')
        sw('mnew', 'void* mnew(int s)', lambda k, s: f'{{ struct {s.name}*o=calloc(1,sizeof *o); init_{k}(o); return o; }}', 'return 0;')
        sw('mset', 'void mset(int s,void*o,int i,const char*t)', lambda k, s: f'set_{k}(o,i,t); break;', '')
        sw('mget', 'void mget(int s,void*o)', lambda k, s: f'get_{k}(o); break;', '')
        sw('mpoke', 'void mpoke(int s,void*o,int i,int j,int v)', lambda k, s: f'poke_{k}(o,i,j,v); break;', '')
        sw('mencsz', 'uint64_t mencsz(int s,void*o)', lambda k, s: f'return {s.name}_encode_size(o);', 'return 0;')
        sw('menc', 'uint64_t menc(int s,void*o,uint8_t*b,uint64_t n)', lambda k, s: f'return {s.name}_encode(o,b);', 'return 0;')
        sw('mdecsz', 'int64_t mdecsz(int s,const uint8_t*b,uint64_t n)', lambda k, s: f'return {s.name}_decode_size(b,n);', 'return 0;')
        sw('mdec', 'int64_t mdec(int s,const uint8_t*b,uint64_t n,void*o)', lambda k, s: f'return {s.name}_decode(b,o);', 'return 0;')
        o.append('static void mdel(int s,void*o){ (void)s; free(o); }')
        o.append(C_MAIN)
        self.write('driver.c', '\n'.join(o))

    def compile(self):
        srcs = []
        for root, _, fs in os.walk(self.out):
            srcs += [os.path.join(root, f) for f in fs if f.endswith('.c')]
        fl = ['-fsanitize=address', '-fno-omit-frame-pointer', '-g1'] if self.asan else []
        # bubbler itself puns objects through differently-typed pointers
        self.cc([CC, '-std=gnu17', '-O0', '-w', '-fwrapv', '-fno-strict-aliasing', *fl, '-I', self.out, '-o', 'drv', 'driver.c', *sorted(srcs), '-lm'])

    env = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096'}

    def cmd(self):
        return [self.path('drv')]


class Cpp(Target):
    single_name = 'gen.hpp'

    def hdr(self):
        return 'gen.hpp' if self.single else self.schema.package.replace('.', '/') + '.bb.hpp'

    def ns(self, u=None):
        u = u or self.schema
        return u.options.get('cpp_namespace') or u.package.replace('.', '::')

    def write_driver(self):
        ns = self.ns() + '::'
        o = ['#include <stdio.h>', C_COMMON, f'#include "{self.hdr()}"']
        for k, (s, ls) in enumerate(zip(self.structs, self.leaves)):
            T = ns + s.name
            o.append(f'static void set_{k}({T}*o,int i,const char*t){{ uint64_t n=0; (void)n; switch(i){{')
            for i, l in enumerate(ls):
                p = cpath(l.path)
                if self.acc:
                    A = CAcc(True)
                    w = lambda v: A.wr(s, l.path, v)
                    en = f'enum {self.ns(self.unit(l.type))}::{l.type.name}' if l.kind == 'enum' else ctype(l.type)
                    by = f'std::decay_t<decltype({A.rd(s, l.path)})>'
                    o.append(f'case {i}: ' + {
                        'str': f'{{ uint8_t*q=unhex(t+1,&n,0); std::string w((char*)q,n); free(q); {w("w")} }}',
                        'bytes': f'{{ uint8_t*q=unhex(t+1,&n,0); {by} w; w.data=std::shared_ptr<uint8_t[]>(new uint8_t[n?n:1]); memcpy(w.data.get(),q,n); w.length=n; free(q); {w("w")} }}',
                        'f32': w('f32_of(t)'), 'f64': w('f64_of(t)'),
                        'bool': w('(bool)i_of(t)')}.get(l.kind, w(f'({en})i_of(t)')) + ' break;')
                    continue
                ct = {'bool': 'bool'}.get(l.kind) or (f'enum {self.ns(self.unit(l.type))}::{l.type.name}' if l.kind == 'enum' else ctype(l.type))
                o.append(f'case {i}: ' + {
                    'str': f'{{ uint8_t*q=unhex(t+1,&n,0); {p}=std::string((char*)q,n); free(q); }}',
                    'bytes': f'{{ uint8_t*q=unhex(t+1,&n,0); {p}.data=std::shared_ptr<uint8_t[]>(new uint8_t[n?n:1]); memcpy({p}.data.get(),q,n); {p}.length=n; free(q); }}',
                    'f32': f'{p}=f32_of(t);', 'f64': f'{p}=f64_of(t);',
                    'bool': f'{p}=(bool)i_of(t);'}.get(l.kind, f'{p}=({ct})i_of(t);') + ' break;')
            o.append('} }')
            o.append(f'static void get_{k}({T}*o){{')
            for l in ls:
                p = CAcc(True).rd(s, l.path) if self.acc else cpath(l.path)
                o.append({
                    'str': f'printf(" s"); phex((const uint8_t*){p}.data(),{p}.size());',
                    'bytes': f'printf(" b"); phex({p}.data.get(),{p}.length);',
                    'f32': f'pf32({p});', 'f64': f'pf64({p});', 'bool': f'printf(" %d",(int){p});',
                    'int': f'printf(" %" PRId64,(int64_t){p});',
                }.get(l.kind, f'printf(" %" PRIu64,(uint64_t){p});'))
            o.append('}')
            o.append(f'static void poke_{k}({T}*o,int i,int j,int v){{ switch(i){{')
            o += [f'case {i}: {cpath(l.path)}.data[j]=(uint8_t)v; break;' for i, l in enumerate(ls) if l.kind == 'bytes']
            o.append('} }')
        def sw(sig, body, default):
            o.append(f'static {sig} {{ switch(s){{')
            for k, s in enumerate(self.structs):
                o.append(f'case {k}: {body(k, s)}')
            o.append(f'}} {default} }}')
        cast = lambda s: f'(({ns}{s.name}*)o)'
        sw('void* mnew(int s)', lambda k, s: f'return new {ns}{s.name}();', 'return 0;')
        sw('void mdel(int s,void*o)', lambda k, s: f'delete {cast(s)}; break;', '')
        sw('void mset(int s,void*o,int i,const char*t)', lambda k, s: f'set_{k}({cast(s)},i,t); break;', '')
        sw('void mget(int s,void*o)', lambda k, s: f'get_{k}({cast(s)}); break;', '')
        sw('void mpoke(int s,void*o,int i,int j,int v)', lambda k, s: f'poke_{k}({cast(s)},i,j,v); break;', '')
        sw('uint64_t mencsz(int s,void*o)', lambda k, s: f'return {cast(s)}->encode_size();', 'return 0;')
        if self.compat:
            e, z, d = '(void*)b', 'b,n', '(const void*)b'
        else:
            e, z, d = '::std::span<uint8_t>(b,n)', '::std::span<const uint8_t>(b,n)', '::std::span<const uint8_t>(b,n)'
        sw('uint64_t menc(int s,void*o,uint8_t*b,uint64_t n)', lambda k, s: f'return {cast(s)}->encode({e});', 'return 0;')
        sw('int64_t mdecsz(int s,const uint8_t*b,uint64_t n)', lambda k, s: f'return {ns}{s.name}::decode_size({z});', 'return 0;')
        sw('int64_t mdec(int s,const uint8_t*b,uint64_t n,void*o)', lambda k, s: f'return {cast(s)}->decode({d});', 'return 0;')
        o.append(C_MAIN)
        self.write('driver.cpp', '\n'.join(o))

    def compile(self):
        srcs = []
        for root, _, fs in os.walk(self.out):
            srcs += [os.path.join(root, f) for f in fs if f.endswith('.cpp')]
        fl = ['-fsanitize=address', '-fno-omit-frame-pointer', '-g1'] if self.asan else []
        self.cc([CXX, '-std=c++20', '-O0', '-w', '-fwrapv', '-fno-strict-aliasing', *fl, '-I', self.out, '-o', 'drv', 'driver.cpp', *sorted(srcs)])

    env = C.env
    cmd = C.cmd


# =========================================================================== Go
GO_PRE = r'''package main

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"

%s
)

func ioff(t string) int64 {
	if t[0] == '-' {
		v, _ := strconv.ParseInt(t, 10, 64)
		return v
	}
	v, _ := strconv.ParseUint(t, 10, 64)
	return int64(v)
}
func f32of(t string) float32 { v, _ := strconv.ParseUint(t, 16, 32); return math.Float32frombits(uint32(v)) }
func f64of(t string) float64 { v, _ := strconv.ParseUint(t, 16, 64); return math.Float64frombits(v) }
func unhex(t string) []byte  { b, _ := hex.DecodeString(t); return b }
func b2i(b bool) int { if b { return 1 }; return 0 }

type bb interface {
	EncodeSize() int
	EncodeTo([]byte) int
	Encode() []byte
	Decode([]byte) int
	DecodeSize([]byte) int
}
type obj struct {
	s int
	o bb
}
var slots [8]obj
var bufs [8][]byte
var w *bufio.Writer
'''

GO_MAIN = r'''
func num(s string) int { v, _ := strconv.Atoi(s); return v }
func fit(b []byte) []byte { c := make([]byte, len(b)); copy(c, b); return c[:len(c):len(c)] }
func get(t []string, i int) string { if i < len(t) { return t[i] }; return "" }

func do(t []string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = "!" + strings.ReplaceAll(fmt.Sprint(r), "\n", " ")
		}
	}()
	switch t[0] {
	case "E":
		s := num(t[1]); o := mnew(s)
		for i := 2; i < len(t); i++ { mset(s, o, i-2, t[i]) }
		z := o.EncodeSize(); b := o.Encode()
		return fmt.Sprintf("%d %s", z, hex.EncodeToString(b))
	case "W":
		s := num(t[1]); fill, pre, post := num(t[2]), num(t[3]), num(t[4]); o := mnew(s)
		for i := 5; i < len(t); i++ { mset(s, o, i-5, t[i]) }
		z := o.EncodeSize(); b := make([]byte, pre+z+post)
		for i := range b { b[i] = byte(fill) }
		r := o.EncodeTo(b[pre:])
		return fmt.Sprintf("%d %s", r, hex.EncodeToString(b))
	case "D":
		s := num(t[1]); b := fit(unhex(get(t, 3))); o := mnew(s)
		b = b[num(t[2]):]
		z := o.DecodeSize(b); r := o.Decode(b)
		out = fmt.Sprintf("%d %d", z, r)
		if r >= 0 { out += mget(s, o) }
		return out
	case "P":
		s := num(t[1]); b := unhex(get(t, 2)); var r []string
		for k := 0; k <= len(b); k++ { r = append(r, strconv.Itoa(mnew(s).DecodeSize(fit(b[:k])))) }
		return strings.Join(r, " ")
	case "N":
		s := num(t[2]); slots[num(t[1])] = obj{s, mnew(s)}; return "ok"
	case "S":
		o := slots[num(t[1])]; mset(o.s, o.o, num(t[2]), t[3]); return "ok"
	case "T":
		o := slots[num(t[1])]
		for i := 2; i < len(t); i++ { mset(o.s, o.o, i-2, t[i]) }
		return "ok"
	case "G":
		o := slots[num(t[1])]; return "." + mget(o.s, o.o)
	case "Q":
		o := slots[num(t[1])]; z := o.o.EncodeSize(); return fmt.Sprintf("%d %s", z, hex.EncodeToString(o.o.Encode()))
	case "B":
		bufs[num(t[1])] = fit(unhex(get(t, 2))); return "ok"
	case "K":
		bufs[num(t[1])][num(t[2])] = byte(num(t[3])); return "ok"
	case "Z":
		return hex.EncodeToString(bufs[num(t[1])])
	case "F":
		b := bufs[num(t[1])]
		for i := range b { b[i] = 0xEE }
		bufs[num(t[1])] = nil
		return "ok"
	case "X":
		return strconv.Itoa(slots[num(t[1])].o.Decode(bufs[num(t[2])][num(t[3]):]))
	case "Y":
		return strconv.Itoa(slots[num(t[1])].o.EncodeTo(bufs[num(t[2])][num(t[3]):]))
	case "M":
		o := slots[num(t[1])]; mpoke(o.s, o.o, num(t[2]), num(t[3]), byte(num(t[4]))); return "ok"
	case "V":
		return strconv.Itoa(mnew(num(t[1])).DecodeSize(bufs[num(t[2])][num(t[3]):]))
	}
	return "?"
}

func main() {
	f, _ := os.Open(os.Args[1])
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	w = bufio.NewWriterSize(os.Stdout, 1<<16)
	for sc.Scan() {
		for i, seg := range strings.Split(sc.Text(), ";") {
			if i > 0 { w.WriteByte(';') }
			if t := strings.Fields(seg); len(t) > 0 { w.WriteString(do(t)) }
		}
		w.WriteByte('\n'); w.Flush()
	}
	w.Flush()
}
'''


class Go(Target):
    """one file: module "drv".  A project (schema.home): module mode when every
    file says where it lives (go_package = "drv/..."), otherwise GOPATH mode,
    with the generated code under src/; with -relpath see fix_relative"""
    single_name = 'gen.go'                # replaced: the folder has to be the package

    def mode(self):
        if not self.schema.home or self.single:
            return 'one'
        if all('go_package' in u.options for u in [self.schema, *self.schema.home.values()]) and '-relpath' not in self.flags:
            return 'module'
        return 'relpath' if '-relpath' in self.flags else 'gopath'

    def pkg(self):
        return (self.schema.options.get('go_package') or self.schema.package).replace('/', '.').split('.')[-1]

    def ipath(self, u):
        p = u.options.get('go_package') or u.package.replace('.', '/')
        if self.single:
            return 'drv/' + self.pkg()
        return {'one': 'drv/' + p, 'module': p, 'relpath': 'drv/' + p, 'gopath': p}[self.mode()]

    def generate(self):
        if self.single:
            self.single_name = f'{self.pkg()}.go'
            self.out = self.path('drv', self.pkg())
        else:
            self.out = {'one': self.path('drv'), 'module': self.dir, 'relpath': self.path('drv'), 'gopath': self.path('src')}[self.mode()]
        super().generate()
        if self.mode() == 'relpath':
            self.fix_relative()

    def fix_relative(self):
        """Go refuses relative imports in modules and has no notion of where a
        generated tree ends up: the paths are resolved here, from the folder of
        the importing package or (the form README documents) from its parent"""
        files = [os.path.join(d, x) for d, _, l in os.walk(self.out) for x in l if x.endswith('.go')]
        pk = {os.path.relpath(os.path.dirname(f), self.out) for f in files}
        pat = re.compile(r'^(\s*(?:import\s+)?[\w.]*\s*)"(\.\.?/[^"]*)"', re.M)
        self.relative = set()
        for f in files:
            with open(f) as h:
                t = h.read()
            d = os.path.relpath(os.path.dirname(f), self.out)
            ps = [m.group(2) for m in pat.finditer(t)]
            for how, base in (('own', d), ('parent', os.path.dirname(d) or '.'), (None, None)):
                if how is None:
                    raise BuildFail('compile', f'{os.path.relpath(f, self.out)}: relative imports {ps} lead to no generated package')
                if all(os.path.normpath(os.path.join(base, p)) in pk for p in ps):
                    break
            if ps:
                self.relative.add(how)
            t = pat.sub(lambda m: f'{m.group(1)}"drv/{os.path.normpath(os.path.join(base, m.group(2)))}"', t)
            with open(f, 'w') as h:
                h.write(t)

    def gp(self, path, base='o.'):
        return base + '.'.join(cap(n) if i is None else f'{cap(n)}[{i}]' for n, i in path)

    def write_driver(self):
        units = [] if self.single else list({id(self.unit(l.type)): self.unit(l.type) for ls in self.leaves for l in ls if l.kind == 'enum' and self.unit(l.type) is not self.schema}.values())
        al = {id(u): f'g{k}' for k, u in enumerate(units)}
        o = [GO_PRE % '\n'.join(f'\t{a} "{self.ipath(u)}"' for a, u in [('g', self.schema), *((al[id(u)], u) for u in units)])]
        def gt(t):
            return al.get(id(self.unit(t)), 'g') + '.' + t.name if isinstance(t, Enum) else t.name
        for k, (s, ls) in enumerate(zip(self.structs, self.leaves)):
            T = 'g.' + s.name
            o.append(f'func set{k}(o *{T}, i int, t string) {{\n\tswitch i {{')
            for i, l in enumerate(ls):
                p = self.gp(l.path)
                e = {'str': 'string(unhex(t[1:]))', 'bytes': 'unhex(t[1:])', 'f32': 'f32of(t)', 'f64': 'f64of(t)',
                     'bool': 'ioff(t) != 0'}.get(l.kind) or f'{gt(l.type)}(ioff(t))'
                o.append(f'\tcase {i}: ' + (go_wr(s, l.path, e) if self.acc else f'{p} = {e}'))
            o.append('\t}\n}')
            o.append(f'func get{k}(o *{T}) string {{\n\tvar b strings.Builder')
            for l in ls:
                p = go_rd(s, l.path) if self.acc else self.gp(l.path)
                o.append({'str': f'\tfmt.Fprintf(&b, " s%x", {p})', 'bytes': f'\tfmt.Fprintf(&b, " b%x", []byte({p}))',
                          'f32': f'\tfmt.Fprintf(&b, " %08x", math.Float32bits({p}))', 'f64': f'\tfmt.Fprintf(&b, " %016x", math.Float64bits({p}))',
                          'bool': f'\tfmt.Fprintf(&b, " %d", b2i({p}))'}.get(l.kind, f'\tfmt.Fprintf(&b, " %d", {p})'))
            o.append('\treturn b.String()\n}')
            o.append(f'func poke{k}(o *{T}, i, j int, v byte) {{\n\tswitch i {{')
            o += [f'\tcase {i}: {self.gp(l.path)}[j] = v' for i, l in enumerate(ls) if l.kind == 'bytes']
            o.append('\t}\n}')
        o.append('func mnew(s int) bb {\n\tswitch s {')
        o += [f'\tcase {k}: return &g.{s.name}{{}}' for k, s in enumerate(self.structs)]
        o.append('\t}\n\treturn nil\n}')
        o.append('func mset(s int, o bb, i int, t string) {\n\tswitch s {')
        o += [f'\tcase {k}: set{k}(o.(*g.{s.name}), i, t)' for k, s in enumerate(self.structs)]
        o.append('\t}\n}')
        o.append('func mpoke(s int, o bb, i, j int, v byte) {\n\tswitch s {')
        o += [f'\tcase {k}: poke{k}(o.(*g.{s.name}), i, j, v)' for k, s in enumerate(self.structs)]
        o.append('\t}\n}')
        o.append('func mget(s int, o bb) string {\n\tswitch s {')
        o += [f'\tcase {k}: return get{k}(o.(*g.{s.name}))' for k, s in enumerate(self.structs)]
        o.append('\t}\n\treturn ""\n}')
        o.append(GO_MAIN)
        self.main = 'src/bbvmain' if self.mode() == 'gopath' else 'drv'
        self.write(self.main + '/main.go', '\n'.join(o))
        if self.mode() != 'gopath':
            self.write('drv/go.mod', 'module drv\n\ngo 1.21\n')

    def compile(self):
        if self.mode() != 'gopath':
            env = {'GOFLAGS': '-mod=mod -buildvcs=false'}
        else:
            env = {'GOFLAGS': '', 'GO111MODULE': 'off', 'GOPATH': self.dir}
        self.cc(['go', 'build', '-gcflags=-N', '-o', self.path('drvbin'), '.'], cwd=self.path(self.main), env=env)

    def cmd(self):
        return [self.path('drvbin')]


# =========================================================================== Java
JAVA_PRE = r'''
import java.io.*; import java.nio.charset.StandardCharsets; import java.util.*;
public class Drv {
  static long iof(String t){ return t.charAt(0)=='-'?Long.parseLong(t):Long.parseUnsignedLong(t); }
  static float f32of(String t){ return Float.intBitsToFloat(Integer.parseUnsignedInt(t,16)); }
  static double f64of(String t){ return Double.longBitsToDouble(Long.parseUnsignedLong(t,16)); }
  static byte[] unhex(String s){ byte[] b=new byte[s.length()/2]; for(int i=0;i<b.length;i++) b[i]=(byte)Integer.parseInt(s.substring(2*i,2*i+2),16); return b; }
  static final char[] HX="0123456789abcdef".toCharArray();
  static String hex(byte[] b){ if(b==null) return "null"; StringBuilder s=new StringBuilder(); for(byte x:b){ s.append(HX[(x>>4)&15]).append(HX[x&15]); } return s.toString(); }
  static String str(String t){ return new String(unhex(t.substring(1)),StandardCharsets.UTF_8); }
  static String hs(String v){ return hex(v.getBytes(StandardCharsets.UTF_8)); }
  static Object[] slot=new Object[8]; static int[] ssid=new int[8]; static byte[][] buf=new byte[8][];
  // with -minimal the fields are private and have no accessors
  static java.lang.reflect.Field rfield(Object o,String n){ try { java.lang.reflect.Field f=o.getClass().getDeclaredField(n); f.setAccessible(true); return f; } catch(ReflectiveOperationException e){ throw new RuntimeException(e); } }
  static Object rget(Object o,String n){ try { return rfield(o,n).get(o); } catch(ReflectiveOperationException e){ throw new RuntimeException(e); } }
  static Object rgeta(Object o,String n,int i){ return java.lang.reflect.Array.get(rget(o,n),i); }
  static void rset(Object o,String n,Object v){ try { rfield(o,n).set(o,v); } catch(ReflectiveOperationException e){ throw new RuntimeException(e); } }
  static void rseta(Object o,String n,int i,Object v){ java.lang.reflect.Array.set(rget(o,n),i,v); }
'''
JAVA_MAIN = r'''
  static String get(String[] t,int i){ return i<t.length?t[i]:""; }
  static int num(String s){ return Integer.parseInt(s); }
  static String run(String[] t){
    try {
      switch(t[0].charAt(0)){
      case 'E': { int s=num(t[1]); Object o=mnew(s); for(int i=2;i<t.length;i++) mset(s,o,i-2,t[i]); int z=mencsz(s,o); return z+" "+hex(mencode(s,o)); }
      case 'W': { int s=num(t[1]); int fill=num(t[2]),pre=num(t[3]),post=num(t[4]); Object o=mnew(s); for(int i=5;i<t.length;i++) mset(s,o,i-5,t[i]);
        int z=mencsz(s,o); byte[] b=new byte[pre+z+post]; Arrays.fill(b,(byte)fill); int r=menc(s,o,b,pre); return r+" "+hex(b); }
      case 'D': { int s=num(t[1]); int st=num(t[2]); byte[] b=unhex(get(t,3)); Object o=mnew(s); int z=mdecsz(s,o,b,st); int r=mdec(s,o,b,st);
        return z+" "+r+(r>=0?mget(s,o):""); }
      case 'P': { int s=num(t[1]); byte[] b=unhex(get(t,2)); StringBuilder q=new StringBuilder(); for(int k=0;k<=b.length;k++){ if(k>0) q.append(' '); q.append(mdecsz(s,mnew(s),Arrays.copyOf(b,k),0)); } return q.toString(); }
      case 'N': { int o=num(t[1]); ssid[o]=num(t[2]); slot[o]=mnew(ssid[o]); return "ok"; }
      case 'S': { int o=num(t[1]); mset(ssid[o],slot[o],num(t[2]),t[3]); return "ok"; }
      case 'T': { int o=num(t[1]); for(int i=2;i<t.length;i++) mset(ssid[o],slot[o],i-2,t[i]); return "ok"; }
      case 'G': { int o=num(t[1]); return "."+mget(ssid[o],slot[o]); }
      case 'Q': { int o=num(t[1]); int z=mencsz(ssid[o],slot[o]); return z+" "+hex(mencode(ssid[o],slot[o])); }
      case 'B': buf[num(t[1])]=unhex(get(t,2)); return "ok";
      case 'K': buf[num(t[1])][num(t[2])]=(byte)num(t[3]); return "ok";
      case 'Z': return hex(buf[num(t[1])]);
      case 'F': Arrays.fill(buf[num(t[1])],(byte)0xEE); buf[num(t[1])]=null; return "ok";
      case 'X': { int o=num(t[1]); return ""+mdec(ssid[o],slot[o],buf[num(t[2])],num(t[3])); }
      case 'Y': { int o=num(t[1]); return ""+menc(ssid[o],slot[o],buf[num(t[2])],num(t[3])); }
      case 'M': { int o=num(t[1]); mpoke(ssid[o],slot[o],num(t[2]),num(t[3]),num(t[4])); return "ok"; }
      case 'V': { int s=num(t[1]); return ""+mdecsz(s,mnew(s),buf[num(t[2])],num(t[3])); }
      case '=': { Object x=slot[num(t[1])],y=slot[num(t[2])]; boolean e=x.equals(y); int h=x.hashCode(),g=y.hashCode(); return (e?"eq":"ne")+(y.equals(x)==e?"":" asymmetric")+(x.equals(x)&&y.equals(y)?"":" irreflexive")
        +(x.equals(null)||x.equals("x")||x.equals(new Object())?" equals anything":"")+(e&&h!=g?" hash codes differ":"")+(x.hashCode()==h?"":" hash code varies"); }
      }
      return "?";
    } catch(Throwable e){ return "!"+e.getClass().getSimpleName()+" "+(""+e.getMessage()).replace('\n',' '); }
  }
  public static void main(String[] a) throws Exception {
    BufferedReader r=new BufferedReader(new FileReader(a[0])); PrintStream w=new PrintStream(new BufferedOutputStream(new FileOutputStream(FileDescriptor.out),1<<16),false);
    String l; while((l=r.readLine())!=null){ l=l.trim(); int k=0; for(String q:l.split(";")){ if(k++>0) w.print(";"); q=q.trim(); if(!q.isEmpty()) w.print(run(q.split(" +"))); } w.print("\n"); }
    w.flush();
  }
}
'''
JTYPE = {8: 'byte', 16: 'short', 32: 'int', 64: 'long'}


class Java(Target):
    def pkg(self, u=None):
        u = u or self.schema
        return u.options.get('java_package') or u.package

    def jp(self, path):
        """object expression owning the last field, last name, idx"""
        e = 'o'
        for n, i in path[:-1]:
            if self.minimal:
                e = f'rget({e},"{n}")' if i is None else f'rgeta({e},"{n}",{i})'
            else:
                e += f'.get{cap(n)}()' if i is None else f'.get{cap(n)}At({i})'
        return e, path[-1][0], path[-1][1]

    def jget(self, l):
        own, n, idx = self.jp(l.path)
        if self.acc and idx is not None and idx % 2:
            return f'{own}.get{cap(n)}()[{idx}]'
        if not self.minimal:
            return f'{own}.get{cap(n)}()' if idx is None else f'{own}.get{cap(n)}At({idx})'
        t = {'str': 'String', 'bytes': 'byte[]', 'f32': 'float', 'f64': 'double', 'bool': 'boolean'}.get(l.kind)
        t = t or (f'{self.pkg(self.unit(l.type))}.{l.type.name}' if l.kind == 'enum' else JTYPE[l.type.bits])
        return f'(({t})rget({own},"{n}"))' if idx is None else f'(({t})rgeta({own},"{n}",{idx}))'

    def jset(self, l, v):
        own, n, idx = self.jp(l.path)
        if self.acc and idx is not None and idx % 2:
            return f'{{ var q={own}.get{cap(n)}().clone(); q[{idx}]={v}; {own}.set{cap(n)}(q); }}'
        if not self.minimal:
            return f'{own}.set{cap(n)}({v});' if idx is None else f'{own}.set{cap(n)}At({idx},{v});'
        return f'rset({own},"{n}",{v});' if idx is None else f'rseta({own},"{n}",{idx},{v});'

    def write_driver(self):
        P = self.pkg() + '.'
        o = [JAVA_PRE]
        for k, (s, ls) in enumerate(zip(self.structs, self.leaves)):
            T = P + s.name
            o.append(f'static void set{k}({T} o,int i,String t){{ switch(i){{')
            for i, l in enumerate(ls):
                v = {'str': 'str(t)', 'bytes': 'unhex(t.substring(1))', 'f32': 'f32of(t)', 'f64': 'f64of(t)', 'bool': 'iof(t)!=0'}.get(l.kind)
                if l.kind == 'enum':
                    v = f'{self.pkg(self.unit(l.type))}.{l.type.name}.forNumber(({"long" if l.type.bits > 32 and max(x for _, x in l.type.numbers()) >> 31 else "int"})iof(t))'
                elif v is None:
                    v = f'({JTYPE[l.type.bits]})iof(t)'
                o.append(f'case {i}: {self.jset(l, v)} break;')
            o.append('} }')
            o.append(f'static String get{k}({T} o){{ StringBuilder b=new StringBuilder();')
            for l in ls:
                g = self.jget(l)
                if l.kind == 'uint':
                    e = {8: f'Byte.toUnsignedInt({g})', 16: f'Short.toUnsignedInt({g})', 32: f'Integer.toUnsignedString({g})', 64: f'Long.toUnsignedString({g})'}[l.type.bits]
                elif l.kind == 'enum':
                    num = f'{g}.getNumber()'
                    e = f'({g}==null?"?":""+{f"Integer.toUnsignedString({num})" if l.type.bits <= 32 else num})'
                else:
                    e = {'int': f'(long){g}', 'bool': f'({g}?1:0)', 'str': f'"s"+hs({g})', 'bytes': f'"b"+hex({g})',
                         'f32': f'String.format("%08x",Float.floatToRawIntBits({g}))', 'f64': f'String.format("%016x",Double.doubleToRawLongBits({g}))'}[l.kind]
                o.append(f'b.append(" ").append({e});')
            o.append('return b.toString(); }')
            o.append(f'static void poke{k}({T} o,int i,int j,int v){{ switch(i){{')
            for i, l in enumerate(ls):
                if l.kind == 'bytes':
                    o.append(f'case {i}: {self.jget(l)}[j]=(byte)v; break;')
            o.append('} }')
        def sw(sig, body, default):
            o.append(f'static {sig} {{ switch(s){{')
            for k, s in enumerate(self.structs):
                o.append(f'case {k}: {body(k, s)}')
            o.append(f'}} {default} }}')
        c = lambda s: f'(({P}{s.name})o)'
        sw('Object mnew(int s)', lambda k, s: f'return new {P}{s.name}();', 'return null;')
        sw('void mset(int s,Object o,int i,String t)', lambda k, s: f'set{k}({c(s)},i,t); break;', '')
        sw('String mget(int s,Object o)', lambda k, s: f'return get{k}({c(s)});', 'return "";')
        sw('void mpoke(int s,Object o,int i,int j,int v)', lambda k, s: f'poke{k}({c(s)},i,j,v); break;', '')
        sw('int mencsz(int s,Object o)', lambda k, s: f'return {c(s)}.encodeSize();', 'return 0;')
        sw('byte[] mencode(int s,Object o)', lambda k, s: f'return {c(s)}.encode();', 'return null;')
        sw('int menc(int s,Object o,byte[] b,int st)', lambda k, s: f'return {c(s)}.encode(b,st);', 'return 0;')
        sw('int mdecsz(int s,Object o,byte[] b,int st)', lambda k, s: f'return {c(s)}.decodeSize(b,st);', 'return 0;')
        sw('int mdec(int s,Object o,byte[] b,int st)', lambda k, s: f'return {c(s)}.decode(b,st);', 'return 0;')
        o.append(JAVA_MAIN)
        self.write('Drv.java', '\n'.join(o))

    def compile(self):
        srcs = []
        for root, _, fs in os.walk(self.out):
            srcs += [os.path.join(root, f) for f in fs if f.endswith('.java')]
        self.write('srcs.txt', '\n'.join(['Drv.java'] + sorted(srcs)))
        self.cc(['javac', '-J-Xmx3g', '-J-XX:+UseSerialGC', '-J-XX:TieredStopAtLevel=1', '-proc:none', '-nowarn', '-encoding', 'UTF-8', '-d', 'cls', '@srcs.txt'])

    def cmd(self):
        return ['java', '-XX:+UseSerialGC', '-Xmx1500m', '-XX:TieredStopAtLevel=1', '-Xshare:auto', '-cp', self.path('cls'), 'Drv']


# =========================================================================== C#
CS_PRE = r'''
using System; using System.IO; using System.Text; using System.Collections.Generic; using System.Globalization;
public static class Drv {
  static T[] Copy<T>(T[] a){ return (T[])a.Clone(); }
  static long iof(string t){ return t[0]=='-'?long.Parse(t):unchecked((long)ulong.Parse(t)); }
  static float f32of(string t){ return BitConverter.Int32BitsToSingle(unchecked((int)uint.Parse(t,NumberStyles.HexNumber))); }
  static double f64of(string t){ return BitConverter.Int64BitsToDouble(unchecked((long)ulong.Parse(t,NumberStyles.HexNumber))); }
  static byte[] unhex(string s){ return Convert.FromHexString(s); }
  static string hex(byte[] b){ return b==null?"null":Convert.ToHexString(b).ToLowerInvariant(); }
  static string hexm(Memory<byte> b){ return hex(b.ToArray()); }
  static string hexm(byte[] b){ return hex(b); }
  static string str(string t){ return Encoding.UTF8.GetString(unhex(t.Substring(1))); }
  static string hs(string v){ return hex(Encoding.UTF8.GetBytes(v)); }
  static object[] slot=new object[8]; static int[] ssid=new int[8]; static byte[][] buf=new byte[8][];
  // with -minimal the fields are private and have no accessors
  static System.Reflection.FieldInfo rfield(object o,string n){ return o.GetType().GetField(n,System.Reflection.BindingFlags.Instance|System.Reflection.BindingFlags.Public|System.Reflection.BindingFlags.NonPublic); }
  static object rget(object o,string n){ return rfield(o,n).GetValue(o); }
  static object rgeta(object o,string n,int i){ return ((Array)rget(o,n)).GetValue(i); }
  static void rset(object o,string n,object v){ rfield(o,n).SetValue(o,v); }
  static void rseta(object o,string n,int i,object v){ ((Array)rget(o,n)).SetValue(v,i); }
'''
CS_MAIN = r'''
  static string get(string[] t,int i){ return i<t.Length?t[i]:""; }
  static int num(string s){ return int.Parse(s); }
  static byte[] cut(byte[] b,int k){ byte[] c=new byte[k]; Array.Copy(b,c,k); return c; }
  static string run(string[] t){
    try {
      switch(t[0][0]){
      case 'E': { int s=num(t[1]); object o=mnew(s); for(int i=2;i<t.Length;i++) mset(s,o,i-2,t[i]); int z=mencsz(s,o); return z+" "+hex(mencode(s,o)); }
      case 'W': { int s=num(t[1]); int fill=num(t[2]),pre=num(t[3]),post=num(t[4]); object o=mnew(s); for(int i=5;i<t.Length;i++) mset(s,o,i-5,t[i]);
        int z=mencsz(s,o); byte[] b=new byte[pre+z+post]; Array.Fill(b,(byte)fill); int r=menc(s,o,b,pre); return r+" "+hex(b); }
      case 'D': { int s=num(t[1]); int st=num(t[2]); byte[] b=unhex(get(t,3)); object o=mnew(s); int z=mdecsz(s,o,b,st); int r=mdec(s,o,b,st);
        return z+" "+r+(r>=0?mget(s,o):""); }
      case 'P': { int s=num(t[1]); byte[] b=unhex(get(t,2)); StringBuilder q=new StringBuilder(); for(int k=0;k<=b.Length;k++){ if(k>0) q.Append(' '); q.Append(mdecsz(s,mnew(s),cut(b,k),0)); } return q.ToString(); }
      case 'N': { int o=num(t[1]); ssid[o]=num(t[2]); slot[o]=mnew(ssid[o]); return "ok"; }
      case 'S': { int o=num(t[1]); mset(ssid[o],slot[o],num(t[2]),t[3]); return "ok"; }
      case 'T': { int o=num(t[1]); for(int i=2;i<t.Length;i++) mset(ssid[o],slot[o],i-2,t[i]); return "ok"; }
      case 'G': { int o=num(t[1]); return "."+mget(ssid[o],slot[o]); }
      case 'Q': { int o=num(t[1]); int z=mencsz(ssid[o],slot[o]); return z+" "+hex(mencode(ssid[o],slot[o])); }
      case 'B': buf[num(t[1])]=unhex(get(t,2)); return "ok";
      case 'K': buf[num(t[1])][num(t[2])]=(byte)num(t[3]); return "ok";
      case 'Z': return hex(buf[num(t[1])]);
      case 'F': Array.Fill(buf[num(t[1])],(byte)0xEE); buf[num(t[1])]=null; return "ok";
      case 'X': { int o=num(t[1]); return ""+mdec(ssid[o],slot[o],buf[num(t[2])],num(t[3])); }
      case 'Y': { int o=num(t[1]); return ""+menc(ssid[o],slot[o],buf[num(t[2])],num(t[3])); }
      case 'M': { int o=num(t[1]); mpoke(ssid[o],slot[o],num(t[2]),num(t[3]),num(t[4])); return "ok"; }
      case 'V': { int s=num(t[1]); return ""+mdecsz(s,mnew(s),buf[num(t[2])],num(t[3])); }
      case '=': { object x=slot[num(t[1])],y=slot[num(t[2])]; bool e=x.Equals(y); int h=x.GetHashCode(),g=y.GetHashCode(); return (e?"eq":"ne")+(y.Equals(x)==e?"":" asymmetric")+(x.Equals(x)&&y.Equals(y)?"":" irreflexive")
        +(x.Equals(null)||x.Equals("x")||x.Equals(new object())?" equals anything":"")+(e&&h!=g?" hash codes differ":"")+(x.GetHashCode()==h?"":" hash code varies"); }
      }
      return "?";
    } catch(Exception e){ return "!"+e.GetType().Name+" "+e.Message.Replace('\n',' ').Replace('\r',' '); }
  }
  public static void Main(string[] a) {
    var r=new StreamReader(a[0]); var w=new StreamWriter(Console.OpenStandardOutput(),new UTF8Encoding(false),1<<16); w.AutoFlush=false;
    string l; while((l=r.ReadLine())!=null){ l=l.Trim(); int k=0; foreach(var q0 in l.Split(';')){ if(k++>0) w.Write(";"); var q=q0.Trim(); if(q.Length>0) w.Write(run(q.Split(' ',StringSplitOptions.RemoveEmptyEntries))); } w.Write("\n"); }
    w.Flush();
  }
}
'''
CSTYPE = {'int8': 'sbyte', 'uint8': 'byte', 'int16': 'short', 'uint16': 'ushort', 'int32': 'int', 'uint32': 'uint', 'int64': 'long', 'uint64': 'ulong'}
_cs = {}


def dotnet_paths():
    if not _cs:
        import glob
        _cs['csc'] = sorted(glob.glob('/usr/lib/dotnet/sdk/*/Roslyn/bincore/csc.dll'))[-1]
        rt = sorted(glob.glob('/usr/lib/dotnet/shared/Microsoft.NETCore.App/*'))[-1]
        _cs['rt'] = rt
        _cs['ver'] = os.path.basename(rt)
        ref = sorted(glob.glob('/usr/lib/dotnet/packs/Microsoft.NETCore.App.Ref/*/ref/net*'))
        _cs['ref'] = ref[-1]
    return _cs


class CSharp(Target):
    single_name = 'gen.cs'

    def ns(self, u=None):
        u = u or self.schema
        if u.options.get('csharp_namespace'):
            return u.options['csharp_namespace']
        return '.'.join(''.join(cap(y) for y in x.split('_')) for x in u.package.split('.'))

    def csp(self, path):
        return 'o.' + '.'.join(cap(n) if i is None else f'{cap(n)}[{i}]' for n, i in path)

    def rown(self, path):
        e = 'o'
        for n, i in path[:-1]:
            e = f'rget({e},"{n}")' if i is None else f'rgeta({e},"{n}",{i})'
        return e, path[-1][0], path[-1][1]

    def csget(self, l):
        if not self.minimal:
            return self.csp(l.path)
        own, n, idx = self.rown(l.path)
        t = {'str': 'string', 'bytes': 'byte[]' if self.memcpy else 'Memory<byte>', 'f32': 'float', 'f64': 'double', 'bool': 'bool'}.get(l.kind)
        t = t or (f'{self.ns(self.unit(l.type))}.{l.type.name}' if l.kind == 'enum' else CSTYPE[l.type.name])
        return f'(({t})rget({own},"{n}"))' if idx is None else f'(({t})rgeta({own},"{n}",{idx}))'

    def csset(self, l, v):
        if self.acc and l.path[-1][1] is not None and l.path[-1][1] % 2:
            a = self.csp(l.path).rsplit('[', 1)[0]
            return f'{{ var a={a}; var c=Copy(a); c[{l.path[-1][1]}]={v}; {a}=c; }}'
        if not self.minimal:
            return f'{self.csp(l.path)}={v};'
        own, n, idx = self.rown(l.path)
        if l.kind == 'bytes' and not self.memcpy:
            v = f'new Memory<byte>({v})'
        return f'rset({own},"{n}",{v});' if idx is None else f'rseta({own},"{n}",{idx},{v});'

    def write_driver(self):
        P = self.ns() + '.'
        o = [CS_PRE]
        for k, (s, ls) in enumerate(zip(self.structs, self.leaves)):
            T = P + s.name
            o.append(f'static void set{k}({T} o,int i,string t){{ switch(i){{')
            for i, l in enumerate(ls):
                v = {'str': 'str(t)', 'bytes': 'unhex(t.Substring(1))', 'f32': 'f32of(t)', 'f64': 'f64of(t)', 'bool': 'iof(t)!=0',
                     'enum': f'({self.ns(self.unit(l.type))}.{l.type.name})iof(t)'}.get(l.kind) or f'unchecked(({CSTYPE.get(l.type.name)})iof(t))'
                o.append(f'case {i}: {self.csset(l, v)} break;')
            o.append('} }')
            o.append(f'static string get{k}({T} o){{ StringBuilder b=new StringBuilder();')
            for l in ls:
                p = self.csget(l)
                e = {'str': f'"s"+hs({p})', 'bytes': f'"b"+hexm({p})', 'f32': f'BitConverter.SingleToInt32Bits({p}).ToString("x8")',
                     'f64': f'BitConverter.DoubleToInt64Bits({p}).ToString("x16")', 'bool': f'({p}?1:0)', 'enum': f'unchecked((ulong)(long){p})' if l.kind == 'enum' and l.type.bits > 32 else f'unchecked((uint)(int){p})'}.get(l.kind, p)
                o.append(f'b.Append(" ").Append({e});')
            o.append('return b.ToString(); }')
            o.append(f'static void poke{k}({T} o,int i,int j,int v){{ switch(i){{')
            o += [f'case {i}: {self.csget(l)}{"" if self.memcpy else ".Span"}[j]=(byte)v; break;' for i, l in enumerate(ls) if l.kind == 'bytes']
            o.append('} }')
        def sw(sig, body, default):
            o.append(f'static {sig} {{ switch(s){{')
            for k, s in enumerate(self.structs):
                o.append(f'case {k}: {body(k, s)}')
            o.append(f'}} {default} }}')
        c = lambda s: f'(({P}{s.name})o)'
        sw('object mnew(int s)', lambda k, s: f'return new {P}{s.name}();', 'return null;')
        sw('void mset(int s,object o,int i,string t)', lambda k, s: f'set{k}({c(s)},i,t); break;', '')
        sw('string mget(int s,object o)', lambda k, s: f'return get{k}({c(s)});', 'return "";')
        sw('void mpoke(int s,object o,int i,int j,int v)', lambda k, s: f'poke{k}({c(s)},i,j,v); break;', '')
        sw('int mencsz(int s,object o)', lambda k, s: f'return {c(s)}.EncodeSize();', 'return 0;')
        sw('byte[] mencode(int s,object o)', lambda k, s: f'return {c(s)}.Encode();', 'return null;')
        sw('int menc(int s,object o,byte[] b,int st)', lambda k, s: f'return {c(s)}.Encode(b,st);', 'return 0;')
        sw('int mdecsz(int s,object o,byte[] b,int st)', lambda k, s: f'return {c(s)}.DecodeSize(b,st);', 'return 0;')
        sw('int mdec(int s,object o,byte[] b,int st)', lambda k, s: f'return {c(s)}.Decode(b,st);', 'return 0;')
        o.append(CS_MAIN)
        self.write('Drv.cs', '\n'.join(o))

    def compile(self):
        d = dotnet_paths()
        srcs = []
        for root, _, fs in os.walk(self.out):
            srcs += [os.path.join(root, f) for f in fs if f.endswith('.cs')]
        rsp = ['-nologo', '-nostdlib', '-target:exe', '-out:drv.dll', '-langversion:12', '-optimize-', '-debug-', '-warn:0', '-nullable:disable',
               '-define:NET8_0,NET8_0_OR_GREATER,NET5_0_OR_GREATER,NETCOREAPP3_0_OR_GREATER']
        rsp += [f'-r:"{os.path.join(d["ref"], f)}"' for f in os.listdir(d['ref']) if f.endswith('.dll')]
        rsp += [f'"{p}"' for p in ['Drv.cs'] + sorted(srcs)]
        self.write('csc.rsp', '\n'.join(rsp))
        self.cc(['dotnet', d['csc'], '-noconfig', '@csc.rsp'])
        self.write('drv.runtimeconfig.json', '{"runtimeOptions":{"tfm":"net8.0","framework":{"name":"Microsoft.NETCore.App","version":"%s"},"configProperties":{"System.Globalization.Invariant":true,"System.GC.Concurrent":false}}}' % d['ver'])

    env = {'DOTNET_gcServer': '0', 'DOTNET_GCHeapCount': '1'}

    def cmd(self):
        return ['dotnet', self.path('drv.dll')]


# =========================================================================== JS
JS_DRV = r'''
const META = %s;
const V = (l, t) => {
  switch (l.k) {
    case 'str': return Buffer.from(t.slice(1), 'hex').toString('utf8');
    case 'bytes': { const b = Buffer.from(t.slice(1), 'hex'); return COMPAT ? Array.from(b) : new Uint8Array(b); }
    case 'f32': { const d = new DataView(new ArrayBuffer(4)); d.setUint32(0, parseInt(t, 16)); return d.getFloat32(0); }
    case 'f64': { const d = new DataView(new ArrayBuffer(8)); d.setBigUint64(0, BigInt('0x' + t)); return d.getFloat64(0); }
    case 'bool': return t !== '0';
    case 'enum': return Number(t);
    default: return l.b === 64 ? BigInt(t) : Number(t);
  }
};
const O = (l, v) => {
  switch (l.k) {
    case 'str': return 's' + Buffer.from(v, 'utf8').toString('hex');
    case 'bytes': return 'b' + Buffer.from(v).toString('hex');
    case 'f32': { const d = new DataView(new ArrayBuffer(4)); d.setFloat32(0, v); return d.getUint32(0).toString(16).padStart(8, '0'); }
    case 'f64': { const d = new DataView(new ArrayBuffer(8)); d.setFloat64(0, v); return d.getBigUint64(0).toString(16).padStart(16, '0'); }
    case 'enum': { if (v === undefined) return '?'; const x = typeof v === 'string' ? NSE(l.h)[l.e][v] : v; return typeof x === 'number' ? String(x) : 'type-' + typeof v + ':' + String(v); }
    case 'bool': return v === true ? '1' : v === false ? '0' : 'notbool:' + String(v);
    default: { const want = l.b === 64 ? 'bigint' : 'number'; return typeof v === want ? String(v) : 'type-' + typeof v + ':' + String(v); }
  }
};
const own = (o, l) => { for (let i = 0; i + 1 < l.p.length; i++) { o = o[l.p[i][0]]; if (l.p[i][1] !== null) o = o[l.p[i][1]]; } return o; };
const mset = (s, o, i, t) => { const l = META[s].l[i], w = own(o, l), q = l.p[l.p.length - 1]; if (q[1] === null) w[q[0]] = V(l, t); else w[q[0]][q[1]] = V(l, t); };
const mget = (s, o) => META[s].l.map(l => { const w = own(o, l), q = l.p[l.p.length - 1]; return ' ' + O(l, q[1] === null ? w[q[0]] : w[q[0]][q[1]]); }).join('');
const mk = (n, fill) => COMPAT ? new Array(n).fill(fill) : new Uint8Array(n).fill(fill);
const unhex = h => { const b = Buffer.from(h || '', 'hex'); return COMPAT ? Array.from(b) : new Uint8Array(b); };
const hex = b => Buffer.from(b).toString('hex');
const cls = s => NSE('')[META[s].n];
const slots = [], ss = [], bufs = [];
function run(t) {
  try {
    const n = i => Number(t[i]);
    switch (t[0]) {
      case 'E': { const s = n(1), o = new (cls(s))(); for (let i = 2; i < t.length; i++) mset(s, o, i - 2, t[i]); const z = o.encode_size(); return z + ' ' + hex(o.encode()); }
      case 'W': { const s = n(1), o = new (cls(s))(); for (let i = 5; i < t.length; i++) mset(s, o, i - 5, t[i]); const z = o.encode_size(); const b = mk(n(3) + z + n(4), n(2)); const r = o.encode(b, n(3)); return r + ' ' + hex(b); }
      case 'D': { const s = n(1), o = new (cls(s))(), b = unhex(t[3]); const z = o.decode_size(b, n(2)); const r = o.decode(b, n(2)); return z + ' ' + r + (r >= 0 ? mget(s, o) : ''); }
      case 'P': { const s = n(1), b = unhex(t[2]); const q = []; for (let k = 0; k <= b.length; k++) q.push(cls(s).decode_size(b.slice(0, k))); return q.join(' '); }
      case 'N': ss[n(1)] = n(2); slots[n(1)] = new (cls(n(2)))(); return 'ok';
      case 'S': mset(ss[n(1)], slots[n(1)], n(2), t[3]); return 'ok';
      case 'T': for (let i = 2; i < t.length; i++) mset(ss[n(1)], slots[n(1)], i - 2, t[i]); return 'ok';
      case 'G': return '.' + mget(ss[n(1)], slots[n(1)]);
      case 'Q': { const o = slots[n(1)]; return o.encode_size() + ' ' + hex(o.encode()); }
      case 'B': bufs[n(1)] = unhex(t[2]); return 'ok';
      case 'K': bufs[n(1)][n(2)] = n(3); return 'ok';
      case 'Z': return hex(bufs[n(1)]);
      case 'F': bufs[n(1)].fill(0xEE); bufs[n(1)] = null; return 'ok';
      case 'X': return String(slots[n(1)].decode(bufs[n(2)], n(3)));
      case 'Y': return String(slots[n(1)].encode(bufs[n(2)], n(3)));
      case 'M': { const l = META[ss[n(1)]].l[n(2)], w = own(slots[n(1)], l), q = l.p[l.p.length - 1]; (q[1] === null ? w[q[0]] : w[q[0]][q[1]])[n(3)] = n(4); return 'ok'; }
      case 'V': return String(cls(n(1)).decode_size(bufs[n(2)], n(3)));
    }
    return '?';
  } catch (e) { return '!' + e.name + ' ' + String(e.message).replace(/\n/g, ' '); }
}
const lines = fs.readFileSync(process.argv[2], 'utf8').split('\n');
if (lines[lines.length - 1] === '') lines.pop();
let out = '';
for (const l of lines) { out += l.split(';').map(q => { const t = q.split(' ').filter(x => x); return t.length ? run(t) : ''; }).join(';') + '\n'; if (out.length > 1 << 16) { fs.writeSync(1, out); out = ''; } }
let o2 = 0; const ob = Buffer.from(out); while (o2 < ob.length) o2 += fs.writeSync(1, ob, o2);
'''


class JS(Target):
    single_name = 'gen.js'

    def gfile(self, u=None):
        if self.single:
            return 'out/gen.js'
        return 'out/' + (u or self.schema).package.replace('.', '/') + '.bb.js'

    def write_driver(self):
        import json
        home = lambda t: self.unit(t).package if isinstance(t, Enum) else ''
        meta = [{'n': s.name, 'l': [{'k': l.kind, 'e': l.type.name, 'h': home(l.type), 'b': l.type.bits if l.kind in ('int', 'uint', 'enum') else 0, 'p': [list(x) for x in l.path]} for l in ls]}
                for s, ls in zip(self.structs, self.leaves)]
        body = JS_DRV % json.dumps(meta)
        compat = 'true' if self.compat else 'false'
        units = {self.schema.package: self.schema}
        for u in self.schema.home.values():
            units[u.package] = u
        if self.lang == 'esmodule':
            self.write('out/package.json', '{"type":"module"}')
            imp, tab = '', []
            for i, (p, u) in enumerate(units.items()):
                imp += f"import N{i} from './{self.gfile(u)}';\n"
                key = f"[{json.dumps(p.split('.')[-1])}]" if self.single else ''
                tab.append(f'{json.dumps(p)}: () => N{i}{key}')
            ns = '{' + ', '.join(tab) + '}'
            self.write('driver.mjs', f"import fs from 'fs';\n{imp}const UNITS = {ns};\nconst NSE = p => UNITS[p || {json.dumps(self.schema.package)}]();\nconst COMPAT = {compat};\n" + body)
        else:
            tab = []
            for p, u in units.items():
                tab.append(f"{json.dumps(p)}: () => require('./{self.gfile(u)}')" + ''.join(f'[{json.dumps(q)}]' for q in p.split('.')))
            ns = '{' + ', '.join(tab) + '}'
            self.write('out/package.json', '{"type":"commonjs"}')
            self.write('driver.cjs', f"const fs = require('fs');\nconst UNITS = {ns};\nconst NSE = p => UNITS[p || {json.dumps(self.schema.package)}]();\nconst COMPAT = {compat};\n" + body)

    def compile(self):
        self.write('empty.txt', '')
        rc, o, e = core.run(self.cmd() + [self.path('empty.txt')], cwd=self.dir, timeout=120)
        if rc != 0:
            raise BuildFail('compile', (o + e)[-2000:])

    def cmd(self):
        return ['node', '--stack-size=4000', self.path('driver.mjs' if self.lang == 'esmodule' else 'driver.cjs')]


# =========================================================================== Python
PY_DRV = r'''
import sys, struct, os
sys.path.insert(0, %(path)r)
import importlib
NS = importlib.import_module(%(mod)r)
META = %(meta)r
CLS = [getattr(NS, m['n']) for m in META]

def val(l, t):
    k = l['k']
    if k == 'str': return bytes.fromhex(t[1:]).decode('utf-8')
    if k == 'bytes': return bytearray.fromhex(t[1:])
    if k == 'f32': return struct.unpack('>f', bytes.fromhex(t))[0]
    if k == 'f64': return struct.unpack('>d', bytes.fromhex(t))[0]
    if k == 'bool': return t != '0'
    if k == 'enum': return getattr(NS, l['e'])(int(t))
    return int(t)

def out(l, v):
    k = l['k']
    if k == 'str': return 's' + v.encode('utf-8').hex()
    if k == 'bytes': return 'b' + bytes(v).hex()
    if k == 'f32': return struct.pack('>f', v).hex()
    if k == 'f64': return struct.pack('>d', v).hex()
    if k == 'bool': return ('1' if v else '0') if isinstance(v, (bool, int)) else 'notbool:%%r' %% (v,)
    if k == 'enum': return '?' if v is None else str(v.value)
    return str(v) if type(v) is int else 'type-%%s' %% type(v).__name__

def own(o, l):
    for n, i in l['p'][:-1]:
        o = getattr(o, n)
        if i is not None: o = o[i]
    return o

def mset(s, o, i, t):
    l = META[s]['l'][i]
    w = own(o, l)
    n, j = l['p'][-1]
    if j is None: setattr(w, n, val(l, t))
    else: getattr(w, n)[j] = val(l, t)

def mget(s, o):
    r = ''
    for l in META[s]['l']:
        w = getattr(own(o, l), l['p'][-1][0])
        j = l['p'][-1][1]
        r += ' ' + out(l, w if j is None else w[j])
    return r

slots, ss, bufs = [None]*8, [0]*8, [None]*8

def dec(o, b):
    ok, r = o.decode(b)
    return r if ok else -1

def run(t):
    op = t[0]
    if op == 'E':
        s = int(t[1]); o = CLS[s]()
        for i, x in enumerate(t[2:]): mset(s, o, i, x)
        z = o.encode_size()
        return '%%d %%s' %% (z, bytes(o.encode()).hex())
    if op == 'W':
        s = int(t[1]); o = CLS[s]()
        for i, x in enumerate(t[5:]): mset(s, o, i, x)
        z = o.encode_size(); pre = int(t[3])
        b = bytearray([int(t[2])]) * (pre + z + int(t[4]))
        r = o.encode(memoryview(b)[pre:])
        return '%%d %%s' %% (r, b.hex())
    if op == 'D':
        s = int(t[1]); o = CLS[s](); b = memoryview(bytearray.fromhex(t[3] if len(t) > 3 else ''))[int(t[2]):]
        z = o.decode_size(b); r = dec(o, b)
        return '%%d %%d%%s' %% (z, r, mget(s, o) if r >= 0 else '')
    if op == 'P':
        s = int(t[1]); b = bytes.fromhex(t[2] if len(t) > 2 else ''); o = CLS[s]()
        return ' '.join(str(o.decode_size(b[:k])) for k in range(len(b) + 1))
    if op == 'N':
        ss[int(t[1])] = int(t[2]); slots[int(t[1])] = CLS[int(t[2])](); return 'ok'
    if op == 'S':
        mset(ss[int(t[1])], slots[int(t[1])], int(t[2]), t[3]); return 'ok'
    if op == 'T':
        for i, x in enumerate(t[2:]): mset(ss[int(t[1])], slots[int(t[1])], i, x)
        return 'ok'
    if op == 'G': return '.' + mget(ss[int(t[1])], slots[int(t[1])])
    if op == 'Q':
        o = slots[int(t[1])]; return '%%d %%s' %% (o.encode_size(), bytes(o.encode()).hex())
    if op == 'B': bufs[int(t[1])] = bytearray.fromhex(t[2] if len(t) > 2 else ''); return 'ok'
    if op == 'K': bufs[int(t[1])][int(t[2])] = int(t[3]); return 'ok'
    if op == 'Z': return bufs[int(t[1])].hex()
    if op == 'F':
        b = bufs[int(t[1])]
        for i in range(len(b)): b[i] = 0xEE
        bufs[int(t[1])] = None
        return 'ok'
    if op == 'X': return str(dec(slots[int(t[1])], memoryview(bufs[int(t[2])])[int(t[3]):]))
    if op == 'Y': return str(slots[int(t[1])].encode(memoryview(bufs[int(t[2])])[int(t[3]):]))
    if op == 'M':
        l = META[ss[int(t[1])]]['l'][int(t[2])]
        w = getattr(own(slots[int(t[1])], l), l['p'][-1][0])
        if l['p'][-1][1] is not None: w = w[l['p'][-1][1]]
        w[int(t[3])] = int(t[4])
        return 'ok'
    if op == 'V': return str(CLS[int(t[1])]().decode_size(memoryview(bufs[int(t[2])])[int(t[3]):]))
    return '?'

w = sys.stdout
for line in open(sys.argv[1]):
    rs = []
    for q in line.split(';'):
        t = q.split()
        try: r = run(t) if t else ''
        except Exception as e: r = '!' + type(e).__name__ + ' ' + str(e).replace('\n', ' ')
        rs.append(r)
    w.write(';'.join(rs) + '\n')
'''


class Py(Target):
    single_name = 'gen_bb.py'

    def mod(self):
        if self.single:
            return 'gen_bb'
        return self.schema.package + '_bb'

    def write_driver(self):
        meta = [{'n': s.name, 'l': [{'k': l.kind, 'p': [('_' * self.minimal + n, i) for n, i in l.path], 'e': l.type.name} for l in ls]} for s, ls in zip(self.structs, self.leaves)]
        rel = '-relpath' in self.flags and not self.single
        self.write('driver.py', PY_DRV % {'path': self.dir if rel else self.out, 'mod': ('out.' if rel else '') + self.mod(), 'meta': meta})

    def compile(self):
        self.write('empty.txt', '')
        rc, o, e = core.run(self.cmd() + [self.path('empty.txt')], cwd=self.dir, timeout=120)
        if rc != 0:
            raise BuildFail('compile', (o + e)[-2000:])

    def cmd(self):
        return ['python3', self.path('driver.py')]


CLASSES = {'c': C, 'cpp': Cpp, 'go': Go, 'java': Java, 'csharp': CSharp, 'commonjs': JS, 'esmodule': JS, 'python': Py}


def make(lang, schema, flags=(), **kw):
    return CLASSES[lang](lang, schema, flags, **kw)

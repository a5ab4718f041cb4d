"""C10: accessors.  (a) raw accessors: every kind of field, alone, nested,
embedded and in arrays, is written and read through the generated getters and
setters; (b) custom accessors: every expression tree up to a depth, over every
type, gives in every language the value the expression means."""
import shutil, struct
from mc import core, drv, engine, expr, families as F
from mc.drv import LANGS, BuildFail
from mc.model import *
from . import nested
from .codec import replay as codec_replay

ACC = ['c', 'cpp', 'go', 'java', 'csharp']
PER = 300


# ------------------------------------------------------------- custom accessors
class Unit:
    """structs with one field 'fld' and accessors m0, m1, ...:
    (field type, [(accessor type, getter, {in: out}, setter, {in: out})])"""
    def __init__(self, name, structs):
        self.name, self.structs = name, structs
        defs = []
        for k, (t, ms) in enumerate(structs):
            txt = []
            for i, (a, g, _, s, _) in enumerate(ms):
                if g is not None:
                    txt.append(f'get m{i}({a}): {g};')
                if s is not None:
                    txt.append(f'set m{i}({a}): {s};')
            defs.append(Struct(f'S{k}', [Field('normal', Basic(t), 'fld', methods=txt)]))
        self.schema = Schema('ac', defs)
        self.cmds, self.exps = [], []
        for k, (t, ms) in enumerate(structs):
            for i, (a, g, gs, s, ss) in enumerate(ms):
                for x, y in gs:
                    self.cmds.append(f'g {k} {i} {tok(t, x)}')
                    self.exps.append(tok(a, y))
                for x, y in ss:
                    self.cmds.append(f's {k} {i} {tok(a, x)}')
                    self.exps.append(tok(t, y))


def tok(t, v):
    if t == 'float64':
        return struct.pack('>d', v).hex()
    return str(int(v))


def body_c(d, u, cxx):
    ns = d.ns() + '::' if cxx else ''
    ct = {'bool': 'bool', 'float64': 'double'}
    of = lambda t, x: f'f64_of({x})' if t == 'float64' else f'({ct.get(t) or t + "_t"})i_of({x})'
    pr = lambda t, x: f'pf64({x});' if t == 'float64' else f'printf(" %" PRI{"u" if t[0] in "ub" else "d"}64,({"u" if t[0] in "ub" else ""}int64_t){x});'
    o = [('#include <stdio.h>\n' if cxx else '') + (drv.C_COMMON if cxx else drv.C_COMMON.replace('#include <stdio.h>', '#define _GNU_SOURCE\n#include <stdbool.h>\n#include <stdio.h>', 1)),
         f'#include "{d.hdr()}"']
    for k, (t, ms) in enumerate(u.structs):
        T = f'{ns}S{k}' if cxx else f'struct S{k}'
        for w in 'gs':
            o.append(f'static void {w}{k}(int m,const char*t){{ {T} o{{}}; switch(m){{' if cxx else f'static void {w}{k}(int m,const char*t){{ {T} o; memset(&o,0,sizeof o); switch(m){{')
            for i, (a, g, _, s, _) in enumerate(ms):
                if w == 'g' and g is not None:
                    o.append(f'case {i}: o.fld={of(t, "t")}; {pr(a, f"o.get_m{i}()" if cxx else f"S{k}_get_m{i}(&o)")} break;')
                if w == 's' and s is not None:
                    call = f'o.set_m{i}({of(a, "t")})' if cxx else f'S{k}_set_m{i}(&o,{of(a, "t")})'
                    o.append(f'case {i}: {call}; {pr(t, "o.fld")} break;')
            o.append('} }')
    sw = ' '.join(f'case {k}: if(w==\'g\') g{k}(m,t); else s{k}(m,t); break;' for k in range(len(u.structs)))
    o.append('static char line[256];\nint main(int c,char**v){ FILE*f=fopen(v[1],"r"); if(!f) return 3; while(fgets(line,sizeof line,f)){ char w; int s,m; char t[64]; '
             f'if(sscanf(line,"%c %d %d %63s",&w,&s,&m,t)!=4) continue; switch(s){{ {sw} }} puts(""); fflush(stdout); }} return 0; }}')
    d.write('driver.cpp' if cxx else 'driver.c', '\n'.join(o))


def body_go(d, u):
    of = lambda t, x: {'bool': f'(ioff({x}) != 0)', 'float64': f'f64of({x})'}.get(t) or f'{t}(ioff({x}))'
    pr = lambda t, x: {'bool': f'strconv.Itoa(b2i({x}))', 'float64': f'fmt.Sprintf("%016x", math.Float64bits({x}))'}.get(t) or f'fmt.Sprintf("%d", {x})'
    o = ['package main\n\nimport (\n\t"bufio"\n\t"fmt"\n\t"math"\n\t"os"\n\t"strconv"\n\t"strings"\n\n\tg "%s"\n)\n' % d.ipath(d.schema), '''
func ioff(t string) int64 {
	if t[0] == '-' { v, _ := strconv.ParseInt(t, 10, 64); return v }
	v, _ := strconv.ParseUint(t, 10, 64); return int64(v)
}
func f64of(t string) float64 { v, _ := strconv.ParseUint(t, 16, 64); return math.Float64frombits(v) }
func b2i(b bool) int { if b { return 1 }; return 0 }
''']
    for k, (t, ms) in enumerate(u.structs):
        o.append(f'func g{k}(m int, t string) string {{\n\tvar o g.S{k}\n\to.Fld = {of(t, "t")}\n\tswitch m {{')
        o += [f'\tcase {i}: return {pr(a, f"o.GetM{i}()")}' for i, (a, g, *_) in enumerate(ms) if g is not None]
        o.append('\t}\n\treturn "?"\n}')
        o.append(f'func s{k}(m int, t string) string {{\n\tvar o g.S{k}\n\tswitch m {{')
        o += [f'\tcase {i}: o.SetM{i}({of(x[0], "t")})' for i, x in enumerate(ms) if x[3] is not None]
        o.append(f'\t}}\n\treturn {pr(t, "o.Fld")}\n}}')
    n = len(u.structs)
    o.append('''func num(s string) int { v, _ := strconv.Atoi(s); return v }
func do(t []string) (out string) {
	defer func() { if r := recover(); r != nil { out = "!" + strings.ReplaceAll(fmt.Sprint(r), "\\n", " ") } }()
	G := []func(int, string) string{%s}
	S := []func(int, string) string{%s}
	if t[0] == "g" { return G[num(t[1])](num(t[2]), t[3]) }
	return S[num(t[1])](num(t[2]), t[3])
}
func main() {
	f, _ := os.Open(os.Args[1])
	sc := bufio.NewScanner(f)
	w := bufio.NewWriter(os.Stdout)
	for sc.Scan() { w.WriteString(do(strings.Fields(sc.Text()))); w.WriteByte('\\n') }
	w.Flush()
}''' % (', '.join(f'g{k}' for k in range(n)), ', '.join(f's{k}' for k in range(n))))
    d.main = 'drv'
    d.write('drv/main.go', '\n'.join(o))
    d.write('drv/go.mod', 'module drv\n\ngo 1.21\n')


def body_java(d, u):
    J = lambda t: {'bool': 'boolean', 'float64': 'double'}.get(t) or drv.JTYPE[Basic(t).bits]
    of = lambda t, x: {'bool': f'(Long.parseLong({x})!=0)', 'float64': f'Double.longBitsToDouble(Long.parseUnsignedLong({x},16))'}.get(t) or f'({J(t)})Long.parseLong({x})'
    us = {8: 'Byte.toUnsignedInt({})', 16: 'Short.toUnsignedInt({})', 32: 'Integer.toUnsignedString({})', 64: 'Long.toUnsignedString({})'}
    pr = lambda t, x: {'bool': f'({x}?"1":"0")', 'float64': f'String.format("%016x",Double.doubleToRawLongBits({x}))'}.get(t) or f'(""+{us[Basic(t).bits].format(x) if t[0] == "u" else x})'
    o = ['import java.io.*; import java.util.*;\npublic class Drv {']
    for k, (t, ms) in enumerate(u.structs):
        P = f'{d.pkg()}.S{k}'
        o.append(f'static String g{k}(int m,String t){{ {P} o=new {P}(); o.setFld({of(t, "t")}); switch(m){{')
        o += [f'case {i}: return {pr(a, f"o.getM{i}()")};' for i, (a, g, *_) in enumerate(ms) if g is not None]
        o.append('} return "?"; }')
        o.append(f'static String s{k}(int m,String t){{ {P} o=new {P}(); switch(m){{')
        o += [f'case {i}: o.setM{i}({of(x[0], "t")}); break;' for i, x in enumerate(ms) if x[3] is not None]
        o.append(f'}} return {pr(t, "o.getFld()")}; }}')
    sw = ' '.join(f'case {k}: return w.equals("g")?g{k}(m,t):s{k}(m,t);' for k in range(len(u.structs)))
    o.append('static String run(String w,int s,int m,String t){ try { switch(s){ %s } return "?"; } catch(Throwable e){ return "!"+e; } }' % sw)
    o.append('public static void main(String[] a) throws Exception { BufferedReader r=new BufferedReader(new FileReader(a[0])); StringBuilder b=new StringBuilder(); String l; '
             'while((l=r.readLine())!=null){ String[] p=l.split(" "); if(p.length<4) continue; b.append(run(p[0],Integer.parseInt(p[1]),Integer.parseInt(p[2]),p[3])).append("\\n"); } System.out.print(b); } }')
    d.write('Drv.java', '\n'.join(o))


def body_cs(d, u):
    J = lambda t: {'bool': 'bool', 'float64': 'double'}.get(t) or drv.CSTYPE[t]
    of = lambda t, x: {'bool': f'(long.Parse({x})!=0)', 'float64': f'BitConverter.Int64BitsToDouble(unchecked((long)ulong.Parse({x},NumberStyles.HexNumber)))'}.get(t) or f'({J(t)})long.Parse({x})'
    pr = lambda t, x: {'bool': f'({x}?"1":"0")', 'float64': f'BitConverter.DoubleToInt64Bits({x}).ToString("x16")'}.get(t) or f'(""+{x})'
    o = ['using System; using System.IO; using System.Text; using System.Globalization;\npublic static class Drv {']
    for k, (t, ms) in enumerate(u.structs):
        P = f'{d.ns()}.S{k}'
        o.append(f'static string g{k}(int m,string t){{ var o=new {P}(); o.Fld={of(t, "t")}; switch(m){{')
        o += [f'case {i}: return {pr(a, f"o.M{i}")};' for i, (a, g, *_) in enumerate(ms) if g is not None]
        o.append('} return "?"; }')
        o.append(f'static string s{k}(int m,string t){{ var o=new {P}(); switch(m){{')
        o += [f'case {i}: o.M{i}={of(x[0], "t")}; break;' for i, x in enumerate(ms) if x[3] is not None]
        o.append(f'}} return {pr(t, "o.Fld")}; }}')
    sw = ' '.join(f'case {k}: return w=="g"?g{k}(m,t):s{k}(m,t);' for k in range(len(u.structs)))
    o.append('static string run(string w,int s,int m,string t){ try { switch(s){ %s } return "?"; } catch(Exception e){ return "!"+e.Message; } }' % sw)
    o.append('public static void Main(string[] a){ var b=new StringBuilder(); foreach(var l in File.ReadLines(a[0])){ var p=l.Split(\' \'); if(p.Length<4) continue; '
             'b.Append(run(p[0],int.Parse(p[1]),int.Parse(p[2]),p[3])).Append("\\n"); } Console.Out.Write(b.ToString()); } }')
    d.write('Drv.cs', '\n'.join(o))


JS_BODY = r'''
const META = %s;
const big = t => t === 'int64' || t === 'uint64';
const of = (t, x) => { if (t === 'bool') return x !== '0'; if (t === 'float64') { const v = new DataView(new ArrayBuffer(8)); v.setBigUint64(0, BigInt('0x' + x)); return v.getFloat64(0); } return big(t) ? BigInt(x) : Number(x); };
const pr = (t, v) => { const w = t === 'bool' ? 'boolean' : big(t) ? 'bigint' : 'number'; if (typeof v !== w) return 'type-' + typeof v + ':' + v;
  if (t === 'bool') return v ? '1' : '0'; if (t === 'float64') { const d = new DataView(new ArrayBuffer(8)); d.setFloat64(0, v); return d.getBigUint64(0).toString(16).padStart(16, '0'); } return String(v); };
const out = [];
for (const l of fs.readFileSync(process.argv[2], 'utf8').split('\n')) {
  if (!l) continue; const [w, s, m, t] = l.split(' ');
  try { const [ft, ms] = META[s]; const o = new NS['S' + s]();
    if (w === 'g') { o.fld = of(ft, t); out.push(pr(ms[m], o['m' + m])); } else { o['m' + m] = of(ms[m], t); out.push(pr(ft, o.fld)); }
  } catch (e) { out.push('!' + String(e).replace(/\n/g, ' ')); }
}
process.stdout.write(out.join('\n') + '\n');
'''


def body_js(d, u):
    import json
    meta = [[t, [x[0] for x in ms]] for t, ms in u.structs]
    b = JS_BODY % json.dumps(meta)
    if d.lang == 'esmodule':
        d.write('out/package.json', '{"type":"module"}')
        d.write('driver.mjs', f"import fs from 'fs';\nimport NS from './{d.gfile()}';\n" + b)
    else:
        d.write('out/package.json', '{"type":"commonjs"}')
        d.write('driver.cjs', f"const fs = require('fs');\nconst NS = require('./{d.gfile()}').{d.schema.package};\n" + b)


PY_BODY = r'''
import sys, struct, importlib
sys.path.insert(0, %r)
NS = importlib.import_module(%r)
META = %r
def of(t, x):
    return x != '0' if t == 'bool' else struct.unpack('>d', bytes.fromhex(x))[0] if t == 'float64' else int(x)
def pr(t, v):
    w = {'bool': bool, 'float64': float}.get(t, int)
    if type(v) is not w: return 'type-%%s:%%r' %% (type(v).__name__, v)
    return struct.pack('>d', v).hex() if t == 'float64' else str(int(v))
out = []
for l in open(sys.argv[1]):
    w, s, m, t = l.split()
    ft, ms = META[int(s)]
    try:
        o = getattr(NS, 'S' + s)()
        if w == 'g':
            o.fld = of(ft, t); out.append(pr(ms[int(m)], getattr(o, 'm' + m)))
        else:
            setattr(o, 'm' + m, of(ms[int(m)], t)); out.append(pr(ft, o.fld))
    except Exception as e:
        out.append('!%%s %%s' %% (type(e).__name__, str(e).replace('\n', ' ')))
sys.stdout.write('\n'.join(out) + '\n')
'''


def body_py(d, u):
    d.write('driver.py', PY_BODY % (d.out, d.mod(), [(t, [x[0] for x in ms]) for t, ms in u.structs]))


BODY = {'c': lambda d, u: body_c(d, u, False), 'cpp': lambda d, u: body_c(d, u, True), 'go': body_go, 'java': body_java, 'csharp': body_cs,
        'commonjs': body_js, 'esmodule': body_js, 'python': body_py}


def work(job):
    lang, flags, u = job
    r = {'n': 0, 'viol': [], 'infra': None}
    d = drv.make(lang, u.schema, flags, tag='x')
    sub = {'lang': lang, 'flags': list(flags), 'structs': u.structs}
    try:
        try:
            d.generate()
            BODY[lang](d, u)
            d.compile()
        except BuildFail as e:
            r['viol'].append((f'{lang}:{u.name[6:]}' if u.name[:5] == 'probe' else f'{lang}:{u.name}:{e.stage}', f'{lang} {" ".join(flags)}: accessors of {u.name} {"are refused" if e.stage == "generate" else "do not compile"}: {e.msg[-600:]}', sub))
            return r
        # small batches only if something is odd: one process for all
        outs = d.run(u.cmds) if u.cmds else []
        r['n'] = len(outs)
        for c, e, o in zip(u.cmds, u.exps, outs):
            if o.strip() == e:
                continue
            w, k, i, x = c.split()
            t, ms = u.structs[int(k)]
            a, g, _, s, _ = ms[int(i)]
            what = f'get m({a}): {g}' if w == 'g' else f'set m({a}): {s}'
            r['viol'].append((f'{lang}:{u.name[6:]}' if u.name[:5] == 'probe' else f'{lang}:{t}:{what}', f'{lang} {" ".join(flags)}: {t} field, "{what}" with value {x}: got {o.strip()!r}, expected {e}',
                              {**sub, 'structs': [(t, [(a, g, [], s, [])])], 'cmd': f'{w} 0 0 {x}', 'exp': e}))
            if len(r['viol']) > 20:
                break
    except core.Infra as e:
        r['infra'] = str(e)
    finally:
        shutil.rmtree(d.dir, True)
    return r


def replay(r, prop):
    if 'structs' not in r:
        return codec_replay(r, prop)
    u = Unit('replay', [(t, [tuple(m) for m in ms]) for t, ms in r['structs']])
    if 'cmd' in r:
        u.cmds, u.exps = [r['cmd']], [r['exp']]
    res = work((r['lang'], r['flags'], u))
    return [w for _, w, _ in res['viol']] or ([res['infra']] if res['infra'] else [])


# one expression each that some languages get wrong (known-findings.txt): name,
# field type, accessor type, getter, input, output
PROBES = [
    ('division', 'uint8', 'uint8', 'value / 2 * 2', 7, 6),
    ('remainder', 'int8', 'int8', 'value % 3', -7, -1),
    ('literal64', 'uint64', 'uint64', 'value + 1', 5, 6),
    ('unsigned', 'uint8', 'uint16', '(uint16)value + 1', 200, 201),
    ('mixed', 'uint16', 'float64', 'value / 2.5', 5, 2.0),
    ('shift', 'uint32', 'uint32', '2 << value', 3, 16),
]


FLITS = ['0.0', '0.5', '.5', '5.', '1e3', '1E3', '1e+3', '25e-2', '.25e1', '2.e2', '0.1', '0.3', '1.1', '3.14159265358979', '0.1234567', '0.0000001', '1e-9', '123456789.123456789',
         '6.02214076e23', '1e22', '1e21', '1e20', '123456789012345678.0', '9007199254740993.0', '1e100', '1e300', '1e-300', '1.7976931348623157e308', '2.2250738585072014e-308', '5e-324', '4.9406564584124654e-324',
         '0.000001', '0.00001', '1e-6', '1e-5', '1e-4', '100000.0', '1000000.0', '1e7', '00.5', '010.0', '16777217.0', '0.30000000000000004', 'inf']


def literals():
    """every spelling of a literal keeps its value"""
    ms = []
    for x in FLITS:
        y = float(x)
        ins = [0.0, 1.0, -0.5]
        ok = lambda l: [(a, b) for a, b in l if b == b]
        ms.append(('float64', f'value + {x}', ok([(v, v + y) for v in ins]), f'value - {x}', ok([(v, v - y) for v in ins])))
        ms.append(('float64', x, [(2.0, y)], f'-{x}', [(2.0, -y)] if y else []))
        ms.append(('float64', f'{x} * value', ok([(v, y * v) for v in (1.0, -1.0, 0.5)]), f'value < {x} ? (float64)1.0 : (float64)2.0', [(v, 1.0 if v < y else 2.0) for v in (0.0, 0.25, 1e21)]))
    out = [Unit('float literals', [('float64', ms)])]
    for b in ('uint8', 'int16', 'int32', 'uint32', 'int64'):
        ms = []
        hi = expr.rng(b)[1]
        for n in sorted({0, 1, 7, 8, 9, 10, 15, 16, 31, 63, 64, 99, 100, 255, 256, 4095, 32767, 65536, 1 << 30, 1 << 31, 3000000000, 1 << 32, 1 << 40, hi}):
            if n > hi:
                continue
            for sp in dict.fromkeys([str(n), hex(n), f'0X{n:X}', f'0x{n:04x}', '0' + oct(n)[2:], '000' + oct(n)[2:]]):
                if b == 'int64':
                    sp = '(int64)' + sp
                ms.append((b, sp, [(3, n)], f'value ^ {sp}', [(v, v ^ n) for v in (0, 1, 5)]))
                if n:
                    ms.append((b, f'{sp} - value', [(1, n - 1)], f'value == {sp} ? ({b})1 : ({b})2', [(n, 1), (n - 1, 2)]))
        out.append(Unit(f'{b} literals', [(b, ms)]))
    return out


def units(tier):
    out = []
    for t in expr.INTS + ['bool', 'float64']:
        deep = tier != 'quick' and t in ('int8', 'uint8', 'int32', 'int64', 'float64')
        ms = [(t, x, r, x, r) for _, x, r in expr.exprs(t, 3 if deep else 2, 1 if tier == 'quick' else 2)]
        # one property may be written only or read only
        ms += [(t, x, r, None, []) for _, x, r, _, _ in ms[:6]] + [(t, None, [], x, r) for _, x, r, _, _ in ms[:6]]
        n = 1200
        for i in range(0, len(ms), n):
            part = ms[i:i + n]
            out.append(Unit(f'{t} expressions{"" if len(ms) <= n else " " + str(i // n)}', [(t, part[j:j + PER]) for j in range(0, len(part), PER)]))
    # between types: the result is converted to the declared type
    for f in expr.INTS + ['float64']:
        ms = []
        for a in expr.INTS + ['float64']:
            both = [x for x in expr.inputs('uint8' if 'float64' in (f, a) else f) if all(t == 'float64' or expr.rng(t)[0] <= x <= expr.rng(t)[1] for t in (f, a)) and abs(x) < 1 << 52]
            if f == a:
                continue
            cv = lambda t, x: float(x) if t == 'float64' else x
            pairs = lambda s, d, k: [(cv(s, x), cv(d, x + k)) for x in both if d == 'float64' or x + k <= expr.rng(d)[1]]
            same = pairs(f, a, 0), pairs(a, f, 0)
            ms.append((a, 'value', same[0], 'value', same[1]))
            ms.append((a, f'({a})value', same[0], f'({f})value', same[1]))
            ms.append((a, f'({a})value + ({a})3', pairs(f, a, 3), f'({f})value + ({f})3', pairs(a, f, 3)))
            ms.append((a, f'({a})(value == ({f})7 ? ({f})1 : ({f})value)', [(x, cv(a, 1 if x == 7 else x)) for x, _ in same[0]],
                       f'({f})(value == ({a})7 ? ({a})1 : ({a})value)', [(x, cv(f, 1 if x == 7 else x)) for x, _ in same[1]]))
        out.append(Unit(f'{f} as other types', [(f, ms)]))
    out += literals()
    for nm, t, a, g, x, y in PROBES:
        out.append(Unit(f'probe {nm}', [(t, [(a, g, [(x, y)], None, [])])]))
    return out


def C10(rep):
    kinds = [(k,) for k in F.KINDS]
    us = units(rep.tier)
    raw = nested.chunks(kinds, 3, 2 if rep.tier == 'quick' else 4)
    fl = [()] if rep.tier == 'quick' else [(), ('-memcpy',), ('-unroll', '0'), ('-unroll', '-1'), ('-single',), ('-compat',)]
    engine.matrix_check(rep, (raw, [(l, ('@acc',) + f) for l in ACC for f in fl]))
    jobs = [(l, f, u) for u in us for l in LANGS for f in ([()] if rep.tier == 'quick' else [(), ('-decnum',), ('-single',), ('-compat',)])]
    jobs.sort(key=lambda j: -len(j[2].cmds) * engine.WEIGHT.get(j[0], 1))
    rep.add(states=sum(len(s[1]) for u in us for s in u.structs), programs=0)
    for j, r in engine.prun(rep, jobs, fn=work, label=lambda j: f'{j[0]} {j[1]} {j[2].name}'):
        rep.add(transitions=r['n'], traces_validated_against_impl=r['n'], programs=1)
        if r['infra']:
            rep.infra(f'{j[0]} {j[1]} {j[2].name}: {r["infra"]}')
        for k, w, p in r['viol']:
            rep.violation(k, w, p)
    u = us[0]
    for i in range(0, len(u.cmds), len(u.cmds) // 3 + 1):
        w, k, m, x = u.cmds[i].split()
        rep.sample({'expression': u.structs[int(k)][1][int(m)][1], 'kind': {'g': 'get', 's': 'set'}[w], 'value': x, 'expected': u.exps[i]})

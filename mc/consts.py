"""Prints the numbers of generated enum constants in every target.

print_all(lang, text, names, pkg, flags) generates, compiles and runs a program
that prints every constant: -> {name: number}"""
import json, os
from . import core, drv


def build(lang, files, main, enums, pkg, flags=()):
    """files: name -> source; enums: [(enum name, [value names])] of package pkg"""
    d = core.subdir('k_' + lang + '_')
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(t)
    base = pkg.split('.')[-1]
    pp = pkg.replace('.', '/')
    out = os.path.join(d, 'out' if lang != 'go' else 'drv')
    rc, o, e = core.gen(lang, os.path.join(d, main), out, flags)
    if rc != 0:
        raise drv.BuildFail('generate', f'rc={rc} {e[-600:]}')

    def w(n, t):
        with open(os.path.join(d, n), 'w') as f:
            f.write(t)

    def cc(cmd, cwd=d, env=None):
        rc, o, e = core.run(cmd, cwd=cwd, timeout=600, env=env)
        if rc == 'timeout':
            raise core.Infra('compiler timeout: ' + ' '.join(cmd[:4]))
        if rc != 0:
            raise drv.BuildFail('compile', (o + e)[-2000:])

    def find(ext):
        return sorted(os.path.join(r, f) for r, _, fs in os.walk(out) for f in fs if f.endswith(ext))
    cst = [(e, v) for e, vs in enums for v in vs]
    if lang in ('c', 'cpp'):
        x = 'h' if lang == 'c' else 'hpp'
        ns = '' if lang == 'c' else pkg.replace('.', '::') + '::%s::'
        sub = '/'.join(pkg.split('.')[:-1] + [base])
        s = ['#include <stdio.h>', f'#include "{sub}.bb.{x}"', 'int main(void){' if lang == 'c' else 'int main(){']
        s += [f'printf("{v} %lld\\n",(long long){(ns % e if ns else "")}{v});' for e, v in cst]
        w('m.' + ('c' if lang == 'c' else 'cpp'), '\n'.join(s + ['return 0;}']))
        cc([drv.CC if lang == 'c' else drv.CXX, '-std=gnu17' if lang == 'c' else '-std=c++20', '-w', '-O0', '-I', out, '-o', 'm', 'm.' + ('c' if lang == 'c' else 'cpp')])
        cmd = ['./m']
    elif lang == 'go':
        w('drv/main.go', f'package main\nimport ("fmt"; g "drv/{pp}")\nfunc main() {{\n' + '\n'.join(f'fmt.Println("{v}", int64(g.{v}))' for e, v in cst) + '\n}\n')
        w('drv/go.mod', 'module drv\n\ngo 1.21\n')
        cc(['go', 'build', '-gcflags=-N', '-o', '../m', '.'], cwd=os.path.join(d, 'drv'), env={'GOFLAGS': '-mod=mod -buildvcs=false'})
        cmd = ['./m']
    elif lang == 'java':
        s = ['public class Drv {']
        k = 0
        for k, i in enumerate(range(0, len(enums), 200)):
            s.append(f'static void f{k}() {{')
            for e, vs in enums[i:i + 200]:
                s += [f'System.out.println("{v} "+{pkg}.{e}.{v}.getNumber()+" "+{pkg}.{e}.forNumber({pkg}.{e}.{v}.getNumber()).getNumber());' for v in vs]
            s.append('}')
        s.append('public static void main(String[] a) {' + ' '.join(f'f{i}();' for i in range(k + 1)) + '} }')
        w('Drv.java', '\n'.join(s))
        w('srcs.txt', '\n'.join(['Drv.java'] + find('.java')))
        cc(['javac', '-J-Xmx3g', '-J-XX:+UseSerialGC', '-J-XX:TieredStopAtLevel=1', '-proc:none', '-nowarn', '-encoding', 'UTF-8', '-d', 'cls', '@srcs.txt'])
        cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-cp', 'cls', 'Drv']
    elif lang == 'csharp':
        ns = '.'.join(drv.cap(x) for x in pkg.split('.'))
        w('Drv.cs', 'using System; public static class Drv { public static void Main() {\n' + '\n'.join(f'Console.WriteLine("{v} "+(decimal){ns}.{e}.{v});' for e, v in cst) + '\n} }')
        p = drv.dotnet_paths()
        rsp = ['-nologo', '-nostdlib', '-target:exe', '-out:drv.dll', '-langversion:12', '-optimize-', '-debug-', '-warn:0', '-nullable:disable',
               '-define:NET8_0,NET8_0_OR_GREATER,NET5_0_OR_GREATER,NETCOREAPP3_0_OR_GREATER']
        rsp += [f'-r:"{os.path.join(p["ref"], f)}"' for f in os.listdir(p['ref']) if f.endswith('.dll')] + [f'"{x}"' for x in ['Drv.cs'] + find('.cs')]
        w('csc.rsp', '\n'.join(rsp))
        cc(['dotnet', p['csc'], '-noconfig', '@csc.rsp'])
        w('drv.runtimeconfig.json', '{"runtimeOptions":{"tfm":"net8.0","framework":{"name":"Microsoft.NETCore.App","version":"%s"},"configProperties":{"System.Globalization.Invariant":true}}}' % p['ver'])
        cmd = ['dotnet', 'drv.dll']
    elif lang in ('commonjs', 'esmodule'):
        esm = lang == 'esmodule'
        w('out/package.json', '{"type":"%s"}' % ('module' if esm else 'commonjs'))
        pk = '' if esm else ''.join(f'[{json.dumps(p)}]' for p in pkg.split('.'))
        head = f"import NS from './out/{pp}.bb.js';\n" if esm else f"const NS = require('./out/{pp}.bb.js'){pk};\n"
        w('m.mjs' if esm else 'm.cjs', head + f'for (const [e, vs] of {json.dumps(enums)}) for (const v of vs) console.log(v, String(NS[e][v]));\n')
        cmd = ['node', 'm.mjs' if esm else 'm.cjs']
    elif lang == 'python':
        w('m.py', f'import sys, importlib\nsys.path.insert(0, {out!r})\nN = importlib.import_module({pkg + "_bb"!r})\n'
          f'for e, vs in {enums!r}:\n    for v in vs:\n        print(v, int(getattr(N, e)[v].value))\n')
        cmd = ['python3', 'm.py']
    return d, cmd


def print_all(lang, files, main, enums, pkg, flags=()):
    d, cmd = build(lang, files, main, enums, pkg, flags)
    rc, o, e = core.run(cmd, cwd=d, timeout=120)
    if rc != 0:
        raise drv.BuildFail('run', (o + e)[-1500:])
    out = {}
    for ln in o.splitlines():
        t = ln.split()
        if len(t) >= 2:
            out[t[0]] = t[1] if len(t) < 3 or t[1] == t[2] else f'{t[1]} (forNumber gives {t[2]})'
    import shutil
    shutil.rmtree(d, True)
    return out

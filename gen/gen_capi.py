#!/usr/bin/env python3
"""Writes ../capi/wrap.c, wrap.cpp and wrapx.pyx from fns.json: every C symbol of the pinned
commit behind one calling convention, in C, C++ and Cython, through the generated headers."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
fns = json.load(open(os.path.join(here, 'fns.json')))
PN = ['q','om','p','m','m1','m2','mq','beta','mu','f0','g0','xi','s','en','delta','ln_s','ln_s_pl_1','n']
PI = {n: i for i, n in enumerate(PN)}
native = {}
for f in fns:
    if f[0] == 'native': native.setdefault((f[1], f[2]), f)
ffi = [f for f in fns if f[0] == 'ffi']
ALIAS = {'ym::ghost': 'qcd::ghost'}
rows = []
for k, path, name, g, args, ret in ffi:
    base = name[:-9] if name.endswith('__complex') else name
    last = base.split('__')[-1]
    if base.startswith('ym__oneloop__gluon__'): last = 'ym_' + last
    cand = [f for (p, n), f in native.items() if n == last and p == path] or \
           [f for (p, n), f in native.items() if n == last and len(f[4]) == len(args)]
    f = cand[0]
    # by position, as in gen_registry.py
    rows.append((name, [(PI[fa], t) for (a, t), (fa, _) in zip(args, f[4])], ret))
SET = [('number_of_colors', 'uint32_t'), ('number_of_fermions', 'uint32_t'), ('default_quark_mass', 'R'),
       ('default_tol_integral', 'R'), ('default_max_iter_integral', 'uint32_t'), ('matsubara_reg', 'R')]
def csrc(header, cpp):
    o = ['/* @generated by gen/gen_capi.py */', f'#include "{header}"', '']
    x = 'extern "C" ' if cpp else ''
    for i, (n, a, r) in enumerate(rows):
        o.append(f'static {r} (*const p{i})({", ".join(t for _, t in a)}) = {n};')
    for n, t in SET:
        void = '' if cpp else 'void'
        o.append(f'static {t} (*const g_{n})({void}) = get_{n};')
        o.append(f'static void (*const s_{n})({t}) = set_{n};')
    o.append('static C cc(const double *v) { C z; z.re = v[0]; z.im = v[1]; return z; }')
    o.append('static void o_r(double *o, R x) { o[0] = x; o[1] = 0.; }')
    o.append('static void o_c(double *o, C x) { o[0] = x.re; o[1] = x.im; }')
    o.append(f'{x}void w_call(int i, const double *v, double *o)\n{{\n    switch (i) {{')
    for i, (n, a, r) in enumerate(rows):
        args = ', '.join(f'v[{2*p}]' if t == 'R' else f'cc(v + {2*p})' for p, t in a)
        o.append(f'    case {i}: o_{r.lower()}(o, p{i}({args})); break;')
    o.append('    }\n}')
    o.append(f'{x}void w_set(int i, double x)\n{{\n    switch (i) {{')
    for i, (n, t) in enumerate(SET): o.append(f'    case {i}: s_{n}(({t})x); break;')
    o.append('    }\n}')
    o.append(f'{x}double w_get(int i)\n{{\n    switch (i) {{')
    for i, (n, t) in enumerate(SET): o.append(f'    case {i}: return (double)g_{n}();')
    o.append('    }\n    return 0.;\n}')
    return '\n'.join(o) + '\n'
open(os.path.join(here, '../capi/wrap.c'), 'w').write(csrc('qcd_sme.h', False))
open(os.path.join(here, '../capi/wrap.cpp'), 'w').write(csrc('qcd_sme.hpp', True))
o = ['# @generated by gen/gen_capi.py', 'from qcd_sme cimport C, R']
for n, _, _ in rows: o.append(f'from qcd_sme cimport {n} as f_{n}')
for n, _ in SET:
    o.append(f'from qcd_sme cimport get_{n} as fg_{n}')
    o.append(f'from qcd_sme cimport set_{n} as fs_{n}')
o.append('\ncdef C cc(double a, double b):\n    cdef C z\n    z.re = a\n    z.im = b\n    return z\n')
for i, (n, a, r) in enumerate(rows):
    args = ', '.join(f'v[{2*p}]' if t == 'R' else f'cc(v[{2*p}], v[{2*p+1}])' for p, t in a)
    o.append(f'def w{i}(v):\n    cdef {r} x = f_{n}({args})')
    o.append('    return (x, 0.)\n' if r == 'R' else '    return (x.re, x.im)\n')
for i, (n, t) in enumerate(SET):
    o.append(f'def s{i}(x):\n    fs_{n}({"int(x)" if t != "R" else "x"})\n')
    o.append(f'def g{i}():\n    return float(fg_{n}())\n')
open(os.path.join(here, '../capi/wrapx.pyx'), 'w').write('\n'.join(o))
open(os.path.join(here, '../capi/symbols.txt'), 'w').write(
    '\n'.join([n for n, _, _ in rows] + [f'{g}_{n}' for n, _ in SET for g in ('get', 'set')]) + '\n')
print(len(rows))

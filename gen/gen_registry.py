#!/usr/bin/env python3
"""Writes ../mc/src/registry.rs and ../mc/src/registry_ffi.rs from fns.json.

fns.json is the list of the public functions of the *pinned* commit; it is
committed, so the checks never read the text of the code under test."""
import json, re, os
here = os.path.dirname(os.path.abspath(__file__))
fns = json.load(open(os.path.join(here, 'fns.json')))
PN = ['q','om','p','m','m1','m2','mq','beta','mu','f0','g0','xi','s','en','delta','ln_s','ln_s_pl_1','n']
PI = {n: i for i, n in enumerate(PN)}
def gens(g):
    g = g.strip('<> \n')
    out = []
    for x in g.split(','):
        x = x.strip()
        if not x: continue
        n = x.split(':')[0].strip()
        out.append((n, 'Sub' in x))
    return out
nat = [f for f in fns if f[0] == 'native' and f[1] != 'consts' and f[1] != 'utils']
for a, b in [('ym::ghost', 'qcd::ghost'), ('ym::thermal::ghost', 'qcd::thermal::ghost'),
             ('ym::thermal::zero_matsubara::ghost', 'qcd::thermal::zero_matsubara::ghost'),
             ('ym::thermal::zero_momentum::ghost', 'qcd::thermal::zero_momentum::ghost')]:
    nat += [[f[0], b] + f[2:] for f in nat if f[1] == a]   # re-exported
L = []
w = L.append
w('// @generated by gen/gen_registry.py: every public function of the library.')
w('#![allow(clippy::all)]')
w('use crate::base::*;\nuse qcd_sme as q;\n')
w('pub static FNS: &[F] = &[')
nv = 0
for idx, (k, path, name, g, args, ret) in enumerate(nat):
    gs = gens(g)
    # delta: T3: Copy + Into<C> is parsed as a generic as well
    gn = [x for x, _ in gs]
    groups = []
    for x in gn:
        groups.append([PI[a] for a, t in args if t == x])
    masks = []
    for mask in range(1 << len(gn)):
        c = {x: bool(mask >> i & 1) for i, x in enumerate(gn)}
        if any(s for _, s in gs) and not c['T1'] and c['T2']: continue
        masks.append((mask, c))
    ps = [a for a, t in args]
    integ = 'integral' in ps; cfg = 'config' in ps
    plist = ', '.join(str(PI[a]) for a in ps if a in PI)
    vs = []
    for mask, c in masks:
        call = []
        for a, t in args:
            if a == 'integral': call.append('a.integral()')
            elif a == 'config': call.append('&a.cfg')
            elif t == 'R': call.append(f'a.v[{PI[a]}].re')
            elif t in c: call.append(f'a.v[{PI[a]}]' if c[t] else f'a.v[{PI[a]}].re')
            else: raise SystemExit((name, a, t))
        rt = ret if ret in ('R', 'C') else ('C' if c[ret] else 'R')
        body = f'q::{path}::{name}({", ".join(call)})'
        vs.append(f'V {{ mask: {mask}, real: {"true" if rt=="R" else "false"}, call: |a| {body}.into() }}')
        nv += 1
    gl = ', '.join('&[' + ','.join(map(str, x)) + ']' for x in groups)
    w(f'  F {{ id: {idx}, path: "{path}", name: "{name}", params: &[{plist}], integral: {str(integ).lower()}, cfg: {str(cfg).lower()}, gens: &[{gl}],')
    w('     vars: &[' + ',\n       '.join(vs) + '] },')
w('];')
open(os.path.join(here, '../mc/src/registry.rs'), 'w').write('\n'.join(L) + '\n')
print(len(nat), nv)

# FFI
ffi = [f for f in fns if f[0] == 'ffi']
natives = {}
for i, f in enumerate(nat): natives.setdefault(f[2], []).append((i, f))
def tok(path): return [x for x in path.split('::') if x]
L = []; w = L.append
w('// @generated by gen/gen_registry.py: every exported C symbol, with the Rust function it stands for.')
w('#![allow(clippy::all)]')
w('use crate::base::*;\nuse crate::base::{C, R};\n')
decl = []; tab = []
un = []
for k, path, name, g, args, ret in ffi:
    base, cpx = (name[:-len('__complex')], True) if name.endswith('__complex') else (name, False)
    last = base.split('__')[-1]
    if base.startswith('ym__oneloop__gluon__'): last = 'ym_' + last
    cands = []
    for i, f in natives.get(last, []):
        pt = tok(f[1])
        # the tokens have to be the module path from the crate, with common prefixes left out
        if pt == tok(path) : cands.append((i, f))
    if len(cands) != 1:
        un.append((name, path, [c[1][1] for c in cands])); continue
    i, f = cands[0]
    # (two C functions call the momentum `om` in their signature: by position it is the momentum)
    args = [(fa, t) for (a, t), (fa, ft) in zip(args, f[4])]
    assert len(args) == len(f[4])
    # mask: generics whose ffi type is C
    gs = [x for x, _ in gens(f[3])]
    mask = 0
    for (a, t), (fa, ft) in zip(args, f[4]):
        if ft in gs and t == 'C': mask |= 1 << gs.index(ft)
        if ft == 'R' and t != 'R': print('TYPE', name, a, t)
    d = f'    fn {name}({", ".join(f"{a}: {t}" for a, t in args)}) -> {ret};'
    decl.append(d)
    call = ', '.join(f'a.v[{PI[a]}]' + ('.re' if t == 'R' else '') for a, t in args)
    tab.append(f'  X {{ sym: "{name}", f: {i}, mask: {mask}, real: {str(ret=="R").lower()}, call: |a| unsafe {{ {name}({call}) }}.into() }},')
w('#[allow(improper_ctypes)]\nextern "C" {')
L += decl
w('}\n')
w('pub static SYMS: &[X] = &[')
L += tab
w('];')
open(os.path.join(here, '../mc/src/registry_ffi.rs'), 'w').write('\n'.join(L) + '\n')
print(len(ffi), len(tab), 'unmatched', len(un))
for u in un[:40]: print(u)

//! Properties of the global settings and of field configurations, decided by
//! exhaustive exploration of operation sequences on the real library.
//! Executions that must start from a pristine process run in forked children.
use crate::base::*;
use crate::intr;
use crate::lattice::{self, realify};
use crate::num_e::*;
use crate::refm::{self, G};
use crate::registry::FNS;
use qcd_sme::consts::*;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

/// the six global settings
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Gs {
    pub nc: u32,
    pub nf: u32,
    pub mq: f64,
    pub tol: f64,
    pub iter: u32,
    pub reg: f64,
}
pub const INIT: Gs = Gs { nc: 3, nf: 1, mq: 0.5, tol: 1e-10, iter: 50, reg: 1e-5 };

impl Gs {
    pub fn get() -> Gs {
        Gs {
            nc: get_number_of_colors(),
            nf: get_number_of_fermions(),
            mq: get_default_quark_mass(),
            tol: get_default_tol_integral(),
            iter: get_default_max_iter_integral(),
            reg: get_matsubara_reg(),
        }
    }
    pub fn apply(&self) {
        set_number_of_colors(self.nc);
        set_number_of_fermions(self.nf);
        set_default_quark_mass(self.mq);
        set_default_tol_integral(self.tol);
        set_default_max_iter_integral(self.iter);
        set_matsubara_reg(self.reg);
    }
    pub fn same(&self, o: &Gs) -> bool {
        self.nc == o.nc
            && self.nf == o.nf
            && self.iter == o.iter
            && bits(r(self.mq)) == bits(r(o.mq))
            && bits(r(self.tol)) == bits(r(o.tol))
            && bits(r(self.reg)) == bits(r(o.reg))
    }
}

/// seconds a child may take: it is ended, and reported, while the check can still answer
pub fn limit_left() -> u32 {
    static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    let t = START.get_or_init(std::time::Instant::now).elapsed().as_secs() as u32;
    if std::env::args().any(|x| x == "thorough") {
        7200
    } else {
        600u32.saturating_sub(t).max(10)
    }
}

/// Run `f` in a forked child and return what it wrote. None: the child died.
pub fn forked(f: impl FnOnce(&mut Vec<u8>)) -> Option<Vec<u8>> {
    unsafe {
        let mut fds = [0; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            libc::close(fds[0]);
            // keep abort messages of expected refusals away from the log
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 2);
            libc::alarm(limit_left());
            let mut out = vec![];
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut out))).is_ok();
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let _ = w.write_all(&out);
            drop(w);
            libc::_exit(if ok { 0 } else { 3 });
        }
        libc::close(fds[1]);
        let mut s = vec![];
        let mut rd = std::fs::File::from_raw_fd(fds[0]);
        let _ = rd.read_to_end(&mut s);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Some(s)
        } else {
            None
        }
    }
}

/// Run `f(k, context)` for k < n in processes, at most `jobs` at a time, and
/// merge what they counted and found. Each process is forked from this one,
/// which must not have evaluated anything.
pub fn processes(cx: &Ctx, n: usize, f: &(dyn Fn(usize, &Ctx) + Sync)) {
    use std::sync::atomic::Ordering::Relaxed;
    let jobs = std::thread::available_parallelism().map_or(4, |x| x.get()).min(n.max(1));
    // one forked worker per slot, each handling every jobs-th case in a child of its own
    unsafe {
        let mut pids = vec![];
        for slot in 0..jobs {
            let mut fds = [0; 2];
            libc::pipe(fds.as_mut_ptr());
            let _ = std::io::stdout().flush();
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fds[0]);
                let mut w = std::fs::File::from_raw_fd(fds[1]);
                for k in (slot..n).step_by(jobs) {
                    let got = forked(|out| {
                        let c = Ctx::sub(cx);
                        f(k, &c);
                        let _ = writeln!(
                            out,
                            "N\t{}\t{}\t{}\t{}\t{}",
                            c.states.load(Relaxed),
                            c.transitions.load(Relaxed),
                            c.validated.load(Relaxed),
                            c.skipped.load(Relaxed),
                            c.nviol.load(Relaxed)
                        );
                        for (k, t) in c.viol.lock().unwrap().iter() {
                            let _ = writeln!(out, "V\t{}\t{}", k.replace(['\t', '\n'], " "), t.replace(['\t', '\n'], " "));
                        }
                        for (k, n) in c.known_hit.lock().unwrap().iter() {
                            let _ = writeln!(out, "K\t{k}\t{n}");
                        }
                        for s in c.samples.lock().unwrap().iter() {
                            let _ = writeln!(out, "S\t{}", s.replace(['\t', '\n'], " "));
                        }
                    });
                    let _ = match got {
                        Some(x) => w.write_all(&x),
                        None => writeln!(w, "V\tcrash\tcase {k} of {}: the process running the library died or hung", cx.property),
                    };
                }
                drop(w);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pids.push((pid, std::fs::File::from_raw_fd(fds[0])));
        }
        let txts: Vec<String> = std::thread::scope(|sc| {
            let h: Vec<_> = pids
                .iter_mut()
                .map(|(_, fd)| {
                    sc.spawn(move || {
                        let mut s = String::new();
                        let _ = fd.read_to_string(&mut s);
                        s
                    })
                })
                .collect();
            h.into_iter().map(|x| x.join().unwrap()).collect()
        });
        for (pid, _) in &pids {
            let mut st = 0;
            libc::waitpid(*pid, &mut st, 0);
        }
        for t in txts {
            for l in t.lines() {
                let p: Vec<&str> = l.split('\t').collect();
                match p.as_slice() {
                    ["N", a, b, c, d, e] => {
                        let n = |x: &str| x.parse::<u64>().unwrap_or(0);
                        cx.state(n(a));
                        cx.trans(n(b));
                        cx.valid(n(c));
                        cx.skip(n(d));
                        cx.nviol.fetch_add(n(e), Relaxed);
                    }
                    ["V", k, t] => {
                        if *k == "crash" {
                            cx.nviol.fetch_add(1, Relaxed);
                        }
                        let mut v = cx.viol.lock().unwrap();
                        if v.len() < 200 {
                            v.push((k.to_string(), t.to_string()));
                        }
                    }
                    ["K", k, n] => *cx.known_hit.lock().unwrap().entry(k.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(1),
                    ["S", s] => cx.sample(s.to_string()),
                    _ => {}
                }
            }
        }
    }
}

// ------------------------------------------------------------------- C01

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Nc(u32),
    Nf(u32),
    Mq(f64),
    Tol(f64),
    Iter(u32),
    Reg(f64),
}
impl Op {
    fn real(self) {
        match self {
            Op::Nc(x) => set_number_of_colors(x),
            Op::Nf(x) => set_number_of_fermions(x),
            Op::Mq(x) => set_default_quark_mass(x),
            Op::Tol(x) => set_default_tol_integral(x),
            Op::Iter(x) => set_default_max_iter_integral(x),
            Op::Reg(x) => set_matsubara_reg(x),
        }
    }
    fn model(self, s: &mut Gs) {
        match self {
            Op::Nc(x) => s.nc = x,
            Op::Nf(x) => s.nf = x,
            Op::Mq(x) => s.mq = x,
            Op::Tol(x) => s.tol = x,
            Op::Iter(x) => s.iter = x,
            Op::Reg(x) => s.reg = x,
        }
    }
}

/// everything that is cheap to compute from the settings, against the model
fn observe(cx: &Ctx, s: &Gs, deep: bool, history: &dyn Fn() -> String) -> bool {
    let got = Gs::get();
    let mut ok = true;
    let mut bad = |t: String| {
        ok = false;
        cx.violation(format!("settings {}", t.split(':').next().unwrap()), format!("after {}: {t}", history()));
    };
    cx.valid(1);
    if !got.same(s) {
        bad(format!("getters: {got:?}, the settings made were {s:?}"));
    }
    let m = get_default_integration_method();
    if !matches!(m, qcd_sme::Integral::G7K15(t, i) if bits(r(t)) == bits(r(s.tol)) && i == s.iter) {
        bad(format!("default method: {m:?} with the settings {s:?}"));
    }
    if deep && s.nc != 0 {
        let g = G { nc: s.nc as f64, nf: s.nf as f64, mq: s.mq };
        // flavours over colours in the vacuum functions and in the thermal integrands
        for (path, name) in OBS {
            let f = func(path, name);
            let v = f.var(0).unwrap();
            let mut a = A::new();
            a.set(S, 1.37).set(MQ, 0.35).set(F0, -0.876).set(XI, 0.3).set(Q, 0.62).set(OM, 0.75).set(P, 1.16);
            a.set(BETA, 3.2).set(MU, 0.8).set(M, 0.656).set(N, 0.05);
            let want = refm::pointwise(f, &a, g).unwrap();
            let x = eval(v, &a);
            cx.trans(1);
            match x {
                Ok(x) if (x - want.v).norm() <= 1e-11 * (want.v.norm() + 1.) || (!finite(want.v) && !finite(x)) => {}
                x => bad(format!("{}: {x:?} instead of {}: with the settings {s:?}", f.desc(v, &a), want.v)),
            }
        }
    }
    ok
}
const OBS: &[(&str, &str)] = &[
    ("qcd::gluon", "dressing_inv_landau"),
    ("qcd::gluon", "dressing_crossed_landau"),
    ("qcd::gluon", "propagator"),
    ("low_level::oneloop::thermal::gluon", "polarization_quark_l_thermal_part_landau_i"),
    ("qcd::thermal::quark", "charge_density_zero_temp"),
];

pub fn c01(cx: &Ctx) {
    // a fresh process
    let s0 = Gs::get();
    cx.state(1);
    if !s0.same(&INIT) {
        cx.violation("initial".into(), format!("initial settings {s0:?} instead of {INIT:?}"));
    }
    observe(cx, &INIT, true, &|| "nothing".into());
    let ops = [
        Op::Nc(3),
        Op::Nc(2),
        Op::Nc(7),
        Op::Nf(1),
        Op::Nf(0),
        Op::Nf(4),
        Op::Mq(0.5),
        Op::Mq(-1.7),
        Op::Tol(1e-10),
        Op::Tol(1e-3),
        Op::Iter(50),
        Op::Iter(7),
        Op::Reg(1e-5),
        Op::Reg(0.02),
    ];
    // every sequence of operations up to the depth, from the initial state; the
    // getters are read after every operation, derived values at the end
    let depth = if cx.thorough { 6 } else { 5 };
    processes(cx, ops.len(), &|first, cx| {
        let mut seq = vec![first];
        loop {
            let hist = || format!("{:?}", seq.iter().map(|i| ops[*i]).collect::<Vec<_>>());
            // replay from the initial state
            INIT.apply();
            let mut s = INIT;
            for i in &seq {
                ops[*i].real();
                ops[*i].model(&mut s);
                cx.trans(1);
            }
            cx.state(1);
            let deep = seq.len() <= depth - 1;
            observe(cx, &s, deep, &hist);
            // depth first
            if seq.len() < depth {
                seq.push(0);
            } else {
                while let Some(l) = seq.pop() {
                    if l + 1 < ops.len() && !seq.is_empty() {
                        seq.push(l + 1);
                        break;
                    }
                }
            }
            if seq.len() <= 1 {
                break;
            }
            if cx.nv() > 50 {
                break;
            }
        }
        cx.sample(format!("all sequences up to length {depth} that start with {:?}", ops[first]));
    });
    // extreme values in every register, in several states
    let big = [
        Op::Nc(0),
        Op::Nc(1),
        Op::Nc(u32::MAX),
        Op::Nf(u32::MAX),
        Op::Mq(0.),
        Op::Mq(-0.),
        Op::Mq(f64::NAN),
        Op::Mq(f64::INFINITY),
        Op::Mq(5e-324),
        Op::Tol(5e-324),
        Op::Tol(f64::MAX),
        Op::Tol(f64::INFINITY),
        Op::Iter(0),
        Op::Iter(u32::MAX),
        Op::Reg(5e-324),
        Op::Reg(f64::INFINITY),
        Op::Reg(1e-9),
    ];
    let states = [
        INIT,
        Gs { nc: 2, nf: 5, mq: 0.1, tol: 1e-4, iter: 9, reg: 1e-2 },
        Gs { nc: 8, nf: 0, mq: 3., tol: 1., iter: 1, reg: 1. },
    ];
    processes(cx, states.len(), &|k, cx| {
        for a in big {
            for b in big {
                states[k].apply();
                let mut s = states[k];
                a.real();
                a.model(&mut s);
                observe(cx, &s, false, &|| format!("{:?}, {a:?}", states[k]));
                b.real();
                b.model(&mut s);
                cx.state(2);
                cx.trans(2);
                observe(cx, &s, s.nc != 0, &|| format!("{:?}, {a:?}, {b:?}", states[k]));
            }
        }
    });
    // refused values: the process may stop, but must not go on with them
    let bad = [0., -0., -1e-300, -5e-324, -1., -1e300, f64::NEG_INFINITY, f64::NAN, -f64::NAN];
    for s in states {
        for x in bad {
            for op in [Op::Tol(x), Op::Reg(x)] {
                cx.state(1);
                cx.trans(1);
                cx.valid(1);
                let res = forked(|out| {
                    s.apply();
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op.real()));
                    let _ = write!(out, "{}", Gs::get().same(&s));
                });
                if matches!(res, Some(x) if x == b"false") {
                    cx.violation("refused value".into(), format!("{op:?} is accepted in the state {s:?}"));
                }
            }
        }
    }
}

// ------------------------------------------------------------------- C02

/// one evaluation: function, instantiation, arguments, settings
#[derive(Clone)]
pub struct Item {
    f: &'static F,
    v: &'static V,
    a: A,
    g: Gs,
}

const LOOSE: Gs = Gs { nc: 3, nf: 1, mq: 0.5, tol: 1e-3, iter: 5, reg: 1e-3 };

fn base_item(f: &'static F, v: &'static V, alt: bool) -> Item {
    let mut a = A::new();
    if !alt {
        a.v = [
            r(0.62),
            c(0.75, 0.2),
            c(1.16, 0.),
            c(0.656, 0.05),
            c(0.9, 0.1),
            c(0.5, -0.1),
            r(0.35),
            r(3.2),
            r(0.8),
            r(-0.876),
            r(0.15),
            r(0.3),
            c(1.37, 0.6),
            c(0.95, 0.2),
            c(0.4, -0.3),
            c(0.3, 0.4),
            c(0.86, 0.2),
            r(0.05),
        ];
    } else {
        a.v = [
            r(1.7),
            c(2.1, -0.4),
            c(0.6, 0.),
            c(1.1, -0.02),
            c(0.4, 0.2),
            c(1.5, 0.1),
            r(0.6),
            r(1.4),
            r(1.3),
            r(2.),
            r(-0.5),
            r(-1.5),
            c(0.2, -0.3),
            c(1.9, -0.3),
            c(-1.4, 0.8),
            c(-1.2, 0.5),
            c(0.3, -0.2),
            r(0.4),
        ];
        a.cfg = FieldConfig::new(2, 1.2, vec![(1, 0.4)]);
    }
    a.tol = 1e-3;
    a.iter = 5;
    realify(f, v.mask, &mut a);
    Item { f, v, a, g: LOOSE }
}

/// the base point and all its variations of one coordinate
fn variations(f: &'static F, v: &'static V) -> Vec<Item> {
    let b = base_item(f, v, false);
    let mut out = vec![b.clone()];
    let cp = f.complex_params(v.mask);
    let mut put = |g: &dyn Fn(&mut Item)| {
        let mut i = b.clone();
        g(&mut i);
        out.push(i);
    };
    for &p in f.params {
        put(&|i| i.a.v[p] *= 1. + 1e-9);
        put(&|i| i.a.v[p] *= 1. + 1e-13);
        put(&|i| i.a.v[p] *= 1.7);
        put(&|i| i.a.v[p] = -i.a.v[p]);
        if cp.contains(&p) {
            put(&|i| i.a.v[p] = i.a.v[p].conj() + c(0., 0.07));
            // both sides of the cut of a logarithm
            put(&|i| i.a.v[p] = c(-i.a.v[p].re.abs(), 0.));
            put(&|i| i.a.v[p] = c(-i.a.v[p].re.abs(), -0.));
        }
    }
    if f.integral {
        put(&|i| i.a.tol = 1e-6);
        put(&|i| i.a.iter = 1);
    }
    if f.cfg {
        put(&|i| i.a.cfg.nc = 5);
        put(&|i| i.a.cfg.gluon = 0.9);
        put(&|i| i.a.cfg.quarks[0].0 = 1);
        put(&|i| i.a.cfg.quarks[1].1 = 0.46);
        put(&|i| i.a.cfg.quarks.truncate(1));
        put(&|i| i.a.cfg.quarks.clear());
        put(&|i| i.a.cfg.quarks.push((1, 1.3)));
        put(&|i| i.a.cfg.quarks.swap(0, 1));
    }
    put(&|i| i.g.nc = 2);
    put(&|i| i.g.nf = 3);
    put(&|i| i.g.mq = 0.2);
    if f.is_integral() {
        put(&|i| i.g.tol = 1e-5);
        put(&|i| i.g.iter = 1);
        put(&|i| i.g.reg = 0.1);
    }
    // points with a small momentum, temperature and so on, far from the base
    out.push(base_item(f, v, true));
    out
}

fn value(i: &Item) -> (u64, u64) {
    match eval(i.v, &i.a) {
        Ok(x) => bits(x),
        Err(_) => (0xdead, 0xdead),
    }
}

/// the value in a process that has done nothing else
fn fresh(i: &Item) -> Option<(u64, u64)> {
    let x = forked(|out| {
        i.g.apply();
        let (a, b) = value(i);
        out.extend(a.to_le_bytes());
        out.extend(b.to_le_bytes());
    })?;
    if x.len() != 16 {
        return None;
    }
    Some((u64::from_le_bytes(x[..8].try_into().unwrap()), u64::from_le_bytes(x[8..].try_into().unwrap())))
}

fn itext(i: &Item) -> String {
    format!("{} with {:?}", i.f.desc(i.v, &i.a), i.g)
}

fn show(b: (u64, u64)) -> String {
    if b == (0xdead, 0xdead) {
        return "panic".into();
    }
    format!("{:e}{:+e}i", f64::from_bits(b.0), f64::from_bits(b.1))
}

/// Evaluate a list of items one after the other and compare each value with
/// the one in a fresh process.
fn history(cx: &Ctx, seq: &[usize], items: &[Item], want: &[(u64, u64)]) -> bool {
    let mut set: Option<Gs> = None;
    for (k, &i) in seq.iter().enumerate() {
        let it = &items[i];
        if set.map_or(true, |g| !g.same(&it.g)) {
            it.g.apply();
            set = Some(it.g);
        }
        let x = value(it);
        cx.trans(1);
        cx.valid(1);
        if x != want[i] {
            let h: Vec<String> = seq[k.saturating_sub(3)..k].iter().map(|j| itext(&items[*j])).collect();
            cx.violation(
                format!("history {}", it.f.full()),
                format!("{} = {} after [{}], but {} in a fresh process", itext(it), show(x), h.join("; "), show(want[i])),
            );
            return false;
        }
        if !Gs::get().same(&it.g) {
            cx.violation(format!("settings changed {}", it.f.full()), format!("{} changes the settings to {:?}", itext(it), Gs::get()));
            return false;
        }
    }
    true
}

pub fn c02(cx: &Ctx) {
    // (1) every function: all ordered pairs of a base point and its variations
    let fv: Vec<(&'static F, &'static V)> = FNS
        .iter()
        .flat_map(|f| {
            let n = f.vars.len();
            f.vars
                .iter()
                .enumerate()
                .filter(move |(k, _)| cx.thorough || *k == 0 || k + 1 == n)
                .map(move |(_, v)| (f, v))
        })
        .collect();
    processes(cx, fv.len(), &|k, cx| {
        let (f, v) = fv[k];
        let items = variations(f, v);
        let want: Vec<_> = items.iter().map(fresh).collect();
        cx.state(items.len() as u64);
        if want.iter().any(|x| x.is_none()) {
            cx.violation(format!("crash {}", f.full()), format!("{} crashes the process", f.full()));
            return;
        }
        let want: Vec<_> = want.into_iter().map(|x| x.unwrap()).collect();
        // in a child of its own, so that the fresh processes above stay fresh
        let n = items.len();
        // (the first half of the pairs shares one process with all that went before)
        for i in 0..n {
            for j in 0..n {
                if !history(cx, &[i, j, j], &items, &want) {
                    return;
                }
            }
        }
        // repeated calls, and calls from other threads
        for i in 0..n {
            if !history(cx, &[i; 12], &items, &want) {
                return;
            }
        }
        let (items2, want2) = (items.clone(), want.clone());
        std::thread::scope(|s| {
            s.spawn(|| {
                for i in 0..n {
                    if !history(cx, &[i, 0, i, (i + 1) % n], &items2, &want2) {
                        return;
                    }
                }
            })
            .join()
            .unwrap();
        });
        if k % 97 == 0 {
            cx.sample(format!("all ordered pairs of {n} variations of {}", itext(&items[0])));
        }
        // triples of a few of them
        let m = n.min(if cx.thorough { 9 } else { 5 });
        let st = n / m;
        for a in 0..m {
            for b in 0..m {
                for c in 0..m {
                    if !history(cx, &[a * st, b * st, c * st], &items, &want) {
                        return;
                    }
                }
            }
        }
    });
    // (2) all ordered pairs of different functions at one point each
    let mut items: Vec<Item> = FNS.iter().map(|f| base_item(f, f.vars.last().unwrap(), f.id % 2 == 1)).collect();
    let mut want: Vec<(u64, u64)> = items.iter().map(|i| fresh(i).unwrap_or((0xdead, 0xbeef))).collect();
    // and, after each of them, values below the range of normal numbers, which
    // tell the modes of the floating-point unit apart
    let sub = |b: u64| {
        let x = f64::from_bits(b);
        x != 0. && x.abs() < f64::MIN_POSITIVE
    };
    for f in FNS.iter().filter(|f| !f.is_integral() && !f.cfg) {
        if items.len() >= FNS.len() + 12 {
            break;
        }
        for t in [1e-155, 1e-310] {
            let mut i = base_item(f, f.var(0).unwrap(), false);
            for &p in f.params {
                i.a.v[p] = r(t);
            }
            if f.has(BETA) && f.has(EN) {
                i.a.v[EN] = r(709.2);
                i.a.v[BETA] = r(1.);
            }
            let Some(x) = fresh(&i) else { continue };
            if x.0 != 0xdead && (sub(x.0) || sub(x.1)) {
                items.push(i);
                want.push(x);
                break;
            }
        }
    }
    cx.note(format!("{} values below the normal numbers", items.len() - FNS.len()));
    cx.state(items.len() as u64);
    let n = items.len();
    let blocks = 16;
    processes(cx, blocks, &|b, cx| {
        for i in (b..n).step_by(blocks) {
            for j in 0..n {
                if !history(cx, &[i, j], &items, &want) {
                    return;
                }
            }
        }
    });
    // (3) the lattices of arguments under several settings, forwards and backwards
    let i0 = INIT;
    let sets = [
        i0,
        Gs { tol: 1e-4, iter: 15, ..i0 },
        Gs { tol: 1e-6, iter: 1, reg: 0.1, ..i0 },
        Gs { nc: 2, nf: 3, mq: 0.2, tol: 1e-3, iter: 49, reg: 1e-3 },
    ];
    processes(cx, fv.len(), &|k, cx| {
        let (f, v) = fv[k];
        let mut pts: Vec<A> = vec![];
        if f.is_integral() {
            pts.extend(crate::intr::ipoints_st(f, v.mask, 1, if cx.thorough { 3 } else { 24 }));
        } else {
            crate::pnum::strided(f, v.mask, 0, if cx.thorough { 5 } else { 60 }, &mut |a| pts.push(a.clone()));
        }
        for g in sets {
            g.apply();
            let mut vals = Vec::with_capacity(pts.len());
            for a in &pts {
                let i = Item { f, v, a: a.clone(), g };
                vals.push(value(&i));
                cx.trans(1);
                if !Gs::get().same(&g) {
                    cx.violation(format!("settings changed {}", f.full()), format!("{} changes the settings to {:?}", itext(&i), Gs::get()));
                    return;
                }
            }
            for (a, w) in pts.iter().zip(&vals).rev() {
                let i = Item { f, v, a: a.clone(), g };
                let x = value(&i);
                cx.trans(1);
                cx.valid(1);
                if x != *w {
                    cx.violation(
                        format!("history {}", f.full()),
                        format!("{} = {} in one pass over {} points and {} in a pass in reverse order", itext(&i), show(*w), pts.len(), show(x)),
                    );
                    return;
                }
            }
        }
        cx.state(pts.len() as u64 * 4);
    });
}

// ------------------------------------------------------------------- C04

/// values agree up to rounding and the accuracy of the integrals
fn close(f: &F, a: &A, x: (u64, u64), y: (u64, u64)) -> bool {
    if x == y {
        return true;
    }
    if x == (0xdead, 0xdead) || y == (0xdead, 0xdead) {
        return false;
    }
    let z = |b: (u64, u64)| c(f64::from_bits(b.0), f64::from_bits(b.1));
    let (x, y) = (z(x), z(y));
    let tol = if f.is_integral() { crate::pnum::hi_tol(f, a, x).tol() } else { 1e-10 * x.norm() };
    (x - y).norm() <= tol
}

pub fn c04(cx: &Ctx) {
    let fs: Vec<&'static F> = FNS.iter().filter(|f| f.cfg).collect();
    let cfgs = [
        FieldConfig::new(3, 0.656, vec![(2, 0.35), (1, 0.45)]),
        FieldConfig::new(2, 1.2, vec![(1, 0.5)]),
        FieldConfig::new(5, 0.9, vec![(1, 0.2), (2, 0.9), (3, 1.7)]),
        FieldConfig::new(4, 0.4, vec![]),
        // the ones which coincide with a global setting in some respect
        FieldConfig::new(3, 0.656, vec![(1, 0.35)]),
        FieldConfig::new(3, 1., vec![(2, 0.5)]),
        FieldConfig::new(1, 0.7, vec![(6, 4.)]),
        FieldConfig::new(8, 1.3, vec![(0, 0.5)]),
    ];
    let ncs = [3u32, 1, 2, 5, 8];
    let nfs = [1u32, 0, 2, 6];
    let mqs = [0.5, 0., 0.35, 4.];
    let mut states = vec![];
    for nc in ncs {
        for nf in nfs {
            for mq in mqs {
                states.push(Gs { nc, nf, mq, ..INIT });
            }
        }
    }
    cx.sample(format!("{} functions, {} configurations, {} settings", fs.len(), cfgs.len(), states.len()));
    // the three settings never matter: every state of them, every configuration
    let jobs: Vec<(&'static F, &'static V)> = fs.iter().flat_map(|f| f.vars.iter().map(move |v| (*f, v))).collect();
    processes(cx, jobs.len(), &|k, cx| {
        let (f, v) = jobs[k];
        for (ic, cfg) in cfgs.iter().enumerate() {
            for alt in [false, true] {
                if !cx.thorough && ic >= 4 && alt && f.is_integral() {
                    continue;
                }
                let mut it = base_item(f, v, alt);
                it.a.cfg = cfg.clone();
                it.a.tol = 1e-9;
                it.a.iter = 40;
                if intr::noise(f, &it.a) > 0.3 {
                    continue;
                }
                INIT.apply();
                let want = value(&it);
                let cheap = !f.is_integral();
                for (n, s) in states.iter().enumerate() {
                    if !cx.thorough && !cheap && (n + k + ic) % 3 != 0 {
                        continue;
                    }
                    s.apply();
                    it.g = *s;
                    cx.state(1);
                    let x = value(&it);
                    cx.trans(1);
                    cx.valid(1);
                    if !close(f, &it.a, x, want) {
                        cx.violation(
                            format!("global settings {}", f.full()),
                            format!("{} = {}, but {} with the initial settings", itext(&it), show(x), show(want)),
                        );
                    }
                    // and evaluating never changes them
                    if !Gs::get().same(s) {
                        cx.violation(format!("settings changed {}", f.full()), itext(&it));
                    }
                }
            }
        }
        // all regimes of the arguments, integrals with fixed nodes
        let mut n = k;
        lattice::wide(f, v.mask, if cx.thorough { 4000 } else { 500 }, &mut |a| {
            let mut a = a.clone();
            a.tol = 1e200;
            a.cfg = cfgs[n % cfgs.len()].clone();
            Gs { tol: 1e200, ..INIT }.apply();
            let want = eval(v, &a);
            for i in [7, 29, 53] {
                let s = Gs { tol: 1e200, ..states[(n * i + 1) % states.len()] };
                s.apply();
                cx.state(1);
                cx.same_lazy(
                    &format!("global settings {}", f.full()),
                    &|| format!("{} with the initial settings and with {s:?}", f.desc(v, &a)),
                    want.clone(),
                    eval(v, &a),
                    v.real,
                    |x| crate::pnum::crude_tol(f, &a, x),
                );
            }
            n += 1;
        });
        // settings changed between evaluations of different configurations
        let mut b = base_item(f, v, false);
        b.a.tol = 1e-4;
        INIT.apply();
        set_default_tol_integral(1e-4);
        let want: Vec<_> = cfgs
            .iter()
            .map(|c| {
                b.a.cfg = c.clone();
                value(&b)
            })
            .collect();
        let few = [0usize, 7, 22, 41, 63, 79];
        for s1 in few {
            for s2 in few {
                for (i, ci) in cfgs.iter().enumerate().take(5) {
                    for (j, cj) in cfgs.iter().enumerate().take(5) {
                        states[s1].apply();
                        set_default_tol_integral(1e-4);
                        b.a.cfg = ci.clone();
                        let x = value(&b);
                        states[s2].apply();
                        set_default_tol_integral(1e-4);
                        b.a.cfg = cj.clone();
                        let y = value(&b);
                        cx.state(2);
                        cx.trans(2);
                        cx.valid(2);
                        let near = |x: (u64, u64), y: (u64, u64)| {
                            let z = |b: (u64, u64)| c(f64::from_bits(b.0), f64::from_bits(b.1));
                            x == y || (z(x) - z(y)).norm() <= 1e-3 * (1. + z(x).norm())
                        };
                        for (got, w, who) in [(x, want[i], ci), (y, want[j], cj)] {
                            if !near(got, w) {
                                b.a.cfg = who.clone();
                                cx.violation(
                                    format!("global settings {}", f.full()),
                                    format!("{} after changes of the settings: {} instead of {}", f.desc(v, &b.a), show(got), show(w)),
                                );
                            }
                        }
                        if f.is_integral() && !cx.thorough && j > 0 {
                            break;
                        }
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------- C05

/// the fields of a configuration, as the specification sees them
struct Md {
    nc: u32,
    gluon: f64,
    quarks: Vec<(u32, f64)>,
}
type CfgOp = (&'static str, fn(&mut FieldConfig), fn(&mut Md));

pub fn c05(cx: &Ctx) {
    // the same assignment to the fields of the object and of the specification
    macro_rules! o {
        ($n:literal, $c:ident, $e:expr) => {
            ($n, |$c: &mut FieldConfig| $e, |$c: &mut Md| $e)
        };
    }
    fn same(_: &mut Md) {}
    fn from(c: &mut FieldConfig, n: usize) {
        let mut d = FieldConfig::new(9, 7., (0..n).map(|i| (5 + i as u32, 5. - i as f64)).collect());
        d.clone_from(c);
        *c = d;
    }
    let ops: Vec<CfgOp> = vec![
        o!("nc=2", c, c.nc = 2),
        o!("nc=3", c, c.nc = 3),
        o!("nc=6", c, c.nc = 6),
        o!("gluon=0.5", c, c.gluon = 0.5),
        o!("gluon=1.3", c, c.gluon = 1.3),
        o!("push(1,0.4)", c, c.quarks.push((1, 0.4))),
        o!("push(2,1.1)", c, c.quarks.push((2, 1.1))),
        o!("pop", c, {
            c.quarks.pop();
        }),
        o!("clear", c, c.quarks.clear()),
        o!("reverse", c, c.quarks.reverse()),
        o!("quarks[0].0=3", c, {
            if let Some(q) = c.quarks.first_mut() {
                q.0 = 3
            }
        }),
        o!("quarks[0].1=0.7", c, {
            if let Some(q) = c.quarks.first_mut() {
                q.1 = 0.7
            }
        }),
        o!("last.1=0.05", c, {
            if let Some(q) = c.quarks.last_mut() {
                q.1 = 0.05
            }
        }),
        o!("quarks=vec", c, c.quarks = vec![(1, 0.2), (1, 0.9)]),
        ("clone", |c| *c = c.clone(), same),
        ("clone_from 0", |c| from(c, 0), same),
        ("clone_from 1", |c| from(c, 1), same),
        ("clone_from 4", |c| from(c, 4), same),
        (
            "swap",
            |c| {
                let mut d = FieldConfig::new(9, 7., vec![(5, 5.)]);
                std::mem::swap(&mut d, c);
                std::mem::swap(&mut d.quarks, &mut c.quarks);
                std::mem::swap(&mut d.quarks, &mut c.quarks);
                *c = d;
            },
            same,
        ),
        ("eval", |_| {}, same),
    ];
    let key = |c: &FieldConfig| format!("{} {:x} {:?}", c.nc, c.gluon.to_bits(), c.quarks.iter().map(|q| (q.0, q.1.to_bits())).collect::<Vec<_>>());
    let all: Vec<(&'static F, &'static V)> = FNS.iter().filter(|f| f.cfg).flat_map(|f| f.vars.iter().map(move |v| (f, v))).collect();
    let starts = [
        FieldConfig::new(3, 0.656, vec![(2, 0.35), (1, 0.45)]),
        FieldConfig::new(2, 1.2, vec![]),
        FieldConfig::new(5, 0.8, vec![(1, 0.6)]),
    ];
    // functions evaluated along the sequences: the cheap ones always; every
    // function at the end of the short sequences
    let depth = if cx.thorough { 5 } else { 4 };
    let jobs: Vec<(usize, usize)> = (0..starts.len()).flat_map(|s| (0..ops.len()).map(move |o| (s, o))).collect();
    processes(cx, jobs.len(), &|k, cx| {
        let (st, first) = jobs[k];
        INIT.apply();
        set_default_tol_integral(1e-4);
        set_default_max_iter_integral(6);
        let mut cache: std::collections::HashMap<(usize, String), (u64, u64)> = Default::default();
        let mut check = |cx: &Ctx, c: &FieldConfig, sel: &dyn Fn(usize, &F) -> bool, hist: &dyn Fn() -> String| {
            let kk = key(c);
            for (n, (f, v)) in all.iter().enumerate() {
                if !sel(n, f) {
                    continue;
                }
                let mut it = base_item(f, v, n % 2 == 1);
                it.a.tol = 1e-4;
                let want = *cache.entry((n, kk.clone())).or_insert_with(|| {
                    it.a.cfg = FieldConfig::new(c.nc, c.gluon, c.quarks.clone());
                    value(&it)
                });
                // the object itself, not a copy of it
                it.a.cfg = FieldConfig::new(1, 1., vec![]);
                let mut own = c.clone();
                let x = {
                    // move the very object in, evaluate, and take it out again
                    let a: *const FieldConfig = c;
                    let _ = a;
                    std::mem::swap(&mut it.a.cfg, &mut own);
                    value(&it)
                };
                cx.trans(1);
                cx.valid(1);
                let near = {
                    let z = |b: (u64, u64)| crate::base::c(f64::from_bits(b.0), f64::from_bits(b.1));
                    x == want || (z(x) - z(want)).norm() <= 1e-9 * z(want).norm() + if f.is_integral() { 1e-3 * z(want).norm() } else { 0. }
                };
                if !near {
                    cx.violation(
                        format!("fields {}", f.full()),
                        format!("{} after {}: {} instead of {}", f.desc(v, &it.a), hist(), show(x), show(want)),
                    );
                }
                if key(&it.a.cfg) != kk {
                    cx.violation(format!("configuration modified {}", f.full()), format!("{} after {}", f.desc(v, &it.a), hist()));
                }
            }
        };
        let _ = &mut check;
        let mut seq = vec![first];
        let mut count = 0usize;
        loop {
            let hist = || format!("{:?} {:?}", starts[st], seq.iter().map(|i| ops[*i].0).collect::<Vec<_>>());
            // replay, with an evaluation before the first change (so that caches are filled)
            let mut it = base_item(all[0].0, all[0].1, false);
            it.a.cfg = starts[st].clone();
            value(&it);
            let mut model = Md { nc: starts[st].nc, gluon: starts[st].gluon, quarks: starts[st].quarks.clone() };
            let mut keep: Vec<FieldConfig> = vec![];
            for i in &seq {
                if ops[*i].0 == "eval" {
                    value(&it);
                } else if ops[*i].0 == "clone" {
                    // the clone goes on, the original is kept
                    let d = it.a.cfg.clone();
                    keep.push(std::mem::replace(&mut it.a.cfg, d));
                } else {
                    (ops[*i].1)(&mut it.a.cfg);
                    (ops[*i].2)(&mut model);
                }
                cx.trans(1);
            }
            cx.state(1);
            count += 1;
            let cfg = it.a.cfg;
            let good = key(&cfg) == key(&FieldConfig::new(model.nc, model.gluon, model.quarks.clone()));
            if !good {
                cx.violation("visible fields".into(), format!("{cfg:?} after {}", hist()));
            }
            // evaluate the object that went through the sequence
            let direct = |f: &'static F, v: &'static V, n: usize, c: &FieldConfig| {
                let mut i = base_item(f, v, n % 2 == 1);
                i.a.tol = 1e-4;
                i.a.cfg = c.clone();
                value(&i)
            };
            let _ = direct;
            let short = seq.len() <= 2;
            let pick = (count * 7) % all.len();
            check(cx, &cfg, &|n, f| if short { true } else { n == pick && !f.is_integral() || n == 0 }, &hist);
            eval_in_place(cx, &cfg, &all, pick, &hist);
            for c in &keep {
                check(cx, c, &|n, _| n == 0, &hist);
            }
            if seq.len() < depth {
                seq.push(0);
            } else {
                while let Some(l) = seq.pop() {
                    if l + 1 < ops.len() && !seq.is_empty() {
                        seq.push(l + 1);
                        break;
                    }
                }
            }
            if seq.len() <= 1 || cx.nv() > 20 {
                break;
            }
        }
    });
    cx.sample(format!("sequences up to length {depth} of {:?}", ops.iter().map(|o| o.0).collect::<Vec<_>>()));
}

/// evaluate with a reference to the very object
fn eval_in_place(cx: &Ctx, cfg: &FieldConfig, all: &[(&'static F, &'static V)], pick: usize, hist: &dyn Fn() -> String) {
    use qcd_sme::qcd::gluon as g;
    let fresh = FieldConfig::new(cfg.nc, cfg.gluon, cfg.quarks.clone());
    let before = format!("{cfg:?}");
    let vals = |c: &FieldConfig| {
        [
            g::dressing_inv_landau_w_field_config(1.37, -0.876, c),
            g::dressing_inv_w_field_config(0.4, -0.876, 0.3, c),
            g::propagator_landau_w_field_config(7.1, 0.2, c),
        ]
    };
    let (x, y) = (vals(cfg), vals(&fresh));
    cx.trans(3);
    cx.valid(3);
    for k in 0..3 {
        if !((x[k] - y[k]).abs() <= 1e-10 * y[k].abs()) && x[k].to_bits() != y[k].to_bits() {
            cx.violation("fields in place".into(), format!("{cfg:?} after {}: {:e} instead of {:e}", hist(), x[k], y[k]));
        }
    }
    if format!("{cfg:?}") != before {
        cx.violation("configuration modified".into(), format!("{cfg:?} after {}", hist()));
    }
    let _ = (all, pick);
}

// ------------------------------------------------------------------- C06

/// the function with an explicit method which `f` uses by default
fn explicit(f: &F) -> Option<&'static F> {
    if f.integral || !f.is_integral() {
        return None;
    }
    for s in ["_w_method", "_with_method"] {
        let n = format!("{}{s}", f.name);
        if let Some(g) = FNS.iter().find(|g| g.path == f.path && g.name == n) {
            return Some(g);
        }
    }
    None
}

pub fn c06(cx: &Ctx) {
    let tols: &[f64] = if cx.thorough { &[1e-10, 10., 0.3, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 3e-10, 2e-11] } else { &[1e-10, 0.3, 1e-3, 1e-6, 1e-8] };
    let iters: &[u32] = if cx.thorough { &[50, 0, 1, 2, 4, 9, 20, 49, 51, 100] } else { &[50, 1, 4, 51] };
    let mut states = vec![];
    for &tol in tols {
        for &iter in iters {
            for nf in [1, 2] {
                states.push(Gs { tol, iter, nf, nc: 3 + (nf == 2) as u32, ..INIT });
            }
        }
    }
    // the method itself
    for k in -14..=6 {
        for t in [1., 2.5, 5., 9.999] {
            for iter in (0..=130).chain([1000, u32::MAX]) {
                let s = Gs { tol: t * 10f64.powi(k), iter, ..INIT };
                s.apply();
                cx.state(1);
                cx.trans(1);
                cx.valid(1);
                let x = get_default_integration_method();
                if !matches!(x, qcd_sme::Integral::G7K15(a, b) if a == s.tol && b == s.iter) {
                    cx.violation("default method".into(), format!("get_default_integration_method() with {s:?}: {x:?}"));
                }
            }
        }
    }
    INIT.apply();
    let replaced = |f: &F| f.path == "low_level::oneloop::thermal::gluon::zero_matsubara";
    let pairs: Vec<(&'static F, &'static F)> = FNS.iter().filter_map(|f| explicit(f).map(|g| (f, g))).collect();
    cx.note(format!("{} functions with an explicit counterpart", pairs.len()));
    // every thermal function with a default method has a counterpart or is made of such functions
    let points = |f: &'static F, v: &'static V| {
        let mut pts: Vec<A> = intr::ibases(1)
            .into_iter()
            .map(|mut a| {
                realify(f, v.mask, &mut a);
                a.v[P].im = 0.;
                a
            })
            .collect();
        for (k, p) in f.params.iter().enumerate() {
            let vals = intr::ivals(*p, 0);
            let mut a = pts[k % 2].clone();
            a.set(*p, vals[k % vals.len()]);
            pts.push(a);
        }
        // cold and dense: sharp Fermi surfaces, large values
        for k in 0..2 {
            let mut a = pts[k].clone();
            a.set(BETA, 3e3).set(MU, 1. + 6. * k as f64).set(MQ, 0.1);
            if f.path.ends_with("quark") {
                a.set(M, 0.1);
            }
            pts.push(a);
        }
        pts.retain(|a| intr::noise(f, a) < 0.3);
        pts
    };
    processes(cx, pairs.len(), &|k, cx| {
        let (f, g) = pairs[k];
        for v in f.vars {
            let Some(w) = g.vars.iter().find(|w| w.mask == v.mask) else {
                cx.violation(format!("explicit {}", f.full()), format!("{} has no counterpart for mask {}", f.full(), v.mask));
                continue;
            };
            for a in points(f, v) {
                for s in &states {
                    for reg in if f.path.contains("zero_matsubara") { vec![1e-5, 0.02, 0.3] } else { vec![1e-5, 0.3] } {
                        if s.nf == 2 && reg == 0.02 {
                            continue;
                        }
                        if !cx.thorough && (s.tol == 1e-10 || s.tol == 1e-8) && s.nf == 2 && reg == 0.3 {
                            continue;
                        }
                        let s = Gs { reg, ..*s };
                        s.apply();
                        cx.state(1);
                        cx.trans(2);
                        cx.valid(1);
                        let mut b = a.clone();
                        b.tol = s.tol;
                        b.iter = s.iter;
                        if replaced(f) && s.tol == INIT.tol && s.iter == INIT.iter {
                            b.tol = 1e-8;
                        }
                        let (x, y) = (eval(v, &a), eval(w, &b));
                        let ok = match (&x, &y) {
                            (Ok(x), Ok(y)) => (x - y).norm() <= 1e-12 * y.norm() || bits(*x) == bits(*y),
                            (Err(_), Err(_)) => true,
                            _ => false,
                        };
                        if !ok {
                            cx.violation(
                                format!("default method {}", f.full()),
                                format!("{} with {s:?}: {x:?}, but {} gives {y:?}", f.desc(v, &a), g.desc(w, &b)),
                            );
                        }
                    }
                }
            }
        }
        if k % 11 == 0 {
            cx.sample(format!("{} -> {} in {} states", f.full(), g.full(), states.len()));
        }
    });
    // the high-level functions are made of the low-level ones with the same method
    let high: Vec<&'static F> = FNS.iter().filter(|f| intr::hi(f).is_some_and(|h| h.what == 0)).collect();
    processes(cx, high.len(), &|k, cx| {
        let f = high[k];
        for v in f.vars {
            for a in points(f, v) {
                for s in &states {
                    for reg in [1e-5, 0.1] {
                        if !cx.thorough && (s.tol == 1e-8 || reg == 0.1 && s.tol == 1e-10) {
                            continue;
                        }
                        let s = Gs { reg, ..*s };
                        s.apply();
                        cx.state(1);
                        let x = eval(v, &a);
                        // the integrands scale with the number of colors, and so does the adaptive
                        // refinement: the parts are integrated with that of the configuration
                        if f.cfg {
                            Gs { nc: a.cfg.nc, ..s }.apply();
                        }
                        let g = refm::globals();
                        let mut failed = false;
                        let mut part = |fp: &F, b: &A| {
                            let fw = func(fp.path, &format!("{}_w_method", fp.name));
                            let w = fw
                                .vars
                                .iter()
                                .filter(|w| fw.params.iter().all(|p| b.v[*p].im == 0. || fw.complex_params(w.mask).contains(p)))
                                .min_by_key(|w| w.mask.count_ones())
                                .unwrap();
                            // the same instantiation as the caller's, where it matters to the splitting
                            let w = fw.var(v.mask).unwrap_or(w);
                            let mut b = b.clone();
                            b.tol = s.tol;
                            b.iter = s.iter;
                            if replaced(fw) && s.tol == INIT.tol && s.iter == INIT.iter {
                                b.tol = 1e-8;
                            }
                            cx.trans(1);
                            match eval(w, &b) {
                                Ok(x) => E::new(x),
                                Err(_) => {
                                    failed = true;
                                    E::new(r(0.))
                                }
                            }
                        };
                        let want = intr::dressing_ref(f, &a, g, &mut part).unwrap();
                        cx.trans(1);
                        cx.valid(1);
                        let ok = match x {
                            Ok(x) => (x - want.v).norm() <= 1e-8 * (1. + want.v.norm()) || !finite(want.v),
                            Err(_) => failed,
                        };
                        if !ok {
                            cx.violation(
                                format!("default method {}", f.full()),
                                format!("{} with {s:?}: {x:?}, but the low-level functions with the set method give {}", f.desc(v, &a), want.v),
                            );
                        }
                    }
                }
            }
        }
    });
    // all regimes, with few subdivisions
    let few = [(1e200, 50), (1e-6, 1), (1e-10, 2), (1e-3, 3)];
    let cap = if cx.thorough { 8000 } else { 700 };
    processes(cx, pairs.len() + high.len(), &|k, cx| {
        let (f, g) = if k < pairs.len() { (pairs[k].0, Some(pairs[k].1)) } else { (high[k - pairs.len()], None) };
        for v in f.vars {
            let mut n = 0;
            lattice::wide(f, v.mask, cap, &mut |a| {
                n += 1;
                // (searches stay in the domain of moderate quadrature)
                if f.name.contains("chemical_potential") {
                    return;
                }
                let (tol, iter) = few[n % 4];
                let s = Gs { reg: [1e-5, 0.3][n / 4 % 2], tol, iter, ..INIT };
                s.apply();
                cx.state(1);
                let x = eval(v, a);
                let mut want = E::real(0.);
                let mut failed = false;
                if let Some(g) = g {
                    let mut b = a.clone();
                    b.tol = tol;
                    b.iter = iter;
                    let Some(w) = g.var(v.mask) else { return };
                    cx.trans(1);
                    match eval(w, &b) {
                        Ok(y) => want = E::new(y),
                        Err(_) => failed = true,
                    }
                } else {
                    let gl = refm::globals();
                    if f.cfg {
                        Gs { nc: a.cfg.nc, ..s }.apply();
                    }
                    let mut part = |fp: &F, b: &A| {
                        let fw = func(fp.path, &format!("{}_w_method", fp.name));
                        let w = fw
                            .vars
                            .iter()
                            .filter(|w| fw.params.iter().all(|p| b.v[*p].im == 0. || fw.complex_params(w.mask).contains(p)))
                            .min_by_key(|w| w.mask.count_ones())
                            .unwrap();
                        let w = fw.var(v.mask).unwrap_or(w);
                        let mut b = b.clone();
                        b.tol = tol;
                        b.iter = iter;
                        cx.trans(1);
                        match eval(w, &b) {
                            Ok(x) => E::new(x),
                            Err(_) => {
                                failed = true;
                                E::real(0.)
                            }
                        }
                    };
                    want = intr::dressing_ref(f, a, if f.cfg { refm::globals() } else { gl }, &mut part).unwrap();
                    s.apply();
                }
                cx.trans(1);
                cx.valid(1);
                let ok = match &x {
                    Ok(x) => {
                        !finite(want.v) || (x - want.v).norm() <= 1e-9 * want.v.norm() || g.is_none() && (x - want.v).norm() <= crate::pnum::crude_tol(f, a, *x).tol()
                    }
                    Err(_) => failed,
                };
                if !ok {
                    cx.violation(
                        format!("default method {}", f.full()),
                        format!("{} with {s:?}: {x:?}, but with the set method {}", f.desc(v, a), want.v),
                    );
                }
            });
        }
    });
    // the regulator: zero-Matsubara functions are the real part of the general integrals at it
    let zm: Vec<&'static F> = FNS
        .iter()
        .filter(|f| f.path.contains("zero_matsubara") && intr::integrand(f).is_some() && !f.integral)
        .collect();
    processes(cx, zm.len(), &|k, cx| {
        let f = zm[k];
        let v = f.var(0).unwrap();
        // (the integration misses part of very sharp Fermi surfaces)
        for a in points(f, v).into_iter().filter(|a| a.re(BETA) < 1e3) {
            for reg in [1e-5, 1e-3, 0.02, 0.3, 1.7] {
                let s = Gs { reg, tol: 1e-9, ..INIT };
                s.apply();
                let q = intr::integral_ref(f, &a, refm::globals(), reg, true).unwrap();
                cx.state(1);
                cx.check("regulator", f, v, &a, eval(v, &a), intr::from_qi(&q, 3e-7));
            }
        }
        // the same with fixed nodes
        let gf = func(&f.path.replace("::zero_matsubara", ""), f.name);
        let gv = gf.all_complex();
        let mut n = 0;
        lattice::wide(f, 0, cap, &mut |a| {
            let reg = [0.02, 1e-7, 0.3, 1e-3, 1.7, 1e-10, 1e-5, 0.1][n % 8];
            n += 1;
            let mut run = |a: &A, reg: f64| {
                Gs { reg, tol: 1e200, ..INIT }.apply();
                cx.state(1);
                let b = a.clone().with(OM, r(reg));
                cx.same_lazy(
                    &format!("regulator {}", f.full()),
                    &|| format!("{} with regulator {reg} and {}", f.desc(v, a), gf.desc(gv, &b)),
                    eval(v, a),
                    eval(gv, &b),
                    true,
                    |x| crate::pnum::crude_tol(f, a, x),
                );
            };
            run(a, reg);
            // (the node in the middle, q = 1, at the singularity q = p/2: where even the
            // smallest regulators matter)
            if n % 5 == 0 && f.has(P) {
                let a = a.clone().with(P, r(2.));
                for reg in [1e-14, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3] {
                    run(&a, reg);
                }
            }
        });
    });
}

//! Common types of the explorer: the function registry, argument points,
//! evidence counters, violations and replay files.
pub use num::complex::Complex64;
pub type C = Complex64;
pub type R = f64;
pub use qcd_sme::qcd::FieldConfig;
/// the configuration of an argument point; threads can share it
#[cfg(not(feature = "share"))]
pub type Cfg = FieldConfig;
#[cfg(feature = "share")]
pub type Cfg = std::sync::Arc<FieldConfig>;
use qcd_sme::Integral;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering, Ordering::Relaxed};
use std::sync::Mutex;

pub const NP: usize = 18;
pub const PN: [&str; NP] = [
    "q", "om", "p", "m", "m1", "m2", "mq", "beta", "mu", "f0", "g0", "xi", "s", "en", "delta",
    "ln_s", "ln_s_pl_1", "n",
];
pub const Q: usize = 0;
pub const OM: usize = 1;
pub const P: usize = 2;
pub const M: usize = 3;
pub const M1: usize = 4;
pub const M2: usize = 5;
pub const MQ: usize = 6;
pub const BETA: usize = 7;
pub const MU: usize = 8;
pub const F0: usize = 9;
pub const G0: usize = 10;
pub const XI: usize = 11;
pub const S: usize = 12;
pub const EN: usize = 13;
pub const DELTA: usize = 14;
pub const LNS: usize = 15;
pub const LNS1: usize = 16;
pub const N: usize = 17;

/// An argument point. Functions pick the parameters they have.
#[derive(Clone, Debug)]
pub struct A {
    pub v: [C; NP],
    pub tol: f64,
    pub iter: u32,
    pub cfg: Cfg,
}

impl A {
    pub fn new() -> A {
        A {
            v: [C::new(0., 0.); NP],
            tol: 1e-10,
            iter: 50,
            cfg: FieldConfig::new(3, 0.656, vec![(2, 0.35), (1, 0.45)]).into(),
        }
    }
    pub fn integral(&self) -> Integral {
        Integral::G7K15(self.tol, self.iter)
    }
    pub fn with(mut self, i: usize, x: C) -> A {
        self.v[i] = x;
        self
    }
    pub fn set(&mut self, i: usize, x: R) -> &mut A {
        self.v[i] = C::new(x, 0.);
        self
    }
    pub fn re(&self, i: usize) -> R {
        self.v[i].re
    }
}

pub fn r(x: f64) -> C {
    C::new(x, 0.)
}
pub fn c(x: f64, y: f64) -> C {
    C::new(x, y)
}

/// A registered function.
pub struct F {
    pub id: u16,
    pub path: &'static str,
    pub name: &'static str,
    pub params: &'static [usize],
    pub integral: bool,
    pub cfg: bool,
    pub gens: &'static [&'static [usize]],
    pub vars: &'static [V],
}

/// A real/complex instantiation of a function: bit i of `mask` set means that
/// the i-th type parameter is complex.
pub struct V {
    pub mask: u8,
    pub real: bool,
    pub call: fn(&A) -> C,
}

/// An exported C function.
pub struct X {
    pub sym: &'static str,
    pub f: usize,
    pub mask: u8,
    pub real: bool,
    pub call: fn(&A) -> C,
}

impl F {
    pub fn full(&self) -> String {
        format!("{}::{}", self.path, self.name)
    }
    pub fn has(&self, p: usize) -> bool {
        self.params.contains(&p)
    }
    pub fn var(&self, mask: u8) -> Option<&'static V> {
        self.vars.iter().find(|v| v.mask == mask)
    }
    /// parameters that the instantiation takes as complex numbers
    pub fn complex_params(&self, mask: u8) -> Vec<usize> {
        let mut o = vec![];
        for (i, g) in self.gens.iter().enumerate() {
            if mask >> i & 1 == 1 {
                o.extend_from_slice(g);
            }
        }
        o
    }
    /// the instantiation with as many complex parameters as possible
    pub fn all_complex(&self) -> &'static V {
        self.vars.iter().max_by_key(|v| v.mask.count_ones()).unwrap()
    }
    /// does the function compute an integral over the loop momentum?
    pub fn is_integral(&self) -> bool {
        (self.path.contains("thermal") && !self.path.starts_with("common") && !self.has(Q))
            && self.name != "charge_density_zero_temp"
            && self.name != "chemical_potential_zero_temp"
    }
    pub fn desc(&self, v: &V, a: &A) -> String {
        let mut s = format!("{}::{}[mask {}](", self.path, self.name, v.mask);
        let cp = self.complex_params(v.mask);
        for &p in self.params {
            if cp.contains(&p) {
                let _ = write!(s, "{}={:e}{:+e}i ", PN[p], a.v[p].re, a.v[p].im);
            } else {
                let _ = write!(s, "{}={:e} ", PN[p], a.v[p].re);
            }
        }
        if self.integral {
            let _ = write!(s, "G7K15({:e},{}) ", a.tol, a.iter);
        }
        if self.cfg {
            let _ = write!(
                s,
                "config(nc={} m={} quarks={:?}) ",
                a.cfg.nc, a.cfg.gluon, a.cfg.quarks
            );
        }
        s.trim_end().to_string() + ")"
    }
}

pub fn fns(path: &str) -> impl Iterator<Item = &'static F> + '_ {
    crate::registry::FNS.iter().filter(move |f| f.path == path)
}
pub fn func(path: &str, name: &str) -> &'static F {
    crate::registry::FNS
        .iter()
        .find(|f| f.path == path && f.name == name)
        .unwrap_or_else(|| panic!("no function {path}::{name}"))
}

/// What a thread is evaluating, for the watchdog: (variant, arguments, since when)
pub struct Slot(AtomicPtr<V>, AtomicPtr<A>, AtomicU64);
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot(AtomicPtr::new(std::ptr::null_mut()), AtomicPtr::new(std::ptr::null_mut()), AtomicU64::new(0));
static SLOTS: [Slot; 256] = [EMPTY; 256];
static TICK: AtomicU64 = AtomicU64::new(1);
static NEXT: AtomicU64 = AtomicU64::new(0);
pub static LONGEST: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static MINE: u64 = NEXT.fetch_add(1, Ordering::Relaxed);
}

/// Watch the evaluations of all threads: `stuck` is called with a description
/// of one which has not returned after `limit` seconds.
pub fn watchdog(limit: u64, stuck: impl Fn(String) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = TICK.fetch_add(1, Ordering::Relaxed) + 1;
        for s in &SLOTS {
            let since = s.2.load(Ordering::Acquire);
            if since == 0 {
                continue;
            }
            LONGEST.fetch_max(now.saturating_sub(since), Ordering::Relaxed);
            if now > since + limit {
                let (v, a) = (s.0.load(Ordering::Relaxed), s.1.load(Ordering::Relaxed));
                if v.is_null() || a.is_null() || s.2.load(Ordering::Acquire) != since {
                    continue;
                }
                // the evaluation is still going on, so both are alive
                let (v, a) = unsafe { (&*v, &*a) };
                let f = crate::registry::FNS.iter().find(|f| f.vars.iter().any(|w| std::ptr::eq(w, v)));
                stuck(f.map_or("an evaluation".into(), |f| f.desc(v, a)));
            }
        }
    });
}

/// Evaluate; a panic is turned into a distinguished NaN by the caller.
pub fn eval(v: &V, a: &A) -> Result<C, String> {
    let call = v.call;
    // (under the controlled scheduler every memory access counts, and it watches by itself)
    #[cfg(feature = "bare")]
    return eval_raw(v, a, call);
    #[cfg(not(feature = "bare"))]
    eval_watched(v, a, call)
}
#[cfg(not(feature = "bare"))]
fn eval_watched(v: &V, a: &A, call: fn(&A) -> C) -> Result<C, String> {
    let slot = &SLOTS[(MINE.with(|m| *m) % 256) as usize];
    slot.0.store(v as *const V as *mut V, Ordering::Relaxed);
    slot.1.store(a as *const A as *mut A, Ordering::Relaxed);
    slot.2.store(TICK.load(Ordering::Relaxed), Ordering::Release);
    let x = eval_raw(v, a, call);
    slot.2.store(0, Ordering::Release);
    x
}
fn eval_raw(_v: &V, a: &A, call: fn(&A) -> C) -> Result<C, String> {
    #[cfg(feature = "hits")]
    crate::hits::note(_v, a);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(a))) {
        Ok(x) => Ok(x),
        Err(e) => Err(e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())),
    }
}

pub fn bits(x: C) -> (u64, u64) {
    let f = |y: f64| if y.is_nan() { 0x7ff8_0000_0000_0000 } else { y.to_bits() };
    (f(x.re), f(x.im))
}

pub fn finite(x: C) -> bool {
    x.re.is_finite() && x.im.is_finite()
}

// ---------------------------------------------------------------- evidence

pub struct Ctx {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    pub skipped: AtomicU64,
    pub viol: Mutex<Vec<(String, String)>>,
    pub nviol: AtomicU64,
    pub known_hit: Mutex<BTreeMap<String, u64>>,
    pub known: Vec<(String, String)>, // key, text
    pub samples: Mutex<Vec<String>>,
    pub notes: Mutex<Vec<String>>,
    pub maxratio: Mutex<BTreeMap<String, (f64, String)>>,
    pub calibrate: bool,
    pub start: std::time::Instant,
}

impl Ctx {
    /// an empty context for a child process
    pub fn sub(c: &Ctx) -> Ctx {
        Ctx {
            property: c.property.clone(),
            thorough: c.thorough,
            seed: c.seed,
            states: 0.into(),
            transitions: 0.into(),
            validated: 0.into(),
            skipped: 0.into(),
            viol: Default::default(),
            nviol: 0.into(),
            known_hit: Default::default(),
            known: c.known.clone(),
            samples: Default::default(),
            notes: Default::default(),
            maxratio: Default::default(),
            calibrate: false,
            start: c.start,
        }
    }
    pub fn state(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn valid(&self, n: u64) {
        self.validated.fetch_add(n, Relaxed);
    }
    pub fn skip(&self, n: u64) {
        self.skipped.fetch_add(n, Relaxed);
    }
    /// Report a violation: `key` identifies the failing case (known findings are
    /// matched on it), `text` describes it completely.
    pub fn violation(&self, key: String, text: String) {
        for (k, _) in &self.known {
            if key == *k || (k.ends_with('*') && key.starts_with(&k[..k.len() - 1])) {
                *self.known_hit.lock().unwrap().entry(k.clone()).or_insert(0) += 1;
                return;
            }
        }
        self.nviol.fetch_add(1, Relaxed);
        let mut v = self.viol.lock().unwrap();
        if v.len() < 200 {
            v.push((key, text));
        }
    }
    pub fn nv(&self) -> u64 {
        self.nviol.load(Relaxed)
    }
    pub fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s);
        }
    }
    pub fn note(&self, s: String) {
        self.notes.lock().unwrap().push(s);
    }
    pub fn ratio(&self, k: &str, x: f64, at: impl Fn() -> String) {
        if !self.calibrate {
            return;
        }
        let mut m = self.maxratio.lock().unwrap();
        let e = m.entry(k.to_string()).or_insert((0., String::new()));
        if x > e.0 {
            *e = (x, at());
        }
    }
    /// Compare two values of the library with one another; `want` carries the
    /// combined error bound (and the size to be expected).
    #[allow(clippy::too_many_arguments)]
    pub fn same(
        &self,
        key: &str,
        text: &dyn Fn() -> String,
        x: Result<C, String>,
        y: Result<C, String>,
        real: bool,
        want: crate::num_e::E,
    ) {
        use crate::num_e::{CUT, SLACK};
        self.trans(2);
        let (x, y) = match (x, y) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), _) | (_, Err(e)) => {
                self.violation(key.to_string(), format!("{}: panicked: {e}", text()));
                return;
            }
        };
        if want.f & CUT != 0 || !finite(want.v) || !want.e.is_finite() || (!finite(x) && !finite(y)) {
            self.skip(1);
            return;
        }
        let tol = want.tol();
        if real && want.v.im.abs() > tol {
            self.skip(1);
            return;
        }
        let d = if real { (x.re - y.re).abs() } else { (x - y).norm() };
        let hopeless = tol > 0.05 * want.v.norm() && want.v.norm() > 1e-290 && want.e > 0.;
        let lim = if hopeless { 100. * tol } else { tol };
        if hopeless && (!finite(x) || !finite(y)) {
            self.skip(1);
            return;
        }
        self.valid(1);
        if self.calibrate {
            self.ratio(key, d * SLACK / lim, text);
        }
        if !(d <= lim) {
            self.violation(
                key.to_string(),
                format!("{}: {:e}{:+e}i versus {:e}{:+e}i, should agree within {:e}", text(), x.re, x.im, y.re, y.im, lim),
            );
        }
    }
    /// the same where the tolerance is expensive, and seldom needed
    pub fn same_lazy(
        &self,
        key: &str,
        text: &dyn Fn() -> String,
        x: Result<C, String>,
        y: Result<C, String>,
        real: bool,
        want: impl FnOnce(C) -> crate::num_e::E,
    ) {
        if let (Ok(x), Ok(y)) = (&x, &y) {
            let d = if real { (x.re - y.re).abs() } else { (x - y).norm() };
            if d <= 1e-12 * x.norm() {
                self.trans(2);
                self.valid(1);
                return;
            }
        }
        let w = want(x.clone().unwrap_or(C::new(f64::NAN, 0.)));
        self.same(key, text, x, y, real, w)
    }
    /// Compare a value with a reference carrying an error bound.
    /// Returns true if it was decided (not skipped).
    pub fn check(
        &self,
        what: &str,
        f: &F,
        v: &V,
        a: &A,
        got: Result<C, String>,
        want: crate::num_e::E,
    ) -> bool {
        self.trans(1);
        let got = match got {
            Ok(x) => x,
            Err(e) => {
                self.violation(
                    format!("{what} {}", f.full()),
                    format!("{what}: {} panicked: {e}", f.desc(v, a)),
                );
                return true;
            }
        };
        match want.judge(got, v) {
            crate::num_e::J::Ok(x) => {
                self.valid(1);
                if self.calibrate {
                    self.ratio(&f.full(), x, || f.desc(v, a));
                }
                true
            }
            crate::num_e::J::Skip => {
                self.skip(1);
                false
            }
            crate::num_e::J::Bad(x) => {
                self.valid(1);
                if self.calibrate {
                    self.ratio(&f.full(), x, || f.desc(v, a));
                }
                self.violation(
                    format!("{what} {} mask {}", f.full(), v.mask),
                    format!(
                        "{what}: {} = {:e}{:+e}i, expected {:e}{:+e}i within {:e}",
                        f.desc(v, a),
                        got.re,
                        got.im,
                        want.v.re,
                        want.v.im,
                        want.tol()
                    ),
                );
                true
            }
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

//! The phase-diagram program: every run of it is compared with an assembly of its
//! outputs from the library functions.
use crate::base::*;
use qcd_sme::qcd::thermal::gluon::{
    propagator_l_landau_w_field_config as prop_l, propagator_l_zero_temp_landau_w_field_config as prop_l0,
    propagator_t_landau_w_field_config as prop_t, propagator_t_zero_temp_landau_w_field_config as prop_t0,
};
use rayon::prelude::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use tc_long_prop::parametrize_phase_boundary;

const OUT: &str = "target/tc_long_prop/physical_tc";
pub const NAMES: [&str; 13] = [
    "mg", "om", "renpoint", "mq", "mqc", "f0", "fewtemps", "moretemps", "manytemps", "fewchempots", "morechempots", "manychempots",
    "momenta",
];
const MG: usize = 0;
const OMK: usize = 1;
const REN: usize = 2;
const MQK: usize = 3;
const MQC: usize = 4;
const F0K: usize = 5;
const FEWT: usize = 6;
const MORET: usize = 7;
const MANYT: usize = 8;
const FEWM: usize = 9;
const MOREM: usize = 10;
const MANYM: usize = 11;
const MOM: usize = 12;

/// a configuration: for each field its number, or three numbers
pub type Conf = Vec<Vec<f64>>;

fn base() -> Conf {
    vec![
        vec![0.656],
        vec![1e-5],
        vec![4.],
        vec![0.35, 0.45, 1.5],
        vec![0.125, 0.225, 1.2],
        vec![-0.876],
        vec![0., 0.16, 0.04],
        vec![0., 0.15, 0.05],
        vec![0., 0.16, 0.02],
        vec![0., 0.8, 0.4],
        vec![0., 0.75, 0.25],
        vec![0., 0.8, 0.1],
        vec![0.01, 3.01, 1.],
    ]
}

/// all single deviations from the base
fn deviations() -> Vec<(usize, Vec<f64>)> {
    let mut v: Vec<(usize, Vec<f64>)> = vec![];
    let mut add = |k: usize, xs: &[&[f64]]| v.extend(xs.iter().map(|x| (k, x.to_vec())));
    add(MG, &[&[0.5], &[0.8]]);
    add(OMK, &[&[1e-3], &[0.02], &[1e-7]]);
    add(REN, &[&[2.], &[1.], &[6.5]]);
    add(MQK, &[&[0.35, 0.45, 1.2], &[0.45, 0.35, 1.5], &[0.3, 0.5, 1.5], &[0.4, 0.4, 1.5]]);
    add(MQC, &[&[0.225, 0.125, 1.2], &[0.35, 0.45, 1.2], &[0.05, 0.1, 0.2], &[0.2, 0.2, 1.2], &[0.4, 0.6, 1.2]]);
    add(F0K, &[&[-0.5], &[0.3], &[0.], &[-1.2]]);
    add(FEWT, &[&[0., 0.18, 0.06], &[0., 0.1, 0.03], &[0., 0.11, 0.04], &[0., 0., 1.], &[0., 0.15, 0.05]]);
    add(MORET, &[&[0., 0., 1.], &[0., 0.2, 0.06], &[0., 0.1, 0.025]]);
    add(MANYT, &[&[0., 0.18, 0.03], &[0., 0.2, 0.008], &[0., 0.05, 0.01], &[0., 0.21, 0.04]]);
    add(FEWM, &[&[0., 0.6, 0.3], &[0.1, 0.7, 0.2], &[0.05, 0.05, 1.], &[0., 0.75, 0.2], &[0.9, 1.1, 0.1]]);
    add(MOREM, &[&[0.2, 0.4, 0.2], &[0., 0., 0.1], &[0., 0.7, 0.4]]);
    add(MANYM, &[&[0., 0.8, 0.05], &[0., 0.4, 0.1], &[0., 1., 0.2], &[0., 0.85, 0.12]]);
    add(MOM, &[&[0.1, 1.1, 0.5], &[0.01, 0.01, 1.], &[1., 3., 0.7], &[0.3, 0.95, 0.05]]);
    v
}

fn with(c: &Conf, devs: &[&(usize, Vec<f64>)]) -> Conf {
    let mut c = c.clone();
    for (k, x) in devs {
        c[*k] = x.clone();
    }
    c
}

fn grid(v: &[f64]) -> Vec<f64> {
    let n = ((v[1] - v[0]) / v[2]).round() as usize;
    (0..=n).map(|k| v[0] + v[2] * k as f64).collect()
}

/// ways of writing the same configuration
fn yaml(c: &Conf, style: usize) -> String {
    let num = |x: f64| match style {
        1 => format!("{x:e}"),
        2 => format!("{x:?}"),
        3 if x.fract() == 0. => format!("{x:.0}"),
        _ => format!("{x}"),
    };
    let mut lines: Vec<String> = vec![];
    for (k, v) in c.iter().enumerate() {
        let n = NAMES[k];
        lines.push(if v.len() == 1 && k != MQK {
            format!("{n}: {}", num(v[0]))
        } else if style % 2 == 0 {
            format!("{n}: [{}]", v.iter().map(|x| num(*x)).collect::<Vec<_>>().join(", "))
        } else {
            format!("{n}:\n{}", v.iter().map(|x| format!("  - {}", num(*x))).collect::<Vec<_>>().join("\n"))
        });
    }
    match style {
        2 => lines.reverse(),
        3 => lines.insert(0, "# a comment\n---".into()),
        4 => lines = lines.into_iter().map(|l| l + "   # GeV").collect(),
        _ => (),
    }
    lines.join("\n") + "\n"
}

/// reads what yaml (and the program) writes
fn parse_yaml(s: &str) -> Option<BTreeMap<String, Vec<f64>>> {
    let mut m: BTreeMap<String, Vec<f64>> = BTreeMap::new();
    let mut cur = String::new();
    for l in s.lines() {
        let l = l.split('#').next().unwrap().trim_end();
        if l.trim().is_empty() || l == "---" {
            continue;
        }
        if let Some(x) = l.trim_start().strip_prefix("- ") {
            m.get_mut(&cur)?.push(x.trim().parse().ok()?);
        } else {
            let (k, v) = l.split_once(':')?;
            cur = k.trim().to_string();
            let v = v.trim();
            let e = m.entry(cur.clone()).or_default();
            if let Some(x) = v.strip_prefix('[').and_then(|x| x.strip_suffix(']')) {
                for y in x.split(',') {
                    e.push(y.trim().parse().ok()?);
                }
            } else if !v.is_empty() {
                e.push(v.parse().ok()?);
            }
        }
    }
    Some(m)
}

fn same_conf(c: &Conf, m: &BTreeMap<String, Vec<f64>>) -> bool {
    m.len() == NAMES.len() && NAMES.iter().enumerate().all(|(k, n)| m.get(*n).is_some_and(|v| *v == c[k]))
}

pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new(id: &str) -> Scratch {
        let d = std::env::temp_dir().join(format!("mc-{id}-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    pub fn dir(&self, n: &str) -> PathBuf {
        let d = self.0.join(n);
        std::fs::create_dir_all(&d).unwrap();
        d
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Status {
    Ok,
    Refused,
    Timeout,
}

pub struct Prog {
    pub bin: String,
}
impl Prog {
    fn command(&self, dir: &Path, args: &[&str], threads: usize) -> Command {
        let mut c = Command::new(&self.bin);
        c.args(args)
            .current_dir(dir)
            .env("RUST_LOG", "off")
            .env("RAYON_NUM_THREADS", threads.to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        c
    }
    fn run(&self, dir: &Path, args: &[&str], threads: usize) -> Status {
        self.run_with(dir, args, threads, &[], 240)
    }
    pub fn run_with(&self, dir: &Path, args: &[&str], threads: usize, env: &[(&str, String)], limit: u64) -> Status {
        let mut ch = self.command(dir, args, threads).envs(env.iter().map(|x| (x.0, &x.1))).spawn().unwrap();
        let start = Instant::now();
        loop {
            if let Some(st) = ch.try_wait().unwrap() {
                return if st.success() { Status::Ok } else { Status::Refused };
            }
            if start.elapsed() > Duration::from_secs(limit) {
                let _ = ch.kill();
                let _ = ch.wait();
                return Status::Timeout;
            }
            std::thread::sleep(Duration::from_millis(3));
        }
    }
}

/// all output files, by name below the output directory
fn outputs(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for sub in ["", "data"] {
        for e in std::fs::read_dir(dir.join(OUT).join(sub)).into_iter().flatten().flatten() {
            if e.path().is_file() {
                let n = e.file_name().to_string_lossy().to_string();
                let n = if sub.is_empty() { n } else { format!("{sub}/{n}") };
                m.insert(n, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    m
}

fn columns(b: &[u8]) -> Option<Vec<(f64, f64)>> {
    let s = std::str::from_utf8(b).ok()?;
    s.lines()
        .map(|l| {
            let mut w = l.split_whitespace();
            let x = (w.next()?.parse().ok()?, w.next()?.parse().ok()?);
            w.next().is_none().then_some(x)
        })
        .collect()
}

fn near(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol
}

/// the parameters of one sector: plain or with the masses of the deconfined phase
struct Phys {
    m: f64,
    om: f64,
    ren: f64,
    cfg: [FieldConfig; 2],
    f0: [f64; 2],
}
impl Phys {
    fn new(c: &Conf) -> Phys {
        let m = c[MG][0];
        let quarks = |v: &[f64]| vec![(2, v[0]), (1, v[1])];
        let f0 = |v: &[f64]| c[F0K][0] + 4. / 27. * (2. * (m / v[0]).ln() + (m / v[1]).ln());
        Phys {
            m,
            om: c[OMK][0],
            ren: c[REN][0],
            cfg: [FieldConfig::new(3, m, quarks(&c[MQK])), FieldConfig::new(3, m, quarks(&c[MQC]))],
            f0: [f0(&c[MQK]), f0(&c[MQC])],
        }
    }
    /// m² × the propagator renormalised at the renormalisation point
    fn prop(&self, trans: bool, corr: bool, t: f64, mu: f64, p: f64) -> f64 {
        let (cfg, f0) = (&self.cfg[corr as usize], self.f0[corr as usize]);
        let d = |p: f64| {
            let x = match (trans, t == 0.) {
                (false, true) => prop_l0(self.om, p, mu, f0, cfg),
                (true, true) => prop_t0(self.om, p, mu, f0, cfg),
                (false, false) => prop_l(self.om, p, 1. / (t * self.m), mu, f0, cfg),
                (true, false) => prop_t(self.om, p, 1. / (t * self.m), mu, f0, cfg),
            };
            x.re
        };
        d(p * self.m) / d(self.ren) * self.m * self.m / (self.ren * self.ren)
    }
}

const REL: f64 = 1e-7;

/// deconfined? None if rounding of the grids decides
fn phase(mu: f64, t: f64, pb: &[(f64, f64)]) -> Option<bool> {
    let eps = 1e-11;
    let last = pb[pb.len() - 1].0;
    if (mu - last).abs() <= eps && t == 0. {
        return if mu == last { Some(false) } else { None };
    }
    if mu > last + eps {
        return Some(true);
    }
    if mu > last {
        return if t > pb[pb.len() - 1].1 + eps { Some(true) } else { None };
    }
    if t == 0. {
        return Some(false);
    }
    for w in pb {
        if (w.0 - mu).abs() <= eps {
            if (t - w.1).abs() <= eps {
                return if t == w.1 && mu == w.0 { Some(false) } else { None };
            }
            return Some(t > w.1);
        }
    }
    let w = pb.windows(2).find(|w| w[0].0 < mu && mu < w[1].0)?;
    let tc = w[0].1 + (w[1].1 - w[0].1) * (mu - w[0].0) / (w[1].0 - w[0].0);
    if (t - tc).abs() <= eps {
        None
    } else {
        Some(t > tc)
    }
}

/// does the propagator have its maximum at a positive temperature at the first chemical potential?
fn has_boundary(c: &Conf) -> bool {
    let ph = Phys::new(c);
    let at = |t: f64| ph.prop(false, false, t, c[MANYM][0], c[MOM][0]);
    let ts = grid(&c[MANYT]);
    let zero = at(0.);
    ts.iter().skip(1).any(|t| at(*t) > zero + REL * zero.abs())
}

struct Expect<'a> {
    cx: &'a Ctx,
    conf: &'a Conf,
    what: String,
}
impl Expect<'_> {
    fn bad(&self, key: &str, text: String) {
        self.cx.violation(key.into(), format!("{}: {text}; configuration {:?}", self.what, self.conf));
    }
    fn file<'b>(&self, out: &'b BTreeMap<String, Vec<u8>>, n: &str) -> Option<Vec<(f64, f64)>> {
        let Some(b) = out.get(n) else {
            self.bad("missing output", format!("{n} was not written"));
            return None;
        };
        let r = columns(b);
        if r.is_none() {
            self.bad("malformed output", format!("{n} is not a table of two columns"));
        }
        r
    }
    /// propagator tables, on the grids `ts`, `mus`
    fn props(&self, ph: &Phys, out: &BTreeMap<String, Vec<u8>>, name: &str, pb: Option<&[(f64, f64)]>) -> Vec<String> {
        let c = self.conf;
        let ps = grid(&c[MOM]);
        let mut names = vec![];
        for mu in grid(&c[FEWM]) {
            for t in grid(&c[FEWT]) {
                for (trans, kind) in [(false, "glulongprop"), (true, "glutransprop")] {
                    let n = format!("data/{name}_{kind}_t_{t:.4}_mu_{mu:.4}.out");
                    names.push(n.clone());
                    let Some(rows) = self.file(out, &n) else { continue };
                    if rows.len() != ps.len() {
                        self.bad("momenta", format!("{n} has {} rows for {} momenta", rows.len(), ps.len()));
                        continue;
                    }
                    let corr: &[bool] = match pb.map(|pb| phase(mu, t, pb)) {
                        None | Some(Some(false)) => &[false],
                        Some(Some(true)) => &[true],
                        Some(None) => &[false, true],
                    };
                    let mut seen: Vec<(f64, f64)> = vec![];
                    let ok = corr.iter().any(|&corr| {
                        seen.clear();
                        rows.iter().zip(&ps).all(|(r, p)| {
                            let want = ph.prop(trans, corr, t, mu, *p);
                            seen.push((*p, want));
                            near(r.0, *p, 1e-12 * p.abs()) && (near(r.1, want, REL * want.abs()) || (r.1.is_nan() && want.is_nan()))
                        })
                    });
                    self.cx.trans(rows.len() as u64);
                    self.cx.valid(rows.len() as u64);
                    if !ok {
                        let k = seen.len() - 1;
                        self.bad("propagator", format!("{n} has {:?} in row {k}, the library gives {:?}", rows[k], seen[k]));
                    }
                }
            }
        }
        names
    }
    /// critical temperatures; returns the phase boundary
    fn boundary(&self, ph: &Phys, out: &BTreeMap<String, Vec<u8>>, name: &str, pb: Option<&[(f64, f64)]>) -> Option<Vec<(f64, f64)>> {
        let c = self.conf;
        let (mus, ts, p) = (grid(&c[MANYM]), grid(&c[MANYT]), c[MOM][0]);
        let rows = self.file(out, &format!("tc_{name}.out"))?;
        if rows.len() != mus.len() {
            self.bad("boundary", format!("tc_{name}.out has {} rows for {} chemical potentials", rows.len(), mus.len()));
            return None;
        }
        let mut tcs = vec![];
        for (r, mu) in rows.iter().zip(&mus) {
            let vals: Vec<f64> = ts
                .iter()
                .map(|t| {
                    let corr = pb.is_some_and(|pb| phase(*mu, *t, pb).unwrap_or(false));
                    ph.prop(false, corr, *t, *mu, p)
                })
                .collect();
            let max = vals.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            // temperatures of a maximum within rounding that print like the program's
            let near_max: Vec<f64> = ts.iter().zip(&vals).filter(|(_, v)| **v >= max - REL * max.abs()).map(|(t, _)| *t).collect();
            self.cx.trans(ts.len() as u64);
            self.cx.valid(1);
            let Some(&tc) = near_max.iter().find(|t| format!("{t:.4}") == format!("{:.4}", r.1)) else {
                self.bad("critical temperature", format!("tc_{name}.out has {r:?} at mu = {mu}, the propagator is largest at T/m = {near_max:?}"));
                return None;
            };
            if format!("{mu:.4}") != format!("{:.4}", r.0) {
                self.bad("boundary", format!("tc_{name}.out has chemical potential {} instead of {mu}", r.0));
                return None;
            }
            tcs.push(tc);
        }
        let d2 = self.file(out, &format!("tcd2_{name}.out"))?;
        let dmu = mus[1] - mus[0];
        let want: Vec<(f64, f64)> =
            (2..mus.len() - 2).map(|i| (mus[i], (tcs[i + 2] + tcs[i - 2] - 2. * tcs[i]) / (4. * dmu * dmu))).collect();
        self.cx.valid(want.len() as u64);
        let tol = 1e-9 / (dmu * dmu);
        if d2.len() != want.len() || d2.iter().zip(&want).any(|(a, b)| !near(a.0, b.0, 1e-11) || !near(a.1, b.1, tol)) {
            self.bad("second derivative", format!("tcd2_{name}.out has {d2:?} instead of {want:?}"));
        }
        Some(mus.into_iter().zip(tcs).collect())
    }
    fn ir(&self, ph: &Phys, out: &BTreeMap<String, Vec<u8>>) {
        let c = self.conf;
        let (mus, ts, p) = (grid(&c[MOREM]), grid(&c[MORET]), c[MOM][0]);
        let Some(b) = out.get("ir_nf_2+1.png") else {
            return self.bad("missing output", "ir_nf_2+1.png was not written".into());
        };
        let text = String::from_utf8_lossy(b);
        let Some(curves) = curves(&text) else {
            self.cx.skip(1);
            return;
        };
        if curves.len() != mus.len() {
            return self.bad("ir", format!("ir_nf_2+1.png shows {} curves for {} chemical potentials", curves.len(), mus.len()));
        }
        for ((x, y), mu) in curves.iter().zip(&mus) {
            if x.len() != ts.len() || y.len() != ts.len() {
                return self.bad("ir", format!("ir_nf_2+1.png has {} and {} points for {} temperatures", x.len(), y.len(), ts.len()));
            }
            for k in 0..ts.len() {
                let want = ph.prop(false, false, ts[k], *mu, p);
                self.cx.trans(1);
                self.cx.valid(1);
                if !near(x[k], ts[k], 1e-12) || !near(y[k], want, REL * want.abs()) {
                    return self.bad("ir", format!("ir_nf_2+1.png has {:?} at mu = {mu}, the library gives {:?}", (x[k], y[k]), (ts[k], want)));
                }
            }
        }
    }
}

/// the curves recorded by the stand-in of the plotting library
pub fn curves(s: &str) -> Option<Vec<(Vec<f64>, Vec<f64>)>> {
    let mut v = vec![];
    for l in s.lines() {
        let Some(r) = l.strip_prefix("('plot', ([") else {
            if !l.starts_with("('") {
                return None;
            }
            continue;
        };
        let (a, r) = r.split_once("], [")?;
        let (b, _) = r.split_once("])")?;
        let nums = |s: &str| -> Option<Vec<f64>> { s.split(", ").map(|x| x.parse().ok()).collect() };
        v.push((nums(a)?, nums(b)?));
    }
    Some(v)
}

/// Compare the outputs of a run with the library.
fn check_run(cx: &Ctx, conf: &Conf, out: &BTreeMap<String, Vec<u8>>, what: String, fresh: bool) {
    let e = Expect { cx, conf, what };
    match out.get("config.yml").and_then(|b| parse_yaml(&String::from_utf8_lossy(b))) {
        Some(m) if same_conf(conf, &m) => cx.valid(1),
        m => e.bad("echo", format!("the echoed configuration is {m:?}")),
    }
    let ph = Phys::new(conf);
    let mut names = e.props(&ph, out, "nf_2+1", None);
    e.ir(&ph, out);
    let Some(pb) = e.boundary(&ph, out, "nf_2+1", None) else { return };
    let red: Vec<(f64, f64)> = pb.iter().cloned().take_while(|x| x.1 != 0.).collect();
    if red.is_empty() {
        cx.skip(1);
        return;
    }
    let Some(pbc) = e.boundary(&ph, out, "nf_2+1_corrected", Some(&red)) else { return };
    names.extend(e.props(&ph, out, "nf_2+1_corrected", Some(&red)));
    // the fit: as many parameters as requested, and the curve of the library's fit
    let n = "tc_nf_2+1_corrected_fit_parameters.out";
    let text = out.get(n).map(|b| String::from_utf8_lossy(b).trim().to_string()).unwrap_or_default();
    let params: Option<Vec<f64>> =
        text.strip_prefix('[').and_then(|x| x.strip_suffix(']')).and_then(|x| x.split(',').map(|y| y.trim().parse().ok()).collect());
    match params {
        None => e.bad("fit", format!("{n} contains {text:?}")),
        Some(ps) => {
            let horner = |ps: &[f64], x: f64| ps.iter().rev().fold(0., |a, p| a * x + p);
            let top = red.iter().map(|x| x.1).fold(0., f64::max);
            let fits = [red.clone(), pbc.into_iter().take_while(|x| x.1 != 0.).collect()];
            let ok = fits.iter().filter(|b| !b.is_empty()).any(|b| {
                let want = parametrize_phase_boundary(b, 8, None);
                want.len() == ps.len()
                    && b.iter().all(|(mu, _)| {
                        let (x, y) = (horner(&ps, *mu), horner(&want, *mu));
                        near(x, y, 1e-5 * top) || (x.is_nan() && y.is_nan())
                    })
            });
            cx.valid(1);
            if !ok {
                e.bad("fit", format!("{n} has {ps:?}, the library fits {:?}", parametrize_phase_boundary(&red, 8, None)));
            }
        }
    }
    if fresh {
        for n in out.keys().filter(|n| n.contains("prop_t_")) {
            if !names.contains(n) {
                e.bad("extra output", format!("{n} was written, but is not on the grid"));
            }
        }
    }
}

fn tables(m: &BTreeMap<String, Vec<u8>>) -> impl Iterator<Item = (&String, &Vec<u8>)> {
    m.iter().filter(|(n, _)| n.ends_with(".out") || n.as_str() == "config.yml" || n.starts_with("ir_"))
}

/// the tables of `want` are all in `got`, byte for byte
fn compare(cx: &Ctx, key: &str, what: String, want: &BTreeMap<String, Vec<u8>>, got: &BTreeMap<String, Vec<u8>>) {
    for (n, b) in tables(want) {
        cx.trans(1);
        cx.valid(1);
        if got.get(n) != Some(b) {
            let s = |b: Option<&Vec<u8>>| b.map(|b| String::from_utf8_lossy(b).chars().take(300).collect::<String>());
            cx.violation(key.into(), format!("{what}: {n} is {:?} instead of {:?}", s(got.get(n)), s(Some(b))));
            return;
        }
    }
}

/// a program whose parallel parts are scheduled by us; every run is a fork of one process
struct Server {
    ch: std::process::Child,
    out: std::io::BufReader<std::process::ChildStdout>,
}
impl Server {
    fn new(bin: &str, dir: &Path) -> Option<Server> {
        let mut ch = Command::new(bin)
            .arg("x.yml")
            .current_dir(dir)
            .env("RUST_LOG", "off")
            .env("SCHED_SERVER", "1")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let out = std::io::BufReader::new(ch.stdout.take()?);
        Some(Server { ch, out })
    }
    /// the exit status, 1000 + a signal
    fn run(&mut self, dir: &Path, vars: &str) -> Option<u32> {
        use std::io::{BufRead, Write};
        let i = self.ch.stdin.as_mut()?;
        writeln!(i, "{}{vars}", dir.display()).ok()?;
        i.flush().ok()?;
        let mut l = String::new();
        self.out.read_line(&mut l).ok()?;
        l.trim().parse().ok()
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.ch.stdin.take();
        let _ = self.ch.wait();
    }
}

/// configurations with few points, so that all orders of their tasks can be run
fn small() -> Vec<Conf> {
    let b = base();
    let grids = |f: [f64; 3], m: [f64; 3], n: [f64; 3], p: [f64; 3]| {
        with(
            &b,
            &[
                &(FEWT, f.to_vec()),
                &(MORET, m.to_vec()),
                &(MANYT, n.to_vec()),
                &(FEWM, vec![0., 0.7, 0.7]),
                &(MOREM, vec![0.1, 0.4, 0.3]),
                &(MANYM, vec![0., 0.8, 0.2]),
                &(MOM, p.to_vec()),
            ],
        )
    };
    vec![
        grids([0., 0.12, 0.12], [0., 0.15, 0.05], [0., 0.16, 0.04], [0.01, 2.01, 1.]),
        grids([0., 0.16, 0.08], [0., 0.12, 0.06], [0., 0.15, 0.05], [0.5, 2., 0.5]),
    ]
}

fn schedules(cx: &Ctx, sc: &Scratch) {
    use crate::shm::*;
    let Ok(bin) = std::env::var("MC_SCHED_PROGRAM") else {
        cx.note("the program does not build with the scheduled thread pool: the schedules of its parallel parts are not explored".into());
        cx.skip(1);
        return;
    };
    let confs = small();
    let want: Vec<_> = confs
        .par_iter()
        .enumerate()
        .map(|(k, c)| {
            let dir = sc.dir(&format!("s{k}"));
            std::fs::write(dir.join("x.yml"), yaml(c, 0)).unwrap();
            let mut sv = Server::new(&bin, &dir)?;
            cx.state(1);
            let st = sv.run(&dir, "\tSCHED_PERM=0");
            let out = outputs(&dir);
            if st != Some(0) {
                cx.violation("status".into(), format!("tasks in order: the program ended with status {st:?}; configuration {c:?}"));
                return None;
            }
            check_run(cx, c, &out, "tasks in order".into(), true);
            Some(out)
        })
        .collect();
    if cx.nv() > 0 {
        return;
    }
    // all orders of the tasks of a parallel part (up to five of them)
    let norders = if cx.thorough { 120 } else { 24 };
    let mut jobs: Vec<(usize, usize)> = vec![];
    for k in 0..confs.len() {
        jobs.extend((1..norders).step_by(6).map(|i| (k, i)));
    }
    jobs.par_iter().for_each(|&(k, i0)| {
        let dir = sc.dir(&format!("o{k}_{i0}"));
        std::fs::write(dir.join("x.yml"), yaml(&confs[k], 0)).unwrap();
        let Some(mut sv) = Server::new(&bin, &dir) else { return };
        for i in i0..(i0 + 6).min(norders) {
            let _ = std::fs::remove_dir_all(dir.join("target"));
            cx.state(1);
            let st = sv.run(&dir, &format!("\tSCHED_PERM={i}"));
            if st != Some(0) {
                cx.violation("status".into(), format!("tasks in order {i}: the program ended with status {st:?}; configuration {:?}", confs[k]));
                return;
            }
            compare(cx, "order", format!("tasks in order {i}, configuration {:?}", confs[k]), want[k].as_ref().unwrap(), &outputs(&dir));
        }
    });
    // all schedules of two and three threads up to a number of preemptions
    let jobs: Vec<(usize, usize, usize)> =
        (0..confs.len()).flat_map(|k| [(k, 2, 0), (k, 2, 1), (k, 3, 0), (k, 3, 1)]).collect();
    let plan = if cx.thorough {
        Plan { bound: 2, cap: 3000, few: 300, delays: true }
    } else {
        Plan { bound: 1, cap: 120, few: 8, delays: true }
    };
    let stats: Vec<Stats> = jobs
        .par_iter()
        .map(|&(k, threads, split)| {
            let mut st = Stats::default();
            let dir = sc.dir(&format!("t{k}_{threads}_{split}"));
            std::fs::write(dir.join("x.yml"), yaml(&confs[k], 0)).unwrap();
            let file = dir.join("shm");
            let f = std::fs::File::options().read(true).write(true).create(true).truncate(true).open(&file).unwrap();
            f.set_len(std::mem::size_of::<Shared>() as u64).unwrap();
            let sh = unsafe {
                use std::os::fd::AsRawFd;
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    std::mem::size_of::<Shared>(),
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_SHARED,
                    f.as_raw_fd(),
                    0,
                );
                assert!(p != libc::MAP_FAILED);
                &mut *(p as *mut Shared)
            };
            let Some(mut sv) = Server::new(&bin, &dir) else { return st };
            let vars = format!("\tSCHED_SHM={}\tSCHED_THREADS={threads}\tSCHED_SPLIT={split}", file.display());
            let bad = search(sh, Some(Default::default()), plan, &mut st, &|| cx.nv() > 0, &mut |sh, dev| {
                let _ = std::fs::remove_dir_all(dir.join("target"));
                let s = sv.run(&dir, &vars);
                cx.state(1);
                let what = |sh: &Shared| format!("{threads} threads (split {split}) under the schedule {} (deviations {dev:?})", trace(sh));
                match s {
                    Some(0) => {}
                    Some(41) => return Some(format!("{}: deadlock", what(sh))),
                    Some(1014) => return Some(format!("{}: the program does not end", what(sh))),
                    s => return Some(format!("{}: the program ended with status {s:?}", what(sh))),
                }
                let got = outputs(&dir);
                cx.valid(1);
                let w = want[k].as_ref().unwrap();
                let r = tables(w).find(|(n, b)| got.get(*n) != Some(b)).map(|(n, b)| {
                    let s = |b: Option<&Vec<u8>>| b.map(|b| String::from_utf8_lossy(b).chars().take(300).collect::<String>());
                    format!("{}: {n} is {:?} instead of {:?}", what(sh), s(got.get(n)), s(Some(b)))
                });
                r
            });
            if let Some(b) = bad {
                cx.violation("schedule".into(), format!("{b}; configuration {:?}", confs[k]));
            }
            cx.trans(st.points);
            st
        })
        .collect();
    let s = |f: &dyn Fn(&Stats) -> u64| stats.iter().map(f).sum::<u64>();
    cx.sample(format!(
        "parallel parts: {norders} orders of the tasks and {} schedules ({} scheduling points) of two and three threads, in {} scenarios ({} cut off)",
        s(&|x| x.schedules),
        s(&|x| x.points),
        jobs.len(),
        s(&|x| x.capped)
    ));
}

pub fn c21(cx: &Ctx) {
    let bin = std::env::var("MC_PROGRAM").unwrap_or("/verif/target-bin/release/physical_tc".into());
    let pg = &Prog { bin };
    let scratch = Scratch::new("c21");
    let sc = &scratch;
    let b = base();
    let devs = deviations();

    // 1. configurations: the base, all single deviations, (thorough) all pairs
    let mut confs: Vec<(String, Conf)> = vec![("base".into(), b.clone())];
    for d in &devs {
        confs.push((format!("{} {:?}", NAMES[d.0], d.1), with(&b, &[d])));
    }
    // the first chemical potential of the boundary is not zero
    let first = (MANYM, vec![0.05, 0.65, 0.1]);
    for few in [vec![0.05, 0.6, 0.25], vec![0.1, 0.9, 0.2]] {
        confs.push((format!("boundary from 0.05, {few:?}"), with(&b, &[&first, &(FEWM, few)])));
    }
    for (i, d) in devs.iter().enumerate() {
        for e in &devs[i + 1..] {
            // pairs of grids that decide the phases together, and (thorough) all pairs
            if d.0 != e.0 && (cx.thorough || (d.0 == FEWT && e.0 == MANYM) || (d.0 == MANYT && e.0 == MANYM)) {
                confs.push((format!("{} {:?}, {} {:?}", NAMES[d.0], d.1, NAMES[e.0], e.1), with(&b, &[d, e])));
            }
        }
    }
    let fresh: Vec<BTreeMap<String, Vec<u8>>> = confs
        .par_iter()
        .enumerate()
        .map(|(k, (name, c))| {
            let dir = sc.dir(&format!("a{k}"));
            let style = k % 5;
            // the file is named on the command line, or has the default name
            let args: &[&str] = if k % 2 == 0 { &["conf.yml"] } else { &[] };
            std::fs::write(dir.join(args.first().unwrap_or(&"config.yml")), yaml(c, style)).unwrap();
            if k % 4 == 0 {
                // must not be read
                std::fs::write(dir.join("config.yml"), yaml(&with(c, &[&(F0K, vec![0.1])]), 0)).unwrap();
            }
            cx.state(1);
            let st = pg.run(&dir, args, 1 + k % 3);
            let out = outputs(&dir);
            // without a critical temperature at the first chemical potential there is no
            // boundary, and nothing is claimed about the corrected sector
            if st == Status::Timeout || (st == Status::Refused && has_boundary(c)) {
                cx.violation("status".into(), format!("{name} (style {style}): the program ended with {st:?}; configuration {c:?}"));
            } else {
                check_run(cx, c, &out, format!("{name} (style {style})"), true);
            }
            let _ = std::fs::remove_dir_all(&dir);
            if st == Status::Ok && k < 1 + devs.len() {
                out
            } else {
                Default::default()
            }
        })
        .collect();
    cx.sample(format!("{} configurations: base, {} single deviations, pairs", confs.len(), devs.len()));
    if cx.nv() > 0 {
        return;
    }

    // 2. the same configuration, written in every style, with every number of workers
    let picks: Vec<usize> = if cx.thorough { (0..=devs.len()).collect() } else { vec![0, 9, 24, 47] };
    let mut jobs = vec![];
    for &k in picks.iter().filter(|k| !fresh[**k].is_empty()) {
        for (style, threads) in [(0, 1), (1, 2), (2, 3), (3, 8), (4, 16)] {
            jobs.push((k, style, threads));
        }
    }
    jobs.par_iter().for_each(|&(k, style, threads)| {
        let (name, c) = &confs[k];
        let dir = sc.dir(&format!("b{k}_{threads}"));
        std::fs::write(dir.join("x.yml"), yaml(c, style)).unwrap();
        cx.state(1);
        let st = pg.run(&dir, &["x.yml"], threads);
        let what = format!("{name} with {threads} workers (style {style})");
        if st != Status::Ok {
            cx.violation("status".into(), format!("{what}: the program ended with {st:?}"));
        }
        let out = outputs(&dir);
        compare(cx, "workers", what.clone(), &fresh[k], &out);
        // again, from the echo, over the files of the first run
        if let Some(e) = out.get("config.yml") {
            std::fs::write(dir.join("config.yml"), e).unwrap();
            cx.state(1);
            if pg.run(&dir, &[], threads) != Status::Ok {
                cx.violation("status".into(), format!("{what}, from its echo: the program failed"));
            }
            compare(cx, "rerun", format!("{what}, run again from its echo"), &fresh[k], &outputs(&dir));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    cx.sample("runs with 1, 2, 3, 8, 16 workers, five ways of writing the configuration, and again from the echo".into());

    // 3. histories: two runs of different configurations in the same directory
    let hist: Vec<usize> = if cx.thorough { (0..=devs.len()).step_by(3).collect() } else { vec![0, 2, 22, 26, 43] };
    let mut pairs = vec![];
    for &i in &hist {
        for &j in &hist {
            if i != j && !fresh[i].is_empty() && !fresh[j].is_empty() {
                pairs.push((i, j));
            }
        }
    }
    pairs.par_iter().for_each(|&(i, j)| {
        let dir = sc.dir(&format!("c{i}_{j}"));
        std::fs::write(dir.join("1.yml"), yaml(&confs[i].1, 0)).unwrap();
        std::fs::write(dir.join("2.yml"), yaml(&confs[j].1, 0)).unwrap();
        cx.state(2);
        if pg.run(&dir, &["1.yml"], 1) != Status::Ok || pg.run(&dir, &["2.yml"], 2) != Status::Ok {
            cx.violation("status".into(), format!("{} then {}: the program failed", confs[i].0, confs[j].0));
        }
        compare(cx, "history", format!("{} after {} in the same directory", confs[j].0, confs[i].0), &fresh[j], &outputs(&dir));
        let _ = std::fs::remove_dir_all(&dir);
    });
    cx.sample(format!("all {} ordered pairs of {} configurations run in the same directory", pairs.len(), hist.len()));
    // every output file holds long junk beforehand
    {
        let dir = sc.dir("d");
        for n in fresh[0].keys() {
            let f = dir.join(OUT).join(n);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, "9.9\t9.9\n".repeat(2000)).unwrap();
        }
        std::fs::write(dir.join("1.yml"), yaml(&b, 0)).unwrap();
        cx.state(1);
        if pg.run(&dir, &["1.yml"], 2) != Status::Ok {
            cx.violation("status".into(), "over junk: the program failed".into());
        }
        compare(cx, "history", "over files with other contents".into(), &fresh[0], &outputs(&dir));
    }

    // 3b. schedules of the parallel parts
    schedules(cx, sc);

    // 4. configurations that are none: without a field, with a field of another shape
    let mut docs: Vec<(String, String)> = vec![
        ("an empty file".into(), "".into()),
        ("a number".into(), "3\n".into()),
        ("a list".into(), "- 1\n- 2\n".into()),
        ("not yaml".into(), "mg: [0.656\nom: }\n".into()),
        ("a cut file".into(), yaml(&b, 0)[..120].into()),
        ("binary".into(), "\u{0}\u{1}\u{2}".into()),
    ];
    let line = |k: usize, s: Option<&str>| {
        let y = yaml(&b, 0);
        y.lines()
            .filter_map(|l| if l.starts_with(&format!("{}:", NAMES[k])) { s.map(|s| format!("{}: {s}", NAMES[k])) } else { Some(l.to_string()) })
            .collect::<Vec<_>>()
            .join("\n")
    };
    for k in 0..NAMES.len() {
        docs.push((format!("no {}", NAMES[k]), line(k, None)));
        let wrong: &[&str] = if b[k].len() == 1 {
            &["abc", "[1, 2, 3]", "{a: 1}", "", "true"]
        } else {
            &["1.0", "[]", "[0.1]", "[0.1, 0.2]", "[0., x, 0.1]", "[0., [1], 2]", "", "{a: 1}"]
        };
        for w in wrong {
            docs.push((format!("{}: {w}", NAMES[k]), line(k, Some(w))));
        }
    }
    docs.par_iter().enumerate().for_each(|(k, (name, text))| {
        let dir = sc.dir(&format!("e{k}"));
        std::fs::write(dir.join("config.yml"), text).unwrap();
        cx.state(1);
        cx.trans(1);
        cx.valid(1);
        let mut ch = pg.command(&dir, &[], 1).spawn().unwrap();
        let start = Instant::now();
        let mut done = None;
        while done.is_none() && start.elapsed() < Duration::from_secs(20) {
            done = ch.try_wait().unwrap();
            std::thread::sleep(Duration::from_millis(2));
        }
        if done.is_none() {
            let _ = ch.kill();
            let _ = ch.wait();
        }
        if done.is_none_or(|s| s.success()) {
            cx.violation("refusal".into(), format!("a configuration file with {name} is not refused ({done:?})"));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    cx.sample(format!("{} malformed configuration files", docs.len()));

    // 5. no file: the documented defaults (of a long run, the beginning)
    let doc = std::fs::read_to_string("/repo/tc_long_prop/configs/default_config.yml").ok().and_then(|s| parse_yaml(&s));
    for args in [&[][..], &["absent.yml"]] {
        let dir = sc.dir(&format!("f{}", args.len()));
        cx.state(1);
        let mut ch = pg.command(&dir, args, 4).spawn().unwrap();
        let start = Instant::now();
        let n = |o: &BTreeMap<String, Vec<u8>>| o.keys().filter(|k| k.contains("prop_t_")).count();
        while start.elapsed() < Duration::from_secs(40) && ch.try_wait().unwrap().is_none() && n(&outputs(&dir)) < 9 {
            std::thread::sleep(Duration::from_millis(20));
        }
        let _ = ch.kill();
        let _ = ch.wait();
        let out = outputs(&dir);
        let Some(m) = out.get("config.yml").and_then(|b| parse_yaml(&String::from_utf8_lossy(b))) else {
            cx.violation("defaults".into(), "without a configuration file, no configuration is echoed".into());
            continue;
        };
        cx.valid(1);
        if doc.as_ref().is_some_and(|d| *d != m) {
            cx.violation("defaults".into(), format!("without a configuration file, the echo is {m:?}, the documented defaults are {doc:?}"));
        }
        let conf: Conf = NAMES.iter().map(|n| m.get(*n).cloned().unwrap_or_default()).collect();
        if !same_conf(&conf, &m) || conf.iter().zip(&b).any(|(x, y)| x.len() != y.len()) {
            cx.violation("defaults".into(), format!("without a configuration file, the echo is {m:?}"));
            continue;
        }
        let ph = Phys::new(&conf);
        let ps = grid(&conf[MOM]);
        let mut rows = 0;
        for mu in grid(&conf[FEWM]) {
            for t in grid(&conf[FEWT]) {
                for (trans, kind) in [(false, "glulongprop"), (true, "glutransprop")] {
                    let n = format!("data/nf_2+1_{kind}_t_{t:.4}_mu_{mu:.4}.out");
                    let Some(b) = out.get(&n) else { continue };
                    let s = String::from_utf8_lossy(b);
                    // complete lines only
                    let s = &s[..s.rfind('\n').map_or(0, |k| k + 1)];
                    for (k, r) in columns(s.as_bytes()).unwrap_or_default().iter().enumerate() {
                        rows += 1;
                        cx.trans(1);
                        cx.valid(1);
                        let want = ps.get(k).map(|p| (*p, ph.prop(trans, false, t, mu, *p)));
                        if !want.is_some_and(|w| near(r.0, w.0, 1e-12) && near(r.1, w.1, REL * w.1.abs())) {
                            cx.violation("defaults".into(), format!("without a configuration file, {n} has {r:?} in row {k} instead of {want:?}"));
                        }
                    }
                }
            }
        }
        if rows == 0 {
            cx.skip(1);
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
    cx.sample("no configuration file: echo of the documented defaults, and the tables written until the run is stopped".into());
}

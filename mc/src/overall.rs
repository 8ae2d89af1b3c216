//! The two overall programs: every figure and table of a run is compared with an assembly of it
//! from the library functions.
use crate::base::*;
use crate::prog::{curves, Prog, Scratch, Status};
use qcd_sme::consts::*;
use qcd_sme::qcd::thermal::gluon as qt;
use rayon::prelude::*;
use std::collections::BTreeMap;
use std::path::Path;

const MG: f64 = 0.656;
const F0: f64 = -0.876;
const OM: f64 = 1e-5;
const REN: f64 = 4.;
const TEMPS: [f64; 6] = [0.05, 0.08, 0.12, 0.15, 0.18, 0.21];

/// the settings at the head of a program
struct Plan {
    name: &'static str,
    /// the mass given to the quarks of a sector
    sectors: Vec<Vec<f64>>,
    flavours: Vec<u32>,
    mus: Vec<f64>,
}
fn plans() -> [Plan; 2] {
    let mus = |n: usize| (0..n).map(|k| format!("{}.{}", k / 10, k % 10).parse().unwrap()).collect();
    [
        Plan { name: "one_mass_overall", sectors: vec![vec![0.08], vec![0.4], vec![0.8]], flavours: vec![1, 2, 4, 6], mus: mus(11) },
        Plan {
            name: "two_masses_overall",
            sectors: vec![vec![0.3, 0.4], vec![0.3, 0.6], vec![0.8, 1.], vec![0.3, 1.]],
            flavours: vec![1, 4],
            mus: mus(13),
        },
    ]
}

/// global settings before the start
#[derive(Clone, Copy, Debug)]
struct Before {
    tol: f64,
    iter: u32,
    nc: u32,
    nf: u32,
    mq: f64,
    reg: Option<f64>,
}
const PLAIN: Before = Before { tol: 1e200, iter: 50, nc: 3, nf: 1, mq: 0.5, reg: None };

/// m² × the propagator renormalised at the renormalisation point, without quarks
fn ym(t: f64, p: f64) -> f64 {
    let d = |p: f64| {
        if t == 0. {
            qcd_sme::ym::gluon::propagator_landau((OM * OM + p * p) / (MG * MG), F0)
        } else {
            qcd_sme::ym::thermal::gluon::propagator_l_landau(OM, p, MG, 1. / (t * MG), F0).re
        }
    };
    d(p * MG) / d(REN) * MG * MG / (REN * REN)
}
/// with the quarks of a sector
fn qcd(nf: u32, masses: &[f64], nc: u32, t: f64, mu: f64, p: f64) -> f64 {
    let cfg = if masses.len() == 1 {
        // one species: the colours are those of the global settings
        FieldConfig::new(nc, MG, vec![(nf, masses[0])])
    } else {
        FieldConfig::new(3, MG, masses.iter().map(|m| (nf, *m)).collect())
    };
    let d = |p: f64| {
        if t == 0. {
            qt::propagator_l_zero_temp_landau_w_field_config(OM, p, mu, F0, &cfg).re
        } else {
            qt::propagator_l_landau_w_field_config(OM, p, 1. / (t * MG), mu, F0, &cfg).re
        }
    };
    d(p * MG) / d(REN) * MG * MG / (REN * REN)
}

/// what a program writes
struct Want {
    figures: BTreeMap<String, Vec<(Vec<f64>, Vec<f64>)>>,
    /// leading columns, temperatures that may be the critical one
    rows: Vec<(Vec<f64>, Vec<f64>)>,
}

/// the temperatures at which the data have their largest value; more than one if rounding decides
fn maxima(ts: &[f64], d: &[f64]) -> Vec<f64> {
    let top = d.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    ts.iter().zip(d).filter(|x| *x.1 >= top - 1e-9 * top.abs()).map(|x| *x.0).collect()
}

fn want(pl: &Plan, b: &Before) -> Want {
    set_default_tol_integral(b.tol);
    set_default_max_iter_integral(b.iter);
    set_number_of_colors(b.nc);
    if let Some(r) = b.reg {
        set_matsubara_reg(r);
    }
    let momenta: Vec<f64> = (0..=299).map(|k| 0.01 + 0.01 * k as f64).collect();
    let mut temps = vec![0.];
    temps.extend(TEMPS);
    let irt: Vec<f64> = std::iter::once(0.).chain((0..=38).map(|k| 0.01 + 0.005 * k as f64)).collect();
    let name = |nf: u32, ms: &[f64]| {
        let m: String = ms
            .iter()
            .enumerate()
            .map(|(k, m)| {
                let m = if nf == 0 { "NA".to_string() } else { format!("{m:.3}") };
                if ms.len() == 1 { format!("_mq_{m}") } else { format!("_mq{}_{m}", k + 1) }
            })
            .collect();
        format!("nf_{nf}{m}")
    };
    let mut w = Want { figures: BTreeMap::new(), rows: vec![] };
    let s0 = &pl.sectors[0];
    let fig = |f: &(dyn Fn(f64, f64) -> f64 + Sync)| {
        temps.iter().map(|t| (momenta.clone(), momenta.par_iter().map(|p| f(*t, *p)).collect())).collect::<Vec<_>>()
    };
    w.figures.insert(format!("{}_mu_NA.png", name(0, s0)), fig(&ym));
    let d: Vec<f64> = irt.iter().map(|t| ym(*t, 0.01)).collect();
    w.rows.push((vec![0.; s0.len() + 2], maxima(&irt, &d)));
    w.figures.insert(format!("ir_{}.png", name(0, s0)), vec![(irt.clone(), d)]);
    for &nf in &pl.flavours {
        for ms in &pl.sectors {
            let mut ir = vec![];
            for &mu in &pl.mus {
                w.figures.insert(format!("{}_mu_{mu:.3}.png", name(nf, ms)), fig(&|t, p| qcd(nf, ms, b.nc, t, mu, p)));
                let d: Vec<f64> = irt.par_iter().map(|t| qcd(nf, ms, b.nc, *t, mu, 0.01)).collect();
                let mut key = vec![nf as f64];
                key.extend(ms);
                key.push(mu);
                w.rows.push((key, maxima(&irt, &d)));
                ir.push((irt.clone(), d));
            }
            w.figures.insert(format!("ir_{}.png", name(nf, ms)), ir);
        }
    }
    set_default_tol_integral(1e-10);
    set_default_max_iter_integral(50);
    set_number_of_colors(3);
    set_matsubara_reg(1e-5);
    w
}

fn files(dir: &Path, pl: &Plan) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(dir.join("target/tc_long_prop").join(pl.name)).into_iter().flatten().flatten() {
        if e.path().is_file() {
            m.insert(e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap_or_default());
        }
    }
    m
}

/// the numbers in the labels of a figure, by kind of label
fn numbers(s: &str, kind: &str) -> Vec<f64> {
    let mut v = vec![];
    for l in s.lines().filter_map(|l| if kind == "label" { Some(l.split_once("'label', ")?.1) } else { l.strip_prefix(&format!("('{kind}'")) }) {
        let mut l = l.to_string();
        // superscripts number the masses
        for k in ["^{(1)}", "^{(2)}", "^{2}"] {
            l = l.replace(k, "");
        }
        v.extend(l.split(|c: char| !c.is_ascii_digit() && c != '.').filter_map(|x| x.parse::<f64>().ok()));
    }
    v
}

fn compare(cx: &Ctx, pl: &Plan, what: &str, rel: f64, w: &Want, got: &BTreeMap<String, Vec<u8>>) {
    let bad = |k: &str, s: String| cx.violation(format!("{} {k}", pl.name), format!("{} ({what}): {s}", pl.name));
    let text = String::from_utf8_lossy(got.get("tc.out").map(|x| &x[..]).unwrap_or(b"")).to_string();
    let lines: Vec<&str> = text.lines().collect();
    if lines.len() != w.rows.len() {
        bad("table", format!("tc.out has {} rows, should have {}", lines.len(), w.rows.len()));
    }
    let mut tcs = vec![];
    for (l, (key, ts)) in lines.iter().zip(&w.rows) {
        cx.state(1);
        cx.valid(1);
        let x: Vec<f64> = l.split_whitespace().map(|x| x.parse().unwrap_or(f64::NAN)).collect();
        let ok = x.len() == key.len() + 1
            && key.iter().zip(&x).all(|(a, b)| (a - b).abs() < 6e-4)
            && ts.iter().any(|t| (t - x[key.len()]).abs() < 6e-4);
        if !ok {
            bad("table", format!("tc.out has the row {l:?}, should have {key:?} and one of the temperatures {ts:?}"));
        }
        tcs.push((key.clone(), ts.clone()));
    }
    // the critical temperatures as functions of the chemical potential
    let mut figs: BTreeMap<&str, ()> = BTreeMap::new();
    for (n, cs) in &w.figures {
        figs.insert(n, ());
        let s = String::from_utf8_lossy(got.get(n).map(|x| &x[..]).unwrap_or(b"")).to_string();
        let Some(c) = curves(&s).filter(|c| c.len() == cs.len()) else {
            bad("figure", format!("{n} has not got its {} curves", cs.len()));
            continue;
        };
        for (k, ((xs, ys), (us, vs))) in c.iter().zip(cs).enumerate() {
            if xs.len() != us.len() || ys.len() != vs.len() || xs.iter().zip(us).any(|(x, u)| !((x - u).abs() < 1e-9)) {
                bad("grid", format!("curve {k} of {n} is on {} points from {:?}, should be on {} from {}", xs.len(), xs.first(), us.len(), us[0]));
                continue;
            }
            cx.state(ys.len() as u64);
            cx.trans(2 * ys.len() as u64);
            cx.valid(ys.len() as u64);
            if let Some(i) = (0..ys.len()).find(|&i| !((ys[i] - vs[i]).abs() <= rel * vs[i].abs()) && !(ys[i].is_nan() && vs[i].is_nan())) {
                bad("curve", format!("curve {k} of {n} at {}: {:e}, the library gives {:e}", us[i], ys[i], vs[i]));
            }
        }
        // the labels tell the curves apart
        let is_ir = n.starts_with("ir_");
        let title: Vec<f64> = n.trim_end_matches(".png").split('_').filter_map(|x| x.parse().ok()).collect();
        let mut t = numbers(&s, "title");
        // number of flavours after the masses
        t.sort_by(f64::total_cmp);
        let mut u = title.clone();
        u.sort_by(f64::total_cmp);
        if t != u {
            bad("title", format!("the title of {n} has the numbers {t:?}"));
        }
        let legend = numbers(&s, "label");
        let want: Vec<f64> = match (is_ir, cs.len()) {
            (true, 1) => vec![],
            (true, _) => pl.mus.clone(),
            _ => std::iter::once(0.).chain(TEMPS).collect(),
        };
        if legend != want {
            bad("legend", format!("the legend of {n} has the numbers {legend:?}, its curves {want:?}"));
        }
    }
    let per = pl.mus.len();
    for (k, rows) in w.rows[1..].chunks(per).enumerate() {
        let key = &rows[0].0;
        let ms = &key[1..key.len() - 1];
        let m: String = if ms.len() == 1 { format!("_mq_{:.3}", ms[0]) } else { format!("_mq1_{:.3}_mq2_{:.3}", ms[0], ms[1]) };
        let n = format!("tc_nf_{}{m}.png", key[0]);
        let s = String::from_utf8_lossy(got.get(&n).map(|x| &x[..]).unwrap_or(b"")).to_string();
        cx.valid(1);
        let ok = curves(&s).is_some_and(|c| {
            c.len() == 1
                && c[0].0.len() == per
                && c[0].1.len() == per
                && c[0].0.iter().zip(&pl.mus).all(|(x, u)| (x - u).abs() < 1e-9)
                && c[0].1.iter().zip(rows).all(|(t, r)| r.1.iter().any(|x| (x - t).abs() < 1e-9))
        });
        if !ok {
            bad("boundary", format!("{n} (sector {k}) does not show the critical temperatures {rows:?}"));
        }
    }
    let n = w.figures.len() + (w.rows.len() - 1) / per + 1;
    if got.len() != n && what.contains("fresh") {
        bad("files", format!("{} files were written, should be {n}", got.len()));
    }
}

pub fn c24(cx: &Ctx) {
    let bins = std::env::var("MC_OVERALL").unwrap_or("/verif/target-overall/release".into());
    let sc = Scratch::new("c24");
    let settings: Vec<(Before, Vec<usize>)> = vec![
        (PLAIN, if cx.thorough { vec![1, 2, 3, 4, 5, 8, 16] } else { vec![1, 2, 8] }),
        (Before { nf: 5, mq: 1.7, ..PLAIN }, vec![3]),
        (Before { nc: 2, nf: 0, ..PLAIN }, vec![4]),
        (Before { tol: 1e-2, iter: 3, reg: Some(1e-4), ..PLAIN }, vec![8]),
    ];
    let settings: Vec<_> = if cx.thorough {
        let acc = (Before { tol: 1e-10, ..PLAIN }, vec![8]);
        settings
            .into_iter()
            .chain([(Before { nc: 5, nf: 3, mq: 0.01, ..PLAIN }, vec![1, 8]), (Before { tol: 1e-4, iter: 10, ..PLAIN }, vec![2, 8]), acc])
            .collect()
    } else {
        settings
    };
    for pl in plans() {
        let pg = Prog { bin: format!("{bins}/{}", pl.name) };
        cx.sample(format!("{}: {} sectors, {} chemical potentials", pl.name, pl.sectors.len() * pl.flavours.len(), pl.mus.len()));
        for (b, threads) in &settings {
            let w = want(&pl, b);
            let rel = if b.tol >= 1. { 1e-7 } else { 1e-5 };
            threads.par_iter().for_each(|&th| {
                let d = sc.dir(&format!("{}-{th}-{}-{}", pl.name, b.nf, b.nc));
                for round in 0..if th == 2 { 3 } else { 1 } {
                    let out = d.join("target/tc_long_prop").join(pl.name);
                    if round == 2 {
                        // whatever was there before
                        for e in std::fs::read_dir(&out).into_iter().flatten().flatten() {
                            let _ = std::fs::write(e.path(), "0\t0\t0\t0\t0\n".repeat(1000));
                        }
                    }
                    let mut env = vec![
                        ("OV_TOL", format!("{:e}", b.tol)),
                        ("OV_ITER", b.iter.to_string()),
                        ("OV_NC", b.nc.to_string()),
                        ("OV_NF", b.nf.to_string()),
                        ("OV_MQ", b.mq.to_string()),
                    ];
                    if let Some(r) = b.reg {
                        env.push(("OV_REG", format!("{r:e}")));
                    }
                    let what = format!("{} workers, {b:?}, {}", th, ["fresh", "again", "over other files"][round]);
                    match pg.run_with(&d, &[], th, &env, if cx.thorough { 1500 } else { 240 }) {
                        Status::Ok => (),
                        s => {
                            return cx.violation(format!("{} status", pl.name), format!("{} ({what}) ended with {s:?}", pl.name));
                        }
                    }
                    cx.trans(1);
                    compare(cx, &pl, &what, rel, &w, &files(&d, &pl));
                    if cx.nv() > 0 {
                        return;
                    }
                }
                let _ = std::fs::remove_dir_all(&d);
            });
            if cx.nv() > 0 {
                return;
            }
        }
    }
}

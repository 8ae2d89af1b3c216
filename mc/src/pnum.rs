//! Properties decided by exhaustive exploration of bounded input lattices.
use crate::base::*;
use crate::intr::*;
use crate::lattice::{self, *};
use crate::num_e::*;
use crate::quad::*;
use crate::refm::{self, Lim, G};
use crate::registry::FNS;
use rayon::prelude::*;

const TH: &str = "low_level::oneloop::thermal";

pub fn lvl(cx: &Ctx) -> u8 {
    1 + cx.thorough as u8
}

/// all points of a pointwise function's lattice
fn points(f: &F, mask: u8, lv: u8, co: bool, visit: &mut dyn FnMut(&A)) {
    pair_points(f, mask, lv, visit);
    if !f.is_integral() {
        wide(f, mask, [4000, 8000, 40000][lv as usize], visit);
    }
    if co {
        coincidences(f, mask, visit);
        signs(f, mask, visit);
    }
}

/// every `st`-th point, starting at a place that depends on the function
pub fn strided(f: &F, mask: u8, lv: u8, st: usize, visit: &mut dyn FnMut(&A)) {
    let mut k = f.id as usize;
    points(f, mask, lv, true, &mut |a: &A| {
        k += 1;
        if k % st == 0 {
            visit(a)
        }
    });
}

fn is_ref(f: &F) -> bool {
    let mut a = A::new();
    a.set(M, 1.).set(P, 1.).set(Q, 1.).set(BETA, 1.);
    refm::pointwise(f, &a, G { nc: 3., nf: 1., mq: 0.5 }).is_some()
}

fn set_nc(nc: u32) {
    qcd_sme::consts::set_number_of_colors(nc);
}
fn set_nf(nf: u32) {
    qcd_sme::consts::set_number_of_fermions(nf);
}

/// compare every listed function with the reference model over its lattice
pub fn pointwise_all(cx: &Ctx, what: &str, lv: u8, st: usize, sel: &(dyn Fn(&F) -> bool + Sync)) {
    let g = refm::globals();
    let jobs: Vec<(&F, &V)> = FNS
        .iter()
        .filter(|f| sel(f) && is_ref(f))
        .flat_map(|f| f.vars.iter().map(move |v| (f, v)))
        .collect();
    if let Some((f, v)) = jobs.get(jobs.len() / 2) {
        let mut a = bases(lv)[0].clone();
        realify(f, v.mask, &mut a);
        cx.sample(f.desc(v, &a));
    }
    jobs.par_iter().for_each(|(f, v)| {
        let mut n = 0;
        strided(f, v.mask, lv, st, &mut |a: &A| {
            n += 1;
            let want = refm::pointwise(f, a, g).unwrap();
            cx.check(what, f, v, a, eval(v, a), want);
        });
        cx.state(n);
    });
}

/// every (function, instantiation, point) of the integral lattices
pub fn ijobs(lv: u8, sel: &(dyn Fn(&F) -> bool + Sync)) -> Vec<(&'static F, &'static V, A)> {
    ijobs_st(lv, 1, sel)
}
pub fn ijobs_st(lv: u8, st: usize, sel: &(dyn Fn(&F) -> bool + Sync)) -> Vec<(&'static F, &'static V, A)> {
    let fv: Vec<(&'static F, &'static V)> =
        integral_fns().into_iter().filter(|f| sel(f)).flat_map(|f| f.vars.iter().map(move |v| (f, v))).collect();
    fv.par_iter()
        .flat_map_iter(|&(f, v)| ipoints_st(f, v.mask, lv, st).into_iter().map(move |a| (f, v, a)))
        .collect()
}

/// The library's integrals with a tolerance that everything meets: a rule with fixed nodes. Values are
/// far from the integrals, but all relations between functions at equal arguments hold, up to
/// rounding, for those too; and they are so cheap that wide lattices can be explored.
pub fn crude(f: impl FnOnce()) {
    qcd_sme::consts::set_default_tol_integral(CRUDE);
    f();
    qcd_sme::consts::set_default_tol_integral(1e-10);
}
const CRUDE: f64 = 1e200;
pub fn wjobs(cx: &Ctx, cap: usize, sel: &(dyn Fn(&F) -> bool + Sync)) -> Vec<(&'static F, &'static V, A)> {
    let cfgs = small_cfgs();
    let fv: Vec<(&'static F, &'static V)> =
        integral_fns().into_iter().filter(|f| sel(f)).flat_map(|f| f.vars.iter().map(move |v| (f, v))).collect();
    let cap = if cx.thorough { 12 * cap } else { cap };
    fv.par_iter()
        .flat_map_iter(|&(f, v)| {
            let mut o = vec![];
            wide(f, v.mask, cap, &mut |a| {
                let mut a = a.clone();
                a.tol = CRUDE;
                if f.cfg {
                    a.cfg = cfgs[o.len() % cfgs.len()].clone();
                }
                o.push((f, v, a));
            });
            o
        })
        .collect()
}
/// rounding of the integrals
fn crude_abs(f: &F, a: &A) -> f64 {
    100. * noise(f, a) * integ_tol(f, a) / 300. + 1e-60
}
/// tolerance of a crude value: rounding only
pub fn crude_tol(f: &F, a: &A, x: C) -> E {
    let mut e = tol_with(f, a, x, crude_abs(f, a));
    e.e += 1e-7 * x.norm() / SLACK;
    if let Some(h) = hi(f) {
        // rounding of the vacuum part
        let (y, sd) = inverse_ref(f, &h, a, refm::globals(), &mut |_, _| E::real(0.));
        e.e += y.e * match h.what {
            0 => 1.,
            1 => x.norm_sqr(),
            _ => x.norm_sqr() * sd.v.norm(),
        };
        e.f |= y.f;
    }
    e
}

/// a library value with an absolute error
fn appr(x: C, abs: f64, rel: f64) -> E {
    let mut e = E::new(x);
    e.e = (abs + rel * x.norm()) / SLACK;
    e
}

// ------------------------------------------------------------------- C22

pub fn c22(cx: &Ctx) {
    let vac = |f: &F| {
        f.path == "low_level::oneloop::ghost"
            || f.path == "low_level::oneloop::gluon"
            || (["ym::ghost", "ym::gluon", "qcd::ghost", "qcd::gluon"].contains(&f.path))
    };
    pointwise_all(cx, "closed form", lvl(cx), 1, &vac);
    // several flavour/colour numbers
    for (nc, nf) in [(2, 2), (3, 0), (5, 3), (3, 6)] {
        set_nc(nc);
        set_nf(nf);
        pointwise_all(cx, "closed form", 0, 1, &|f: &F| f.path == "qcd::gluon" && !f.cfg);
    }
    set_nc(3);
    set_nf(1);
    // precomputed logarithms
    let g = refm::globals();
    for (f, s) in [("f", "f_sep"), ("f_xi", "f_xi_sep"), ("g", "g_sep"), ("g_xi", "g_xi_sep")] {
        let path = if f.starts_with('f') { "low_level::oneloop::gluon" } else { "low_level::oneloop::ghost" };
        let (f, s) = (func(path, f), func(path, s));
        for v in f.vars {
            let w = if v.mask == 0 { s.var(0).unwrap() } else { s.all_complex() };
            let mut n = 0;
            points(f, v.mask, lvl(cx), false, &mut |a| {
                n += 1;
                let mut b = a.clone();
                if v.mask == 0 {
                    b.set(LNS, a.re(S).ln()).set(LNS1, a.re(S).ln_1p());
                } else {
                    b.v[LNS] = a.v[S].ln();
                    b.v[LNS1] = (a.v[S] + 1.).ln();
                }
                let mut want = refm::pointwise(f, a, g).unwrap();
                let e2 = refm::pointwise(s, &b, g).unwrap();
                want.e += e2.e;
                want.f |= e2.f;
                cx.same(
                    &format!("precomputed logarithms {}", f.full()),
                    &|| format!("{} versus {}", f.desc(v, a), s.desc(w, &b)),
                    eval(v, a),
                    eval(w, &b),
                    v.real,
                    want,
                );
            });
            cx.state(n);
        }
    }
    // analyticity: contour integrals around all cells of a polar grid
    let nodes = gauss32();
    let (nr, na) = if cx.thorough { (40, 40) } else { (16, 18) };
    let (r0, r1) = (1e-3f64, 1e4f64);
    let a1 = std::f64::consts::PI - 0.15;
    let mut cells = vec![];
    for i in 0..nr {
        for k in 0..na {
            let ra = r0 * (r1 / r0).powf(i as f64 / nr as f64);
            let rb = r0 * (r1 / r0).powf((i + 1) as f64 / nr as f64);
            let aa = -a1 + 2. * a1 * k as f64 / na as f64;
            let ab = -a1 + 2. * a1 * (k + 1) as f64 / na as f64;
            cells.push((ra, rb, aa, ab));
        }
    }
    let fns: Vec<(&F, &V)> = FNS
        .iter()
        .filter(|f| {
            (["low_level::oneloop::ghost", "low_level::oneloop::gluon"].contains(&f.path) && !f.name.contains("sep"))
                || (f.path.starts_with("ym::g") || f.path.starts_with("qcd::g")) && f.name.contains("inv")
        })
        .map(|f| (f, f.vars.iter().find(|v| f.complex_params(v.mask) == [S]).unwrap_or(f.all_complex())))
        .collect();
    fns.par_iter().for_each(|(f, v)| {
        for b in ibases(1).iter().enumerate().map(|(i, b)| {
            let mut b = b.clone();
            b.set(XI, [0.3, -1.5, 5., 0.][i]);
            b
        }) {
            for &(ra, rb, aa, ab) in &cells {
                cx.state(1);
                let mut tot = C::new(0., 0.);
                let (mut abs, mut err) = (0., 0.);
                let mut bad = false;
                // log-radial and angular edges
                let mut edge = |x0: C, x1: C| {
                    // finer panels close to the cut
                    let np = if x0.im.abs().max(x1.im.abs()) > 2.4 { 6 } else { 1 };
                    for k in 0..np * nodes.len() {
                        let (x, w) = nodes[k % nodes.len()];
                        let (x0, x1) = (
                            x0 + (x1 - x0) * ((k / nodes.len()) as f64 / np as f64),
                            x0 + (x1 - x0) * ((k / nodes.len() + 1) as f64 / np as f64),
                        );
                        let z = x0 + (x1 - x0) * (0.5 * (1. + x));
                        let s = z.exp();
                        let mut a = b.clone();
                        a.v[S] = s;
                        let y = eval(v, &a);
                        cx.trans(1);
                        let e = refm::pointwise(f, &a, g).unwrap();
                        let Ok(y) = y else {
                            bad = true;
                            continue;
                        };
                        let wt = s * (x1 - x0) * 0.5 * w;
                        tot += y * wt;
                        abs += y.norm() * wt.norm();
                        err += (e.e * SLACK + 1e-12 * y.norm()) * wt.norm();
                        bad |= !finite(y);
                    }
                };
                edge(c(ra.ln(), aa), c(rb.ln(), aa));
                edge(c(rb.ln(), aa), c(rb.ln(), ab));
                edge(c(rb.ln(), ab), c(ra.ln(), ab));
                edge(c(ra.ln(), ab), c(ra.ln(), aa));
                cx.valid(1);
                let lim = 1e-7 * abs + 10. * err;
                cx.ratio(&format!("contour {}", f.full()), tot.norm() / lim, || format!("{ra} {rb} {aa} {ab}"));
                if bad || !(tot.norm() <= lim) {
                    cx.violation(
                        format!("contour {}", f.full()),
                        format!(
                            "{}: the contour integral around the cell {ra:e} < |s| < {rb:e}, {aa:.4} < arg s < {ab:.4} is {:e}, not 0 within {lim:e} ({})",
                            f.full(), tot.norm(), f.desc(v, &b)
                        ),
                    );
                }
            }
        }
    });
}

pub fn gauss32() -> Vec<(f64, f64)> {
    // Gauss-Legendre nodes by Newton iteration
    let n = 32;
    let mut v = vec![];
    for i in 0..n {
        let mut x = (std::f64::consts::PI * (i as f64 + 0.75) / (n as f64 + 0.5)).cos();
        let mut dp = 0.;
        for _ in 0..100 {
            let (mut p0, mut p1) = (1., x);
            for k in 2..=n {
                let p2 = ((2 * k - 1) as f64 * x * p1 - (k - 1) as f64 * p0) / k as f64;
                p0 = p1;
                p1 = p2;
            }
            dp = n as f64 * (x * p1 - p0) / (x * x - 1.);
            let d = p1 / dp;
            x -= d;
            if d.abs() < 1e-16 {
                break;
            }
        }
        v.push((x, 2. / ((1. - x * x) * dp * dp)));
    }
    v
}

// ------------------------------------------------------------------- C16

pub fn c16(cx: &Ctx) {
    let sel = |f: &F| f.path.starts_with("common") || f.path == "low_level::common";
    pointwise_all(cx, "definition", lvl(cx), 1, &sel);
    let p = "common::thermal";
    let fd = func(p, "fermi_distribution");
    let f2 = func(p, "fermi_distribution_double");
    let f0 = func(p, "fermi_distribution_zero_chempot");
    let bd = func(p, "bose_distribution");
    let b0 = func(p, "bose_distribution_zero_chempot");
    let z1 = func(p, "fermi_distribution_zero_temp");
    let z2 = func(p, "fermi_distribution_double_zero_temp");
    let real = |f: &F, a: &A| (f.var(0).unwrap().call)(a).re;
    let lv = lvl(cx);
    let mut ens: Vec<f64> = reals(EN, lv);
    ens.extend([0., 1e-300, -1e-300, 1e300, -1e300, f64::MAX, f64::MIN_POSITIVE, 700., 709.7, 709.8, 710., 745.2, -745.2, 36.7, 37.5]);
    let mut betas = reals(BETA, lv);
    betas.extend([1e-300, 1e-30, 1e30, 1e300]);
    let mut mus = reals(MU, lv);
    mus.extend([1e300, -1e300, 1e-300, 700., -709.9]);
    let jobs: Vec<f64> = ens.clone();
    jobs.par_iter().for_each(|&en| {
        let mut n = 0;
        let mut mus = mus.clone();
        for k in [1., -1.] {
            mus.extend([en * k, en * k * (1. + 1e-15), en * k * (1. - 1e-15), en * k + 1., en * k - 1.]);
        }
        for &beta in &betas {
            for &mu in &mus {
                if !mu.is_finite() {
                    continue;
                }
                n += 1;
                let mut a = A::new();
                a.set(EN, en).set(BETA, beta).set(MU, mu);
                let mut an = a.clone();
                an.set(MU, -mu);
                let mut ah = a.clone();
                ah.set(EN, -en).set(MU, -mu);
                let x = real(fd, &a);
                let xn = real(fd, &an);
                let xh = real(fd, &ah);
                let xd = real(f2, &a);
                let y = real(bd, &a);
                cx.trans(5);
                cx.valid(1);
                // x(E - mu) in a form that does not overflow spuriously
                let nan_ok = ((en - mu) * beta).is_nan();
                let mut bad = |what: &str, v: f64| {
                    cx.violation(
                        what.to_string(),
                        format!("{what}: energy {en:e}, beta {beta:e}, chemical potential {mu:e}: {v:e}"),
                    )
                };
                if !nan_ok {
                    if !(0. ..=1.).contains(&x) {
                        bad("Fermi occupation outside [0,1]", x);
                    }
                    if x.is_nan() || xd.is_nan() || xh.is_nan() {
                        bad("NaN Fermi distribution", x);
                    }
                    if !((x + xh - 1.).abs() <= 1e-9) {
                        bad("particle plus hole occupation is not one", x + xh);
                    }
                    if !((x + xn - xd).abs() <= 1e-9 * xd.abs() + 1e-300) {
                        bad("doubled distribution is not the sum over both signs", xd);
                    }
                    if y.is_nan() || (y.is_infinite() && (en - mu) * beta != 0.) {
                        // a subnormal product may still overflow in the inverse
                        if ((en - mu) * beta).abs() > 1e-15 {
                            bad("Bose distribution without a value off its pole", y);
                        }
                    }
                    if ((en - mu) * beta).abs() > 1e-15 && (en > mu && y < 0. || en < mu && y > 0.) {
                        bad("Bose distribution has the wrong sign", y);
                    }
                }
                // relation between the statistics: 1/(e^x-1) - 2/(e^2x-1) = 1/(e^x+1)
                let u = (en - mu) * beta;
                if u.abs() > 1e-3 && u.abs() < 300. {
                    let mut a2 = a.clone();
                    a2.set(BETA, 2. * beta);
                    let y2 = real(bd, &a2);
                    let d = y - 2. * y2 - x;
                    if !(d.abs() <= 1e-11 * (y.abs() + 2. * y2.abs() + x)) {
                        bad("Bose and Fermi distributions are inconsistent", d);
                    }
                }
                // limits
                let zt = real(z1, &a);
                let want = if en < mu || en == mu { 1. } else { 0. };
                if en != mu && zt != want {
                    bad("zero-temperature distribution is not the step", zt);
                }
                let d = real(z2, &a);
                let w2 = (en <= mu) as u8 as f64 + (en <= -mu) as u8 as f64;
                if en != mu && en != -mu && d != w2 {
                    bad("doubled zero-temperature distribution is not the sum of steps", d);
                }
                if u.abs() > 50. && (x - want).abs() > 1e-15 {
                    bad("Fermi distribution does not approach the step", x);
                }
                if mu == 0. {
                    if !((real(f0, &a) - x).abs() <= 1e-9 * x + 1e-300) {
                        bad("zero-chemical-potential Fermi distribution differs", real(f0, &a));
                    }
                    let q = real(b0, &a);
                    if !((q - y).abs() <= 1e-9 * y.abs() + 1e-300) && !(q.is_infinite() && y.is_infinite()) && !(q.is_nan() && y.is_nan()) {
                        bad("zero-chemical-potential Bose distribution differs", q);
                    }
                }
            }
        }
        cx.state(n);
    });
}

// ------------------------------------------------------------------- C14

pub fn c14(cx: &Ctx) {
    let sel = |f: &F| f.path.starts_with(TH);
    pointwise_all(cx, "one-loop integrand", lvl(cx), if cx.thorough { 1 } else { 4 }, &sel);
    for nc in [2, 6] {
        set_nc(nc);
        pointwise_all(cx, "one-loop integrand", 0, if cx.thorough { 1 } else { 2 }, &|f: &F| f.path.starts_with(TH) && f.name.contains("quark"));
    }
    set_nc(3);
    let g = refm::globals();
    let reg = qcd_sme::consts::get_matsubara_reg();
    // integrals
    let jobs = ijobs_st(cx.thorough as u8, if cx.thorough { 1 } else { 2 }, &|f: &F| integrand(f).is_some());
    if let Some((f, v, a)) = jobs.get(jobs.len() / 3) {
        cx.sample(f.desc(v, a));
    }
    jobs.par_iter().enumerate().for_each(|(i, (f, v, a))| {
        cx.state(1);
        // every point against the integral of the library's own integrand (which
        // is checked pointwise above), a fixed subset of them against the reference
        let own = i % if cx.thorough { 4 } else { 16 } != 0;
        let q = integral_ref(f, a, g, reg, own).unwrap();
        let tol = integ_tol(f, a);
        let mut want = from_qi(&q, tol);
        if a.v[P].im != 0. {
            // the integrand jumps where the logarithms cross their cuts
            want.e += 3e-3 * q.abs / SLACK;
        }
        cx.check("one-loop integral", f, v, a, eval(v, a), want);
    });
    // all regimes: the tolerance follows the size of the integral
    let jobs = wjobs(cx, 500, &|f: &F| integrand(f).is_some() && f.integral);
    cx.sample(format!("{} integrals in all regimes", jobs.len()));
    jobs.par_iter().for_each(|(f, v, a)| {
        if a.v[P].im != 0. || (f.has(MU) && f.has(BETA) && a.re(MU).abs() * a.re(BETA) > 60.) || (f.has(BETA) && f.has(P) && a.re(BETA) * a.re(P) > 300.) {
            cx.skip(1);
            return;
        }
        let q = integral_ref(f, a, g, reg, true).unwrap();
        let mut a = a.clone();
        a.tol = (1e-7 * q.v.norm()).max(1e-14);
        a.iter = 40;
        if noise(f, &a) > 0.1 || q.e > 1e-2 * q.v.norm() {
            cx.skip(1);
            return;
        }
        cx.state(1);
        cx.check("one-loop integral", f, v, &a, eval(v, &a), from_qi(&q, integ_tol(f, &a)));
    });
    let jobs = wjobs(cx, 1500, &|f: &F| integrand(f).is_some() && !f.integral);
    crude(|| {
        jobs.par_iter().for_each(|(f, v, a)| {
            let w = func(f.path, &format!("{}_w_method", f.name));
            let Some(wv) = w.var(v.mask) else { return };
            let mut a = a.clone();
            a.iter = 50;
            cx.state(1);
            cx.same_lazy(
                &format!("default method {}", f.full()),
                &|| format!("default and explicit method: {} and {}", f.desc(v, &a), w.desc(wv, &a)),
                eval(v, &a),
                eval(wv, &a),
                v.real,
                |x| crude_tol(f, &a, x),
            );
        })
    });
    // assembly of the dressing functions
    let jobs = ijobs_st(cx.thorough as u8, if cx.thorough { 1 } else { 3 }, &|f: &F| hi(f).is_some_and(|h| h.what == 0) && !f.cfg);
    jobs.par_iter().for_each(|(f, v, a)| {
        cx.state(1);
        let want = assembled(cx, f, a, g, 1e-10);
        cx.check("dressing function", f, v, a, eval(v, a), want);
    });
    let jobs = wjobs(cx, 2500, &|f: &F| hi(f).is_some());
    cx.sample(format!("{} points of dressing functions, with fixed nodes", jobs.len()));
    crude(|| {
        jobs.par_iter().for_each(|(f, v, a)| {
            cx.state(1);
            let x = eval(v, a);
            let mut want = assembled(cx, f, a, g, 0.);
            if let Ok(x) = &x {
                if !((if v.real { C::from((x.re - want.v.re).abs()) } else { x - want.v }).norm() <= want.tol()) {
                    want = assembled(cx, f, a, g, crude_abs(f, a));
                }
            }
            cx.check("dressing function", f, v, a, x, want);
        })
    });
}
/// a dressing function made of the library's integrals, each with an absolute error
fn assembled(cx: &Ctx, f: &F, a: &A, g: G, abs: f64) -> E {
    let mut part = |fp: &F, b: &A| {
        let vp = fp.all_complex();
        if b.v[P].im != 0. && fp.has(P) && !fp.complex_params(vp.mask).contains(&P) {
            return appr(r(f64::NAN), 0., 0.);
        }
        cx.trans(1);
        match eval(vp, b) {
            Ok(x) => appr(x, abs, 1e-10),
            Err(_) => appr(r(f64::NAN), 0., 0.),
        }
    };
    dressing_ref(f, a, g, &mut part).unwrap()
}

/// absolute accuracy to expect from the library's adaptive integration
pub fn integ_tol(f: &F, a: &A) -> f64 {
    let t = if f.integral {
        a.tol
    } else if f.path.contains("zero_matsubara") && f.path.contains("gluon") {
        1e-8
    } else {
        qcd_sme::consts::get_default_tol_integral()
    };
    300. * t
}

// ------------------------------------------------------------------- C09

/// the general function of which `f` is a special case, and how its arguments follow
fn general(f: &F) -> Option<(&'static F, fn(&F, &A) -> A)> {
    let n = f.name;
    let find = |name: String| FNS.iter().find(|g| g.path == f.path && g.name == name);
    let th = f.path.starts_with(TH);
    if th && f.has(Q) && !f.path.contains("gluon") && !f.path.contains("ghost") {
        if n == "d_i_m_t_0_i" {
            return Some((find("d_i_m_0_t_i".into())?, |_, a| a.clone()));
        }
        if n.starts_with("tlog") && n.ends_with("_same_mass") {
            return Some((find(n.replace("_same_mass", ""))?, |_, a| a.clone().with(DELTA, r(0.))));
        }
        if n.starts_with("tlog") && n.ends_with("_zero_mass") {
            return Some((find(n.replace("_zero_mass", "_same_mass"))?, |_, a| a.clone().with(EN, a.v[Q])));
        }
        if n.ends_with("_same_mass") {
            return Some((find(n.replace("_same_mass", ""))?, |_, a| a.clone().with(M1, a.v[M]).with(M2, a.v[M])));
        }
        if n.contains("i_m_0") {
            return Some((find(n.replace("i_m_0", "i_m_m"))?, |_, a| a.clone().with(M1, a.v[M]).with(M2, r(0.))));
        }
        if n.contains("i_0_0") {
            return Some((find(n.replace("i_0_0", "i_m_0"))?, |_, a| a.clone().with(M, r(0.))));
        }
        if n.contains("j_0") {
            return Some((find(n.replace("j_0", "j_m"))?, |_, a| a.clone().with(M, r(0.))));
        }
    }
    if !th && !f.path.contains("thermal") && n.contains("_landau") {
        return Some((find(n.replace("_landau", ""))?, |_, a| a.clone().with(XI, r(0.))));
    }
    None
}

pub fn relate(
    cx: &Ctx,
    what: &str,
    lv: u8,
    f: &'static F,
    g2: &'static F,
    tr: &(dyn Fn(&F, &A) -> A + Sync),
) {
    let g = refm::globals();
    f.vars.par_iter().for_each(|v| {
        let mut n = 0;
        points(f, v.mask, lv, true, &mut |a| {
            n += 1;
            let b = tr(f, a);
            let mut want = refm::pointwise(f, a, g).unwrap();
            let e2 = refm::pointwise(g2, &b, g).unwrap();
            want.e += e2.e;
            want.f |= e2.f;
            if !finite(e2.v) {
                cx.skip(1);
                return;
            }
            let x = eval(v, a);
            for w in g2.vars {
                let cp = g2.complex_params(w.mask);
                // only instantiations that take these arguments
                if g2.params.iter().any(|p| b.v[*p].im != 0. && !cp.contains(p)) {
                    continue;
                }
                cx.same(
                    &format!("{what} {}", f.full()),
                    &|| format!("{what}: {} versus {}", f.desc(v, a), g2.desc(w, &b)),
                    x.clone(),
                    eval(w, &b),
                    v.real || w.real,
                    want,
                );
            }
        });
        cx.state(n);
    });
}

pub fn c09(cx: &Ctx) {
    let lv = if cx.thorough { 1 } else { 0 };
    let mut jobs: Vec<(&'static F, &'static F, Box<dyn Fn(&F, &A) -> A + Sync + Send>)> = vec![];
    for f in FNS {
        if let Some((g, tr)) = general(f) {
            jobs.push((f, g, Box::new(tr)));
        }
        // exchange of the masses
        if f.path.starts_with(TH) && f.name.starts_with("i_m_m") && f.has(M1) {
            jobs.push((f, f, Box::new(|_: &F, a: &A| a.clone().with(M1, a.v[M2]).with(M2, a.v[M1]))));
        }
    }
    cx.note(format!("{} pairs of special and general functions", jobs.len()));
    for (f, g, _) in jobs.iter().step_by(9) {
        cx.sample(format!("{} -> {}", f.full(), g.full()));
    }
    jobs.par_iter().for_each(|(f, g, tr)| relate(cx, "special case", lv, f, g, &**tr));
}

// ------------------------------------------------------------------- C08

pub fn c08(cx: &Ctx) {
    let lv = if cx.thorough { 1 } else { 0 };
    let st = if cx.thorough { 1 } else { 3 };
    let g = refm::globals();
    let jobs: Vec<(&F, &V)> = FNS
        .iter()
        .filter(|f| is_ref(f))
        .flat_map(|f| f.vars.iter().filter(|v| v.mask != 0).map(move |v| (f, v)))
        .collect();
    let tlog = |f: &F| f.name.starts_with("tlog") && f.has(OM);
    jobs.par_iter().for_each(|(f, v)| {
        let v0 = f.var(0).unwrap();
        let cp = f.complex_params(v.mask);
        let mut n = 0;
        // real arguments, as real and as complex numbers
        strided(f, 0, lv, st, &mut |a| {
            n += 1;
            let want = refm::pointwise(f, a, g).unwrap();
            let x = eval(v0, a);
            if matches!(x, Ok(x) if x.re.is_nan()) {
                cx.skip(1);
                return;
            }
            cx.same(
                &format!("real versus complex {} mask {}", f.full(), v.mask),
                &|| format!("real versus complex: {} and {}", f.desc(v0, a), f.desc(v, a)),
                x,
                eval(v, a),
                v0.real,
                want,
            );
        });
        strided(f, v.mask, lv, st, &mut |a| {
            n += 1;
            let want = refm::pointwise(f, a, g).unwrap();
            let x = eval(v, a);
            // conjugation
            let mut b = a.clone();
            for p in &cp {
                b.v[*p] = a.v[*p].conj();
            }
            if tlog(f) {
                b.v[OM] = -b.v[OM];
            }
            let y = eval(v, &b).map(|y| y.conj());
            cx.same(
                &format!("conjugation {} mask {}", f.full(), v.mask),
                &|| format!("conjugation: {} and {}", f.desc(v, a), f.desc(v, &b)),
                x.clone(),
                y,
                false,
                want,
            );
        });
        cx.state(n);
    });
    // evenness in the frequency
    let jobs: Vec<(&F, &V)> = FNS
        .iter()
        .filter(|f| is_ref(f) && f.has(OM) && !tlog(f))
        .flat_map(|f| f.vars.iter().map(move |v| (f, v)))
        .collect();
    jobs.par_iter().for_each(|(f, v)| {
        let mut n = 0;
        strided(f, v.mask, lv, st, &mut |a| {
            n += 1;
            let want = refm::pointwise(f, a, g).unwrap();
            let b = a.clone().with(OM, -a.v[OM]);
            cx.same(
                &format!("evenness {} mask {}", f.full(), v.mask),
                &|| format!("evenness in the frequency: {} and {}", f.desc(v, a), f.desc(v, &b)),
                eval(v, a),
                eval(v, &b),
                false,
                want,
            );
        });
        cx.state(n);
    });
    // the same for the integrated and the dressing functions
    let st = if cx.thorough { 1 } else { 7 };
    let jobs: Vec<_> = ijobs_st(0, st, &|f: &F| f.has(OM));
    cx.sample(format!("{} points of integrated functions", jobs.len()));
    jobs.par_iter().for_each(|(f, v, a)| reflections(cx, f, v, a, &hi_tol));
    let jobs = wjobs(cx, 2500, &|f: &F| f.has(OM));
    cx.sample(format!("{} points of integrated functions, with fixed nodes", jobs.len()));
    crude(|| jobs.par_iter().for_each(|(f, v, a)| reflections(cx, f, v, a, &crude_tol)));
}
fn reflections(cx: &Ctx, f: &F, v: &V, a: &A, tol: &(dyn Fn(&F, &A, C) -> E + Sync)) {
    cx.state(1);
    let x = eval(v, a);
    let Ok(xv) = x else {
        cx.violation(format!("panic {}", f.full()), format!("{} panicked", f.desc(v, a)));
        return;
    };
    let b = a.clone().with(OM, -a.v[OM]);
    cx.same_lazy(
        &format!("evenness {} mask {}", f.full(), v.mask),
        &|| format!("evenness in the frequency: {} and {}", f.desc(v, a), f.desc(v, &b)),
        Ok(xv),
        eval(v, &b),
        false,
        |x| tol(f, a, x),
    );
    if v.mask != 0 {
        let mut b = a.clone();
        for p in f.complex_params(v.mask) {
            b.v[p] = a.v[p].conj();
        }
        cx.same_lazy(
            &format!("conjugation {} mask {}", f.full(), v.mask),
            &|| format!("conjugation: {} and {}", f.desc(v, a), f.desc(v, &b)),
            Ok(xv),
            eval(v, &b).map(|y| y.conj()),
            false,
            |x| tol(f, a, x),
        );
    } else {
        for w in f.vars.iter().filter(|w| w.mask != 0) {
            cx.same_lazy(
                &format!("real versus complex {}", f.full()),
                &|| format!("real versus complex: {} and {}", f.desc(v, a), f.desc(w, a)),
                Ok(xv),
                eval(w, a),
                v.real || w.real,
                |x| tol(f, a, x),
            );
        }
    }
}

/// Tolerance of a function which contains integrals: absolute accuracy of the
/// integrals, propagated to the result.
pub fn hi_tol(f: &F, a: &A, x: C) -> E {
    tol_with(f, a, x, integ_tol(f, a).min(3e-8) * 0.1)
}
fn tol_with(f: &F, a: &A, x: C, t: f64) -> E {
    match hi(f) {
        None => appr(x, t, 1e-9),
        Some(h) => {
            let om = if h.lim == Lim::ZeroOm { r(0.) } else { a.v[OM] };
            let p = if h.lim == Lim::ZeroP { r(0.) } else { a.v[P] };
            let sd = (om * om + p * p).norm();
            let n = 1. + if f.cfg { a.cfg.quarks.iter().map(|q| q.0).sum::<u32>() as f64 } else { qcd_sme::consts::get_number_of_fermions() as f64 };
            // error of the inverse dressing, including that of its large terms
            let e = PREF / sd * t * n + 1e-9;
            match h.what {
                0 => appr(x, e, 1e-9),
                1 => appr(x, e * x.norm_sqr(), 1e-9),
                _ => appr(x, e * x.norm_sqr() * sd, 1e-9),
            }
        }
    }
}

// ------------------------------------------------------------------- C13

pub fn c13(cx: &Ctx) {
    let lv = if cx.thorough { 1 } else { 0 };
    // all families: (path, dressing name)
    let fam: Vec<&'static F> = FNS.iter().filter(|f| f.name.starts_with("dressing") && f.name.contains("inv") && !f.path.starts_with("low_level")).collect();
    cx.note(format!("{} families", fam.len()));
    let mut n_thermal = vec![];
    for fi in fam {
        let nd = fi.name.replace("_inv", "");
        let np = nd.replace("dressing", "propagator");
        let fd = func(fi.path, &nd);
        let fp = func(fi.path, &np);
        cx.sample(format!("{} / {} / {}", fi.full(), nd, np));
        if fi.path.contains("thermal") {
            n_thermal.push((fi, fd, fp));
            continue;
        }
        let cfgs = small_cfgs();
        fi.vars.par_iter().for_each(|vi| {
            let (Some(vd), Some(vp)) = (same_mask(fi, vi, fd), same_mask(fi, vi, fp)) else { return };
            let mut k = 0;
            points(fi, vi.mask, lv, true, &mut |a| {
                let mut a = a.clone();
                if fi.cfg {
                    a.cfg = cfgs[k % cfgs.len()].clone();
                }
                k += 1;
                consistency(cx, fi, vi, fd, vd, fp, vp, &a, a.v[S]);
                // close to a pole
                for d in [1e-3, 1e-6, 1e-8] {
                    near_pole(cx, fi, vi, fd, vd, fp, vp, &a, a.v[S], d);
                }
            });
            cx.state(k as u64);
        });
    }
    let cfgs = small_cfgs();
    let jobs = ijobs_st(0, if cx.thorough { 1 } else { 7 }, &|f: &F| n_thermal.iter().any(|x| std::ptr::eq(x.0, f)));
    jobs.par_iter().enumerate().for_each(|(k, (f, v, a))| {
        let (fi, fd, fp) = n_thermal.iter().find(|x| std::ptr::eq(x.0, *f)).unwrap();
        let h = hi(fi).unwrap();
        // (some dressing functions take real frequencies only)
        let (Some(vd), Some(vp)) = (same_mask(fi, v, fd), same_mask(fi, v, fp)) else { return };
        cx.state(1);
        let mut a = a.clone();
        if fi.cfg {
            a.cfg = cfgs[k % cfgs.len()].clone();
        }
        let om = if h.lim == Lim::ZeroOm { r(0.) } else { a.v[OM] };
        let p = if h.lim == Lim::ZeroP { r(0.) } else { a.v[P] };
        consistency(cx, fi, v, fd, vd, fp, vp, &a, om * om + p * p);
        near_pole(cx, fi, v, fd, vd, fp, vp, &a, om * om + p * p, 1e-3);
    });
    // all regimes, with fixed nodes
    let jobs = wjobs(cx, 4000, &|f: &F| n_thermal.iter().any(|x| std::ptr::eq(x.0, f)));
    crude(|| {
        jobs.par_iter().for_each(|(f, v, a)| {
            let (fi, fd, fp) = n_thermal.iter().find(|x| std::ptr::eq(x.0, *f)).unwrap();
            let h = hi(fi).unwrap();
            let (Some(vd), Some(vp)) = (same_mask(fi, v, fd), same_mask(fi, v, fp)) else { return };
            cx.state(1);
            let om = if h.lim == Lim::ZeroOm { r(0.) } else { a.v[OM] };
            let p = if h.lim == Lim::ZeroP { r(0.) } else { a.v[P] };
            consistency(cx, fi, v, fd, vd, fp, vp, a, om * om + p * p);
            for d in [1e-3, 1e-6] {
                near_pole(cx, fi, v, fd, vd, fp, vp, a, om * om + p * p, d);
            }
        })
    });
    // every pattern of signs of the arguments
    let mut jobs = vec![];
    for x in &n_thermal {
        for v in x.0.vars {
            let ps: Vec<usize> = x.0.params.iter().copied().filter(|p| [OM, P, M, MQ, MU, F0, G0].contains(p)).collect();
            for (i, mut a) in ibases(1).into_iter().enumerate().take(if cx.thorough { 4 } else { 2 }) {
                if x.0.cfg {
                    a.cfg = cfgs[i].clone();
                }
                realify(x.0, v.mask, &mut a);
                if noise(x.0, &a) > 0.3 {
                    continue;
                }
                for k in 1..1usize << ps.len() {
                    let mut a = a.clone();
                    for (j, p) in ps.iter().enumerate() {
                        if k >> j & 1 == 1 {
                            a.v[*p] = -a.v[*p];
                        }
                    }
                    jobs.push((x, v, a));
                }
            }
        }
    }
    jobs.par_iter().for_each(|((fi, fd, fp), v, a)| {
        let h = hi(fi).unwrap();
        let (Some(vd), Some(vp)) = (same_mask(fi, v, fd), same_mask(fi, v, fp)) else { return };
        cx.state(1);
        let om = if h.lim == Lim::ZeroOm { r(0.) } else { a.v[OM] };
        let p = if h.lim == Lim::ZeroP { r(0.) } else { a.v[P] };
        consistency(cx, fi, v, fd, vd, fp, vp, a, om * om + p * p);
    });
}

/// the instantiation of `g` with the same complex parameters as `v` of `f`, or
/// else the smallest one which accepts them
fn same_mask(f: &F, v: &V, g: &'static F) -> Option<&'static V> {
    let want: Vec<usize> = f.complex_params(v.mask).into_iter().filter(|p| g.has(*p)).collect();
    g.vars
        .iter()
        .filter(|w| want.iter().all(|p| g.complex_params(w.mask).contains(p)))
        .min_by_key(|w| g.complex_params(w.mask).len())
}

/// the same at a renormalisation constant for which the real part of the
/// inverse dressing is `d` times what it was
#[allow(clippy::too_many_arguments)]
fn near_pole(cx: &Ctx, fi: &F, vi: &V, fd: &F, vd: &V, fp: &F, vp: &V, a: &A, s: C, d: f64) {
    let Some(p) = [F0, G0].into_iter().find(|p| fi.has(*p)) else { return };
    let Ok(i) = eval(vi, a) else { return };
    if !finite(i) || a.v[p].im != 0. {
        return;
    }
    let mut b = a.clone();
    b.v[p] -= i.re * (1. - d);
    let Ok(j) = eval(vi, &b) else { return };
    // (what it comes to when only the terms are rounded)
    let big = 1. + i.norm() + a.v[p].norm() + b.v[p].norm();
    let mut e = 1e-13 * big;
    if let Some(h) = hi(fi) {
        let (y, _) = inverse_ref(fi, &h, &b, refm::globals(), &mut |_, _| E::real(0.));
        e += y.tol();
    } else if let Some(y) = refm::pointwise(fi, &b, refm::globals()) {
        e += y.tol();
    }
    let tol = 1e-9 + e / j.norm();
    if !(tol < 1e-3) || !((j - c(d * i.re, i.im)).norm() <= 1e-3 * big) {
        cx.skip(1);
        return;
    }
    consistency_tol(cx, fi, vi, fd, vd, fp, vp, &b, s, tol);
}

#[allow(clippy::too_many_arguments)]
fn consistency(cx: &Ctx, fi: &F, vi: &V, fd: &F, vd: &V, fp: &F, vp: &V, a: &A, s: C) {
    consistency_tol(cx, fi, vi, fd, vd, fp, vp, a, s, 1e-9);
}

#[allow(clippy::too_many_arguments)]
fn consistency_tol(cx: &Ctx, fi: &F, vi: &V, fd: &F, vd: &V, fp: &F, vp: &V, a: &A, s: C, tol: f64) {
    let (xi, xd, xp) = (eval(vi, a), eval(vd, a), eval(vp, a));
    cx.trans(3);
    let (Ok(i), Ok(d), Ok(p)) = (xi, xd, xp) else {
        cx.violation(format!("panic {}", fi.full()), format!("{} panicked", fi.desc(vi, a)));
        return;
    };
    let mag = |x: f64| x > 1e-140 && x < 1e140;
    if !finite(i) || !mag(i.norm()) || !mag(s.norm()) {
        cx.skip(1);
        return;
    }
    cx.valid(2);
    let ok1 = (i * d - 1.).norm() <= tol;
    if !ok1 {
        cx.violation(
            format!("reciprocal {}", fd.full()),
            format!("{} = {d:e} is not the reciprocal of {} = {i:e}", fd.desc(vd, a), fi.desc(vi, a)),
        );
    }
    if !((p * s - d).norm() <= tol * d.norm()) {
        cx.violation(
            format!("propagator {}", fp.full()),
            format!("{} = {p:e} is not the dressing {d:e} over the squared momentum {s:e}", fp.desc(vp, a)),
        );
    }
}

pub fn small_cfgs() -> Vec<FieldConfig> {
    vec![
        FieldConfig::new(3, 0.656, vec![(2, 0.35), (1, 0.45)]),
        FieldConfig::new(2, 1.2, vec![(1, 0.5)]),
        FieldConfig::new(4, 0.4, vec![]),
        FieldConfig::new(3, 0.9, vec![(1, 0.2), (2, 0.9), (1, 1.7)]),
        FieldConfig::new(5, 0.7, vec![(3, 0.125)]),
    ]
}

// ------------------------------------------------------------------- C11

/// how small the vanishing variable has to be for the function to be close to
/// its limit: distance to the nearest singularity or cut of the logarithms
fn limit_scale(f: &F, gf: &F, a: &A, p: usize) -> f64 {
    let q = a.re(Q);
    let mut ms = vec![r(0.)];
    for x in [M, M1, M2, MQ] {
        if f.has(x) {
            ms.push(a.v[x]);
        }
    }
    let mut s = q.abs();
    for m1 in &ms {
        for m2 in &ms {
            let d = if f.has(DELTA) { a.v[DELTA] } else { m2 * m2 - m1 * m1 };
            let e = if gf.has(EN) { a.v[EN] } else { (m1 * m1 + q * q).sqrt() };
            for sg in [1., -1.] {
                if p == OM {
                    let pp = a.re(P);
                    let x = r(pp * pp + 2. * sg * pp * q) + d;
                    s = s.min(x.norm() / (2. * e.norm()));
                    if d.im != 0. {
                        s = s.min(d.im.abs() / (2. * e.norm()));
                    }
                    s = s.min(pp);
                } else {
                    let om = a.v[OM];
                    let x = om * om + d + C::new(0., 2. * sg) * om * e;
                    s = s.min(x.norm() / (2. * q));
                    if x.im != 0. && x.re < 0. {
                        s = s.min(x.im.abs() / (2. * q));
                    }
                    s = s.min(om.norm());
                }
            }
        }
    }
    s
}

pub fn c11(cx: &Ctx) {
    let g = refm::globals();
    let lv = cx.thorough as u8;
    let st = if cx.thorough { 2 } else { 29 };
    // pointwise functions
    let mut jobs: Vec<(&'static F, &'static F, usize)> = vec![];
    for f in FNS.iter().filter(|f| is_ref(f) && f.path.starts_with(TH)) {
        let (s, p) = match refm::lim_of(f.path) {
            Lim::Full => continue,
            Lim::ZeroOm => ("::zero_matsubara", OM),
            Lim::ZeroP => ("::zero_momentum", P),
        };
        let path = f.path.replace(s, "");
        let gf = FNS.iter().find(|g| g.path == path && g.name == f.name);
        let Some(gf) = gf else {
            cx.violation(format!("no general {}", f.full()), format!("{} has no general counterpart", f.full()));
            continue;
        };
        jobs.push((f, gf, p));
    }
    cx.note(format!("{} functions with a general counterpart", jobs.len()));
    for (f, gf, p) in jobs.iter().step_by(11) {
        cx.sample(format!("{} -> {} as {} -> 0", gf.full(), f.full(), PN[*p]));
    }
    let jobs2: Vec<_> = jobs.iter().flat_map(|(f, gf, p)| f.vars.iter().map(move |v| (*f, *gf, *p, v))).collect();
    jobs2.par_iter().for_each(|&(f, gf, p, v)| {
        let cp = f.complex_params(v.mask);
        // the counterpart with the same complex parameters, frequency real if possible
        let w = gf
            .vars
            .iter()
            .filter(|w| cp.iter().all(|x| gf.complex_params(w.mask).contains(x)))
            .min_by_key(|w| gf.complex_params(w.mask).len())
            .unwrap();
        let mut n = 0;
        strided(f, v.mask, 0, st, &mut |a| {
            n += 1;
            let x = eval(v, a);
            let here = refm::pointwise(f, a, g).unwrap();
            if here.f & CUT != 0 || !finite(here.v) {
                cx.skip(1);
                return;
            }
            // (limit, error) from the steps with the smallest error
            let mut best: Option<(C, f64)> = None;
            let scale = limit_scale(f, gf, a, p);
            let mut last: Option<C> = None;
            for st in [0.1, 0.02, 3e-3, 3e-4, 2e-5] {
                let ev = |h: f64| -> Option<(C, f64)> {
                    let mut y = C::new(0., 0.);
                    let mut e = 0.;
                    for sg in [1., -1.] {
                        // both signs: the single logarithms are not even
                        let mut b = a.clone().with(p, r(h * sg));
                        if p == P {
                            b.set(P, h);
                        }
                        let q = refm::pointwise(gf, &b, g)?;
                        if q.f & CUT != 0 {
                            return None;
                        }
                        e += 0.5 * q.tol();
                        y += eval(w, &b).ok()? * 0.5;
                    }
                    Some((y, e))
                };
                let h = scale * st;
                let (Some((y1, e1)), Some((y2, e2))) = (ev(h), ev(2. * h)) else { continue };
                cx.trans(2);
                let y = (y1 * 4. - y2) / 3.;
                // an estimate only counts if it agrees with the one from a larger step
                let err = last.map_or(f64::INFINITY, |l| (l - y).norm()) + (y1 - y2).norm() + 2. * (e1 + e2);
                last = Some(y);
                if err.is_finite() && best.map_or(true, |b| err < b.1) {
                    best = Some((y, err));
                }
            }
            let Some((y, err)) = best else {
                cx.skip(1);
                return;
            };
            let mut want = here;
            want.e += err / SLACK;
            if want.tol() > 0.02 * here.v.norm() {
                cx.skip(1);
                return;
            }
            cx.same(
                &format!("limit {} mask {}", f.full(), v.mask),
                &|| format!("limit: {} versus {} at vanishing {}", f.desc(v, a), gf.full(), PN[p]),
                x,
                Ok(y),
                v.real,
                want,
            );
        });
        cx.state(n);
    });
    // longitudinal and transverse coincide at zero momentum
    for f in FNS.iter().filter(|f| f.path.contains("zero_momentum")) {
        let nt = if f.name.contains("_l_") {
            f.name.replacen("_l_", "_t_", 1)
        } else {
            continue;
        };
        let Some(ft) = FNS.iter().find(|g| g.path == f.path && g.name == nt) else { continue };
        if is_ref(f) {
            relate(cx, "longitudinal versus transverse", lv, f, ft, &|_, a| a.clone());
        } else {
            for v in f.vars {
                let w = ft.var(v.mask).unwrap();
                let lt = |a: &A, tol: &dyn Fn(&F, &A, C) -> E| {
                    cx.state(1);
                    cx.same_lazy(
                        &format!("longitudinal versus transverse {}", f.full()),
                        &|| format!("longitudinal versus transverse: {} and {}", f.desc(v, a), ft.desc(w, a)),
                        eval(v, a),
                        eval(w, a),
                        v.real,
                        |x| tol(f, a, x),
                    );
                };
                ipoints_st(f, v.mask, 0, if cx.thorough { 1 } else { 9 }).par_iter().for_each(|a| lt(a, &hi_tol));
                let jobs = wjobs(cx, 4000, &|g: &F| std::ptr::eq(g, f));
                crude(|| jobs.par_iter().filter(|x| std::ptr::eq(x.1, v)).for_each(|x| lt(&x.2, &crude_tol)));
            }
        }
    }
    // integrated and high-level functions
    let mut jobs = vec![];
    for f in integral_fns() {
        let (s, p) = match refm::lim_of(f.path) {
            Lim::Full => continue,
            Lim::ZeroOm => ("::zero_matsubara", OM),
            Lim::ZeroP => ("::zero_momentum", P),
        };
        let path = f.path.replace(s, "");
        let gf = FNS.iter().find(|g| g.path == path && g.name == f.name).unwrap();
        for v in f.vars {
            let cp = f.complex_params(v.mask);
            let Some(w) = gf
                .vars
                .iter()
                .filter(|w| cp.iter().all(|x| gf.complex_params(w.mask).contains(x)))
                .min_by_key(|w| gf.complex_params(w.mask).len()) else { continue };
            jobs.push((f, v, gf, w, p));
        }
    }
    let all: Vec<_> = jobs
        .par_iter()
        .flat_map_iter(|x| ipoints_st(x.0, x.1.mask, 0, if cx.thorough { 2 } else { 12 }).into_iter().map(move |a| (x, a)))
        .collect();
    let wide: Vec<_> = jobs
        .par_iter()
        .flat_map_iter(|x| {
            let mut o = vec![];
            lattice::wide(x.0, x.1.mask, if cx.thorough { 4000 } else { 300 }, &mut |a| o.push((x, a.clone())));
            o
        })
        .collect();
    let limit = |f: &F, v: &V, gf: &F, w: &V, p: &usize, a: &A, tol: &dyn Fn(&F, &A, C) -> E| {
        let h = if *p == OM { 2e-4 } else { 0.04 };
        // (see `noise`); the other variable must stay large
        if (if *p == OM { a.re(P) < 0.05 } else { a.v[OM].norm() < 0.2 }) || noise(gf, &a.clone().with(*p, r(h))) > 0.3 {
            cx.skip(1);
            return;
        }
        cx.state(1);
        let x = eval(v, a);
        let y1 = eval(w, &a.clone().with(*p, r(h)));
        let y2 = eval(w, &a.clone().with(*p, r(2. * h)));
        let y4 = eval(w, &a.clone().with(*p, r(4. * h)));
        let (Ok(y1), Ok(y2), Ok(y4)) = (y1, y2, y4) else {
            cx.violation(format!("panic {}", gf.full()), format!("{} panicked", gf.desc(w, a)));
            return;
        };
        // linear behaviour in the frequency, quadratic in the momentum
        let (y, d) = if *p == OM { (y1 * 2. - y2, 1.) } else { ((y1 * 4. - y2) / 3., 0.5) };
        let mut want = tol(f, a, y);
        want.e += tol(gf, &a.clone().with(*p, r(h)), y1).e * 4. + (d * (y1 - y2).norm().max(0.3 * (y2 - y4).norm()) + 1e-7) / SLACK;
        if *p == P {
            // the general functions cancel powers of the small momentum
            want.e += 1e-6 * y1.norm() / SLACK;
        }
        cx.same(
            &format!("limit {} mask {}", f.full(), v.mask),
            &|| format!("limit: {} versus {} at vanishing {}", f.desc(v, a), gf.full(), PN[*p]),
            x,
            Ok(if f.path.contains("zero_matsubara") { r(y.re) } else { y }),
            v.real,
            want,
        );
    };
    all.par_iter().for_each(|((f, v, gf, w, p), a)| limit(f, v, gf, w, p, a, &hi_tol));
    cx.sample(format!("{} points of integrated functions, with fixed nodes", wide.len()));
    crude(|| {
        wide.par_iter().for_each(|((f, v, gf, w, p), a)| {
            let mut a = a.clone();
            a.tol = CRUDE;
            cx.state(1);
            let x = eval(v, &a);
            let here = crude_tol(f, &a, x.clone().unwrap_or(r(0.)));
            let scale = [OM, P, M, M1, M2, MQ]
                .iter()
                .filter(|x| *x != p && f.has(**x) && a.v[**x].norm() > 0.)
                .map(|x| a.v[*x].norm())
                .fold(0.01, f64::min);
            let mut best: Option<(C, f64)> = None;
            let mut last: Option<C> = None;
            for st in [0.03, 3e-3, 3e-4, 2e-5] {
                let mut y = r(0.);
                let mut e = 0.;
                for sg in if *p == P { &[1.][..] } else { &[1., -1.] } {
                    let b = a.clone().with(*p, r(scale * st * sg));
                    let Ok(z) = eval(w, &b) else {
                        cx.violation(format!("panic {}", gf.full()), format!("{} panicked", gf.desc(w, &b)));
                        return;
                    };
                    let t = crude_tol(gf, &b, z);
                    y += z * if *p == P { 1. } else { 0.5 };
                    e += if t.f & CUT != 0 { f64::INFINITY } else { t.tol() };
                }
                let err = last.map_or(f64::INFINITY, |l| 2. * (l - y).norm()) + e;
                last = Some(y);
                if err.is_finite() && best.map_or(true, |b| err < b.1) {
                    best = Some((y, err));
                }
            }
            // the functions of vanishing frequency are those at the regulator
            if let (OM, Some(b)) = (*p, &mut best) {
                let z = eval(w, &a.clone().with(OM, r(1e-5))).unwrap_or(r(f64::NAN));
                b.1 += if integrand(f).is_some() { 2. } else { 20. } * (z - b.0).norm();
            }
            let Some((y, err)) = best else {
                cx.skip(1);
                return;
            };
            let mut want = here;
            want.v = y;
            want.e += err / SLACK;
            if !(want.tol() <= 0.02 * y.norm()) || !finite(y) {
                cx.skip(1);
                return;
            }
            cx.same(
                &format!("limit {} mask {}", f.full(), v.mask),
                &|| format!("limit: {} versus {} at vanishing {}", f.desc(v, &a), gf.full(), PN[*p]),
                x,
                Ok(if f.path.contains("zero_matsubara") { r(y.re) } else { y }),
                v.real,
                want,
            );
        })
    });
}

// ------------------------------------------------------------------- C10

pub fn c10(cx: &Ctx) {
    // the first few values of each list in all combinations, the others thinned out
    let oms = [r(0.3), r(1.), r(3.1), c(0.8, 0.3), r(-1.4), c(-0.5, 0.2), c(0.9, -0.25), r(18.), r(0.07)];
    let ps = [0.3, 1.1, 2.7, 0.06, 14.];
    let ms = [r(0.4), r(0.9), r(1.7), c(0.8, 0.05), r(0.08), r(6.), c(1.1, -0.1)];
    let betas = [0.7, 2., 6., 0.12, 22., 55.];
    let basic = |om: C, p: C, m1: C, m2: C, beta: f64| {
        [r(0.), r(0.3), r(1.), r(3.1), c(0.8, 0.3)].contains(&om)
            && p.re < 3. && p.re != 0.06
            && [m1, m2].iter().all(|m| [r(0.), r(0.4), r(0.9), r(1.7), c(0.8, 0.05)].contains(m))
            && [0.7, 2., 6.].contains(&beta)
    };
    let mut jobs: Vec<(&'static F, A)> = vec![];
    let th = |x: usize| cx.thorough || x % 3 != 2;
    for f in FNS.iter().filter(|f| f.path.starts_with(TH) && f.has(Q)) {
        if !(f.name.starts_with("d_j_m") || f.name.starts_with("d2_j_m") || f.name.starts_with("d_i_m")) {
            continue;
        }
        let zm = f.path.contains("zero_matsubara");
        if zm && f.name.ends_with("_same_mass") && f.name.starts_with("d_i") {
            continue; // a pole on the path: principal values below
        }
        let one = |p: usize, v: Vec<C>| if f.has(p) { v } else { vec![r(0.)] };
        let mut cnt = 0;
        for om in one(OM, oms.to_vec()) {
            for p in one(P, ps.map(r).to_vec()) {
                for beta in betas {
                    for m1 in ms {
                        // also nearly degenerate masses
                        let near = [1.0004, 0.99, 1.03].map(|x| m1 * x);
                        for m2 in one(M2, [&ms[..], &near].concat()) {
                            cnt += 1;
                            let rare = if cx.thorough { 3 } else { 17 };
                            let near = f.has(M2) && near.contains(&m2);
                            let rare = if near { 7 } else { rare };
                            if !(basic(om, p, m1, m2, beta) && th(cnt) || cnt % rare == 5) {
                                continue;
                            }
                            // (complex masses put a cut across the path at low frequencies)
                            let cut = (m2 * m2 - m1 * m1).im.abs();
                            if f.has(OM) && cut > om.re.abs() * m1.norm().min(if f.has(M2) { m2.norm() } else if f.has(P) { 0.5 * p.re } else { f64::INFINITY }) {
                                continue;
                            }
                            // zero frequency: off the real axis, where the integrand is regular
                            let turn = |m: C, f: f64| if zm { m * C::from_polar(1., f) } else { m };
                            let mut a = A::new();
                            a.v[OM] = om;
                            a.v[P] = p;
                            a.set(BETA, beta);
                            a.v[M] = turn(m1, 0.2);
                            a.v[M1] = turn(m1, 0.2);
                            a.v[M2] = m2;
                            jobs.push((f, a.clone()));
                            if zm {
                                a.v[M] = turn(m1, -0.17);
                                a.v[M1] = turn(m1, -0.17);
                                jobs.push((f, a));
                            }
                        }
                    }
                }
            }
        }
    }
    for (f, a) in jobs.iter().step_by(jobs.len() / 6 + 1) {
        cx.sample(f.desc(f.all_complex(), a));
    }
    jobs.par_iter().for_each(|(f, a)| {
        cx.state(1);
        let second = f.name.starts_with("d2");
        let plain_name = f.name.trim_start_matches("d2_").trim_start_matches("d_").replace("i_m_t_0_i", "i_m_0_t_i");
        // equal masses: the derivative acts on the first mass only
        let same = plain_name.ends_with("_same_mass");
        let plain_name = plain_name.replace("_same_mass", "");
        let g = func(f.path, &plain_name);
        let mut a = a.clone();
        if same {
            a.v[M1] = a.v[M];
            a.v[M2] = a.v[M];
        }
        let mp = if g.has(M1) { M1 } else { M };
        let z0 = a.v[mp] * a.v[mp];
        let integ = |v: &V, a: &A| -> QI {
            let masses = [0., a.v[M].re, a.v[M1].re, a.v[M2].re];
            let mut br = breaks(a.v[OM], a.re(P), &masses);
            // the scale of the distributions
            let t = 1. / a.re(BETA);
            let ml = masses[1].max(masses[2]);
            for x in [t, 5. * t, (ml * t).sqrt(), 4. * (ml * t).sqrt()] {
                br.push(x);
            }
            br.sort_by(|x, y| x.partial_cmp(y).unwrap());
            br.dedup_by(|x, y| (*x - *y).abs() < 1e-3 * x.abs().max(1e-9));
            let small = if f.name.contains("j_m") { (-a.re(BETA) * ml).exp() } else { 1. };
            quad_inf(
                &mut |q| {
                    let mut b = a.clone();
                    b.set(Q, q);
                    cx.trans(1);
                    let mut x = eval(v, &b);
                    if !matches!(x, Ok(x) if finite(x)) {
                        // hit a logarithmic singularity exactly
                        b.set(Q, q * (1. + 1e-9));
                        x = eval(v, &b);
                    }
                    E::new(x.unwrap_or(r(f64::NAN)))
                },
                &br,
                1e-9,
                1e-14 * small,
                120,
            )
        };
        let n = 16;
        // (within which the distribution does not change too much)
        let mut rho = (4. / (a.re(BETA) * z0.norm().sqrt())).min(0.05) * z0.norm();
        if f.has(OM) {
            // and which does not move a singularity across the path
            let m2 = if g.has(M2) { a.v[M2].norm() } else if f.has(P) { 0.5 * a.re(P) } else { f64::INFINITY };
            rho = rho.min(0.5 * a.v[OM].re.abs() * z0.norm().sqrt().min(m2));
        }
        let gv = g.all_complex();
        let mut d = C::new(0., 0.);
        let mut size = 0f64;
        let mut err = 0.;
        for k in 0..n {
            let th = 2. * std::f64::consts::PI * k as f64 / n as f64 + 0.1;
            let mut b = a.clone();
            b.v[mp] = (z0 + C::from_polar(rho, th)).sqrt();
            let q = integ(gv, &b);
            let k = if second { 2. } else { 1. };
            d += q.v * C::from_polar(1., -th * k) * k / (n as f64 * rho.powf(k));
            size = size.max(q.v.norm());
            err += q.err / rho.powf(k) / n as f64;
            if q.bad {
                err = f64::INFINITY;
            }
        }
        for v in f.vars {
            let cp = f.complex_params(v.mask);
            if f.params.iter().any(|p| a.v[*p].im != 0. && !cp.contains(p)) {
                continue;
            }
            let q = integ(v, &a);
            let tol = 1e-6 * (size / z0.norm().powi(if second { 2 } else { 1 }) + q.abs) + 50. * (err + q.err);
            if q.bad || !tol.is_finite() {
                cx.violation(format!("unusable {}", f.full()), format!("{} cannot be integrated", f.desc(v, &a)));
                continue;
            }
            cx.valid(1);
            cx.ratio(&f.full(), (q.v - d).norm() / tol, || f.desc(v, &a));
            let dd = if v.real { (q.v.re - d.re).abs() } else { (q.v - d).norm() };
            if !(dd <= tol) {
                cx.violation(
                    format!("derivative {} mask {}", f.full(), v.mask),
                    format!("the integral of {} is {:e}, but the derivative of the integral of {} is {d:e}", f.desc(v, &a), q.v, g.full()),
                );
            }
        }
    });
    // zero frequency, real masses: principal values and finite differences
    let mut jobs = vec![];
    for f in FNS.iter().filter(|f| f.path.ends_with("zero_matsubara") && f.path.starts_with(TH) && f.name.starts_with("d_i_m")) {
        for p in [0.3, 1.1, 2.7] {
            for beta in [0.7, 3.] {
                for m1 in [0.4, 0.9, 1.7] {
                    for m2 in if f.has(M2) { vec![0.55, 1.3] } else { vec![0.] } {
                        let mut a = A::new();
                        a.set(P, p).set(BETA, beta).set(M, m1).set(M1, m1).set(M2, m2);
                        jobs.push((f, a));
                    }
                }
            }
        }
    }
    jobs.par_iter().for_each(|(f, a)| {
        cx.state(1);
        let plain_name = f.name.trim_start_matches("d_").replace("i_m_t_0_i", "i_m_0_t_i");
        let same = plain_name.ends_with("_same_mass");
        let g = func(f.path, &plain_name.replace("_same_mass", ""));
        let mut a = a.clone();
        if same {
            a.v[M2] = a.v[M];
        }
        let mp = if g.has(M1) { M1 } else { M };
        let m2 = if g.has(M1) { a.re(M2) } else { 0. };
        let pv = |v: &V, a: &A, m1: f64| -> QI {
            let p = a.re(P);
            let d = m2 * m2 - m1 * m1;
            let mut s = vec![(p * p + d).abs() / (2. * p), (p * p - d).abs() / (2. * p)];
            s.sort_by(|x, y| x.partial_cmp(y).unwrap());
            if (s[1] - s[0]).abs() < 1e-9 {
                s.pop();
            }
            let w = if s.len() == 2 { 0.4 * s[0].min(s[1] - s[0]) } else { 0.4 * s[0] };
            let ev = |q: f64| {
                let mut b = a.clone();
                b.set(Q, q);
                cx.trans(1);
                E::new((v.call)(&b))
            };
            let mut tot = QI { v: r(0.), err: 0., abs: 0., e: 0., bad: false, n: 0 };
            let mut add = |x: QI| {
                tot.v += x.v;
                tot.err += x.err;
                tot.abs += x.abs;
                tot.bad |= x.bad;
            };
            let mut lo = 0.;
            for &q0 in &s {
                add(quad(&mut |q| ev(q), &[lo, q0 - w], 1e-10, 1e-14, 100));
                // logarithmic variable: u = w e^-y
                add(quad(
                    &mut |y: f64| {
                        let u = w * (-y).exp();
                        (ev(q0 + u) + ev(q0 - u)).k(u)
                    },
                    &[0., 3., 8., 18.],
                    1e-10,
                    1e-14,
                    100,
                ));
                lo = q0 + w;
            }
            add(quad_inf(&mut |q| if q < lo { E::real(0.) } else { ev(q) }, &[lo], 1e-10, 1e-14, 100));
            tot
        };
        // points where the two singularities are well separated
        let p = a.re(P);
        let z0 = a.re(mp) * a.re(mp);
        let d = m2 * m2 - z0;
        let s = [(p * p + d).abs() / (2. * p), (p * p - d).abs() / (2. * p)];
        if !same && (s[0].min(s[1]) < 0.1 * s[0].max(s[1]) || (s[0] - s[1]).abs() < 0.1 * s[0]) || a.v[mp].re == m2 && !same {
            cx.skip(1);
            return;
        }
        let gv = g.var(0).unwrap();
        let fd = |h: f64| -> (f64, f64) {
            let e = |z: f64| {
                let mut b = a.clone();
                b.set(mp, z.sqrt());
                let q = pv(gv, &b, z.sqrt());
                (q.v.re, q.err)
            };
            let ((x, ex), (y, ey)) = (e(z0 + h), e(z0 - h));
            ((x - y) / (2. * h), (ex + ey) / h)
        };
        let h = if same { 2e-2 } else { 4e-3 } * z0;
        let ((d1, e1), (d2, e2), (d3, e3)) = (fd(h), fd(2. * h), fd(4. * h));
        let (r1, r2) = ((4. * d1 - d2) / 3., (4. * d2 - d3) / 3.);
        let want = (16. * r1 - r2) / 15.;
        for v in f.vars.iter().filter(|v| v.mask == 0) {
            let q = pv(v, &a, a.re(mp));
            let tol = 2e-5 * q.v.norm() + 1e-6 * q.abs.min(10. * want.abs()) + 0.5 * (r1 - r2).abs() + 20. * (e1 + e2 + e3 + q.err);
            cx.valid(1);
            cx.ratio(&format!("pv {}", f.full()), (q.v.re - want).abs() / tol, || f.desc(v, &a));
            cx.ratio(&format!("pv tol {}", f.full()), tol / want.abs(), || f.desc(v, &a));
            if !((q.v.re - want).abs() <= tol) {
                cx.violation(
                    format!("derivative {} mask {}", f.full(), v.mask),
                    format!("the principal-value integral of {} is {:e}, but the derivative of the integral of {} is {want:e} (within {tol:e})", f.desc(v, &a), q.v.re, g.full()),
                );
            }
        }
    });
}

// ------------------------------------------------------------------- C12

pub fn cfg_space(thorough: bool) -> Vec<FieldConfig> {
    let ncs: &[u32] = if thorough { &[1, 2, 3, 4, 5, 8] } else { &[2, 3, 5] };
    let nfs = [0u32, 1, 2, 3];
    let mqs: &[f64] = if thorough { &[0.1, 0.35, 0.6, 1.27] } else { &[0.1, 0.35, 1.27] };
    let gl: &[f64] = if thorough { &[0.656, 1.2, 2.] } else { &[0.656, 1.2] };
    let species: Vec<(u32, f64)> = nfs.iter().flat_map(|n| mqs.iter().map(move |m| (*n, *m))).collect();
    let mut lists: Vec<Vec<(u32, f64)>> = vec![vec![]];
    for a in &species {
        lists.push(vec![*a]);
        for b in &species {
            lists.push(vec![*a, *b]);
            for c in species.iter().step_by(if thorough { 1 } else { 2 }) {
                lists.push(vec![*a, *b, *c]);
            }
        }
    }
    let mut v = vec![];
    for &nc in ncs {
        for &m in gl {
            for l in &lists {
                v.push(FieldConfig::new(nc, m, l.clone()));
            }
        }
    }
    // nearly degenerate flavours, masses close to the gluon mass
    for nc in [2u32, 3] {
        for d in [1e-1, 1e-2, 1e-3, 1e-4, 1e-6] {
            for m in [0.1, 0.35, 0.656, 1.27] {
                for (a, b) in [(m, m * (1. + d)), (m * (1. + d), m), (m * (1. - d), m)] {
                    v.push(FieldConfig::new(nc, 0.656, vec![(1, a), (2, b)]));
                    v.push(FieldConfig::new(nc, 0.656, vec![(2, a), (1, 0.6), (1, b)]));
                }
            }
        }
    }
    // very light and very heavy quarks and gluons, many flavours and colours
    let ext = [1e-3, 0.01, 0.03, 4.18, 20., 80., 173., 2e3];
    for nc in [1u32, 3, 12, 100] {
        for m in [0.03, 0.656, 15.] {
            for (i, x) in ext.iter().enumerate() {
                for nf in [1u32, 4, 30] {
                    for l in [
                        vec![(nf, *x)],
                        vec![(nf, *x), (1, 0.35)],
                        vec![(1, 0.35), (nf, *x)],
                        vec![(2, 0.35), (nf, *x), (1, ext[(i + 3) % ext.len()])],
                        vec![(nf, *x), (nf, *x), (nf, *x), (1, 1.27), (2, 0.1)],
                        vec![(1, *x), (1, 0.004), (1, 0.1), (1, 1.27), (1, 4.2), (1, 172.), (0, 0.3)],
                    ] {
                        v.push(FieldConfig::new(nc, m, l));
                    }
                }
            }
        }
    }
    v
}

pub fn c12(cx: &Ctx) {
    let cfgs = cfg_space(cx.thorough);
    cx.note(format!("{} field configurations", cfgs.len()));
    let vac: Vec<&F> = fns("qcd::gluon").filter(|f| f.cfg).collect();
    let ss = [r(0.05), r(1.37), r(20.), c(0.7, 0.9), c(-2., 0.4), c(-0.5, -3.)];
    // vacuum: every configuration; the inverse is additive, the others follow from it
    vac.par_iter().for_each(|f| {
        let ymn = f.name.replace("_w_field_config", "").replace("_crossed", "");
        let ym = func("ym::gluon", &ymn);
        for (si, s) in ss.iter().enumerate() {
            for (f0, xi) in [(-0.876, 0.3), (2., -1.5), (0.2, 0.)] {
                let mut a = A::new();
                a.v[S] = *s;
                a.set(F0, f0).set(XI, xi);
                let masks: Vec<&V> = f.vars.iter().filter(|v| s.im == 0. || f.complex_params(v.mask).contains(&S)).collect();
                for v in masks {
                    let Some(w) = same_mask(f, v, ym) else { continue };
                    let inv_of = |x: C| if f.name.contains("inv") { x } else if f.name.starts_with("dressing") { x.inv() } else { (x * s).inv() };
                    let Ok(base) = eval(w, &a) else { continue };
                    let base = inv_of(base);
                    // contribution of one flavour over one colour
                    let mut unit: std::collections::HashMap<(u64, u64), C> = Default::default();
                    for (k, cfg) in cfgs.iter().enumerate() {
                        if !cx.thorough && (k + si) % 2 != 0 && cfg.quarks.len() == 3 {
                            continue;
                        }
                        cx.state(1);
                        a.cfg = cfg.clone();
                        let Ok(x) = eval(v, &a) else {
                            cx.violation(format!("panic {}", f.full()), f.desc(v, &a));
                            continue;
                        };
                        let x = inv_of(x);
                        let mut want = base;
                        let mut size = base.norm();
                        for &(nf, mq) in &cfg.quarks {
                            let u = *unit.entry((cfg.gluon.to_bits(), mq.to_bits())).or_insert_with(|| {
                                let mut b = a.clone();
                                b.cfg = FieldConfig::new(1, cfg.gluon, vec![(1, mq)]);
                                inv_of(eval(v, &b).unwrap_or(r(f64::NAN))) - base
                            });
                            want += u * nf as f64 / cfg.nc as f64;
                            size += u.norm() * nf as f64 / cfg.nc as f64;
                        }
                        cx.trans(1);
                        cx.valid(1);
                        let d = if v.real { (x.re - want.re).abs() } else { (x - want).norm() };
                        if !(d <= 1e-9 * (size + base.norm() * 10.)) {
                            cx.violation(
                                format!("additivity {}", f.full()),
                                format!("{}: inverse dressing {x:e}, but Yang-Mills plus flavours gives {want:e}", f.desc(v, &a)),
                            );
                        }
                    }
                    // one flavour: the global-settings function
                    let gn = f.name.replace("_w_field_config", "");
                    let gf = func("qcd::gluon", &gn);
                    for (nc, nf) in [(3u32, 1u32), (3, 2), (2, 1)] {
                        for (m, mq) in [(0.656, 0.35), (1.2, 0.1), (0.9, 1.27)] {
                            let mut b = a.clone();
                            b.cfg = FieldConfig::new(nc, m, vec![(nf, mq)]);
                            let x = eval(v, &b);
                            b.set(MQ, mq / m);
                            let Some(gv) = same_mask(f, v, gf) else { continue };
                            // global settings are set below, one combination at a time
                            if nc as f64 == refm::globals().nc && nf as f64 == refm::globals().nf {
                                let y = eval(gv, &b);
                                let xx = x.clone().unwrap_or(r(f64::NAN));
                                cx.same(
                                    &format!("one flavour {}", f.full()),
                                    &|| format!("one flavour: {} versus {}", f.desc(v, &b), gf.desc(gv, &b)),
                                    x,
                                    y,
                                    v.real,
                                    appr(xx, 1e-12, 1e-9),
                                );
                            }
                        }
                    }
                }
            }
        }
    });
    // the other global combinations (not inside the parallel part: the settings are global)
    for (nc, nf) in [(3u32, 2u32), (2, 1), (5, 3), (3, 0)] {
        set_nc(nc);
        set_nf(nf);
        vac.par_iter().for_each(|f| {
            let gf = func("qcd::gluon", &f.name.replace("_w_field_config", ""));
            for s in ss {
                for v in f.vars.iter().filter(|v| s.im == 0. || f.complex_params(v.mask).contains(&S)) {
                    let Some(gv) = same_mask(f, v, gf) else { continue };
                    for (m, mq) in [(0.656, 0.35), (1.2, 0.1), (0.9, 1.27)] {
                        let mut b = A::new();
                        b.v[S] = s;
                        b.set(F0, -0.876).set(XI, 0.3).set(MQ, mq / m);
                        b.cfg = FieldConfig::new(nc, m, vec![(nf, mq)]);
                        let x = eval(v, &b);
                        let xx = x.clone().unwrap_or(r(f64::NAN));
                        cx.state(1);
                        cx.same(
                            &format!("one flavour {}", f.full()),
                            &|| format!("one flavour: {} versus {}", f.desc(v, &b), gf.desc(gv, &b)),
                            x,
                            eval(gv, &b),
                            v.real,
                            appr(xx, 1e-12, 1e-9),
                        );
                    }
                }
            }
        });
        thermal_flavours(cx, nc, nf, false);
    }
    set_nc(3);
    set_nf(1);
    thermal_flavours(cx, 3, 1, true);
    // Landau gauge
    for f in FNS.iter().filter(|f| (f.path.starts_with("ym::g") || f.path.starts_with("qcd::g")) && f.name.contains("landau")) {
        let gf = func(f.path, &f.name.replace("_landau", ""));
        relate(cx, "Landau gauge", 0, f, gf, &|_, a| a.clone().with(XI, r(0.)));
    }
}

fn thermal_flavours(cx: &Ctx, nc: u32, nf: u32, all: bool) {
    let fl: Vec<&'static F> = FNS.iter().filter(|f| f.cfg && f.path.starts_with("qcd::thermal")).collect();
    let mut jobs: Vec<(&'static F, &'static V, A, FieldConfig)> = vec![];
    let cf = |nc, m, q: &[(u32, f64)]| FieldConfig::new(nc, m, q.to_vec());
    let mut cfgs = vec![];
    if all {
        for n in [2u32, 3, 5] {
            for q in [
                &[][..],
                &[(0, 0.3)],
                &[(1, 0.35)],
                &[(2, 0.35)],
                &[(1, 0.35), (1, 0.35)],
                &[(2, 0.2), (1, 0.6)],
                &[(1, 0.6), (2, 0.2)],
                &[(1, 0.2), (1, 0.6), (1, 0.2)],
                &[(1, 0.1), (0, 0.4), (2, 0.35)],
                &[(3, 0.05), (1, 0.2), (2, 0.7)],
                &[(1, 0.01), (2, 6.)],
                &[(1, 4.18), (1, 0.35), (1, 25.), (2, 0.1)],
                &[(1, 80.), (12, 0.5)],
                &[(1, 0.3), (1, 0.36)],
                &[(1, 0.1), (2, 0.101)],
                &[(2, 0.36), (1, 0.35), (1, 0.352)],
                &[(1, 0.656), (1, 0.65)],
                &[(1, 0.02), (1, 0.025), (1, 0.03)],
            ] {
                cfgs.push(cf(n, 0.656, q));
                if cx.thorough {
                    cfgs.push(cf(n, 1.2, q));
                }
            }
        }
    }
    cfgs.push(cf(nc, 0.656, &[(nf, 0.35)]));
    let st = if cx.thorough { 1 } else { 2 };
    for f in fl {
        for v in f.vars {
            for (k, b) in ibases(1).into_iter().enumerate() {
                let mut b = b;
                realify(f, v.mask, &mut b);
                for (i, cfg) in cfgs.iter().enumerate() {
                    if (i + k) % st == 0 || i + 1 == cfgs.len() {
                        jobs.push((f, v, b.clone(), cfg.clone()));
                    }
                }
            }
        }
    }
    let mut wide = vec![];
    for f in FNS.iter().filter(|f| f.cfg && f.path.starts_with("qcd::thermal")) {
        for v in f.vars {
            let mut k = f.id as usize;
            lattice::wide(f, v.mask, if cx.thorough { 8000 } else if all { 1200 } else { 300 }, &mut |a| {
                let mut a = a.clone();
                a.tol = CRUDE;
                let cfg = if k % 4 == 0 { cfgs.last().unwrap() } else { &cfgs[k % cfgs.len()] };
                k += 1;
                wide.push((f, v, a, cfg.clone()));
            });
        }
    }
    jobs.par_iter().for_each(|(f, v, a, cfg)| flavours(cx, f, v, a, cfg, nc, nf, false));
    crude(|| wide.par_iter().for_each(|(f, v, a, cfg)| flavours(cx, f, v, a, cfg, nc, nf, true)));
}
#[allow(clippy::too_many_arguments)]
fn flavours(cx: &Ctx, f: &F, v: &V, a: &A, cfg: &FieldConfig, nc: u32, nf: u32, fixed: bool) {
        cx.state(1);
        let h = hi(f).unwrap();
        let om = if h.lim == Lim::ZeroOm { r(0.) } else { a.v[OM] };
        let p = if h.lim == Lim::ZeroP { r(0.) } else { a.v[P] };
        let sd = om * om + p * p;
        let mut b = a.clone();
        b.cfg = cfg.clone();
        let vac = std::cell::OnceCell::new();
        let tol = |size: f64, n: f64| {
            if fixed {
                // rounding only
                size * 1e-7 + *vac.get_or_init(|| 10. * PREF / sd.norm() * crude_abs(f, &b) + 100. * inverse_ref(f, &h, &b, refm::globals(), &mut |_, _| E::real(0.)).0.e) * (1. + n)
            } else {
                PREF / sd.norm() * 3e-8 * (1. + n) + 1e-9 * size
            }
        };
        let inv_of = |x: C| match h.what {
            0 => x,
            1 => x.inv(),
            _ => (x * sd).inv(),
        };
        let ev = |c: FieldConfig| {
            let mut b = a.clone();
            b.cfg = c;
            cx.trans(1);
            eval(v, &b).map(inv_of).unwrap_or(r(f64::NAN))
        };
        let x = ev(cfg.clone());
        let base = ev(FieldConfig::new(cfg.nc, cfg.gluon, vec![]));
        // no quarks: Yang-Mills
        let mut b = a.clone();
        b.set(M, cfg.gluon);
        let mut same = true;
        let ymv = if h.zero_temp {
            let f = func("ym::gluon", "dressing_inv_landau");
            b.v[S] = sd / (cfg.gluon * cfg.gluon);
            eval(f.all_complex(), &b).unwrap_or(r(f64::NAN))
        } else {
            let n = f.name.replace("_w_field_config", "");
            let ym = func(&f.path.replace("qcd", "ym"), &n);
            let w = if v.mask != 0 && ym.vars.len() > 1 { ym.all_complex() } else { ym.var(0).unwrap() };
            // (the Yang-Mills function may want a real momentum)
            let z = b.v;
            realify(ym, w.mask, &mut b);
            same = z == b.v;
            eval(w, &b).map(inv_of).unwrap_or(r(f64::NAN))
        };
        let nfl: f64 = cfg.quarks.iter().map(|q| q.0 as f64).sum();
        cx.valid(2);
        let mut b2 = a.clone();
        b2.cfg = cfg.clone();
        if same && !((base - ymv).norm() <= tol(base.norm(), 1.)) {
            cx.violation(
                format!("no quarks {}", f.full()),
                format!("{} without quarks: {base:e}, pure Yang-Mills: {ymv:e}", f.desc(v, &b2)),
            );
        }
        let mut want = base;
        let mut size = base.norm();
        for &(nf, mq) in &cfg.quarks {
            let u = ev(FieldConfig::new(1, cfg.gluon, vec![(1, mq)])) - ev(FieldConfig::new(1, cfg.gluon, vec![]));
            want += u * nf as f64 / cfg.nc as f64;
            size += u.norm() * nf as f64 / cfg.nc as f64;
        }
        if !((x - want).norm() <= tol(size, 2. * nfl)) {
            cx.violation(
                format!("additivity {}", f.full()),
                format!("{}: inverse dressing {x:e}, sum over flavours {want:e}", f.desc(v, &b2)),
            );
        }
        // one flavour: the global-settings function
        if cfg.quarks.len() == 1 && cfg.nc == nc && cfg.quarks[0].0 == nf {
            let gf = func(f.path, &f.name.replace("_w_field_config", ""));
            let Some(gv) = same_mask(f, v, gf) else { return };
            let mut b = a.clone();
            b.set(M, cfg.gluon).set(MQ, cfg.quarks[0].1);
            let y = eval(gv, &b).map(inv_of).unwrap_or(r(f64::NAN));
            cx.valid(1);
            if !((x - y).norm() <= tol(size, nfl)) {
                cx.violation(
                    format!("one flavour {}", f.full()),
                    format!("{}: {x:e} (inverse), {}: {y:e}", f.desc(v, &b2), gf.desc(gv, &b)),
                );
            }
        }
}

// ------------------------------------------------------------------- C23

pub fn c23(cx: &Ctx) {
    let g = refm::globals();
    let _ = g;
    // below threshold the zero-temperature parts are exactly zero, everywhere
    let zt: Vec<(&F, &V)> = FNS
        .iter()
        .filter(|f| f.path.starts_with(TH) && f.name.contains("zero_temp"))
        .flat_map(|f| f.vars.iter().map(move |v| (f, v)))
        .collect();
    zt.par_iter().for_each(|(f, v)| {
        let mut n = 0;
        let mut chk = |a: &A, cx: &Ctx| {
            if a.re(MU).abs() >= a.re(MQ).abs() {
                return;
            }
            n += 1;
            cx.trans(1);
            cx.valid(1);
            match eval(v, a) {
                Ok(x) if x.norm() == 0. => {}
                // exactly on a singularity of the logarithms
                Ok(_) if f.has(Q) && !matches!(eval(v, &a.clone().with(MU, r(10. * (1. + a.re(MQ).abs() + a.re(Q))))), Ok(y) if finite(y)) => cx.skip(1),
                x => cx.violation(
                    format!("below threshold {}", f.full()),
                    format!("{} = {x:?} with the chemical potential below the mass", f.desc(v, a)),
                ),
            }
        };
        if f.has(Q) {
            strided(f, v.mask, cx.thorough as u8, if cx.thorough { 1 } else { 5 }, &mut |a| chk(a, cx));
        } else {
            for a in ipoints_st(f, v.mask, 1, if cx.thorough { 1 } else { 5 }) {
                for (mu, mq) in [(0.2, 0.3), (-0.2, 0.3), (0.35, 0.350001), (0., 0.5), (1., -1.2), (-0.8, -4.18)] {
                    let mut b = a.clone();
                    b.set(MU, mu).set(MQ, mq);
                    chk(&b, cx);
                }
                chk(&a, cx);
            }
        }
        cx.state(n);
    });
    // evenness in the chemical potential and in the masses
    let jobs: Vec<(&F, &V, usize)> = FNS
        .iter()
        .filter(|f| f.path.starts_with(TH) && is_ref(f))
        .flat_map(|f| f.vars.iter().flat_map(move |v| [MU, MQ, M, M1, M2].into_iter().filter(|p| f.has(*p)).map(move |p| (f, v, p))))
        .collect();
    jobs.par_iter().for_each(|(f, v, p)| {
        let mut n = 0;
        strided(f, v.mask, 0, if cx.thorough { 1 } else { 9 }, &mut |a| {
            n += 1;
            let b = a.clone().with(*p, -a.v[*p]);
            let want = refm::pointwise(f, a, g).unwrap();
            cx.same(
                &format!("evenness in {} {}", PN[*p], f.full()),
                &|| format!("evenness in {}: {} and {}", PN[*p], f.desc(v, a), f.desc(v, &b)),
                eval(v, a),
                eval(v, &b),
                false,
                want,
            );
        });
        cx.state(n);
    });
    let st = if cx.thorough { 1 } else { 13 };
    let jobs = ijobs_st(0, st, &|f: &F| !f.path.ends_with("quark"));
    let parity = |f: &F, v: &V, a: &A, tol: &dyn Fn(&F, &A, C) -> E| {
        let x = eval(v, a);
        for p in [MU, MQ, M] {
            if f.has(p) && a.re(p) != 0. {
                cx.state(1);
                let b = a.clone().with(p, -a.v[p]);
                cx.same_lazy(
                    &format!("evenness in {} {}", PN[p], f.full()),
                    &|| format!("evenness in {}: {} and {}", PN[p], f.desc(v, a), f.desc(v, &b)),
                    x.clone(),
                    eval(v, &b),
                    false,
                    |x| tol(f, a, x),
                );
            }
        }
    };
    jobs.par_iter().for_each(|(f, v, a)| parity(f, v, a, &hi_tol));
    let jobs = wjobs(cx, 2500, &|f: &F| !f.path.ends_with("quark"));
    cx.sample(format!("{} points of integrated functions, with fixed nodes", jobs.len()));
    crude(|| jobs.par_iter().for_each(|(f, v, a)| parity(f, v, a, &crude_tol)));
    // T -> 0: the difference to the limit decreases at least like a power
    let low: Vec<&F> = integral_fns().into_iter().filter(|f| f.has(BETA) && !f.path.ends_with("quark")).collect();
    let low: Vec<(&'static F, &'static V)> = low.into_iter().flat_map(|f| f.vars.iter().map(move |v| (f, v))).collect();
    let jobs: Vec<_> = low
        .par_iter()
        .flat_map_iter(|&(f, v)| {
            let mut jobs = vec![];
            let pts = ipoints_st(f, v.mask, 0, if cx.thorough { 1 } else { 5 });
            let mut seen = std::collections::HashSet::new();
            let mut k = 0;
            for a in pts {
                let key: Vec<u64> = f.params.iter().filter(|p| **p != BETA).map(|p| a.v[*p].re.to_bits() ^ a.v[*p].im.to_bits().rotate_left(7)).collect();
                if seen.insert(key) {
                    k += 1;
                    if k % if cx.thorough { 2 } else { 4 } == 0 {
                        jobs.push((f, v, a.clone(), [25., 100., 400., 1600.]));
                    }
                    // just above and just below the mass of the quarks (at vanishing frequency, the
                    // default tolerance is not enough for the logarithms inside a small sphere)
                    let coarse = f.path.contains("zero_matsubara") && !f.integral;
                    if f.has(MU) && f.has(MQ) && !coarse && k % if cx.thorough { 3 } else { 9 } == 0 {
                        for x in [1.01, -1.015, 1.03, 1.05, -1.08, 1.15, -1.3, 0.99, 0.999, -0.95] {
                            let mq = a.re(MQ).abs();
                            if mq < 0.05 {
                                continue;
                            }
                            let b = 1. / (mq * (f64::abs(x) - 1.).abs());
                            jobs.push((f, v, a.clone().with(MU, r(x * mq)), [5. * b, 20. * b, 40. * b, 80. * b]));
                        }
                    }
                }
            }
            jobs
        })
        .collect();
    for (f, v, a, _) in jobs.iter().step_by(jobs.len() / 5 + 1) {
        cx.sample(f.desc(v, a));
    }
    jobs.par_iter().for_each(|(f, v, a, betas)| {
        cx.state(1);
        let limit: C = match hi(f) {
            None => {
                if f.name.contains("quark") {
                    // thermal -> zero-temperature function
                    let n = f.name.replace("thermal_part_landau", "thermal_part_zero_temp_landau");
                    let z = func(f.path, &n);
                    same_mask(f, v, z).map_or(r(f64::NAN), |w| eval(w, a).unwrap_or(r(f64::NAN)))
                } else {
                    r(0.)
                }
            }
            Some(h) => {
                if h.qcd {
                    let n = f.name.replace("_landau", "_zero_temp_landau");
                    let z = func(f.path, &n);
                    same_mask(f, v, z).map_or(r(f64::NAN), |w| eval(w, a).unwrap_or(r(f64::NAN)))
                } else {
                    // the vacuum function
                    let n = f.name.replace("_l_", "_").replace("_t_", "_");
                    let path = if h.ghost { "ym::ghost" } else { "ym::gluon" };
                    let z = func(path, &n);
                    let om = if h.lim == Lim::ZeroOm { r(0.) } else { a.v[OM] };
                    let p = if h.lim == Lim::ZeroP { r(0.) } else { a.v[P] };
                    let sd = om * om + p * p;
                    let m = a.re(M);
                    let mut b = a.clone();
                    b.v[S] = sd / (m * m);
                    let x = eval(z.all_complex(), &b).unwrap_or(r(f64::NAN));
                    if h.what == 2 {
                        x / (m * m)
                    } else {
                        x
                    }
                }
            }
        };
        // the slowest approach is that of a Fermi surface at half the momentum or at zero
        // momentum, like the square root of the temperature
        let mut dev = vec![];
        let mut tol = 0.;
        let near = betas[0] != 25.;
        for beta in *betas {
            let b = a.clone().with(BETA, r(beta));
            cx.trans(1);
            let x = eval(v, &b).unwrap_or(r(f64::NAN));
            dev.push((x - limit).norm());
            // (the sharper a small Fermi sphere, the less of it the quadrature finds)
            tol = if near { 30. } else { 3. } * hi_tol(f, &b, x).tol();
        }
        let slow = if hi(f).is_none() { 2e-3 * limit.norm() } else { 0. };
        if !(dev[3] <= 0.25 * dev[0].max(dev[1]) + tol + slow) || dev.iter().any(|d| !d.is_finite()) {
            cx.violation(
                format!("zero temperature limit {}", f.full()),
                format!("{}: deviations from the zero-temperature limit {limit:e} at beta = {betas:?}: {dev:?} do not vanish", f.desc(v, a)),
            );
        }
        cx.valid(1);
    });
}

/// cost of the integral functions (for planning the lattices)
pub fn times(cx: &Ctx) {
    let jobs = ijobs(0, &|_: &F| true);
    println!("{} jobs", jobs.len());
    let act: &'static std::sync::Mutex<std::collections::BTreeMap<usize, String>> = Box::leak(Box::default());
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(20));
        println!("active {:#?}", act.lock().unwrap());
    });
    let t: Vec<(f64, String)> = jobs.par_iter().map(|(f, v, a)| {
        let t = std::time::Instant::now();
        let id = rayon::current_thread_index().unwrap_or(0);
        act.lock().unwrap().insert(id, f.desc(v, a));
        let nz = noise(f, a);
        let t1 = t.elapsed().as_secs_f64();
        if nz < 2. { let _ = eval(v, a); cx.trans(1); }
        act.lock().unwrap().remove(&id);
        if t.elapsed().as_secs_f64() > 0.05 { println!("{:?} {} noise {nz:.2e}", t.elapsed(), f.desc(v, a)); }
        cx.nviol.fetch_add((t1 * 1e9) as u64, std::sync::atomic::Ordering::Relaxed);
        cx.state(1);
        (t.elapsed().as_secs_f64(), f.desc(v, a))
    }).collect();
    let mut m: std::collections::BTreeMap<String, (f64, usize)> = Default::default();
    for (x, d) in &t {
        let e = m.entry(d.split('(').next().unwrap().into()).or_insert((0., 0));
        e.0 += x;
        e.1 += 1;
    }
    let mut v: Vec<_> = m.into_iter().collect();
    v.sort_by(|a, b| b.1 .0.partial_cmp(&a.1 .0).unwrap());
    println!("total {}", v.iter().map(|x| x.1 .0).sum::<f64>());
    for x in v.iter().take(25) { println!("{:.3} s {} points {}", x.1 .0, x.1 .1, x.0); }
    let mut t = t;
    t.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    for x in t.iter().take(25) { println!("{:.4} {}", x.0, x.1); }
}

// ------------------------------------------------------------------- C15

/// own evaluation of the charge density: nc/pi^2 times the integrated
/// difference of the occupation numbers
fn density_ref(m: f64, beta: f64, mu: f64, nc: f64) -> f64 {
    // n(x) - n(y) = sinh((y - x)/2) / (2 cosh(x/2) cosh(y/2))
    let f = |q: f64| {
        let e = (q * q + m * m).sqrt();
        let occ = |x: f64| if x > 0. { (-x).exp() / (1. + (-x).exp()) } else { 1. / (1. + x.exp()) };
        nc * q * q * (occ(beta * (e - mu)) - occ(beta * (e + mu))) / (std::f64::consts::PI * std::f64::consts::PI)
    };
    let mut br = vec![m.abs(), 1. / beta, 5. / beta, 30. / beta];
    if mu.abs() > m.abs() {
        let k = ((mu - m) * (mu + m)).sqrt();
        let w = mu.abs() / k.max(1e-3) / beta;
        br.extend([k, k + 5. * w, (k - 5. * w).max(0.), k + 30. * w, (k - 30. * w).max(0.)]);
    }
    quad_inf(&mut |q| E::real(f(q)), &br, 1e-12, 1e-15, 400).v.re
}

pub fn c15(cx: &Ctx) {
    let qp = "qcd::thermal::quark";
    let lv = cx.thorough as u8;
    let dm = func(qp, "charge_density_with_method");
    let dd = func(qp, "charge_density");
    let d0 = func(qp, "charge_density_zero_temp");
    let cm = func(qp, "chemical_potential_with_method");
    let cd = func(qp, "chemical_potential");
    let c0 = func(qp, "chemical_potential_zero_temp");
    let ev = |f: &F, a: &A| {
        cx.trans(1);
        match eval(f.var(0).unwrap(), a) {
            Ok(x) => x.re,
            Err(_) => f64::NAN,
        }
    };
    let mut ms = ivals(M, 1);
    ms.extend(ivals(MQ, lv));
    ms.push(0.);
    let betas: Vec<f64> = ivals(BETA, 1).into_iter().chain([0.6, 1000.]).collect();
    let mut mus: Vec<f64> = ivals(MU, 1);
    for k in 0..if cx.thorough { 60 } else { 24 } {
        mus.push(0.013 + 0.11 * k as f64);
    }
    for ncv in if cx.thorough { vec![3u32, 1, 2, 4, 7] } else { vec![3u32, 2, 5] } {
        set_nc(ncv);
        // closed forms at zero temperature, over the pointwise lattice
        pointwise_all(cx, "zero temperature", 1, 1, &|f: &F| f.path == qp && f.name.contains("zero_temp"));
        let jobs: Vec<(f64, f64)> = ms.iter().flat_map(|m| betas.iter().map(move |b| (*m, *b))).collect();
        jobs.par_iter().enumerate().for_each(|(k, &(m, beta))| {
            let tol = 1e-10;
            let mut a = A::new();
            a.set(M, m).set(BETA, beta);
            let mut ladder: Vec<f64> = mus.iter().flat_map(|x| [*x, -x]).collect();
            ladder.extend([m, -m, m * (1. + 1e-9), 2. * m]);
            ladder.sort_by(|x, y| x.partial_cmp(y).unwrap());
            ladder.dedup();
            let mut last = f64::NEG_INFINITY;
            for (i, &mu) in ladder.iter().enumerate() {
                cx.state(1);
                a.set(MU, mu);
                a.tol = tol;
                a.iter = 60;
                let x = ev(dm, &a);
                // (very cold: the adaptive quadrature may overlook a Fermi surface
                // next to a point of subdivision)
                let scale = tol * 300. + if beta > 90. { 0.01 } else { 1e-9 } * x.abs();
                let bad = |what: &str, got: f64, want: f64| {
                    cx.violation(
                        what.to_string(),
                        format!("{what}: colours {ncv}, mass {m:e}, beta {beta:e}, chemical potential {mu:e}: {got:e}, expected {want:e}"),
                    )
                };
                if (i + k) % if cx.thorough { 2 } else { 5 } == 0 {
                    let want = density_ref(m, beta, mu, ncv as f64);
                    cx.valid(1);
                    cx.ratio("density", (x - want).abs() / scale, || format!("{m} {beta} {mu}"));
                    if !((x - want).abs() <= scale) {
                        bad("charge density", x, want);
                    }
                    let y = ev(dd, &a);
                    if !((y - want).abs() <= scale) {
                        bad("charge density with the default method", y, want);
                    }
                    let mut b = a.clone();
                    b.set(MU, -mu);
                    let y = ev(dm, &b);
                    if !((x + y).abs() <= scale) {
                        bad("charge density is not odd", y, -x);
                    }
                    if ev(d0, &b) != -ev(d0, &a) {
                        bad("zero-temperature charge density is not odd", ev(d0, &b), -ev(d0, &a));
                    }
                    // T -> 0
                    let n0 = ev(d0, &a);
                    // (the quadrature resolves the Fermi surface to about a percent at worst)
                    let mut dev = vec![];
                    for bt in [50., 200., 800., 3200.] {
                        b.set(MU, mu).set(BETA, bt);
                        dev.push((ev(dm, &b) - n0).abs());
                    }
                    // Sommerfeld: corrections of relative order T^2
                    if !(dev[2] <= 0.02 * n0.abs() + 1e-3 && dev[3] <= 0.02 * n0.abs() + 1e-3) {
                        bad("charge density does not tend to the zero-temperature one", dev[3], 0.);
                    }
                }
                if mu == 0. && x != 0. {
                    bad("charge density at zero chemical potential", x, 0.);
                }
                if !(x >= last - scale) {
                    bad("charge density decreases with the chemical potential", x, last);
                }
                last = x;
            }
        });
        // the chemical potential at a given density
        let mut ns = ivals(N, 1);
        ns.extend([1e-3, 0.01, 0.1, 0.4, 1.5, 8., -0.3, -2.]);
        let jobs: Vec<(f64, f64, f64)> = ms
            .iter()
            .filter(|m| **m >= 0.05)
            .flat_map(|m| betas.iter().filter(|b| **b <= 50.).map(move |b| (*m, *b)))
            .flat_map(|(m, b)| ns.iter().map(move |n| (m, b, *n)))
            .collect();
        let st = if cx.thorough { 1 } else { 3 };
        let (_, first) = (0, ncv as usize % st);
        jobs.par_iter().skip(first).step_by(st).for_each(|&(m, beta, n)| {
            cx.state(1);
            let mut a = A::new();
            a.set(M, m).set(BETA, beta).set(N, n);
            a.tol = 1e-9;
            a.iter = 60;
            let bad = |what: &str, got: f64, want: f64| {
                cx.violation(
                    what.to_string(),
                    format!("{what}: colours {ncv}, mass {m:e}, beta {beta:e}, density {n:e}: {got:e}, expected {want:e}"),
                )
            };
            let x = ev(cm, &a);
            let y = ev(cd, &a);
            cx.valid(2);
            for (w, x) in [("chemical potential", x), ("chemical potential with the default method", y)] {
                if n == 0. {
                    if x != 0. {
                        bad(w, x, 0.);
                    }
                    continue;
                }
                let back = if x.is_finite() { density_ref(m, beta, x, ncv as f64) } else { f64::NAN };
                if !((back - n).abs() <= 1e-6 * n.abs() + 2e-9 * 150.) {
                    bad(&format!("density at the returned {w}"), back, n);
                }
                if x * n < 0. {
                    bad(&format!("sign of the {w}"), x, n);
                }
            }
            let mut b = a.clone();
            b.set(N, -n);
            let z = ev(cm, &b);
            let (p, q) = (density_ref(m, beta, z, ncv as f64), density_ref(m, beta, x, ncv as f64));
            if !((p + q).abs() <= 1e-6 * n.abs() + 6e-7) {
                bad("chemical potential is not odd", z, -x);
            }
            // zero temperature
            let x = ev(c0, &a);
            b.set(MU, x);
            let back = ev(d0, &b);
            if !((back - n).abs() <= 1e-9 * n.abs() * (1. + m * m / (x * x - m * m).abs().max(1e-300)).min(1e6)) {
                bad("zero-temperature density at the returned chemical potential", back, n);
            }
            b.set(N, -n);
            if ev(c0, &b) != -x {
                bad("zero-temperature chemical potential is not odd", ev(c0, &b), -x);
            }
        });
    }
    set_nc(3);
    cx.sample("mass 0.35, beta 3.2, chemical potentials -4 ... 4".into());
    cx.sample("mass 0.9, beta 9, densities -2 ... 20".into());
}

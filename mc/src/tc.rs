//! Critical temperatures, phase boundaries and their parametrisation.
use crate::base::*;
use rayon::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tc_long_prop::{find_critical_temperature, is_deconfined_phase, parametrize_phase_boundary, reduce_phase_boundary};

fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

// ------------------------------------------------------------------- C18

/// the definition: no data at all beyond the common length matter
fn tc_ref(ts: &[f64], ds: &[f64]) -> f64 {
    let n = ts.len().min(ds.len());
    let mut best = 0;
    for i in 0..n {
        // first occurrence of the largest value
        if (0..n).all(|j| ds[j] <= ds[i]) {
            best = i;
            break;
        }
    }
    ts[best]
}

fn c18_one(cx: &Ctx, ts: &[f64], ds: &[f64]) {
    cx.trans(1);
    cx.valid(1);
    let want = tc_ref(ts, ds);
    let got = caught(|| find_critical_temperature(ts, ds));
    if got.map(f64::to_bits) != Some(want.to_bits()) {
        cx.violation(
            "critical temperature".into(),
            format!("find_critical_temperature({ts:?}, {ds:?}) = {got:?}, but the first maximum is at {want:e}"),
        );
    }
}

pub fn c18(cx: &Ctx) {
    let alpha = [1., 0., -1., f64::from_bits(1f64.to_bits() + 1), -0., f64::INFINITY, f64::NEG_INFINITY, 2e-308];
    let depth = if cx.thorough { 7 } else { 5 };
    // temperature lists: increasing, decreasing, with repetitions, unordered, of other lengths
    let lists = |n: usize| -> Vec<Vec<f64>> {
        let up: Vec<f64> = (0..n + 3).map(|k| 0.01 * k as f64).collect();
        let mut down: Vec<f64> = (0..n).map(|k| 1. - 0.1 * k as f64).collect();
        down[0] = 3.;
        let mut v = vec![
            up[..n].to_vec(),
            up.clone(),
            down,
            (0..n).map(|k| [0.7, -0.2, 5., 0.7, 0.][k % 5]).collect(),
            vec![0.; n],
        ];
        for k in 1..n {
            v.push(up[..k].to_vec());
        }
        v
    };
    for n in 1..=depth {
        let ls = lists(n);
        let total = alpha.len().pow(n as u32);
        (0..total).into_par_iter().for_each(|mut i| {
            let ds: Vec<f64> = (0..n)
                .map(|_| {
                    let x = alpha[i % alpha.len()];
                    i /= alpha.len();
                    x
                })
                .collect();
            cx.state(1);
            for ts in &ls {
                c18_one(cx, ts, &ds);
            }
        });
    }
    cx.sample(format!("all value lists over {alpha:?} up to length {depth}"));
    // long lists: every pair of positions of two equal maxima, on several shapes
    let lens: &[usize] = if cx.thorough { &[8, 9, 16, 33, 64, 100, 129, 257] } else { &[8, 17, 64, 101] };
    for &n in lens {
        let shapes: [fn(usize) -> f64; 5] =
            [|_| 0., |k| 1e-3 * k as f64, |k| -1e-3 * k as f64, |k| ((k * 37) % 11) as f64 * 0.01, |k| -1. - 1e-16 * k as f64];
        let ts: Vec<f64> = (0..n).map(|k| 0.00012 * k as f64).collect();
        (0..n).into_par_iter().for_each(|i| {
            for j in i..n {
                for (k, s) in shapes.iter().enumerate() {
                    for peak in [1., 1. + 2e-16, -5e-324, 1e300] {
                        let mut ds: Vec<f64> = (0..n).map(s).collect();
                        ds[i] = peak;
                        ds[j] = peak;
                        cx.state(1);
                        c18_one(cx, &ts, &ds);
                        if k == 0 && peak == 1. {
                            // a larger value beyond the common length, a smaller one in between
                            c18_one(cx, &ts[..=i], &ds);
                            c18_one(cx, &ts, &ds[..=i]);
                            ds[(i + j) / 2] = peak - 2e-16;
                            c18_one(cx, &ts, &ds);
                            let m = ds.len() - 1;
                            ds[m] = f64::INFINITY;
                            c18_one(cx, &ts, &ds);
                            c18_one(cx, &ts[..m], &ds);
                        }
                    }
                }
            }
        });
    }
    cx.sample(format!("all pairs of positions of equal maxima in lists of lengths {lens:?}"));
}

// ------------------------------------------------------------------- C19

fn reduce_ref(pb: &[(f64, f64)]) -> Vec<(f64, f64)> {
    let mut out = vec![];
    for &(mu, t) in pb {
        if t == 0. {
            break;
        }
        out.push((mu, t));
    }
    out
}

/// Some(answer) or None where rounding of the interpolation decides;
/// Err where the classification is refused
fn phase_ref(mu: f64, t: f64, red: &[(f64, f64)]) -> Result<Option<bool>, ()> {
    if mu < red[0].0 {
        return Err(());
    }
    let last = red[red.len() - 1];
    if mu > last.0 {
        return Ok(Some(true));
    }
    for w in red {
        if w.0 == mu {
            return Ok(Some(t > w.1));
        }
    }
    for w in red.windows(2) {
        let ((m0, t0), (m1, t1)) = (w[0], w[1]);
        if m0 < mu && mu < m1 {
            let x = (mu - m0) / (m1 - m0);
            let tc = t0 * (1. - x) + t1 * x;
            let err = 1e-14 * (t0.abs() + t1.abs());
            if t0 == t1 {
                // exactly on a flat stretch
                return Ok(Some(t > t0));
            }
            if (t - tc).abs() <= err {
                // exact only if every operation is
                return Ok(None);
            }
            return Ok(Some(t > tc));
        }
    }
    unreachable!()
}

/// on a dyadic grid every operation is exact, and the boundary itself can be decided
fn dyadic(x: f64) -> bool {
    (x * 4096.).fract() == 0. && x.abs() < 4096.
}

/// `um`, `ut`: units of chemical potential and temperature (powers of two, so that scaling is exact)
fn c19_one(cx: &Ctx, pb: &[(f64, f64)], level: usize) {
    c19_units(cx, pb, level, 1., 1.);
}

fn c19_units(cx: &Ctx, pb: &[(f64, f64)], level: usize, um: f64, ut: f64) {
    let pb: &[(f64, f64)] = &pb.iter().map(|w| (w.0 * um, w.1 * ut)).collect::<Vec<_>>();
    cx.state(1);
    let want = reduce_ref(pb);
    let got = reduce_phase_boundary(pb);
    cx.trans(1);
    cx.valid(1);
    let eq = |a: &[(f64, f64)], b: &[(f64, f64)]| {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0.to_bits() == y.0.to_bits() && x.1.to_bits() == y.1.to_bits())
    };
    if !eq(got, &want) {
        cx.violation("reduction".into(), format!("reduce_phase_boundary({pb:?}) = {got:?} instead of {want:?}"));
        return;
    }
    let twice = reduce_phase_boundary(got);
    if !eq(twice, got) {
        cx.violation("idempotence".into(), format!("reducing {got:?} again gives {twice:?}"));
    }
    if want.is_empty() {
        return;
    }
    // query points: nodes, inside every interval, beyond both ends
    let mut mus: Vec<f64> = vec![];
    for (k, w) in want.iter().enumerate() {
        mus.push(w.0);
        if let Some(v) = want.get(k + 1) {
            mus.push((w.0 + v.0) / 2.);
            mus.push(w.0 + (v.0 - w.0) / 4.);
            mus.push(f64::from_bits(v.0.to_bits() - 1));
            if level > 0 {
                mus.push(w.0 + (v.0 - w.0) * 0.7);
                if w.0 > 0. {
                    mus.push(f64::from_bits(w.0.to_bits() + 1));
                }
            }
        }
    }
    let (first, last) = (want[0].0, want[want.len() - 1].0);
    mus.extend([first - 1e-9 * um, first - 0.5 * um, last + 1e-9 * um, last + 0.5 * um, 1e3 * um]);
    for w in pb.iter().skip(want.len()) {
        mus.extend([w.0, w.0 + 1e-3 * um]);
    }
    for &mu in &mus {
        let mut ts: Vec<f64> = vec![0., 1e-300 * ut, 0.05 * ut, 0.75 * ut, 10. * ut];
        for w in &want {
            ts.extend([w.1, w.1 * (1. + 1e-12), w.1 * (1. - 1e-12)]);
        }
        for w in want.windows(2) {
            if w[0].0 < mu && mu < w[1].0 {
                let x = (mu - w[0].0) / (w[1].0 - w[0].0);
                let tc = w[0].1 + (w[1].1 - w[0].1) * x;
                ts.extend([tc, tc * (1. + 1e-12), tc * (1. - 1e-12)]);
                if level > 0 {
                    ts.extend([tc * 1.5, tc * 0.5]);
                }
            }
        }
        ts.retain(|t| *t >= 0.);
        ts.sort_by(f64::total_cmp);
        ts.dedup();
        let mut before = false;
        for &t in &ts {
            cx.trans(2);
            let got = caught(|| is_deconfined_phase(mu, t, pb));
            let got2 = caught(|| is_deconfined_phase(mu, t, &want));
            if got != got2 {
                cx.violation(
                    "reduced".into(),
                    format!("is_deconfined_phase({mu:e}, {t:e}, {pb:?}) = {got:?}, but {got2:?} with the reduced boundary {want:?}"),
                );
            }
            let mut exp = phase_ref(mu, t, &want);
            if exp == Ok(None) {
                // decide exactly where all numbers are dyadic and the spacing is a power of two
                if let Some(w) = want.windows(2).find(|w| w[0].0 < mu && mu < w[1].0) {
                    let d = w[1].0 - w[0].0;
                    if [mu / um, t / ut, w[0].0 / um, w[0].1 / ut, w[1].0 / um, w[1].1 / ut].iter().all(|x| dyadic(*x)) && d.log2().fract() == 0. {
                        let tc = w[0].1 + (w[1].1 - w[0].1) * ((mu - w[0].0) / d);
                        exp = Ok(Some(t > tc));
                    }
                }
            }
            match exp {
                Ok(None) => cx.skip(1),
                Ok(Some(x)) => {
                    cx.valid(1);
                    if got != Some(x) {
                        cx.violation(
                            "classification".into(),
                            format!("is_deconfined_phase({mu:e}, {t:e}, {pb:?}) = {got:?}, expected {x}"),
                        );
                    }
                }
                Err(()) => {
                    cx.valid(1);
                    if got.is_some() {
                        cx.violation("refusal".into(), format!("is_deconfined_phase({mu:e}, {t:e}, {pb:?}) = {got:?} is not refused"));
                    }
                }
            }
            if let Some(x) = got {
                if before && !x {
                    cx.violation("monotonicity".into(), format!("is_deconfined_phase({mu:e}, {t:e}, {pb:?}) is false, but true at a lower temperature"));
                }
                before = x;
            }
        }
    }
}

const UNITS: [(f64, f64); 6] = [
    (1., 1. / (1u64 << 40) as f64),
    (1. / (1u64 << 40) as f64, 1.),
    (1. / (1u64 << 60) as f64, 1. / (1u64 << 60) as f64),
    ((1u64 << 30) as f64, (1u64 << 40) as f64),
    (1024., 1. / (1u64 << 20) as f64),
    (1. / (1u64 << 24) as f64, 1. / (1u64 << 30) as f64),
];

pub fn c19(cx: &Ctx) {
    // all boundaries over an alphabet of temperatures up to a length, on several grids of chemical potentials
    let alpha = [0.25, 0., 0.5, 1., -0., 0.3];
    let depth = if cx.thorough { 6 } else { 5 };
    let grids: &[fn(usize) -> f64] = &[
        |k| 0.125 * k as f64,
        |k| 0.1 * k as f64,
        |k| 0.25 + 0.5 * k as f64,
        |k| [0., 0.25, 0.375, 1., 1.5, 2.5, 3.][k],
        |k| 0.35 + 1e-3 * (k * k) as f64,
    ];
    for n in 1..=depth {
        let total = alpha.len().pow(n as u32);
        (0..total).into_par_iter().for_each(|mut i| {
            let ts: Vec<f64> = (0..n)
                .map(|_| {
                    let x = alpha[i % alpha.len()];
                    i /= alpha.len();
                    x
                })
                .collect();
            for (k, g) in grids.iter().enumerate() {
                if n == depth && k > 1 && !cx.thorough {
                    continue;
                }
                let pb: Vec<(f64, f64)> = ts.iter().enumerate().map(|(k, t)| (g(k), *t)).collect();
                c19_one(cx, &pb, (n <= 4) as usize);
                if n <= if cx.thorough { 4 } else { 3 } {
                    for (um, ut) in UNITS {
                        c19_units(cx, &pb, 0, um, ut);
                    }
                }
            }
        });
    }
    cx.sample(format!("all boundaries over temperatures {alpha:?} up to length {depth} on {} grids of chemical potentials", grids.len()));
    // realistic boundaries of every length: decreasing, flat at first, with a zero anywhere
    let max = if cx.thorough { 96 } else { 48 };
    let shapes: [fn(f64) -> f64; 6] = [
        |x| 0.16 * (1. - x * x),
        |x| if x < 0.4 { 0.14 } else { 0.14 * (1.4 - x) },
        |x| 0.1 + 0.05 * x,
        |x| (0.16 * (1. - x) * 100.).round() / 100. + 0.01,
        |x| 0.2 + 0.1 * (40. * x).sin(),
        |x| 150. - 40. * x,
    ];
    let spacings: &[fn(f64) -> f64] = &[
        |i| 0.01 * i,
        |i| i / 64.,
        |i| 0.001 * i * i,
        |i| 0.1 * i.sqrt(),
        |i| 0.35 + 0.02 * i,
        // refined from the tenth point on, coarse from there on, a single gap, MeV
        |i| if i < 10. { 0.05 * i } else { 0.5 + (i - 10.) * 0.002 },
        |i| if i < 10. { 0.002 * i } else { 0.02 + (i - 10.) * 0.05 },
        |i| 0.01 * i + if i > 6. { 1. } else { 0. },
        |i| 25. * i,
        |i| 1e-3 * (i * 0.3).exp(),
    ];
    (1..=max).into_par_iter().for_each(|n: usize| {
        for (k, s) in shapes.iter().enumerate() {
            for (j, g) in spacings.iter().enumerate() {
                if !cx.thorough && (n + k + j) % 3 != 0 && n > 24 {
                    continue;
                }
                for zero in [n, n / 2 + 1, 2 * n / 3 + 1] {
                    let pb: Vec<(f64, f64)> =
                        (0..n).map(|i| (g(i as f64), if i == zero { 0. } else { s(0.9 * i as f64 / n as f64) })).collect();
                    c19_one(cx, &pb, 1);
                    if n < 16 && zero == n {
                        let (um, ut) = UNITS[(n + j + k) % UNITS.len()];
                        c19_units(cx, &pb, 1, um, ut);
                    }
                }
            }
        }
    });
    cx.sample(format!("realistic boundaries of all lengths up to {max}, {} shapes on {} grids of chemical potentials", shapes.len(), spacings.len()));
}

// ------------------------------------------------------------------- C20

/// Solve the least-squares problem by modified Gram-Schmidt QR; also returns
/// the 2-norm condition estimate of the normal matrix (via its R factor).
fn vandermonde(mus: &[f64], n: usize) -> Vec<Vec<f64>> {
    (0..=n).map(|k| mus.iter().map(|m| m.powi(k as i32)).collect()).collect()
}

/// condition number of the column-scaled Vandermonde matrix (one-sided Jacobi)
pub fn cond(mus: &[f64], n: usize) -> f64 {
    let mut a = vandermonde(mus, n);
    for c in a.iter_mut() {
        let s = c.iter().map(|x| x * x).sum::<f64>().sqrt();
        c.iter_mut().for_each(|x| *x /= s);
    }
    for _ in 0..60 {
        let mut off = 0f64;
        for i in 0..a.len() {
            for j in 0..i {
                let (mut al, mut be, mut ga) = (0., 0., 0.);
                for k in 0..mus.len() {
                    al += a[i][k] * a[i][k];
                    be += a[j][k] * a[j][k];
                    ga += a[i][k] * a[j][k];
                }
                off = off.max(ga.abs() / (al * be).sqrt());
                if ga == 0. {
                    continue;
                }
                let z = (be - al) / (2. * ga);
                let t = z.signum() / (z.abs() + (1. + z * z).sqrt());
                let cs = 1. / (1. + t * t).sqrt();
                let sn = cs * t;
                for k in 0..mus.len() {
                    let (x, y) = (a[i][k], a[j][k]);
                    a[i][k] = cs * x - sn * y;
                    a[j][k] = sn * x + cs * y;
                }
            }
        }
        if off < 1e-14 {
            break;
        }
    }
    let norms: Vec<f64> = a.iter().map(|c| c.iter().map(|x| x * x).sum::<f64>().sqrt()).collect();
    norms.iter().cloned().fold(0., f64::max) / norms.iter().cloned().fold(f64::INFINITY, f64::min)
}

/// sampling patterns: number of points, range
fn samplings(thorough: bool) -> Vec<(String, Vec<f64>)> {
    let mut v: Vec<(String, Vec<f64>)> = vec![];
    let ns: &[usize] = if thorough { &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 41, 81, 201] } else { &[2, 3, 4, 5, 6, 8, 10, 11, 20, 81] };
    for &n in ns {
        let m = (n - 1) as f64;
        for (lo, hi) in [(0., 0.8), (0.1, 0.9), (0.3, 0.6), (0., 1e-3), (0., 2.), (1., 3.), (0., 800.), (0., 1e5)] {
            v.push((format!("{n} points uniform in {lo}..{hi}"), (0..n).map(|k| lo + (hi - lo) * k as f64 / m).collect()));
            if !thorough && n > 12 {
                break;
            }
        }
        v.push((format!("{n} points quadratic in 0..1"), (0..n).map(|k| (k as f64 / m).powi(2)).collect()));
        if n < 21 {
            v.push((format!("{n} points unordered in 0..1"), (0..n).map(|k| ((k * 7) % n) as f64 / m).collect()));
        }
    }
    v.retain(|x| {
        // distinct points only
        let mut y = x.1.clone();
        y.sort_by(f64::total_cmp);
        y.windows(2).all(|w| w[0] < w[1])
    });
    v
}

/// coefficients in units of the largest chemical potential
fn polys(n: usize) -> Vec<Vec<f64>> {
    let mut v = vec![];
    for k in 0..=n {
        let mut p = vec![0.; n + 1];
        p[0] = 0.3;
        p[k] += 0.7;
        v.push(p);
    }
    v.push((0..=n).map(|k| [0.16, -0.03, -0.2, 0.05, 0.3, -0.1, 0.02, -0.4, 0.25][k % 9]).collect());
    v.push((0..=n).map(|k| 1. + k as f64).collect());
    v.push((0..=n).map(|k| [-2., 0.5, 0.1][k % 3]).collect());
    v
}

fn horner(p: &[f64], x: f64) -> f64 {
    p.iter().rev().fold(0., |a, c| a * x + c)
}

pub fn c20(cx: &Ctx) {
    let mut jobs = vec![];
    for n in 0..=8usize {
        for (name, mus) in samplings(cx.thorough) {
            if mus.len() > n + 1 {
                jobs.push((n, name, mus));
            }
        }
    }
    let plots = std::env::temp_dir().join(format!("mc-c20-{}", std::process::id()));
    std::fs::create_dir_all(&plots).unwrap();
    let stub = std::env::var("PYTHONPATH").is_ok_and(|p| p.contains("pystub"));
    jobs.par_iter().enumerate().for_each(|(ji, (n, name, mus))| {
        let n = *n;
        let c2 = cond(mus, n).powi(2) * 2.2e-16;
        let sc = mus.iter().fold(0f64, |a, b| a.max(*b));
        // all degrees up to the requested one are among the polynomials
        for (pi, p) in polys(n).iter().enumerate() {
            if !cx.thorough && mus.len() > 40 && pi % 3 != n % 3 {
                continue;
            }
            let pb: Vec<(f64, f64)> = mus.iter().map(|m| (*m, horner(p, m / sc))).collect();
            if pb.iter().any(|x| x.1.abs() < 1e-3) {
                continue;
            }
            cx.state(1);
            let top = pb.iter().map(|x| x.1.abs()).fold(0., f64::max);
            let big = p.iter().map(|x| x.abs()).fold(top, f64::max);
            let verify = |what: &str, q: &Option<Vec<f64>>| -> bool {
                cx.trans(1);
                let say = |t: String| {
                    cx.violation(
                        format!("fit {what}"),
                        format!("degree {n}, {name}{what}, T = sum {p:?} (mu/{sc})^k: {t}"),
                    );
                    false
                };
                let Some(q) = q else {
                    return say("the fit panics".into());
                };
                if q.len() != n + 1 {
                    return say(format!("{} coefficients", q.len()));
                }
                // the fitted polynomial passes through the points, whatever the conditioning
                for (m, t) in &pb {
                    let f = horner(q, *m);
                    if !((f - t).abs() <= 1e-6 * big) {
                        return say(format!("{q:?} gives {f:e} instead of {t:e} at mu = {m:e}"));
                    }
                }
                cx.valid(1);
                if c2 > 1e-3 {
                    cx.skip(1);
                    return true;
                }
                for k in 0..=n {
                    let got = q[k] * sc.powi(k as i32);
                    if !((got - p[k]).abs() <= (30. * c2 + 1e-13) * big) {
                        return say(format!("coefficient {k} is {got:e} instead of {:e} (in units of the largest mu)", p[k]));
                    }
                }
                cx.valid(1);
                true
            };
            let q = caught(|| parametrize_phase_boundary(&pb, n, None));
            if !verify("", &q) {
                continue;
            }
            let q = q.unwrap();
            let same = |a: &Option<Vec<f64>>| {
                a.as_ref().is_some_and(|a| a.len() == q.len() && a.iter().zip(&q).all(|(x, y)| x.to_bits() == y.to_bits()))
            };
            // points after the first vanishing temperature
            if pi % 2 == 0 || cx.thorough {
                for tail in [vec![(sc * 1.1, 0.)], vec![(sc * 1.1, 0.), (sc * 1.2, 5.)], vec![(sc * 1.1, -0.), (sc * 9., 3.), (sc * 10., 0.), (sc * 11., 1.)]] {
                    let mut pb2 = pb.clone();
                    pb2.extend(tail.iter().cloned());
                    let q2 = caught(|| parametrize_phase_boundary(&pb2, n, None));
                    cx.trans(1);
                    cx.valid(1);
                    if !same(&q2) {
                        cx.violation("fit tail".into(), format!("degree {n}, {name}, {p:?}: {q2:?} with the points {tail:?} after the first vanishing temperature, {q:?} without"));
                        break;
                    }
                }
            }
            // a plot
            if stub && (ji + pi) % 5 == 0 {
                let path = plots.join(format!("{ji}_{pi}.png"));
                let q2 = caught(|| parametrize_phase_boundary(&pb, n, path.to_str()));
                cx.trans(1);
                cx.valid(1);
                if !same(&q2) {
                    cx.violation("fit plot".into(), format!("degree {n}, {name}, {p:?}: {q2:?} with a plot, {q:?} without"));
                }
                let _ = std::fs::remove_file(&path);
            }
        }
        if ji % 61 == 0 {
            cx.sample(format!("degree {n}, {name}: {} polynomials", polys(n).len()));
        }
    });
    let _ = std::fs::remove_dir_all(&plots);
    if !stub {
        cx.note("no plotting stub: plots not requested".into());
    }
}

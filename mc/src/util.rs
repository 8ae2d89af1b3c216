//! Root finder, residues and spectral functions: every answer a searched
//! function could give, up to a depth.
use crate::base::*;
use qcd_sme::utils::*;
use qcd_sme::Num;
use rayon::prelude::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// One execution: answers chosen by `path` (alphabet indices, extended with 0
/// as needed). Returns the result and the queries.
fn run<T: Num>(
    alpha: &[T],
    path: &RefCell<Vec<usize>>,
    guesses: (T, T),
    tol: f64,
    max_iter: usize,
) -> (Result<Option<(T, T)>, ()>, Vec<(T, T)>, bool) {
    let q: RefCell<Vec<(T, T)>> = RefCell::new(vec![]);
    let over = RefCell::new(false);
    let res = catch_unwind(AssertUnwindSafe(|| {
        find_root(
            &|z: T| {
                let n = q.borrow().len();
                if n > max_iter + 2 {
                    // far beyond the budget: stop the execution
                    *over.borrow_mut() = true;
                    panic!("budget");
                }
                let mut p = path.borrow_mut();
                if p.len() <= n {
                    p.push(0);
                }
                let y = alpha[p[n]];
                q.borrow_mut().push((z, y));
                y
            },
            guesses,
            tol,
            max_iter,
        )
    }))
    .map_err(|_| ());
    let o = *over.borrow();
    (res, q.into_inner(), o)
}

fn same<T: Num>(a: T, b: T) -> bool {
    bits(C::new(a.re(), a.im())) == bits(C::new(b.re(), b.im()))
}

fn tree<T: Num>(cx: &Ctx, kind: &str, alpha: &[T], guesses: (T, T), tol: f64, max_iter: usize, first: usize) {
    let path = RefCell::new(vec![first]);
    let mut n = 0u64;
    let mut nodes = 0u64;
    loop {
        let (res, q, over) = run(alpha, &path, guesses, tol, max_iter);
        n += 1;
        nodes += q.len() as u64;
        let isnan = |x: &T| x.re().is_nan() || x.im().is_nan();
        // the verdict according to the contract: guess 0 is never tested, then
        // one value is tested per iteration
        let mut want: Option<usize> = None;
        for k in 0..max_iter {
            let Some((_, y)) = q.get(k + 1) else { break };
            if isnan(y) {
                break;
            }
            if y.abs() < tol {
                want = Some(k + 1);
                break;
            }
        }
        let text = || {
            format!(
                "find_root ({kind}, guesses {}, {}, tolerance {tol:e}, {max_iter} iterations) with the function values {:?} at {:?}",
                guesses.0,
                guesses.1,
                q.iter().map(|x| x.1.to_string()).collect::<Vec<_>>(),
                q.iter().map(|x| x.0.to_string()).collect::<Vec<_>>()
            )
        };
        let bad = |what: &str| cx.violation(format!("root {what}"), format!("{}: {what}", text()));
        match res {
            _ if over => bad("evaluates the function beyond its iteration budget"),
            Err(()) => bad("panics"),
            Ok(Some((z, y))) => {
                if !(y.abs() < tol) {
                    bad("returns a value that is not below the tolerance");
                } else if !q.iter().any(|(a, b)| same(*a, z) && same(*b, y)) {
                    bad("returns a value that is not the function's value at the returned point");
                } else if want.is_none() && !same(q[0].0, z) {
                    bad("returns a point although it met a NaN or exhausted its budget");
                }
            }
            Ok(None) => {
                if let Some(k) = want {
                    bad(&format!("returns nothing although value number {k} is below the tolerance"));
                }
            }
        }
        // next path: increment the last choice, the first one is fixed
        let mut p = path.borrow_mut();
        p.truncate(q.len());
        while p.len() > 1 && *p.last().unwrap() + 1 == alpha.len() {
            p.pop();
        }
        if p.len() <= 1 {
            break;
        }
        *p.last_mut().unwrap() += 1;
    }
    cx.state(nodes);
    cx.trans(nodes);
    cx.valid(n);
}

pub fn c17(cx: &Ctx) {
    let tols = [1e-10, 0.3];
    let deep = if cx.thorough { 5 } else { 4 };
    for tol in tols {
        let ar = [
            f64::NAN,
            1.,
            -1.,
            3.7,
            f64::INFINITY,
            f64::NEG_INFINITY,
            0.,
            -0.,
            0.5 * tol,
            -0.5 * tol,
            tol * (1. - 1e-15),
            tol,
            -tol,
            -1e300,
            1e-310,
        ];
        let ac = [
            c(1., 0.),
            c(0., -1.),
            c(-2., 0.7),
            c(f64::NAN, 0.),
            c(0., f64::NAN),
            c(f64::INFINITY, 0.),
            c(0., f64::NEG_INFINITY),
            c(0., 0.),
            c(0.4 * tol, 0.4 * tol),
            c(0., -0.99 * tol),
            c(0.8 * tol, 0.8 * tol),
            c(-tol, 0.),
            c(1e200, 1e200),
        ];
        for it in 0..=deep {
            for g in [(0., 1.), (2.5, -3.), (1e-3, 1e3)] {
                (0..ar.len()).into_par_iter().for_each(|i| tree(cx, "real", &ar, g, tol, it, i));
                let h = (c(g.0, 0.3), c(g.1, -1.1));
                (0..ac.len()).into_par_iter().for_each(|i| tree(cx, "complex", &ac, h, tol, it.min(deep), i));
            }
        }
    }
    // guesses and tolerances that have to be refused
    for tol in [0., -0., -1e-3, f64::NEG_INFINITY, f64::NAN, 1e-8] {
        for (a, b) in [(0., 1.), (1., 1.), (0., -0.), (2.5, 2.5), (1e-300, 1e-300)] {
            for cpx in [false, true] {
                let calls = std::cell::Cell::new(0);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if cpx {
                        find_root(
                            &|z: C| {
                                calls.set(calls.get() + 1);
                                if calls.get() > 20 { panic!("runaway") }
                                z - 3.
                            },
                            (c(a, 0.), c(b, 0.)),
                            tol,
                            9,
                        )
                        .is_some()
                    } else {
                        find_root(
                            &|z: f64| {
                                calls.set(calls.get() + 1);
                                if calls.get() > 20 { panic!("runaway") }
                                z - 3.
                            },
                            (a, b),
                            tol,
                            9,
                        )
                        .is_some()
                    }
                }));
                cx.state(1);
                cx.valid(1);
                let refuse = a == b || !(tol > 0.);
                if refuse != r.is_err() || refuse && calls.get() > 0 {
                    cx.violation(
                        "root refusal".into(),
                        format!("find_root with guesses {a}, {b} and tolerance {tol} must {}", if refuse { "refuse its arguments" } else { "not panic" }),
                    );
                }
            }
        }
    }
    // linear functions
    let xs = [-1e3, -2.5, -1., -0.3, 0., 1e-3, 0.7, 1., 3.2, 57., 1e4];
    let slopes = [-30., -1., -1e-3, 0.02, 1., 5., 1e3];
    for &x0 in &xs {
        for &sl in &slopes {
            for &g0 in &xs {
                for &g1 in &xs {
                    if g0 == g1 {
                        continue;
                    }
                    let big = [x0, g0, g1].iter().fold(0f64, |a, b| a.max(b.abs()));
                    let tol = 1e-8 * sl.abs() * big;
                    cx.state(1);
                    cx.trans(2);
                    cx.valid(2);
                    let check = |kind: &str, ok: bool, got: String| {
                        if !ok {
                            cx.violation(
                                "root linear".into(),
                                format!("find_root ({kind}) of {sl} (z - {x0}) from {g0}, {g1} within {tol:e}: {got}"),
                            )
                        }
                    };
                    let r1 = find_root(&|z: f64| sl * (z - x0), (g0, g1), tol, 8);
                    check("real", matches!(r1, Some((z, _)) if (z - x0).abs() <= 1.0001e-8 * big), format!("{r1:?}"));
                    let (z0, s) = (c(x0, 0.6 * g1), c(sl, 0.4));
                    let r2 = find_root(&|z: C| s * (z - z0), (c(g0, 0.3), c(g1, -0.2)), tol, 8);
                    check("complex", matches!(r2, Some((z, _)) if (z - z0).norm() <= 1.0001e-8 * big), format!("{r2:?}"));
                }
            }
        }
    }
    // residues: c/(z - z0) plus a regular part, known in closed form to the second order of the step
    let cs = [c(1., 0.), c(-0.4, 0.), c(2., 1.3), c(0., -7.), c(1e-2, 0.)];
    let zs = [c(0., 0.), c(1., 0.), c(-2.5, 0.), c(0.7, 1.9), c(-1e2, 30.)];
    let regs: [(&str, fn(C) -> C); 4] =
        [("0", |_| c(0., 0.)), ("1 - z^2", |z| 1. - z * z), ("exp(z/50)", |z| (z / 50.).exp()), ("(3 + i) z", |z| c(3., 1.) * z)];
    for res in cs {
        for z0 in zs {
            for (name, g) in regs {
                for eps in [1e-2, 1e-4, 1e-6, 0.] {
                    let f = |z: C| res / (z - z0) + g(z);
                    let e = if eps == 0. { 1e-12 } else { eps };
                    let got = if eps == 0. { compute_residue(&f, z0) } else { compute_residue_with_eps(&f, z0, eps) };
                    let gn = (g(z0).norm() + (g(z0 + e) - g(z0 - e)).norm() / e) / res.norm();
                    let tol = res.norm() * (1e-14 + 4e-16 * z0.norm() / e + 4. * (gn * e * gn * e + gn * e * e) + 1e-15 * gn);
                    cx.state(1);
                    cx.trans(1);
                    cx.valid(1);
                    if tol < 0.3 * res.norm() && !((got - res).norm() <= tol) {
                        cx.violation(
                            "residue".into(),
                            format!("residue of {res}/(z - {z0}) + {name} with step {e:e}: {got:e} (within {tol:e})"),
                        );
                    }
                    // real
                    if res.im == 0. && z0.im == 0. && name != "(3 + i) z" {
                        let f = |x: f64| res.re / (x - z0.re) + g(r(x)).re;
                        let got = if eps == 0. { compute_residue(&f, z0.re) } else { compute_residue_with_eps(&f, z0.re, eps) };
                        cx.valid(1);
                        if tol < 0.3 * res.norm() && !((got - res.re).abs() <= tol) {
                            cx.violation(
                                "residue".into(),
                                format!("residue (real) of {}/(x - {}) + {name} with step {e:e}: {got:e} (within {tol:e})", res.re, z0.re),
                            );
                        }
                    }
                }
            }
        }
    }
    // spectral functions: the definition, for functions with poles and cuts
    let fs: [(&str, fn(C) -> C); 6] = [
        ("1/(z - 0.7)", |z| 1. / (z - 0.7)),
        ("-1/(z^2 - 2)", |z| -1. / (z * z - 2.)),
        ("ln(-z)", |z| (-z).ln()),
        ("sqrt(z)", |z| z.sqrt()),
        ("z^2", |z| z * z),
        ("1/(z + 1 + 0.1 i)", |z| 1. / (z + c(1., 0.1))),
    ];
    for (name, f) in fs {
        for x in [-30., -3., -1.4142, -1., -0.2, 0., 0.3, 0.7, 0.70001, 1.4143, 5., 200.] {
            for y in [0., 0.5, -0.02] {
                for eps in [0.3, 1e-3, 1e-6, 0.] {
                    let z = c(x, y);
                    let e = if eps == 0. { 1e-12 } else { eps };
                    let got = if eps == 0. { spectral_function(f, z) } else { spectral_function_with_eps(f, z, eps) };
                    let (a, b) = (f(z + c(0., e)), f(z - c(0., e)));
                    let want = c(0., 1.) * (a - b) / (2. * std::f64::consts::PI);
                    cx.state(1);
                    cx.trans(1);
                    if !finite(want) {
                        cx.skip(1);
                        continue;
                    }
                    cx.valid(1);
                    if !((got - want).norm() <= 1e-13 * (a.norm() + b.norm())) {
                        cx.violation(
                            "spectral function".into(),
                            format!("spectral function of {name} at {z} with step {e:e}: {got:e}, expected {want:e}"),
                        );
                    }
                }
            }
        }
    }
    // known discontinuities: ln(-z) jumps by -2 pi i on the positive axis
    for x in [1e-3, 0.4, 1., 30., 1e5] {
        let got = spectral_function(|z: C| (-z).ln(), r(x));
        cx.valid(1);
        if !((got - 1.).norm() < 1e-6 / x.min(1.)) {
            cx.violation("spectral function".into(), format!("spectral function of ln(-z) at {x}: {got:e}, expected 1"));
        }
        let got = spectral_function(|z: C| (-z).sqrt(), r(x));
        let want = x.sqrt() / std::f64::consts::PI;
        if !((got - want).norm() < 1e-6 / x.min(1.)) {
            cx.violation("spectral function".into(), format!("spectral function of sqrt(-z) at {x}: {got:e}, expected {want}"));
        }
    }
    cx.sample("real: guesses (0, 1), tolerance 1e-10, 3 iterations, answers [1, -1, NaN]".into());
    cx.sample("complex: guesses (2.5+0.3i, -3-1.1i), answers [1, -i, 0.4e-10+0.4e-10i]".into());
}

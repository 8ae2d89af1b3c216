//! Reference values of the functions that integrate over the loop momentum,
//! and the lattices on which those are explored.
use crate::base::*;
use crate::num_e::*;
use crate::quad::*;
use crate::refm::{self, Lim, G};

pub const PREF: f64 = 16. * std::f64::consts::PI * std::f64::consts::PI / 3.;

/// values of a parameter for the integral lattices
pub fn ivals(p: usize, lvl: u8) -> Vec<f64> {
    let (a, b): (&[f64], &[f64]) = match p {
        OM => (&[0.02, 0.21, 0.75, 2.16, 6.28, -1.15], &[0.003, 0.1, 0.4, 1.5, 3.5, 12.57, 25., -0.3]),
        P => (&[0.03, 0.21, 0.8, 2.16, 6.5], &[0.01, 0.1, 0.45, 1.1, 1.4, 3.2, 12.]),
        M => (&[0.15, 0.656, 1.2, 2.9], &[0.05, 0.35, 0.9, 1.7, 5., -0.7]),
        MQ => (&[0.02, 0.35, 0.8, 1.27, 4.18], &[0.005, 0.125, 0.5, 1.0, 2.4, -0.35]),
        BETA => (&[0.35, 1.3, 3.2, 9., 40.], &[0.2, 0.8, 2., 5., 20., 100., 300.]),
        MU => (&[0., 0.2, 0.8, 2.4, -0.6], &[0.05, 0.35, 1.1, 1.5, 4., -1.3, -3.]),
        F0 | G0 => (&[-0.876, 0.15, 2.], &[-1.1, 0., 0.5, 10., -20.]),
        N => (&[0.002, 0.05, 0.7, -0.05], &[1e-4, 0.2, 3., 20., -0.7, 0.]),
        _ => (&[0.3, 1.37], &[]),
    };
    let mut v = a.to_vec();
    if lvl >= 1 {
        v.extend_from_slice(b);
    }
    v
}

pub fn ibases(lvl: u8) -> Vec<A> {
    let mk = |om: C, p, m, mq, beta, mu, f0, g0, n| {
        let mut a = A::new();
        a.v[OM] = om;
        a.set(P, p).set(M, m).set(MQ, mq).set(BETA, beta).set(MU, mu).set(F0, f0).set(G0, g0).set(N, n);
        a.tol = 1e-10;
        a.iter = 60;
        a
    };
    let mut v = vec![
        mk(c(0.75, 0.2), 1.16, 0.656, 0.35, 3.2, 0.8, -0.876, 0.15, 0.05),
        mk(c(2.5, -0.6), 0.4, 1.2, 0.5, 1.1, 1.4, 2.3, 1.4, 0.4),
    ];
    if lvl >= 1 {
        v.push(mk(c(6.2, 1.), 3.1, 0.4, 1.3, 0.6, 0.3, 0.2, -0.7, 0.002));
        v.push(mk(c(0.1, 0.03), 0.25, 0.9, 0.1, 8., -0.5, -3., 5., -0.3));
    }
    v
}

/// points of the lattice of pairs of coordinates for a function with an integral
pub fn ipoints(f: &F, mask: u8, lvl: u8) -> Vec<A> {
    ipoints_st(f, mask, lvl, 1)
}

/// every `st`-th of them, starting at a place that depends on the function
pub fn ipoints_st(f: &F, mask: u8, lvl: u8, st: usize) -> Vec<A> {
    let cp = f.complex_params(mask);
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut push = |a: A, out: &mut Vec<A>| {
        let k: Vec<u64> = f.params.iter().flat_map(|&p| [a.v[p].re.to_bits(), a.v[p].im.to_bits()]).collect();
        if seen.insert(k) {
            out.push(a);
        }
    };
    let lists: Vec<(usize, Vec<C>)> = f
        .params
        .iter()
        .map(|&p| {
            let mut v: Vec<C> = ivals(p, lvl).into_iter().map(r).collect();
            if cp.contains(&p) {
                // turned frequencies, away from the imaginary axis
                let w: Vec<C> = v.iter().enumerate().map(|(i, x)| x * C::from_polar(1., [0.3, -0.6, 0.9][i % 3])).collect();
                v.extend(w);
            }
            (p, v)
        })
        .collect();
    for mut b in ibases(lvl) {
        crate::lattice::realify(f, mask, &mut b);
        for i in 0..lists.len() {
            for j in i + 1..lists.len() {
                for x in &lists[i].1 {
                    for y in &lists[j].1 {
                        let mut a = b.clone();
                        a.v[lists[i].0] = *x;
                        a.v[lists[j].0] = *y;
                        push(a, &mut out);
                    }
                }
            }
        }
        if lists.len() < 2 {
            push(b, &mut out);
        }
    }
    out.into_iter().skip((f.id as usize * 5 + mask as usize) % st).step_by(st).filter(|a| noise(f, a) < 0.4).collect()
}

/// The low-level function integrated by `f`
pub fn integrand(f: &F) -> Option<&'static F> {
    if !f.path.starts_with("low_level::oneloop::thermal") || f.has(Q) {
        return None;
    }
    let n = f.name.strip_suffix("_w_method").unwrap_or(f.name);
    let n = format!("{n}_i");
    let path = f.path.replace("::zero_matsubara", "");
    crate::registry::FNS.iter().find(|g| g.path == path && g.name == n)
}

/// Momenta around which the integrand varies quickly
pub fn breaks(om: C, p: f64, masses: &[f64]) -> Vec<f64> {
    let mut v = vec![];
    for m1 in masses {
        for m2 in masses {
            let d = m2 * m2 - m1 * m1;
            let s = (om * om).re + p * p;
            if p > 0. {
                for x in [(p * p + d).abs(), (s + d).abs()] {
                    v.push(x / (2. * p));
                }
                let w = om.norm();
                if w < 0.1 {
                    v.push((p * p + d).abs() / (2. * p) + 10. * w);
                    v.push(((p * p + d).abs() / (2. * p) - 10. * w).max(0.));
                }
            }
        }
        v.push(m1.abs());
    }
    v
}

/// The integral of the reference integrand (`lib = false`) or of the library's
/// own one (`lib = true`). Zero-frequency functions: real part at frequency `reg`.
pub fn integral_ref(f: &F, a: &A, g: G, reg: f64, lib: bool) -> Option<QI> {
    let fi = integrand(f)?;
    let zm = f.path.contains("zero_matsubara");
    let zp = f.path.contains("zero_momentum");
    let mut b = a.clone();
    if zm {
        b.v[OM] = r(reg);
    }
    let var = fi.all_complex();
    // complex momenta are accepted by some integrated functions only
    let lib = lib && (a.v[P].im == 0. || fi.complex_params(var.mask).contains(&P));
    let mut ev = |q: f64| {
        let mut b = b.clone();
        b.v[Q] = r(q);
        let mut y = if lib { E::new((var.call)(&b)) } else { refm::pointwise(fi, &b, g).unwrap() };
        if y.f & CUT != 0 {
            y.e = f64::INFINITY;
        }
        if zm {
            y.v.im = 0.;
        }
        y
    };
    let p = if zp { 0. } else { a.re(P) };
    if f.name.contains("zero_temp") {
        let (mu, mq) = (a.re(MU), a.re(MQ));
        if mu.abs() <= mq.abs() {
            return Some(QI { v: r(0.), err: 0., abs: 0., e: 0., bad: false, n: 0 });
        }
        let kf = ((mu - mq) * (mu + mq)).sqrt();
        let mut br = vec![0., kf];
        br.extend(breaks(b.v[OM], p, &[mq]).into_iter().filter(|x| *x > 0. && *x < kf));
        br.sort_by(|x, y| x.partial_cmp(y).unwrap());
        // stay inside the Fermi sphere in spite of rounding
        let mut inside = |q: f64| ev(q.min(kf * (1. - 1e-13)));
        Some(quad(&mut inside, &br, 1e-11, 1e-16, 150))
    } else {
        let masses: Vec<f64> = if f.has(MQ) { vec![a.re(MQ)] } else { vec![0., a.re(M)] };
        let mut br = breaks(b.v[OM], p, &masses);
        br.push(1. / a.re(BETA));
        br.push(10. / a.re(BETA));
        if f.has(MU) {
            let (mu, mq) = (a.re(MU), a.re(MQ));
            if mu.abs() > mq.abs() {
                br.push((mu * mu - mq * mq).sqrt());
            }
        }
        Some(quad_inf(&mut ev, &br, 1e-11, 1e-16, 200))
    }
}

/// A value with an absolute error, for a comparison on the same footing
pub fn from_qi(x: &QI, tol: f64) -> E {
    let mut e = E::new(x.v);
    e.e = x.e + (20. * x.err + 1e-9 * x.abs + tol) / SLACK;
    if x.bad {
        e.e = f64::INFINITY;
    }
    e
}

/// Kind of a high-level thermal function
pub struct Hi {
    pub ghost: bool,
    pub l: bool,
    pub zero_temp: bool,
    pub lim: Lim,
    pub qcd: bool,
    /// 0 inverse dressing, 1 dressing, 2 propagator
    pub what: u8,
}
pub fn hi(f: &F) -> Option<Hi> {
    if !(f.path.starts_with("ym::thermal") || f.path.starts_with("qcd::thermal")) || f.path.ends_with("quark") {
        return None;
    }
    Some(Hi {
        ghost: f.path.ends_with("ghost"),
        l: f.name.contains("_l_"),
        zero_temp: f.name.contains("zero_temp"),
        lim: refm::lim_of(f.path),
        qcd: f.path.starts_with("qcd") && !f.path.ends_with("ghost"),
        what: if f.name.contains("inv") {
            0
        } else if f.name.starts_with("dressing") {
            1
        } else {
            2
        },
    })
}

pub fn sub(lim: Lim) -> &'static str {
    match lim {
        Lim::Full => "",
        Lim::ZeroOm => "::zero_matsubara",
        Lim::ZeroP => "::zero_momentum",
    }
}

/// Reference value of a thermal dressing function, given how to obtain the
/// integrated thermal parts: `part(f, a)` evaluates a low-level function.
/// `tol`: absolute error of each of them.
pub fn dressing_ref(f: &F, a: &A, g: G, part: &mut dyn FnMut(&F, &A) -> E) -> Option<E> {
    let h = hi(f)?;
    let (y, sd) = inverse_ref(f, &h, a, g, part);
    Some(match h.what {
        0 => y,
        1 => y.inv(),
        _ => y.inv() / sd,
    })
}
/// the inverse dressing function, and the squared momentum
pub fn inverse_ref(f: &F, h: &Hi, a: &A, g: G, part: &mut dyn FnMut(&F, &A) -> E) -> (E, E) {
    let m = if f.cfg { a.cfg.gluon } else { a.re(M) };
    let om = if h.lim == Lim::ZeroOm { E::real(0.) } else { E::new(a.v[OM]) };
    let p = if h.lim == Lim::ZeroP { E::real(0.) } else { E::new(a.v[P]) };
    let sd = om.sq() + p.sq();
    let s = sd / E::real(m * m);
    let mut inv;
    let mut th = E::real(0.);
    if h.ghost {
        inv = refm::ghost_inv(s, E::new(a.v[G0]), E::real(0.));
        let fp = func(&format!("low_level::oneloop::thermal::ghost{}", sub(h.lim)), "self_energy_thermal_part_landau");
        th = th - part(fp, a);
    } else {
        inv = refm::gluon_inv(s, E::new(a.v[F0]), None);
        let path = format!("low_level::oneloop::thermal::gluon{}", sub(h.lim));
        let lt = if h.l { "l" } else { "t" };
        let mut b = a.clone();
        b.v[M] = r(m);
        if !h.zero_temp {
            th = th + part(func(&path, &format!("polarization_glue_{lt}_thermal_part_landau")), &b);
        }
        if h.qcd {
            let zt = if h.zero_temp { "zero_temp_" } else { "" };
            let fq = func(&path, &format!("polarization_quark_{lt}_thermal_part_{zt}landau"));
            let list: Vec<(f64, f64, f64)> = if f.cfg {
                a.cfg.quarks.iter().map(|&(nf, mq)| (nf as f64, mq, a.cfg.nc as f64)).collect()
            } else {
                vec![(g.nf, a.re(MQ), g.nc)]
            };
            for (nf, mq, nc) in list {
                inv = inv + refm::quark_inv(s, m, mq, nf / nc, false);
                b.v[MQ] = r(mq);
                th = th + part(fq, &b).k(nf * g.nc / nc);
            }
        }
    }
    (inv - th / sd * E::real(PREF), sd)
}

/// all functions which integrate, by rough cost class
pub fn integral_fns() -> Vec<&'static F> {
    crate::registry::FNS.iter().filter(|f| f.is_integral()).collect()
}

/// Largest ratio between the rounding noise of the integrand and the requested
/// accuracy, over all integrals in `f`: where it is not small, the adaptive
/// integration of the library splits intervals until its depth limit.
pub fn noise(f: &F, a: &A) -> f64 {
    let g = G { nc: 3., nf: 1., mq: 0.5 };
    let tol = crate::pnum::integ_tol(f, a) / 300.;
    if let Some(fi) = integrand(f) {
        if f.name.contains("zero_temp") && a.re(MU).abs() <= a.re(MQ).abs() {
            return 0.;
        }
        let mut b = a.clone();
        if f.path.contains("zero_matsubara") {
            b.v[OM] = r(1e-5);
        }
        let mut worst = 0f64;
        let n = 40;
        let zt = f.name.contains("zero_temp");
        let mut tot = 0.;
        for i in 0..n + 3 {
            // the last ones: end nodes of a single subdivision
            let t = if i < n { (i as f64 + 0.5) / n as f64 } else { [0.00427, 0.0254, 0.0677][i - n] };
            let (q, w) = if zt {
                let kf = ((a.re(MU) - a.re(MQ)) * (a.re(MU) + a.re(MQ))).sqrt();
                (t * kf, kf)
            } else {
                ((1. - t) / t, 1. / (t * t))
            };
            b.v[Q] = r(q);
            let e = refm::pointwise(fi, &b, g).unwrap();
            let x = e.e * w;
            if x.is_finite() {
                tot += x / n as f64;
                worst = worst.max(x);
            }
        }
        return (0.1 * worst + tot) / tol;
    }
    if f.path.ends_with("quark") {
        return 1e-16 * (1. + a.re(MU).abs().powi(3)) / tol;
    }
    let Some(h) = hi(f) else { return 0. };
    let mut w = 0f64;
    let mut add = |fp: &F, b: &A| w = w.max(noise(fp, b));
    let s = sub(h.lim);
    if h.ghost {
        add(func(&format!("{TH}::ghost{s}"), "self_energy_thermal_part_landau"), a);
    } else {
        let path = format!("{TH}::gluon{s}");
        let lt = if h.l { "l" } else { "t" };
        let mut b = a.clone();
        if f.cfg {
            b.set(M, a.cfg.gluon);
        }
        if !h.zero_temp {
            add(func(&path, &format!("polarization_glue_{lt}_thermal_part_landau")), &b);
        }
        if h.qcd {
            let zt = if h.zero_temp { "zero_temp_" } else { "" };
            let fq = func(&path, &format!("polarization_quark_{lt}_thermal_part_{zt}landau"));
            if f.cfg {
                for q in &a.cfg.quarks {
                    b.set(MQ, q.1);
                    add(fq, &b);
                }
            } else {
                add(fq, &b);
            }
        }
    }
    w
}
const TH: &str = "low_level::oneloop::thermal";

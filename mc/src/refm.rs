//! The reference model: the textbook definitions of every function, written
//! once, in a general form (arbitrary masses, exact derivatives by dual
//! numbers), independently of how the library specialises them.
use crate::base::*;
use crate::num_e::*;
use std::f64::consts::PI;

const PI2: f64 = PI * PI;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Sc,
    L,
    T,
}
/// which limit of the loop integrals
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lim {
    Full,
    ZeroOm,
    ZeroP,
}

pub fn energy(q: E, m: E) -> E {
    (q.sq() + m.sq()).sqrt()
}

/// 1/(exp(x)+sign)
pub fn occ<X: Nm>(x: X, sign: f64) -> X {
    if x.val().v.re > 0. {
        let y = (-x).exp();
        y / (X::real(1.) + y.k(sign))
    } else {
        (x.exp() + X::real(sign)).inv()
    }
}
pub fn bose(en: E, beta: E) -> E {
    occ(en * beta, -1.)
}
pub fn fermi(en: E, beta: E, mu: E) -> E {
    occ((en - mu) * beta, 1.)
}
pub fn fermi2(en: E, beta: E, mu: E) -> E {
    fermi(en, beta, mu) + fermi(en, beta, -mu)
}
pub fn step(en: E, mu: E) -> E {
    let d = en.v.re - mu.v.re;
    let mut x = E::real(if d > 0. { 0. } else { 1. });
    if d != 0. && d.abs() <= SLACK * (en.e + mu.e) {
        x.f |= CUT;
    }
    x
}
pub fn step2(en: E, mu: E) -> E {
    step(en, mu) + step(en, -mu)
}

fn r0<X: Nm>(om: E, p: E, en: E, delta: X) -> X {
    X::lift(om.sq() + (om * en).i().k(2.) + p.sq()) + delta
}

pub fn tlog_gen<X: Nm>(q: X, om: E, p: E, en: E, delta: X) -> X {
    let r = r0(om, p, en, delta);
    let k = q * X::lift(p.k(2.));
    ((r + k) / (r - k)).ln()
}
pub fn tlog_zm<X: Nm>(q: X, p: E, delta: X) -> X {
    let r = X::lift(p.sq()) + delta;
    let k = q * X::lift(p.k(2.));
    ((r + k) / (r - k)).ln_abs()
}

/// sum over both signs of the frequency of the angular integral
/// \int_{-1}^1 dx N/(r_0 + 2 p q x), where N is 1, the transverse or the
/// longitudinal projection.
pub fn ang<X: Nm>(kind: Kind, lim: Lim, q: X, om: E, p: E, en: E, delta: X) -> X {
    match lim {
        Lim::ZeroP => {
            let z = E::real(0.);
            let s = r0(om, z, en, delta).inv() + r0(-om, z, en, delta).inv();
            if kind == Kind::Sc {
                s.k(2.)
            } else {
                s * q.sq().k(2. / 3.)
            }
        }
        Lim::ZeroOm => {
            let k = q * X::lift(p.k(2.));
            let l = tlog_zm(q, p, delta);
            match kind {
                Kind::Sc => l.k(2.) / k,
                Kind::L => -(X::lift(en.sq()) * l.k(2.) / k),
                Kind::T => {
                    // q^2/2 [2c + (1-c^2) l]/k, with c = r/k
                    let r = X::lift(p.sq()) + delta;
                    let c = r / k;
                    let u = (k - r) * (k + r) / k.sq();
                    (c.k(2.) + u * l) / k * q.sq()
                }
            }
        }
        Lim::Full => {
            let k = q * X::lift(p.k(2.));
            let s = om.sq() + p.sq();
            let mut tot = X::real(0.);
            for sg in [1., -1.] {
                let w = om.k(sg);
                let l = tlog_gen(q, w, p, en, delta);
                let r = r0(w, p, en, delta);
                let c = r / k;
                tot = tot
                    + match kind {
                        Kind::Sc => l / k,
                        Kind::T => {
                            let u = (k - r) * (k + r) / k.sq();
                            (c.k(2.) + u * l) / k * q.sq().k(0.5)
                        }
                        Kind::L => {
                            let aa = X::lift((en * p).i());
                            let bb = X::lift(w) * q;
                            let x = aa + bb * c;
                            (x.sq() * l - (bb * x).k(4.) + bb.sq() * c.k(2.)) / k / X::lift(s)
                        }
                    };
            }
            tot
        }
    }
}

/// the two-mass loop integrand
pub fn i2(kind: Kind, lim: Lim, q: E, om: E, p: E, m1: E, m2: E, beta: E) -> E {
    let e1 = energy(q, m1);
    let e2 = energy(q, m2);
    let d = m2.sq() - m1.sq();
    let t1 = bose(e1, beta) / e1 * ang(kind, lim, q, om, p, e1, d);
    let t2 = bose(e2, beta) / e2 * ang(kind, lim, q, om, p, e2, -d);
    (t1 + t2) * q.sq() / E::real(8. * PI2)
}

/// its derivative with respect to m1^2, after integrating by parts in q
pub fn di2(kind: Kind, lim: Lim, q: E, om: E, p: E, m1: E, m2: E, beta: E) -> E {
    let e1 = energy(q, m1);
    let e2 = energy(q, m2);
    let d = m2.sq() - m1.sq();
    let f1 = bose(e1, beta) / e1 / E::real(8. * PI2);
    let f2 = bose(e2, beta) / e2 / E::real(8. * PI2);
    // d/dE^2 at fixed q  ->  -S/2 - q/2 dS/dq, where S is the angular integral
    // at fixed energy; the explicit delta dependence on top
    let sq = ang::<D>(kind, lim, D::var(q), om, p, e1, D::lift(d));
    let sd = ang::<D>(kind, lim, D::lift(q), om, p, e1, D::var(d));
    let sd2 = ang::<D>(kind, lim, D::lift(q), om, p, e2, D::var(-d));
    f1 * (-sq.v.k(0.5) - (q * sq.d).k(0.5) - q.sq() * sd.d) + f2 * q.sq() * sd2.d
}

// tadpoles; kind Sc, L, T; der 0, 1, 2
pub fn j(kind: Kind, der: u8, q: E, m: E, beta: E) -> E {
    let en = energy(q, m);
    let b = bose(en, beta);
    let p2 = E::real(PI2);
    match (kind, der) {
        (Kind::Sc, 0) => b * q.sq() / (en.k(2.) * p2),
        (Kind::L, 0) => -(b * q.sq() * en) / p2.k(2.),
        (Kind::T, 0) => b * q.sq().sq() / (en.k(6.) * p2),
        (Kind::Sc, 1) => -b / (en.k(4.) * p2),
        (Kind::L, 1) => en * b / p2.k(4.),
        (Kind::T, 1) => -(b * q.sq()) / (en.k(4.) * p2),
        (Kind::Sc, _) => {
            let bm = bose(-en, beta);
            b / (en.sq() * en * p2.k(8.)) * (E::real(1.) - en * beta * bm)
        }
        (Kind::L, _) => {
            let bm = bose(-en, beta);
            b / p2.k(8.) * (bm * beta + en.inv())
        }
        (Kind::T, _) => b / (en * p2.k(8.)),
    }
}

pub fn ghost_se(lim: Lim, q: E, om: E, p: E, m: E, beta: E) -> E {
    let z = E::real(0.);
    let s = om.sq() + p.sq();
    let m2 = m.sq();
    let a = s + m2;
    let im0 = i2(Kind::Sc, lim, q, om, p, m, z, beta);
    let i00 = i2(Kind::Sc, lim, q, om, p, z, z, beta);
    let d = di2(Kind::Sc, lim, q, om, p, m, z, beta);
    -(a * s / m2.k(2.)) * im0
        + s.sq() / m2.k(2.) * i00
        + (s.k(2.) - m2) / m2.k(4.) * (j(Kind::Sc, 0, q, m, beta) - j(Kind::Sc, 0, q, z, beta))
        + a.sq() / E::real(4.) * d
        - (s - m2) / E::real(4.) * j(Kind::Sc, 1, q, m, beta)
}

pub fn glue(kind: Kind, lim: Lim, q: E, om: E, p: E, m: E, beta: E) -> E {
    let z = E::real(0.);
    let s = om.sq() + p.sq();
    let s2 = s.sq();
    let m2 = m.sq();
    let m4 = m2.sq();
    let a = s + m2.k(2.);
    let b = s + m2;
    let ix = |m1: E, m2: E| i2(kind, lim, q, om, p, m1, m2, beta);
    let is = |m1: E, m2: E| i2(Kind::Sc, lim, q, om, p, m1, m2, beta);
    let dx = |m1: E, m2: E| di2(kind, lim, q, om, p, m1, m2, beta);
    let ds = |m1: E, m2: E| di2(Kind::Sc, lim, q, om, p, m1, m2, beta);
    let jx = |der: u8, mm: E| match (kind, lim) {
        (Kind::L, Lim::Full) => {
            (om.sq() * j(Kind::T, der, q, mm, beta) + p.sq() * j(Kind::L, der, q, mm, beta)) / s
        }
        (Kind::L, Lim::ZeroOm) => j(Kind::L, der, q, mm, beta),
        _ => j(Kind::T, der, q, mm, beta),
    };
    let js = |der: u8, mm: E| j(Kind::Sc, der, q, mm, beta);
    (s2.k(3.) / m4.k(2.) - E::real(1.)) * ix(z, z)
        + ((s2.k(3.) + (s * m2).k(8.) + m4.k(4.)) / m4.k(2.) + E::real(4.)) * ix(m, m)
        - (s2.k(3.) + (s * m2).k(4.) + m4) / m4 * ix(m, z)
        + (a * s).k(2.) / m2 * is(m, m)
        - (b * s).k(2.) / m2 * is(m, z)
        - (s.k(2.) + m2.k(3.)) / m2 * js(0, m)
        + (s.k(2.) + m2) / m2 * js(0, z)
        - (a.sq() / m2 + m2.k(8.)) * dx(m, m)
        + b.sq() / m2 * dx(m, z)
        - (s * (s + m2.k(4.))).k(2.) * ds(m, m)
        + b.sq() * ds(m, z)
        + (s + m2.k(3.)) * js(1, m)
        - m4 * js(2, m)
        + (jx(0, m) - jx(0, z)) / m2
        - jx(1, m)
        + m2 * jx(2, m).k(0.5)
}

pub fn quark(kind: Kind, lim: Lim, q: E, om: E, p: E, mq: E, occ: E, nc: E) -> E {
    let en = energy(q, mq);
    let i4 = |x: E| x.i().k(4.);
    match lim {
        Lim::ZeroP => {
            occ.k(2.) * q.sq() * (q.sq() - en.sq().k(3.))
                / ((om.sq() + en.sq().k(4.)) * en * nc * E::real(3. * PI2))
        }
        Lim::ZeroOm => {
            let l = tlog_zm(q, p, E::real(0.));
            match kind {
                Kind::L => {
                    -(occ * q.sq() / (en * nc * E::real(2. * PI2)))
                        * (E::real(1.) - (p.sq() - en.sq().k(4.)) / (q * p).k(4.) * l)
                }
                _ => {
                    -(occ * q.sq() / (en * nc * E::real(4. * PI2)))
                        * (E::real(1.) - (p.sq() + q.sq().k(4.)) / (q * p).k(4.) * l)
                }
            }
        }
        Lim::Full => {
            let s = om.sq() + p.sq();
            let z = E::real(0.);
            let l = tlog_gen(q, om, p, en, z);
            let lo = tlog_gen(q, -om, p, en, z);
            match kind {
                Kind::L => {
                    let t = (s - en.sq().k(4.) + i4(om * en)) * l
                        + (s - en.sq().k(4.) - i4(om * en)) * lo;
                    -(occ * s * q.sq() / (p.sq() * en * nc * E::real(2. * PI2)))
                        * (E::real(1.) - t / (p * q).k(8.))
                }
                _ => {
                    let a = p.sq() - om.sq();
                    let b = a * s + (q.sq() * p.sq()).k(4.) + (om.sq() * en.sq()).k(4.);
                    let cc = i4(om * s * en);
                    let t = (b - cc) * l + (b + cc) * lo;
                    -(occ * q.sq() / (p.sq() * en * nc * E::real(4. * PI2)))
                        * (a - t / (p * q).k(8.))
                }
            }
        }
    }
}

// ------------------------------------------------------------ vacuum

pub fn f_sep(s: E, ls: E, ls1: E) -> E {
    let one = E::real(1.);
    let si = s.inv();
    let a = (si.k(4.) + one).sqrt();
    let s1 = (s + one).sq();
    let la = (s.sq().k(3.) - s.k(34.) - E::real(28.) - si.k(24.))
        * a
        * (((a - one).k(0.5)).ln().k(2.) + ls);
    let lb = s1 * (E::real(3.) - si.k(20.) + si.sq().k(11.) - (si.sq() * si).k(2.)) * ls1.k(2.);
    let lc = (E::real(2.) - s.sq().k(3.)) * ls;
    let ra = -(s + E::real(4.)) * (s - E::real(20.) + si.k(12.));
    let rb = s1.k(2.) * (one - si.k(10.) + si.sq());
    let rc = si.sq().k(2.) + E::real(2.) - s.sq();
    (la + lb + lc + ra + rb + rc) / E::real(72.) + si.k(5. / 8.)
}
pub fn f_xi_sep(s: E, ls: E, ls1: E) -> E {
    let si = s.inv();
    let si2 = si.sq();
    si.k(0.25)
        - ((s * ls).k(2.) - ((si2 - si) * (si - s.sq()) * ls1).k(2.) + E::real(3.) - si.k(3.)
            + si2.k(2.))
            / E::real(12.)
}
pub fn f_q(s: E) -> E {
    let one = E::real(1.);
    let si = s.inv();
    let a = (si.k(4.) + one).sqrt();
    ((E::real(0.5) - si) * a * ((a - one) / (a + one)).ln() - si.k(2.) + E::real(5. / 6.)).k(4. / 9.)
}
pub fn f_qx(s: E) -> E {
    let one = E::real(1.);
    let si = s.inv();
    let a = (si.k(4.) + one).sqrt();
    (si.k(4.) - E::real(1. / 6.)
        + (si + E::real(0.5) + si.sq().k(8.)) / a * ((a - one) / (a + one)).ln())
    .k(4. / 9.)
}
pub fn g_sep(s: E, ls: E, ls1: E) -> E {
    let si = s.inv();
    let s1 = (s + E::real(1.)).sq();
    (s1 * (si.k(2.) - si.sq()) * ls1 - (s * ls).k(2.) + si + E::real(2.)) / E::real(12.)
}
pub fn ln1(s: E) -> (E, E) {
    (s.ln(), (s + E::real(1.)).ln())
}
/// inverse ghost dressing
pub fn ghost_inv(s: E, g0: E, xi: E) -> E {
    let (a, b) = ln1(s);
    g_sep(s, a, b) + g0 - a * xi / E::real(12.)
}
/// inverse gluon dressing, pure Yang-Mills; xi = None: no gauge term
pub fn gluon_inv(s: E, f0: E, xi: Option<E>) -> E {
    let (a, b) = ln1(s);
    let x = f_sep(s, a, b) + f0;
    match xi {
        None => x,
        Some(xi) => x + f_xi_sep(s, a, b) * xi,
    }
}
pub fn quark_inv(s: E, m: f64, mq: f64, nf_nc: f64, crossed: bool) -> E {
    let r = E::real(mq) / E::real(m);
    let t = s / r.sq();
    (if crossed { f_qx(t) } else { f_q(t) }).k(nf_nc)
}

/// Value of the global settings that the reference uses.
#[derive(Clone, Copy, Debug)]
pub struct G {
    pub nc: f64,
    pub nf: f64,
    pub mq: f64,
}
pub fn globals() -> G {
    G {
        nc: qcd_sme::consts::get_number_of_colors() as f64,
        nf: qcd_sme::consts::get_number_of_fermions() as f64,
        mq: qcd_sme::consts::get_default_quark_mass(),
    }
}

fn kind_of(n: &str) -> Kind {
    // ..._l_i, ..._l_i_same_mass, ..._m_l_p...
    if n.contains("_l_i") || n.contains("_l_thermal") || n.contains("tlog_l") {
        Kind::L
    } else if n.contains("_t_i") || n.contains("_t_0_i") || n.contains("_t_thermal") || n.contains("tlog_t") {
        Kind::T
    } else {
        Kind::Sc
    }
}

/// The reference value of a pointwise (no integration) function, if there is one.
pub fn pointwise(f: &F, a: &A, g: G) -> Option<E> {
    let x = |i: usize| E::new(a.v[i]);
    let z = E::real(0.);
    let n = f.name;
    let path = f.path;
    Some(match path {
        "common" => match n {
            "energy" => energy(x(P), x(M)),
            "energy_squared" => x(P).sq() + x(M).sq(),
            _ => return None,
        },
        "common::thermal" => match n {
            "fermi_momentum" => (x(MU).sq() - x(M).sq()).sqrt(),
            "fermi_distribution" => fermi(x(EN), x(BETA), x(MU)),
            "fermi_distribution_zero_temp" => step(x(EN), x(MU)),
            "fermi_distribution_double" => fermi2(x(EN), x(BETA), x(MU)),
            "fermi_distribution_double_zero_temp" => step2(x(EN), x(MU)),
            "fermi_distribution_zero_chempot" => fermi(x(EN), x(BETA), z),
            "bose_distribution" => occ((x(EN) - x(MU)) * x(BETA), -1.),
            "bose_distribution_zero_chempot" => bose(x(EN), x(BETA)),
            _ => return None,
        },
        "low_level::common" => match n {
            "statistic_distribution_exponential" => ((x(EN) - x(MU)) * x(BETA)).exp(),
            "statistic_distribution_exponential_zero_chempot" => (x(EN) * x(BETA)).exp(),
            _ => return None,
        },
        "low_level::oneloop::ghost" => {
            let (ls, ls1) = ln1(x(S));
            match n {
                "g_sep" => g_sep(x(S), x(LNS), x(LNS1)),
                "g" => g_sep(x(S), ls, ls1),
                "g_xi_sep" => -(x(LNS) / E::real(12.)),
                "g_xi" => -(ls / E::real(12.)),
                "dressing_inv_landau_sep" => g_sep(x(S), x(LNS), x(LNS1)) + x(G0),
                "dressing_inv_sep" => {
                    g_sep(x(S), x(LNS), x(LNS1)) + x(G0) - x(LNS) * x(XI) / E::real(12.)
                }
                _ => return None,
            }
        }
        "low_level::oneloop::gluon" => match n {
            "f_sep" => f_sep(x(S), x(LNS), x(LNS1)),
            "f" => {
                let (ls, ls1) = ln1(x(S));
                f_sep(x(S), ls, ls1)
            }
            "f_xi_sep" => f_xi_sep(x(S), x(LNS), x(LNS1)),
            "f_xi" => {
                let (ls, ls1) = ln1(x(S));
                f_xi_sep(x(S), ls, ls1)
            }
            "f_q" => f_q(x(S)),
            "f_q_crossed" => f_qx(x(S)),
            "ym_dressing_inv_landau_sep" => f_sep(x(S), x(LNS), x(LNS1)) + x(F0),
            "ym_dressing_inv_sep" => {
                f_sep(x(S), x(LNS), x(LNS1)) + x(F0) + f_xi_sep(x(S), x(LNS), x(LNS1)) * x(XI)
            }
            _ => return None,
        },
        "ym::ghost" | "qcd::ghost" => {
            let s = x(S);
            let xi = if f.has(XI) { x(XI) } else { z };
            dress(n, ghost_inv(s, x(G0), xi), s)
        }
        "ym::gluon" => {
            let s = x(S);
            let xi = if f.has(XI) { Some(x(XI)) } else { None };
            dress(n, gluon_inv(s, x(F0), xi), s)
        }
        "qcd::gluon" => {
            let s = x(S);
            let xi = if f.has(XI) { Some(x(XI)) } else { None };
            let cr = n.contains("crossed");
            let mut y = gluon_inv(s, x(F0), xi);
            if f.cfg {
                for &(nf, mq) in &a.cfg.quarks {
                    y = y + quark_inv(s, a.cfg.gluon, mq, nf as f64 / a.cfg.nc as f64, cr);
                }
            } else {
                // the mass argument is in units of the gluon mass
                y = y + quark_inv(s, 1., a.v[MQ].re, g.nf / g.nc, cr);
            }
            dress(n, y, s)
        }
        "low_level::oneloop::thermal"
        | "low_level::oneloop::thermal::zero_matsubara"
        | "low_level::oneloop::thermal::zero_momentum" => {
            let lim = if path.ends_with("matsubara") {
                Lim::ZeroOm
            } else if path.ends_with("momentum") {
                Lim::ZeroP
            } else {
                Lim::Full
            };
            let kind = kind_of(n);
            if n.starts_with("tlog") {
                return tlogs(n, lim, a);
            }
            let (q, beta) = (x(Q), x(BETA));
            let om = if lim == Lim::ZeroOm { z } else { x(OM) };
            let p = if lim == Lim::ZeroP { z } else { x(P) };
            if let Some(rest) = n.strip_prefix("d2_j_") {
                return Some(j(kind, 2, q, if rest.starts_with('m') { x(M) } else { z }, beta));
            }
            if let Some(rest) = n.strip_prefix("d_j_") {
                return Some(j(kind, 1, q, if rest.starts_with('m') { x(M) } else { z }, beta));
            }
            if let Some(rest) = n.strip_prefix("j_") {
                return Some(j(kind, 0, q, if rest.starts_with('m') { x(M) } else { z }, beta));
            }
            let (m1, m2) = if n.contains("same_mass") {
                (x(M), x(M))
            } else if f.has(M1) {
                (x(M1), x(M2))
            } else if f.has(M) {
                (x(M), z)
            } else {
                (z, z)
            };
            if n.starts_with("d_i") {
                di2(kind, lim, q, om, p, m1, m2, beta)
            } else {
                i2(kind, lim, q, om, p, m1, m2, beta)
            }
        }
        _ if path.starts_with("low_level::oneloop::thermal::") && n.ends_with("_i") => {
            let lim = lim_of(path);
            let om = if lim == Lim::ZeroOm { z } else { x(OM) };
            let p = if lim == Lim::ZeroP { z } else { x(P) };
            if path.contains("ghost") {
                ghost_se(lim, x(Q), om, p, x(M), x(BETA))
            } else if n.contains("glue") {
                glue(kind_of(n), lim, x(Q), om, p, x(M), x(BETA))
            } else {
                let en = energy(x(Q), x(MQ));
                let o = if n.contains("zero_temp") {
                    step2(en, x(MU))
                } else {
                    fermi2(en, x(BETA), x(MU))
                };
                quark(kind_of(n), lim, x(Q), om, p, x(MQ), o, E::real(g.nc))
            }
        }
        "qcd::thermal::quark" => match n {
            "charge_density_zero_temp" => {
                let (m, mu) = (a.v[M].re, a.v[MU].re);
                if mu.abs() <= m.abs() {
                    z
                } else {
                    let k = (x(MU).sq() - x(M).sq()).sqrt();
                    (k.sq() * k).k(g.nc * mu.signum() / (3. * PI2))
                }
            }
            "chemical_potential_zero_temp" => {
                let (m, n) = (a.v[M].re, a.v[N].re);
                if n == 0. {
                    z
                } else {
                    let k3 = E::real(n.abs() * 3. * PI2 / g.nc);
                    let kf = E::real(k3.v.re.cbrt()).plus_err(1e-14 * k3.v.re.cbrt());
                    (kf.sq() + E::real(m).sq()).sqrt().k(n.signum())
                }
            }
            _ => return None,
        },
        _ => return None,
    })
}

pub fn lim_of(path: &str) -> Lim {
    if path.contains("zero_matsubara") {
        Lim::ZeroOm
    } else if path.contains("zero_momentum") {
        Lim::ZeroP
    } else {
        Lim::Full
    }
}

/// inverse dressing -> what the name asks for
pub fn dress(n: &str, inv: E, s: E) -> E {
    if n.contains("inv") {
        inv
    } else if n.starts_with("dressing") {
        inv.inv()
    } else {
        inv.inv() / s
    }
}

fn tlogs(n: &str, lim: Lim, a: &A) -> Option<E> {
    let x = |i: usize| E::new(a.v[i]);
    let z = E::real(0.);
    let (q, p) = (x(Q), x(P));
    let same = n.contains("same_mass") || n.contains("zero_mass");
    let d = if same { z } else { x(DELTA) };
    if lim == Lim::ZeroOm {
        let l = tlog_zm(q, p, d);
        let r = p.sq() + d;
        let k = (p * q).k(2.);
        return Some(if n.contains("tlog_t") { (r + k) * (r - k) * l } else { l });
    }
    let om = x(OM);
    let en = if n.contains("zero_mass") { q } else { x(EN) };
    let l = tlog_gen(q, om, p, en, d);
    let r = r0(om, p, en, d);
    let k = (p * q).k(2.);
    Some(if n.contains("tlog_l") {
        let pf = r + p.sq() * en.i().k(2.) / om;
        l * pf.sq()
    } else if n.contains("tlog_t") {
        (r + k) * (r - k) * l
    } else {
        l
    })
}

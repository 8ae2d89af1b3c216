//! Global adaptive Gauss-Kronrod quadrature (independent of the library's).
use crate::base::*;
use crate::num_e::E;

const XK: [f64; 8] = [
    0.991455371120812639206854697526329,
    0.949107912342758524526189684047851,
    0.864864423359769072789712788640926,
    0.741531185599394439863864773280788,
    0.586087235467691130294144838258730,
    0.405845151377397166906606412076961,
    0.207784955007898467600689403773245,
    0.,
];
const WK: [f64; 8] = [
    0.022935322010529224963732008058970,
    0.063092092629978553290700663189204,
    0.104790010322250183839876322541518,
    0.140653259715525918745189590510238,
    0.169004726639267902826583426598550,
    0.190350578064785409913256402421014,
    0.204432940075298892414161999234649,
    0.209482141084727828012999174891714,
];
const WG: [f64; 4] = [
    0.129484966168869693270611432679082,
    0.279705391489276667901467771423780,
    0.381830050505118944950369775133675,
    0.417959183673469387755102040816327,
];

#[derive(Clone, Copy, Debug)]
pub struct QI {
    pub v: C,
    /// quadrature error estimate
    pub err: f64,
    /// integral of the modulus
    pub abs: f64,
    /// integrated evaluation error of the integrand
    pub e: f64,
    /// an evaluation was unusable
    pub bad: bool,
    pub n: u64,
}

fn rule(f: &mut dyn FnMut(f64) -> E, a: f64, b: f64) -> QI {
    let (c, h) = (0.5 * (a + b), 0.5 * (b - a));
    let mut k = C::new(0., 0.);
    let mut g = C::new(0., 0.);
    let (mut abs, mut e, mut bad) = (0., 0., false);
    for i in 0..8 {
        for s in [-1., 1.] {
            if i == 7 && s > 0. {
                continue;
            }
            let y = f(c + s * h * XK[i]);
            if !finite(y.v) || !y.e.is_finite() {
                bad = true;
                continue;
            }
            k += y.v * WK[i];
            abs += y.v.norm() * WK[i];
            e += y.e * WK[i];
            if i % 2 == 1 {
                g += y.v * WG[i / 2];
            }
        }
    }
    let d = (k - g).norm() * h;
    // the usual sharpening of the estimate
    let err = if d == 0. { 0. } else { (200. * d / (abs * h)).powf(1.5).min(1.) * abs * h };
    QI { v: k * h, err: err.min(d), abs: abs * h, e: e * h, bad, n: 15 }
}

/// integrate over the consecutive intervals between `br`
pub fn quad(f: &mut dyn FnMut(f64) -> E, br: &[f64], rel: f64, abs: f64, maxint: usize) -> QI {
    let mut iv: Vec<(f64, f64, QI)> = vec![];
    for w in br.windows(2) {
        if w[1] > w[0] {
            let x = rule(f, w[0], w[1]);
            iv.push((w[0], w[1], x));
        }
    }
    let mut n = 0;
    loop {
        let mut t = QI { v: C::new(0., 0.), err: 0., abs: 0., e: 0., bad: false, n: 0 };
        let mut worst = 0;
        for (i, x) in iv.iter().enumerate() {
            t.v += x.2.v;
            t.err += x.2.err;
            t.abs += x.2.abs;
            t.e += x.2.e;
            t.bad |= x.2.bad;
            t.n += x.2.n;
            if x.2.err > iv[worst].2.err {
                worst = i;
            }
        }
        n += 1;
        if iv.is_empty() || t.err <= rel * t.v.norm() + abs || n >= maxint {
            return t;
        }
        let (a, b, _) = iv[worst];
        let c = 0.5 * (a + b);
        if !(c > a && c < b) || (b - a) < 1e-14 {
            return t;
        }
        let l = rule(f, a, c);
        let r = rule(f, c, b);
        iv[worst] = (a, c, l);
        iv.push((c, b, r));
    }
}

/// integrate f(q) over q in (0, inf), with breakpoints given in q
pub fn quad_inf(f: &mut dyn FnMut(f64) -> E, brq: &[f64], rel: f64, abs: f64, maxint: usize) -> QI {
    let mut br = vec![0., 1.];
    for q in brq {
        if *q > 0. && q.is_finite() {
            br.push(1. / (1. + q));
        }
    }
    br.sort_by(|a, b| a.partial_cmp(b).unwrap());
    br.dedup();
    quad(
        &mut |t| {
            if t <= 0. || t >= 1. {
                return E::new(C::new(0., 0.));
            }
            let q = (1. - t) / t;
            let y = f(q);
            let w = 1. / (t * t);
            E { v: y.v * w, e: y.e * w, f: y.f }
        },
        &br,
        rel,
        abs,
        maxint,
    )
}

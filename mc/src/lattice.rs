//! The bounded input spaces: finite lists of values per parameter, base points,
//! and the products of them that are explored exhaustively.
use crate::base::*;

const POS: &[f64] = &[
    1e-6, 1e-4, 1e-3, 5e-3, 0.0125, 0.03, 0.07, 0.15, 0.25, 0.35, 0.5, 0.656, 0.8, 1.0, 1.2, 1.5, 1.9, 2.16, 2.75, 3.18, 4.0,
    5.3, 7.1, 8.24, 12., 18., 31., 64., 100., 250., 1e3, 1e4, 1e6,
];
const POS_T: &[f64] = &[
    1e-9, 1e-7, 1e-5, 3e-4, 2e-3, 0.02, 0.045, 0.1, 0.2, 0.3, 0.42, 0.6, 0.7, 0.9, 1.1, 1.35, 1.7, 2.0, 2.4, 2.5, 3., 3.5, 4.5,
    6., 6.5, 9.3, 10., 14., 15., 23., 42., 50., 80., 150., 180., 400., 650., 2e3, 5e3, 3e4, 1e5, 1e7,
];
const BETAS: &[f64] = &[
    1e-4, 1e-2, 0.05, 0.12, 0.3, 0.5, 0.8, 1.0, 1.5, 2.0, 3.0, 3.2, 4.1, 5.0, 6.4, 8.0, 10., 14., 20., 33., 50., 75., 100.,
    160., 300., 500., 710., 1e3, 1e4, 1e6,
];
const MUS: &[f64] = &[
    0., 1e-6, 1e-3, 0.02, 0.1, 0.2, 0.3, 0.35, 0.4, 0.5, 0.6, 0.656, 0.8, 1.0, 1.2, 1.5, 2.0, 2.5, 3.0, 4.0, 6.0, 8.24, 10.,
    25., 100., 1e3, -1e-3, -0.1, -0.3, -0.5, -0.8, -1.2, -2.5, -4., -8.24, -100.,
];
const MASSES: &[f64] = &[
    1e-6, 1e-4, 1e-3, 4e-3, 0.01, 0.05, 0.095, 0.125, 0.2, 0.35, 0.45, 0.5, 0.656, 0.8, 1.0, 1.2, 1.27, 1.5, 1.8, 2.16, 2.7, 3.76, 4.18,
    5., 8., 10., 20., 50., 91., 173., 500., 1e3, -0.1, -0.656, -1.2, -3., -20.,
];
const COEF: &[f64] = &[
    0., 1e-6, 1e-3, 0.01, 0.1, 0.2, 0.3, 0.5, 0.8, 1., 1.5, 2., 3., 5., 10., 50., 1e3, 1e6, -1e-3, -0.1, -0.3, -0.876, -1., -2.,
    -3., -5., -10., -100., -1e4,
];
const FREQ: &[f64] = &[
    1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.03, 0.1, 0.2, 0.35, 0.5, 0.7, 1., 1.15, 1.5, 2.16, 3.0, 3.18, 4.0, 6.28, 8., 12.57, 20.,
    50., 100., 1e3, 1e5, -1e-3, -0.1, -0.5, -1.15, -2.16, -4.0, -20.,
];

/// real values of a parameter
/// `lvl`: 0 every other value, 1 the standard lists, 2 the extended lists
pub fn reals(p: usize, lvl: u8) -> Vec<f64> {
    let thorough = lvl == 2;
    let mut v: Vec<f64> = match p {
        Q | P => POS.to_vec(),
        S => {
            let mut v = POS.to_vec();
            v.extend([-1e-4, -0.1, -0.3, -0.5, -0.9, -0.999, -1.5, -3., -4., -5., -20.]);
            v
        }
        BETA => BETAS.to_vec(),
        MU => MUS.to_vec(),
        M | M1 | M2 | MQ => MASSES.to_vec(),
        F0 | G0 | XI => COEF.to_vec(),
        OM => FREQ.to_vec(),
        EN => {
            let mut v = POS.to_vec();
            v.extend(POS.iter().step_by(2).map(|x| -x));
            v
        }
        DELTA => {
            let mut v = vec![0.];
            v.extend_from_slice(POS);
            v.extend(POS.iter().step_by(2).map(|x| -x));
            v
        }
        LNS | LNS1 => {
            let mut v = vec![0.];
            v.extend(POS.iter().step_by(2).map(|x| *x));
            v.extend(POS.iter().step_by(3).map(|x| -x));
            v
        }
        N => vec![0.],
        _ => vec![1.],
    };
    if thorough {
        match p {
            Q | P | S | EN | DELTA | BETA | OM => v.extend_from_slice(POS_T),
            M | M1 | M2 | MQ => {
                v.extend(POS_T.iter().filter(|x| **x < 2e3));
                v.extend(POS_T.iter().step_by(3).filter(|x| **x < 2e3).map(|x| -x));
            }
            MU | F0 | G0 | XI => {
                v.extend_from_slice(POS_T);
                v.extend(POS_T.iter().step_by(3).map(|x| -x));
            }
            _ => {}
        }
    }
    if lvl == 0 {
        // deterministic thinning that keeps both small and large values
        v = v.into_iter().step_by(2).collect();
    }
    v
}

/// complex values of a parameter: the real ones turned by several phases
pub fn cplx(p: usize, lvl: u8) -> Vec<C> {
    let thorough = lvl == 2;
    let re = reals(p, lvl);
    let ph: &[f64] = if thorough {
        &[0., 0.1, 0.4, 0.7, 1.0, 1.3, 1.55, -0.2, -0.6, -1.1, -1.5, 2.0, 2.6, 3.0, -1.9, -2.8]
    } else {
        &[0., 0.35, 0.9, 1.4, -0.25, -0.7, -1.25, 2.1, -2.6]
    };
    let masslike = matches!(p, M | M1 | M2 | EN);
    let mut v = vec![];
    for (k, x) in re.iter().enumerate() {
        // every value with the zero phase and with a rotating choice of the others
        v.push(r(*x));
        for i in 0..(if lvl == 0 { 2 } else { 3 }) {
            let f = ph[1 + (k * 3 + i) % (ph.len() - 1)];
            // masses and energies keep a positive real part
            let f = if masslike { f * 0.25 } else { f };
            v.push(C::from_polar(*x, f));
        }
    }
    v
}

/// base points around which coordinates are varied
pub fn bases(lvl: u8) -> Vec<A> {
    let thorough = lvl == 2;
    let mk = |q, om: C, p, m: C, m1: C, m2: C, mq, beta, mu, f0, g0, xi, s: C, en: C, d: C, ls: C, ls1: C| {
        let mut a = A::new();
        a.v = [
            r(q),
            om,
            r(p),
            m,
            m1,
            m2,
            r(mq),
            r(beta),
            r(mu),
            r(f0),
            r(g0),
            r(xi),
            s,
            en,
            d,
            ls,
            ls1,
            r(0.),
        ];
        a
    };
    let mut v = vec![
        mk(0.62, c(0.75, 0.2), 2.16, c(1.2, 0.1), c(1.2, -0.15), c(0.8, 0.3), 0.35, 3.2, 0.8, -0.876, 0.15, 0.3, c(1.37, 0.6), c(0.95, 0.2), c(0.4, -0.3), c(0.3, 0.4), c(0.86, 0.2)),
        mk(2.3, c(3.5, -1.1), 0.45, c(0.656, -0.05), c(0.5, 0.2), c(2.2, -0.4), 1.3, 0.9, 0.2, -1.1, 0.3, -1.5, c(0.12, -0.05), c(3.1, -0.5), c(-1.7, 0.6), c(-2., -0.5), c(0.2, -0.1)),
        mk(0.09, c(0.21, 0.07), 1.1, c(3.1, 0.3), c(2.7, 0.1), c(0.1, 0.02), 0.02, 7., 2.4, 0.5, -0.4, 1., c(7.3, 4.2), c(0.3, 0.05), c(6., 2.), c(2., 0.6), c(2.1, 0.7)),
    ];
    if thorough {
        v.push(mk(5.5, c(-6.2, 0.4), 9.1, c(0.3, 0.02), c(0.35, 0.01), c(4.2, 0.6), 4.5, 0.4, -3.3, 2.5, 1.7, 5., c(-3.2, 0.4), c(8., 1.), c(-12., 4.), c(1.2, 3.), c(0.8, 2.9)));
        v.push(mk(1.4, c(0.02, 0.9), 0.03, c(0.9, -0.3), c(1.9, 0.4), c(1.0, -0.2), 0.7, 20., 1.1, -3., 0.05, -0.2, c(40., -25.), c(1.5, 0.1), c(0.05, 0.01), c(3.8, -0.5), c(3.9, -0.5)));
        v.push(mk(0.5, c(12.5, 3.), 4.4, c(8., 1.), c(6., -1.), c(6.5, 1.3), 0.125, 2., 0., 10., -2., 3., c(0.004, 0.002), c(9., -2.), c(30., 10.), c(-5.4, 0.5), c(0.004, 0.002)));
    }
    v
}

pub fn values(p: usize, cpx: bool, lvl: u8) -> Vec<C> {
    if cpx {
        cplx(p, lvl)
    } else {
        reals(p, lvl).into_iter().map(r).collect()
    }
}

/// drop imaginary parts of the parameters which the instantiation takes as real
pub fn realify(f: &F, mask: u8, a: &mut A) {
    let cp = f.complex_params(mask);
    for p in 0..NP {
        if !cp.contains(&p) {
            a.v[p].im = 0.;
        }
    }
}

/// All points in which any pair of coordinates runs over the full lists while
/// the others stay at a base point.
pub fn pair_points(f: &F, mask: u8, lvl: u8, visit: &mut dyn FnMut(&A)) {
    let cp = f.complex_params(mask);
    let lists: Vec<(usize, Vec<C>)> = f
        .params
        .iter()
        .map(|&p| (p, values(p, cp.contains(&p), lvl)))
        .collect();
    for mut b in bases(lvl) {
        realify(f, mask, &mut b);
        if lists.len() == 1 {
            let mut a = b.clone();
            for x in &lists[0].1 {
                a.v[lists[0].0] = *x;
                visit(&a);
            }
        }
        for i in 0..lists.len() {
            for j in i + 1..lists.len() {
                let mut a = b.clone();
                // halve the second list if both are complex
                let st = if lists[i].1.len() * lists[j].1.len() > 8000 && lvl < 2 { 3 } else { 1 };
                for (k, x) in lists[i].1.iter().enumerate() {
                    a.v[lists[i].0] = *x;
                    for y in lists[j].1.iter().skip(k % st).step_by(st) {
                        a.v[lists[j].0] = *y;
                        visit(&a);
                    }
                }
            }
        }
    }
}

/// Points where parameters coincide (equal masses, momentum equal to mass, ...).
pub fn coincidences(f: &F, mask: u8, visit: &mut dyn FnMut(&A)) {
    let dims = [Q, OM, P, M, M1, M2, MQ, MU, EN];
    let ps: Vec<usize> = f.params.iter().copied().filter(|p| dims.contains(p)).collect();
    for mut b in bases(2) {
        realify(f, mask, &mut b);
        for i in 0..ps.len() {
            for j in 0..ps.len() {
                if i == j {
                    continue;
                }
                for k in [1., -1., 2., 0.5, 1. + 1e-7] {
                    let mut a = b.clone();
                    a.v[ps[i]] = a.v[ps[j]] * k;
                    realify(f, mask, &mut a);
                    if [Q, P].contains(&ps[i]) && a.v[ps[i]].re <= 0. {
                        continue;
                    }
                    visit(&a);
                }
            }
        }
    }
}

/// Five values per parameter, from small to large, in all combinations; of products with more
/// than `cap` points a sublattice. The values are shifted from point to point, so that many ratios
/// and products occur, and signs and phases take turns.
pub fn wide(f: &F, mask: u8, cap: usize, visit: &mut dyn FnMut(&A)) {
    let cp = f.complex_params(mask);
    let val = |p: usize| -> [f64; 5] {
        match p {
            OM => [0.004, 0.07, 0.9, 2.9, 26.],
            M | M1 | M2 => [0.008, 0.12, 0.8, 3.4, 21.],
            MQ => [0.006, 0.08, 0.45, 4.3, 19.],
            BETA => [0.07, 0.9, 4., 17., 70.],
            MU => [0., 0.03, 0.5, 2.2, 13.],
            F0 | G0 | XI => [0.005, 0.15, 0.9, 4., 20.],
            _ => [0.004, 0.06, 0.7, 3.6, 24.],
        }
    };
    let n = f.params.len() as u32;
    let total = 5usize.pow(n);
    // a stride without common factor with the sizes of the lists
    let mut st = total.div_ceil(cap);
    while st > 1 && (st % 5 == 0 || st % 2 == 0) {
        st += 1;
    }
    let ph = [0.3, -0.8, 0.1, 1.1, -0.25, 0.6, -1.3];
    let mut i = (f.id as usize * 3 + mask as usize) % st;
    let mut k = f.id as usize;
    while i < total {
        let mut a = A::new();
        let mut x = i;
        for (j, &p) in f.params.iter().enumerate() {
            // (a different digit order for each function)
            let d = x % 5;
            x /= 5;
            let mul = [5, 7, 13, 17, 19, 23, 29, 31][j % 8];
            let t = (k * mul + 5 * d + j) % 11;
            let mut y = val(p)[d] * (0.12 * (t as f64 - 5.)).exp();
            if [OM, MU, F0, G0, XI, DELTA, N].contains(&p) && (k * mul + k / 11 + d) % 3 == 0 {
                y = -y;
            }
            a.v[p] = r(y);
            if cp.contains(&p) && (k + d + j) % 4 != 0 {
                let u = ph[(k * mul + k / 33 + d) % 7];
                a.v[p] = C::from_polar(y, if matches!(p, M | M1 | M2 | EN) { 0.2 * u } else { u });
            }
        }
        k += 1;
        visit(&a);
        i += st;
    }
}

/// every pattern of signs of the parameters, at every base point, and every
/// subset of up to two vanishing parameters
pub fn signs(f: &F, mask: u8, visit: &mut dyn FnMut(&A)) {
    let ps: Vec<usize> = f.params.iter().copied().filter(|p| ![Q, BETA].contains(p)).collect();
    for mut b in bases(2) {
        realify(f, mask, &mut b);
        for k in 1..1usize << ps.len() {
            let mut a = b.clone();
            for (i, p) in ps.iter().enumerate() {
                if k >> i & 1 == 1 {
                    a.v[*p] = -a.v[*p];
                }
            }
            visit(&a);
        }
        // (momenta, frequencies and energies may vanish in the limit families only)
        let zs: Vec<usize> = ps.iter().copied().filter(|p| ![OM, P, S, EN].contains(p)).collect();
        for i in 0..zs.len() {
            for j in 0..=i {
                let mut a = b.clone();
                a.v[zs[i]] = r(0.);
                a.v[zs[j]] = r(0.);
                visit(&a);
            }
        }
    }
}

/// single deviations from base points, with all arguments of a point different
pub fn singles(f: &F, mask: u8, step: usize, visit: &mut dyn FnMut(&A)) {
    let cp = f.complex_params(mask);
    for (n, mut b) in bases(1).into_iter().enumerate() {
        realify(f, mask, &mut b);
        visit(&b);
        for (j, &p) in f.params.iter().enumerate() {
            let vals = values(p, cp.contains(&p), 1);
            for x in vals.into_iter().skip((n + j) % step).step_by(step) {
                let mut a = b.clone();
                a.v[p] = x;
                visit(&a);
            }
        }
    }
}

/// points at which the integrals are not limited by rounding (and come back in time)
pub fn moderate(f: &F, a: &A) -> bool {
    if !f.is_integral() {
        return true;
    }
    let in_ = |i: usize, lo: f64, hi: f64| !f.has(i) || (a.v[i].norm() >= lo && a.v[i].norm() <= hi);
    in_(P, 0.03, 20.) && in_(M, 0.05, 10.) && in_(M1, 0.05, 10.) && in_(M2, 0.05, 10.) && in_(MQ, 0.05, 10.) && in_(BETA, 0.3, 100.)
        && (!f.has(MU) || a.v[MU].norm() <= 10.) && (!f.has(OM) || (a.v[OM].norm() >= 1e-5 && a.v[OM].norm() <= 20.))
        && (!f.has(OM) || a.v[OM].re.abs() > 0.05 * a.v[OM].norm())
}

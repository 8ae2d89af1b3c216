//! Reference arithmetic: complex numbers that carry a running forward error
//! bound (what an f64 evaluation of the same formula can lose), and dual
//! numbers over them for exact derivatives.
use crate::base::{C, V};
use std::ops::*;

pub const SLACK: f64 = 16.0;
const U: f64 = 2.3e-16;
const TINY: f64 = 1e-305;

pub const CUT: u8 = 1; // a logarithm or root was taken on (or within error of) its cut
pub const OVF: u8 = 2; // an exponential overflowed
pub const CLX: u8 = 4; // such an overflow with a complex argument: not covered

#[derive(Clone, Copy, Debug)]
pub struct E {
    pub v: C,
    pub e: f64,
    pub f: u8,
}

pub enum J {
    Ok(f64),
    Skip,
    Bad(f64),
}

impl E {
    pub fn new(v: C) -> E {
        E { v, e: 0., f: 0 }
    }
    pub fn tol(&self) -> f64 {
        SLACK * self.e + 1e-12 * self.v.norm() + 1e-300
    }
    fn rnd(v: C, e: f64, f: u8) -> E {
        E { v, e: e + U * v.norm() + if v.norm() < 1e-290 { TINY } else { 0. }, f }
    }
    pub fn judge(&self, got: C, v: &V) -> J {
        self.judge_real(got, v.real, v.mask != 0)
    }
    pub fn judge_real(&self, got: C, real: bool, cpx: bool) -> J {
        let _ = cpx;
        if self.f & CUT != 0 || !self.v.re.is_finite() || !self.v.im.is_finite() || !self.e.is_finite() {
            return J::Skip;
        }
        let tol = self.tol();
        if tol > 0.05 * self.v.norm() && self.v.norm() > 1e-290 {
            // hopelessly cancelling point: only require the right size
            if self.e == 0. || !(got.re.is_finite() && got.im.is_finite()) {
                return J::Skip;
            }
            let d = (got - self.v).norm();
            return if d <= 100. * tol { J::Skip } else { J::Bad(d / (100. * tol)) };
        }
        if real && self.v.im.abs() > tol {
            return J::Skip; // no real value here
        }
        if !(got.re.is_finite() && got.im.is_finite()) {
            return J::Bad(f64::INFINITY);
        }
        let want = if real { C::new(self.v.re, 0.) } else { self.v };
        let d = (got - want).norm();
        if d <= tol {
            J::Ok(d * SLACK / tol)
        } else {
            J::Bad(d * SLACK / tol)
        }
    }
    /// an independent absolute error on top
    pub fn plus_err(mut self, e: f64) -> E {
        self.e += e / SLACK;
        self
    }
    pub fn conj(mut self) -> E {
        self.v = self.v.conj();
        self
    }
}

impl Add for E {
    type Output = E;
    fn add(self, o: E) -> E {
        E::rnd(self.v + o.v, self.e + o.e, self.f | o.f)
    }
}
impl Sub for E {
    type Output = E;
    fn sub(self, o: E) -> E {
        E::rnd(self.v - o.v, self.e + o.e, self.f | o.f)
    }
}
fn mulc(a: C, b: C) -> C {
    // exact zeros stay exact, so that real arithmetic stays real
    let re = if a.im == 0. || b.im == 0. { a.re * b.re } else { a.re * b.re - a.im * b.im };
    let im = if a.im == 0. && b.im == 0. {
        0.
    } else if a.im == 0. {
        a.re * b.im
    } else if b.im == 0. {
        a.im * b.re
    } else {
        a.re * b.im + a.im * b.re
    };
    C::new(re, im)
}
fn invc(a: C) -> C {
    if a.im == 0. {
        return C::new(1. / a.re, 0.);
    }
    if a.re == 0. {
        return C::new(0., -1. / a.im);
    }
    let n = a.norm();
    let b = a / n;
    b.conj() / n
}
impl Mul for E {
    type Output = E;
    fn mul(self, o: E) -> E {
        let e = self.v.norm() * o.e + o.v.norm() * self.e + self.e * o.e;
        E::rnd(mulc(self.v, o.v), e, self.f | o.f)
    }
}
impl Div for E {
    type Output = E;
    fn div(self, o: E) -> E {
        self * o.inv()
    }
}
impl Neg for E {
    type Output = E;
    fn neg(self) -> E {
        E { v: -self.v, e: self.e, f: self.f }
    }
}

/// What the reference formulas are written over.
pub trait Nm:
    Copy + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Neg<Output = Self>
{
    fn cst(x: C) -> Self;
    fn real(x: f64) -> Self {
        Self::cst(C::new(x, 0.))
    }
    fn lift(x: E) -> Self;
    fn inv(self) -> Self;
    fn ln(self) -> Self;
    /// ln of the absolute value for real arguments, ln otherwise
    fn ln_abs(self) -> Self;
    fn sqrt(self) -> Self;
    fn exp(self) -> Self;
    fn val(self) -> E;
    fn k(self, x: f64) -> Self {
        self * Self::real(x)
    }
    fn sq(self) -> Self {
        self * self
    }
    fn i(self) -> Self {
        self * Self::cst(C::new(0., 1.))
    }
}

impl Nm for E {
    fn cst(x: C) -> E {
        E::new(x)
    }
    fn lift(x: E) -> E {
        x
    }
    fn val(self) -> E {
        self
    }
    fn inv(self) -> E {
        let n = self.v.norm();
        let v = invc(self.v);
        if self.e >= 0.5 * n {
            return E { v, e: f64::INFINITY, f: self.f };
        }
        E::rnd(v, self.e / (n * (n - self.e)), self.f)
    }
    fn ln(self) -> E {
        let n = self.v.norm();
        let mut f = self.f;
        if self.v.re < 0. && self.v.im.abs() <= SLACK * self.e + 4. * U * n {
            f |= CUT;
        }
        if self.e >= 0.5 * n {
            return E { v: self.v.ln(), e: f64::INFINITY, f };
        }
        // rounding of the argument itself matters near 1
        E::rnd(self.v.ln(), self.e / (n - self.e) + U, f)
    }
    fn ln_abs(self) -> E {
        if self.v.im == 0. {
            E { v: C::new(self.v.re.abs(), 0.), e: self.e, f: self.f }.ln()
        } else {
            let n = self.v.norm();
            let near = self.v.im.abs() <= SLACK * self.e + 4. * U * n;
            let mut x = self.ln();
            if self.v.re < 0. && near {
                x.f |= CUT;
            }
            x
        }
    }
    fn sqrt(self) -> E {
        let n = self.v.norm();
        let mut f = self.f;
        let v = self.v.sqrt();
        if n == 0. {
            return E { v, e: self.e.sqrt(), f };
        }
        if self.v.re < 0. && self.v.im.abs() <= SLACK * self.e + 4. * U * n {
            f |= CUT;
        }
        if self.e >= 0.5 * n {
            return E { v, e: f64::INFINITY, f };
        }
        E::rnd(v, self.e / v.norm(), f)
    }
    fn exp(self) -> E {
        let mut f = self.f;
        if self.v.re > 700. {
            f |= OVF;
            if self.v.im != 0. {
                f |= CLX;
            }
        }
        let v = if self.v.im == 0. { C::new(self.v.re.exp(), 0.) } else { self.v.exp() };
        E::rnd(v, v.norm() * (self.e.min(700.).exp_m1() + U * (1. + self.v.norm())), f)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct D {
    pub v: E,
    pub d: E,
}
impl D {
    pub fn var(x: E) -> D {
        D { v: x, d: E::real(1.) }
    }
}
impl Add for D {
    type Output = D;
    fn add(self, o: D) -> D {
        D { v: self.v + o.v, d: self.d + o.d }
    }
}
impl Sub for D {
    type Output = D;
    fn sub(self, o: D) -> D {
        D { v: self.v - o.v, d: self.d - o.d }
    }
}
impl Mul for D {
    type Output = D;
    fn mul(self, o: D) -> D {
        D { v: self.v * o.v, d: self.d * o.v + self.v * o.d }
    }
}
impl Div for D {
    type Output = D;
    fn div(self, o: D) -> D {
        self * o.inv()
    }
}
impl Neg for D {
    type Output = D;
    fn neg(self) -> D {
        D { v: -self.v, d: -self.d }
    }
}
impl Nm for D {
    fn cst(x: C) -> D {
        D { v: E::new(x), d: E::real(0.) }
    }
    fn lift(x: E) -> D {
        D { v: x, d: E::real(0.) }
    }
    fn val(self) -> E {
        self.v
    }
    fn inv(self) -> D {
        let v = self.v.inv();
        D { v, d: -(self.d * v * v) }
    }
    fn ln(self) -> D {
        D { v: self.v.ln(), d: self.d / self.v }
    }
    fn ln_abs(self) -> D {
        D { v: self.v.ln_abs(), d: self.d / self.v }
    }
    fn sqrt(self) -> D {
        let v = self.v.sqrt();
        D { v, d: self.d / v.k(2.) }
    }
    fn exp(self) -> D {
        let v = self.v.exp();
        D { v, d: self.d * v }
    }
}

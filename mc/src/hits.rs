//! Audit of the lattices (feature `hits`; no part of any check): which simple regions of the
//! arguments of a function does an exploration never enter? A region is a conjunction of up to three
//! conditions on one or two arguments; those which are a noticeable part of the plausible
//! arguments, but in which no evaluation fell, are listed.
use crate::base::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::OnceLock;

type Atom = (String, Box<dyn Fn(&A) -> bool + Send + Sync>);
pub struct Bank {
    name: String,
    /// pattern of the type parameters' names
    atoms: Vec<Atom>,
    vol: Vec<u32>,
    hit: Vec<AtomicU64>,
    calls: AtomicU64,
    f: &'static F,
    mask: u8,
}
fn atoms(f: &F, mask: u8) -> Vec<Atom> {
    let mut v: Vec<Atom> = vec![];
    let cp = f.complex_params(mask);
    let ps: Vec<usize> = f.params.iter().copied().filter(|p| *p != N && *p != LNS && *p != LNS1).collect();
    for &p in &ps {
        let n = PN[p];
        let ts: &[f64] = match p {
            BETA => &[0.1, 1., 10., 50.],
            _ => &[0.003, 0.03, 0.3, 3., 15.],
        };
        for &t in ts {
            v.push((format!("|{n}|<{t}"), Box::new(move |a| a.v[p].norm() < t)));
            v.push((format!("|{n}|>{t}"), Box::new(move |a| a.v[p].norm() > t)));
        }
        if [OM, MU, F0, G0, XI, DELTA, S, EN].contains(&p) {
            v.push((format!("{n}<0"), Box::new(move |a| a.v[p].re < 0.)));
        }
        if cp.contains(&p) {
            v.push((format!("im {n}<0"), Box::new(move |a| a.v[p].im < 0.)));
            v.push((format!("im {n}>0"), Box::new(move |a| a.v[p].im > 0.)));
            v.push((format!("|im|>|re| {n}"), Box::new(move |a| a.v[p].im.abs() > a.v[p].re.abs())));
        }
    }
    let dims: Vec<usize> = ps.iter().copied().filter(|p| [Q, OM, P, M, M1, M2, MQ, MU, EN].contains(p)).collect();
    for i in 0..dims.len() {
        for j in i + 1..dims.len() {
            let (x, y) = (dims[i], dims[j]);
            for k in [0.01, 0.2, 1., 5., 100.] {
                v.push((format!("|{}|>{k}|{}|", PN[x], PN[y]), Box::new(move |a| a.v[x].norm() > k * a.v[y].norm())));
                v.push((format!("|{}|<{k}|{}|", PN[x], PN[y]), Box::new(move |a| a.v[x].norm() < k * a.v[y].norm())));
            }
            v.push((
                format!("|{}|~|{}| (5%)", PN[x], PN[y]),
                Box::new(move |a| {
                    let d = a.v[x].norm() - a.v[y].norm();
                    d.abs() < 0.05 * a.v[y].norm() && d != 0.
                }),
            ));
        }
        if f.has(BETA) {
            let x = dims[i];
            for k in [0.05, 1., 10., 40.] {
                v.push((format!("beta|{}|>{k}", PN[x]), Box::new(move |a| a.v[x].norm() * a.v[BETA].re > k)));
                v.push((format!("beta|{}|<{k}", PN[x]), Box::new(move |a| a.v[x].norm() * a.v[BETA].re < k)));
            }
        }
    }
    v
}
fn mk(f: &'static F, mask: u8) -> Bank {
    let atoms = atoms(f, mask);
    let n = atoms.len();
    let w = n.div_ceil(64);
    // volumes of conjunctions of three, by plain enumeration of a fixed sequence of plausible points
    let mut seed = 0x9e3779b97f4a7c15u64;
    let mut u = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        (seed >> 11) as f64 / (1u64 << 53) as f64
    };
    let pts: u32 = 4000;
    let mut vol = vec![0u32; n * n * n];
    for _ in 0..pts {
        let mut a = A::new();
        for p in 0..NP {
            // (integrals: a smaller box)
            let d = if f.is_integral() { 2.6 } else { 4. };
            let x = 10f64.powf((u() - 0.5) * d);
            let x = if p == BETA { x * 5. } else { x };
            let s = if [OM, MU, F0, G0, XI, DELTA, EN].contains(&p) && u() < 0.3 { -1. } else { 1. };
            a.v[p] = C::from_polar(x * s, (u() - 0.5) * if [M, M1, M2, EN].contains(&p) { 0.6 } else { 3. });
        }
        crate::lattice::realify(f, mask, &mut a);
        let t: Vec<usize> = (0..n).filter(|i| (atoms[*i].1)(&a)).collect();
        for (x, &i) in t.iter().enumerate() {
            for (y, &j) in t.iter().enumerate().skip(x) {
                for &k in t.iter().skip(y) {
                    vol[(i * n + j) * n + k] += 1;
                }
            }
        }
    }
    Bank { name: format!("{}[{mask}]", f.full()), atoms, vol, hit: (0..n * n * w).map(|_| AtomicU64::new(0)).collect(), calls: AtomicU64::new(0), f, mask }
}
type Banks = HashMap<usize, OnceLock<Bank>>;
static BANKS: OnceLock<(Banks, HashMap<usize, (&'static F, u8)>)> = OnceLock::new();
pub fn note(v: &V, a: &A) {
    let (b, who) = BANKS.get_or_init(|| {
        let pat = std::env::var("HITS").unwrap_or_default();
        let mut b = HashMap::new();
        let mut w = HashMap::new();
        for f in crate::registry::FNS {
            for v in f.vars {
                if f.full().contains(&pat) {
                    b.insert(v as *const V as usize, OnceLock::new());
                    w.insert(v as *const V as usize, (f, v.mask));
                }
            }
        }
        (b, w)
    });
    let k = v as *const V as usize;
    let Some(cell) = b.get(&k) else { return };
    let bank = cell.get_or_init(|| mk(who[&k].0, who[&k].1));
    bank.calls.fetch_add(1, Relaxed);
    let n = bank.atoms.len();
    let w = n.div_ceil(64);
    let mut bits = vec![0u64; w];
    let mut t = vec![];
    for (i, x) in bank.atoms.iter().enumerate() {
        if (x.1)(a) {
            bits[i / 64] |= 1 << (i % 64);
            t.push(i);
        }
    }
    for (x, &i) in t.iter().enumerate() {
        for &j in t.iter().skip(x) {
            for q in 0..w {
                let h = &bank.hit[(i * n + j) * w + q];
                if h.load(Relaxed) | bits[q] != h.load(Relaxed) {
                    h.fetch_or(bits[q], Relaxed);
                }
            }
        }
    }
}
pub fn report() {
    let Some((b, _)) = BANKS.get() else { return };
    let mut out = vec![];
    for bank in b.values().filter_map(|x| x.get()) {
        let n = bank.atoms.len();
        let w = n.div_ceil(64);
        let (mut miss, mut all) = ([0u64; 4], [0u64; 4]);
        let mut worst: Vec<(u32, String)> = vec![];
        for i in 0..n {
            for j in i..n {
                for k in j..n {
                    let v = bank.vol[(i * n + j) * n + k];
                    if v < 40 {
                        continue;
                    }
                    let d = 1 + (j > i) as usize + (k > j) as usize;
                    if j == i && k > j {
                        continue;
                    }
                    all[d] += 1;
                    if bank.hit[(i * n + j) * w + k / 64].load(Relaxed) >> (k % 64) & 1 == 0 {
                        miss[d] += 1;
                        let mut s = bank.atoms[i].0.clone();
                        if j > i {
                            s += &format!(" & {}", bank.atoms[j].0);
                        }
                        if k > j {
                            s += &format!(" & {}", bank.atoms[k].0);
                        }
                        worst.push((v * (4 - d as u32), s));
                    }
                }
            }
        }
        worst.sort_by(|a, b| b.0.cmp(&a.0));
        worst.truncate(4);
        let _ = (bank.f, bank.mask);
        out.push((
            bank.name.clone(),
            format!(
                "{} calls; unvisited: {}/{} single, {}/{} double, {}/{} triple; {:?}",
                bank.calls.load(Relaxed), miss[1], all[1], miss[2], all[2], miss[3], all[3], worst
            ),
        ));
    }
    out.sort();
    for (a, b) in out {
        println!("HITS {a}: {b}");
    }
}

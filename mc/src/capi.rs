//! The C interface: symbols linked into this process, and the shared library called
//! through its headers from C, C++ and Cython.
use crate::base::*;
use crate::lattice::*;
use crate::registry::FNS;
use crate::registry_ffi::SYMS;
use qcd_sme::consts as k;
use rayon::prelude::*;
use std::ffi::CString;

extern "C" {
    fn set_number_of_colors(n: u32);
    fn get_number_of_colors() -> u32;
    fn set_number_of_fermions(n: u32);
    fn get_number_of_fermions() -> u32;
    fn set_default_quark_mass(m: f64);
    fn get_default_quark_mass() -> f64;
    fn set_default_tol_integral(t: f64);
    fn get_default_tol_integral() -> f64;
    fn set_default_max_iter_integral(n: u32);
    fn get_default_max_iter_integral() -> u32;
    fn set_matsubara_reg(r: f64);
    fn get_matsubara_reg() -> f64;
}

type Settings = [f64; 6];
const INIT: Settings = [3., 1., 0.5, 1e-10, 50., 1e-5];

fn native_set(s: &Settings, i: usize) {
    match i {
        0 => k::set_number_of_colors(s[0] as u32),
        1 => k::set_number_of_fermions(s[1] as u32),
        2 => k::set_default_quark_mass(s[2]),
        3 => k::set_default_tol_integral(s[3]),
        4 => k::set_default_max_iter_integral(s[4] as u32),
        _ => k::set_matsubara_reg(s[5]),
    }
}
fn native_get(i: usize) -> f64 {
    match i {
        0 => k::get_number_of_colors() as f64,
        1 => k::get_number_of_fermions() as f64,
        2 => k::get_default_quark_mass(),
        3 => k::get_default_tol_integral(),
        4 => k::get_default_max_iter_integral() as f64,
        _ => k::get_matsubara_reg(),
    }
}
fn c_set(s: &Settings, i: usize) {
    unsafe {
        match i {
            0 => set_number_of_colors(s[0] as u32),
            1 => set_number_of_fermions(s[1] as u32),
            2 => set_default_quark_mass(s[2]),
            3 => set_default_tol_integral(s[3]),
            4 => set_default_max_iter_integral(s[4] as u32),
            _ => set_matsubara_reg(s[5]),
        }
    }
}
fn c_get(i: usize) -> f64 {
    unsafe {
        match i {
            0 => get_number_of_colors() as f64,
            1 => get_number_of_fermions() as f64,
            2 => get_default_quark_mass(),
            3 => get_default_tol_integral(),
            4 => get_default_max_iter_integral() as f64,
            _ => get_matsubara_reg(),
        }
    }
}

/// a shared library with the wrappers
struct Lib {
    name: &'static str,
    call: unsafe extern "C" fn(i32, *const f64, *mut f64),
    set: unsafe extern "C" fn(i32, f64),
    get: unsafe extern "C" fn(i32) -> f64,
}
fn load(name: &'static str, path: &str) -> Result<Lib, String> {
    unsafe {
        let h = libc::dlopen(CString::new(path).unwrap().as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() {
            return Err(format!("{path}: {}", std::ffi::CStr::from_ptr(libc::dlerror()).to_string_lossy()));
        }
        let sym = |n: &str| libc::dlsym(h, CString::new(n).unwrap().as_ptr());
        Ok(Lib {
            name,
            call: std::mem::transmute(sym("w_call")),
            set: std::mem::transmute(sym("w_set")),
            get: std::mem::transmute(sym("w_get")),
        })
    }
}

fn flat(a: &A) -> [f64; 2 * NP] {
    let mut v = [0.; 2 * NP];
    for i in 0..NP {
        v[2 * i] = a.v[i].re;
        v[2 * i + 1] = a.v[i].im;
    }
    v
}

fn same(x: C, y: C) -> bool {
    if bits(x) == bits(y) {
        return true;
    }
    if x.re.is_nan() || x.im.is_nan() || y.re.is_nan() || y.im.is_nan() {
        return x.re.is_nan() == y.re.is_nan() && x.im.is_nan() == y.im.is_nan();
    }
    (x - y).norm() <= 1e-9 * x.norm().min(y.norm())
}

pub fn c07(cx: &Ctx) {
    let dir = std::env::var("MC_CAPI").unwrap_or("/verif/target-capi/wrap".into());
    let mut grid: Vec<Settings> = vec![INIT];
    for (i, xs) in [
        (0usize, &[2., 5.][..]),
        (1, &[0., 3.]),
        (2, &[0.3]),
        (3, &[1e-3, 1e-10]),
        (4, &[1., 7.]),
        (5, &[1e-3, 0.3]),
    ] {
        for x in xs {
            let mut s = INIT;
            s[i] = *x;
            grid.push(s);
        }
    }
    grid.push([2., 4., 0.6, 1e-5, 30., 1e-2]);
    let libs: Vec<Lib> = [("C", "wrap.so"), ("C++", "wrappp.so")]
        .into_iter()
        .filter_map(|(n, f)| match load(n, &format!("{dir}/{f}")) {
            Ok(l) => Some(l),
            Err(e) => {
                cx.violation("load".into(), format!("the {n} program cannot be linked with the library: {e}"));
                None
            }
        })
        .collect();

    // settings: every order of two settings, written by either interface and read by both
    let check_get = |cx: &Ctx, want: &Settings, what: &str| {
        for i in 0..6 {
            cx.trans(2);
            cx.valid(2);
            if native_get(i) != want[i] || c_get(i) != want[i] {
                cx.violation(
                    "settings".into(),
                    format!("after {what} setting {i} reads {} in Rust and {} in C instead of {}", native_get(i), c_get(i), want[i]),
                );
            }
        }
    };
    check_get(cx, &INIT, "nothing");
    let mut cur = INIT;
    for s in grid.iter().chain([INIT].iter()) {
        for t in &grid {
            for order in 0..12 {
                let (i, c) = (order / 2, order % 2 == 0);
                let j = (i + 1) % 6;
                if c {
                    c_set(s, i);
                    native_set(t, j);
                } else {
                    native_set(s, i);
                    c_set(t, j);
                }
                cur[i] = s[i];
                cur[j] = t[j];
                cx.state(1);
                check_get(cx, &cur, "setting through both interfaces");
            }
        }
    }
    cx.sample(format!("settings written and read through both interfaces: {} pairs of settings, 12 orders", (grid.len() + 1) * grid.len()));

    // functions
    let masks: Vec<&V> = SYMS.iter().map(|x| FNS[x.f].var(x.mask).unwrap()).collect();
    for (n, s) in grid.iter().enumerate() {
        for i in 0..6 {
            if (i + n) % 2 == 0 {
                c_set(s, i)
            } else {
                native_set(s, i)
            }
        }
        check_get(cx, s, "setting all");
        for l in &libs {
            for i in 0..6 {
                unsafe { (l.set)(i as i32, s[i]) };
            }
            for i in 0..6 {
                let g = unsafe { (l.get)(i as i32) };
                cx.valid(1);
                if g != s[i] {
                    cx.violation("settings".into(), format!("from {}: setting {i} reads {g} after it was set to {}", l.name, s[i]));
                }
            }
        }
        cx.state(1);
        (0..SYMS.len()).into_par_iter().for_each(|i| {
            let (x, v) = (&SYMS[i], masks[i]);
            let f = &FNS[x.f];
            let mut visit = |a: &A| {
                if !moderate(f, a) {
                    return;
                }
                cx.trans(2);
                let want = match eval(v, a) {
                    Ok(w) => w,
                    Err(_) => {
                        cx.skip(1);
                        return;
                    }
                };
                let what = |lang: &str, got: C| {
                    format!("{} from {lang} gives {got:e}, {} gives {want:e} with settings {s:?}", x.sym, f.desc(v, a))
                };
                let call = x.call;
                let got = call(a);
                cx.valid(1);
                if !same(got, want) {
                    cx.violation(format!("{} ", x.sym), what("the same process", got));
                }
                for l in &libs {
                    let (fl, mut o) = (flat(a), [0.; 2]);
                    unsafe { (l.call)(i as i32, fl.as_ptr(), o.as_mut_ptr()) };
                    let got = c(o[0], o[1]);
                    cx.valid(1);
                    if !same(got, want) {
                        cx.violation(format!("{} {}", x.sym, l.name), what(l.name, got));
                    }
                }
            };
            if f.is_integral() {
                singles(f, x.mask, if cx.thorough { 1 } else if n == 0 { 2 } else { 7 }, &mut visit);
            } else if n == 0 {
                pair_points(f, x.mask, 1 + cx.thorough as u8, &mut visit);
            } else {
                singles(f, x.mask, if cx.thorough { 1 } else { 3 }, &mut visit);
            }
        });
    }
    cx.sample(format!(
        "{} symbols in {} settings, called by name from this process, from C and from C++, against the Rust functions",
        SYMS.len(),
        grid.len()
    ));
    python(cx, &dir, &grid, &masks);
    for i in 0..6 {
        native_set(&INIT, i);
    }
}

/// the Cython declarations and the Python module
fn python(cx: &Ctx, dir: &str, grid: &[Settings], masks: &[&V]) {
    if !std::path::Path::new(&format!("{dir}/py/wrapx.so")).exists() {
        cx.skip(1);
        cx.sample("Cython is not installed: its declarations were not explored".into());
        return;
    }
    let h = |x: f64| format!("{:016x}", x.to_bits());
    let mut lines: Vec<(String, String, Option<C>)> = vec![];
    for s in [&INIT, &grid[grid.len() - 1]] {
        for i in 0..6 {
            native_set(s, i);
            lines.push((format!("s {i} {}", h(s[i])), String::new(), None));
        }
        for i in 0..6 {
            lines.push((format!("g {i}"), format!("getter {i}"), Some(r(s[i]))));
        }
        for (i, x) in SYMS.iter().enumerate() {
            let (f, v) = (&FNS[x.f], masks[i]);
            let mut k = 0;
            singles(f, x.mask, if f.is_integral() { 1000 } else { 7 }, &mut |a| {
                if !moderate(f, a) {
                    return;
                }
                k += 1;
                if let Ok(w) = eval(v, a) {
                    let fl: Vec<String> = flat(a).iter().map(|x| h(*x)).collect();
                    lines.push((format!("w {i} {}", fl.join(" ")), format!("{} from Cython: {}", x.sym, f.desc(v, a)), Some(w)));
                }
            });
        }
        for (n, name) in [("dressing_inv_landau", "ym__gluon__dressing_inv_landau"), ("dressing_landau", "ym__gluon__dressing_landau")] {
            let f = func("ym::gluon", n);
            for mask in [0, 1] {
                let v = f.var(mask).unwrap();
                pair_points(f, mask, 0, &mut |a| {
                    let Ok(w) = eval(v, a) else { return };
                    let (s, f0) = (a.v[S], a.re(F0));
                    lines.push(if mask == 0 {
                        (format!("p {name} {} {}", h(s.re), h(f0)), f.desc(v, a), Some(w))
                    } else {
                        (format!("p {name}__complex {} {} {}", h(s.re), h(s.im), h(f0)), f.desc(v, a), Some(w))
                    });
                });
            }
        }
    }
    let (pts, res) = (format!("{dir}/points.txt"), format!("{dir}/results.txt"));
    let _ = std::fs::remove_file(&res);
    std::fs::write(&pts, lines.iter().map(|x| x.0.clone() + "\n").collect::<String>()).unwrap();
    let st = std::process::Command::new("/usr/bin/python3")
        .args([&format!("{}/run.py", std::env::var("MC_CAPI_SRC").unwrap_or("/verif/capi".into())), &format!("{dir}/py"), &pts, &res])
        .output();
    let out = std::fs::read_to_string(&res).unwrap_or_default();
    let got: Vec<&str> = out.lines().collect();
    if got.len() != lines.len() {
        cx.violation(
            "python".into(),
            format!("the Python modules could not be used: {}", st.map(|s| String::from_utf8_lossy(&s.stderr).to_string()).unwrap_or_default()),
        );
        return;
    }
    let mut n = 0;
    for ((_, what, want), g) in lines.iter().zip(got) {
        let Some(want) = want else { continue };
        if g == "-" {
            cx.skip(1);
            continue;
        }
        let nums: Vec<f64> = g.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()).map(f64::from_bits).collect();
        n += 1;
        cx.trans(1);
        cx.valid(1);
        let v = if nums.is_empty() { c(f64::NAN, f64::NAN) } else { c(nums[0], nums.get(1).copied().unwrap_or(0.)) };
        if g.starts_with("error") && !what.is_empty() {
            // Python may refuse what it cannot represent (division by zero)
            cx.violation("python".into(), format!("{what}: {g}"));
        } else if !same(v, *want) {
            cx.violation("python".into(), format!("{what} gives {v:e} instead of {want:e}"));
        }
    }
    cx.sample(format!("{n} calls through the Cython declarations and the Python module"));
}

mod base;
#[path = "finish.rs"]
mod finish;
#[cfg(feature = "capi")]
mod capi;
#[cfg(feature = "hits")]
mod hits;
mod intr;
mod lattice;
mod num_e;
mod pnum;
#[cfg(feature = "tc")]
mod overall;
#[cfg(feature = "tc")]
mod prog;
mod pw;
mod quad;
mod refm;
mod registry;
#[cfg(feature = "capi")]
mod registry_ffi;
#[cfg(feature = "tc")]
#[allow(dead_code)]
mod shm;
mod state;
#[cfg(feature = "tc")]
mod tc;
mod util;
use base::*;
use finish::finish;

type Check = fn(&Ctx);
fn checks() -> Vec<(&'static str, Check)> {
    vec![
        ("C01", state::c01 as Check),
        ("C02", state::c02),
        ("C04", state::c04),
        ("C05", state::c05),
        ("C06", state::c06),
        #[cfg(feature = "capi")]
        ("C07", capi::c07),
        ("C08", pnum::c08),
        ("C09", pnum::c09),
        ("C10", pnum::c10),
        ("C11", pnum::c11),
        ("C12", pnum::c12),
        ("C13", pnum::c13),
        ("C14", pnum::c14),
        ("C15", pnum::c15),
        ("C16", pnum::c16),
        ("C17", util::c17),
        #[cfg(feature = "tc")]
        ("C18", tc::c18),
        #[cfg(feature = "tc")]
        ("C19", tc::c19),
        #[cfg(feature = "tc")]
        ("C20", tc::c20),
        #[cfg(feature = "tc")]
        ("C21", prog::c21),
        ("C22", pnum::c22),
        ("C23", pnum::c23),
        #[cfg(feature = "tc")]
        ("C24", overall::c24),
        ("times", pnum::times),
    ]
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    state::limit_left();
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|x| x == n).and_then(|i| args.get(i + 1)).cloned();
    let cmd = args.get(1).cloned().unwrap_or_default();
    if cmd == "calibrate" {
        return pw::calibrate(&args);
    }
    let mut cx = pw::mkctx(&cmd, opt("--tier").as_deref() == Some("thorough"));
    cx.seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    cx.calibrate = args.iter().any(|x| x == "--ratios");
    if let Some(k) = opt("--known") {
        for l in std::fs::read_to_string(k).unwrap_or_default().lines() {
            // finding: property=<id> key=<key> :: <text>
            if let Some(x) = l.strip_prefix("finding: ") {
                if let Some(x) = x.strip_prefix(&format!("property={cmd} key=")) {
                    let (k, t) = x.split_once(" :: ").unwrap_or((x, ""));
                    cx.known.push((k.to_string(), t.to_string()));
                }
            }
        }
    }
    let Some((_, run)) = checks().into_iter().find(|x| x.0 == cmd) else {
        eprintln!("unknown check {cmd}");
        std::process::exit(2);
    };
    let cx: &'static Ctx = Box::leak(Box::new(cx));
    let (out, rep) = (opt("--out").unwrap_or_default(), opt("--replays").unwrap_or("/verif/replays".into()));
    let (o, rp) = (out.clone(), rep.clone());
    let limit = if cx.thorough { 3600 } else { 240 };
    base::watchdog(limit, move |what| {
        cx.violation("does not return".into(), format!("{what} has not returned after {limit} s"));
        std::process::exit(finish(cx, &o, &rp));
    });
    run(cx);
    if base::LONGEST.load(std::sync::atomic::Ordering::Relaxed) > 2 {
        eprintln!("longest evaluation: {} s", base::LONGEST.load(std::sync::atomic::Ordering::Relaxed));
    }
    #[cfg(feature = "hits")]
    hits::report();
    if cx.calibrate {
        pw::ratios(cx);
    }
    let rc = finish(cx, &out, &rep);
    std::process::exit(rc);
}

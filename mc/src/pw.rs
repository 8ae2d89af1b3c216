use crate::base::*;
use crate::lattice::*;
use crate::refm;
use rayon::prelude::*;
pub fn mkctx(property: &str, thorough: bool) -> Ctx {
    Ctx { property: property.into(), thorough, seed: 1, states: 0.into(), transitions: 0.into(), validated: 0.into(), skipped: 0.into(),
      viol: Default::default(), nviol: 0.into(), known_hit: Default::default(), known: vec![], samples: Default::default(), notes: Default::default(),
      maxratio: Default::default(), calibrate: false, start: std::time::Instant::now() }
}
pub fn calibrate(_args: &[String]) {
    let mut cx = mkctx("X", _args.iter().any(|x| x == "--thorough"));
    cx.calibrate = true;
    let g = refm::globals();
    let jobs: Vec<(&F, &V)> = crate::registry::FNS.iter().flat_map(|f| f.vars.iter().map(move |v| (f, v)))
        .filter(|(f, _)| refm::pointwise(f, &A::new(), g).is_some())
        .collect();
    println!("{} instantiations", jobs.len());
    jobs.par_iter().for_each(|(f, v)| {
        let mut n = 0; 
        let mut visit = |a: &A| {
            n += 1;
            let want = refm::pointwise(f, a, g).unwrap();
            cx.check("ref", f, v, a, eval(v, a), want);
        };
        pair_points(f, v.mask, 1 + cx.thorough as u8, &mut visit);
        coincidences(f, v.mask, &mut visit);
        cx.state(n);
    });
    println!("states {:?} valid {:?} skipped {:?} viol {}", cx.states, cx.validated, cx.skipped, cx.nv());
    ratios(&cx);
    for (_, t) in cx.viol.lock().unwrap().iter().take(30) { println!("V {t}"); }
    println!("{:?}", cx.start.elapsed());
}
pub fn ratios(cx: &Ctx) {
    let m = cx.maxratio.lock().unwrap();
    let mut v: Vec<_> = m.iter().collect();
    v.sort_by(|a, b| b.1 .0.partial_cmp(&a.1 .0).unwrap());
    for (k, (x, d)) in v.iter().take(40) { println!("{x:10.3e} {k}\n      {d}"); }
}

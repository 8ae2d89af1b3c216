//! C03: every public function is run under a controlled scheduler. First the memory which each
//! evaluation shares is found (its footprint), alone in a process, on a lattice of arguments.
//! Evaluations whose footprints contain no writes commute with all others. All others, and
//! (as a check of the machinery) pairs of the commuting ones, are run under all schedules up to
//! a number of preemptions.
#[path = "../../mc/src/base.rs"]
#[allow(dead_code)]
mod base;
#[path = "../../mc/src/finish.rs"]
mod finish;
#[path = "../../mc/src/lattice.rs"]
#[allow(dead_code)]
mod lattice;
#[path = "../../mc/src/num_e.rs"]
#[allow(dead_code)]
mod num_e;
#[path = "../../mc/src/registry.rs"]
mod registry;
#[path = "../../mc/src/shm.rs"]
mod shm;

use base::*;
use lattice::*;
use qcd_sme::consts as k;
use registry::FNS;
use shm::*;
use std::collections::BTreeSet;
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

extern "C" {
    fn rt_init(s: *mut Shared);
    fn rt_shared_size() -> usize;
    fn rt_begin(n: i32, record: i32);
    fn rt_run();
    fn rt_enter(t: i32);
    fn rt_leave();
    fn rt_alloc(n: usize, align: usize) -> *mut u8;
    fn rt_free(p: *mut u8, n: usize, align: usize);
    fn rt_private(g: u64) -> i32;
    fn rt_static(g: u64) -> i32;
}

struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        rt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        rt_free(p, l.size(), l.align())
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

fn shared() -> &'static mut Shared {
    unsafe {
        assert_eq!(rt_shared_size(), std::mem::size_of::<Shared>());
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &mut *(p as *mut Shared)
    }
}

/// the global settings of an exploration
const SETTINGS: usize = 2;
fn settings(i: usize) {
    // the integrals take as long as they like at the initial tolerance
    k::set_default_tol_integral(1e-1);
    if i == 1 {
        k::set_number_of_colors(2);
        k::set_number_of_fermions(3);
        k::set_default_tol_integral(1e4);
        k::set_default_max_iter_integral(8);
        k::set_matsubara_reg(1e-3);
    }
}

/// an evaluation: function, variant, argument point; or a change of a setting
#[derive(Clone)]
enum Call {
    Eval { f: &'static F, v: &'static V, a: Arc<Shareable> },
    Set(u8, u32),
}
/// a point is shared between threads where the field configuration allows it
struct Shareable(A);
unsafe impl Sync for Shareable {}
unsafe impl Send for Shareable {}
struct Probe<T>(std::marker::PhantomData<T>);
trait NotSync {
    fn is_sync(&self) -> bool {
        false
    }
}
impl<T> NotSync for Probe<T> {}
impl<T: Sync> Probe<T> {
    #[allow(dead_code)]
    fn is_sync(&self) -> bool {
        true
    }
}
fn config_is_sync() -> bool {
    Probe::<FieldConfig>(std::marker::PhantomData).is_sync()
}
impl Call {
    fn new(f: &'static F, v: &'static V, a: &A) -> Call {
        Call::Eval { f, v, a: Arc::new(Shareable(a.clone())) }
    }
    /// for another thread
    fn share(&self) -> Call {
        match self {
            Call::Eval { f, v, a } if !config_is_sync() => {
                let mut a = a.0.clone();
                a.cfg = Arc::new((*a.cfg).clone());
                Call::new(f, v, &a)
            }
            c => c.clone(),
        }
    }
    fn desc(&self) -> String {
        match self {
            Call::Eval { f, v, a } => f.desc(v, &a.0),
            Call::Set(0, x) => format!("set_number_of_colors({x})"),
            Call::Set(1, x) => format!("set_number_of_fermions({x})"),
            Call::Set(_, x) => format!("set_default_quark_mass({x})"),
        }
    }
    fn name(&self) -> String {
        match self {
            Call::Eval { f, .. } => f.full(),
            _ => "setter".into(),
        }
    }
}
fn outcome(c: &Call) -> (u64, u64) {
    match c {
        Call::Eval { v, a, .. } => match eval(v, &a.0) {
            Ok(x) => bits(x),
            Err(_) => (0x7ff8_dead_0000_0000, 0),
        },
        Call::Set(i, x) => {
            match i {
                0 => k::set_number_of_colors(*x),
                1 => k::set_number_of_fermions(*x),
                _ => k::set_default_quark_mass(*x as f64),
            }
            (0, 0)
        }
    }
}

/// argument points of a function: for the footprints (many), for the schedules (a few).
/// Points with equal configurations share them.
fn points(f: &'static F, v: &'static V, many: bool, thorough: bool) -> Vec<A> {
    let mut out = vec![];
    let common: Cfg = A::new().cfg;
    let mut push = |a: &A| {
        let mut a = a.clone();
        a.cfg = common.clone();
        a.tol = if many { 1e4 } else { 1e-1 };
        a.iter = 8;
        out.push(a);
    };
    let integral = f.is_integral();
    let mut base = |n: usize, push: &mut dyn FnMut(&A)| {
        let mut k = 0;
        for mut b in bases(1) {
            realify(f, v.mask, &mut b);
            if moderate(f, &b) && k < n {
                k += 1;
                push(&b);
            }
        }
    };
    if !many {
        base(3, &mut push);
    } else {
        if integral {
            singles(f, v.mask, if thorough { 1 } else { 4 }, &mut |a| {
                if moderate(f, a) {
                    push(a)
                }
            });
        } else {
            singles(f, v.mask, 1, &mut push);
            if thorough {
                pair_points(f, v.mask, 0, &mut push);
            }
        }
        coincidences(f, v.mask, &mut |a| {
            if moderate(f, a) {
                push(a)
            }
        });
    }
    if f.cfg {
        let tol = if many { 1e4 } else { 1e-1 };
        for (k, c) in [(2, 1.2, vec![(1, 0.4)]), (3, 0.9, vec![]), (5, 0.656, vec![(1, 0.2), (1, 0.3), (2, 0.7)])].into_iter().enumerate() {
            if !many && k > 0 {
                break;
            }
            let c: Cfg = FieldConfig::new(c.0, c.1, c.2).into();
            base(if many { 3 } else { 1 }, &mut |a| {
                let mut a = a.clone();
                a.cfg = c.clone();
                a.tol = tol;
                a.iter = 8;
                out.push(a);
            });
        }
    }
    out
}

#[derive(Debug, PartialEq)]
enum End {
    Ok,
    Deadlock,
    Killed(i32),
    Long,
}
/// run in a child process
fn child(secs: u32, f: impl FnOnce()) -> End {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::alarm(secs);
            f();
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) {
            match libc::WEXITSTATUS(st) {
                0 => End::Ok,
                41 => End::Deadlock,
                42 => End::Long,
                c => End::Killed(c),
            }
        } else if libc::WTERMSIG(st) == libc::SIGALRM {
            End::Long
        } else {
            End::Killed(libc::WTERMSIG(st))
        }
    }
}

/// the footprint of a function: shared granules read and written; indices of points that write
#[derive(Clone, Default, Debug)]
struct Foot {
    reads: BTreeSet<u64>,
    writes: BTreeSet<u64>,
    at: Vec<usize>,
    npoints: u64,
    naccess: u64,
}

fn footprint(sh: &mut Shared, f: &'static F, v: &'static V, set: usize, pts: &[A]) -> Result<Foot, End> {
    reset(sh);
    sh.all_shared = 0;
    points_at(sh, &Default::default());
    sh.res = [-1.; 64];
    let slow = std::env::var("SCHED_SLOW").is_ok();
    let p = sh as *mut Shared as usize;
    let end = child(100, move || unsafe {
        let sh = &mut *(p as *mut Shared);
        rt_init(sh);
        settings(set);
        rt_begin(1, 2);
        let pts: Vec<A> = pts.to_vec();
        let h = std::thread::spawn(move || {
            let mut found = vec![];
            rt_enter(0);
            for (i, a) in pts.iter().enumerate() {
                let before = (*(p as *mut Shared)).nwrite;
                let t0 = std::time::Instant::now();
                // twice: caches are filled by the first call
                let _ = eval(v, a);
                let _ = eval(v, a);
                if (*(p as *mut Shared)).nwrite != before {
                    found.push(i);
                }
                if t0.elapsed().as_secs_f64() > 1. && slow {
                    eprintln!("slow: {} {:.1}", f.desc(v, a), t0.elapsed().as_secs_f64());
                }
            }
            rt_leave();
            found
        });
        rt_run();
        let found = h.join().unwrap();
        // the first ones, and some of the others
        let n = found.len();
        let mut pick: Vec<usize> = found.iter().take(3).cloned().collect();
        for k in 1..=5 {
            pick.push(*found.get((n * k / 5).saturating_sub(1)).unwrap_or(&usize::MAX));
        }
        pick.retain(|x| *x != usize::MAX);
        pick.dedup();
        for (k, x) in pick.iter().enumerate() {
            sh.res[k] = *x as f64;
        }
        for e in sh.tab.iter_mut() {
            if e.g != 0 && rt_private(e.g) != 0 {
                e.w = 0;
                e.r = 0;
            }
        }
    });
    if end != End::Ok {
        return Err(end);
    }
    let mut ft = Foot { npoints: pts.len() as u64, naccess: sh.naccess, ..Default::default() };
    for e in &sh.tab {
        if e.g == 0 {
            continue;
        }
        if e.w != 0 {
            ft.writes.insert(e.g);
        }
        if e.r != 0 && unsafe { rt_static(e.g) } != 0 {
            ft.reads.insert(e.g);
        }
    }
    if !ft.writes.is_empty() {
        ft.at = sh.res.iter().take_while(|x| **x >= 0.).map(|x| *x as usize).collect();
        ft.at.dedup();
    }
    let _ = f;
    Ok(ft)
}

/// threads, each a list of calls, after some calls by the main thread
#[derive(Clone)]
struct Scenario {
    set: usize,
    before: Vec<Call>,
    threads: Vec<Vec<Call>>,
}
impl Scenario {
    fn desc(&self) -> String {
        let l = |v: &Vec<Call>| v.iter().map(|c| c.desc()).collect::<Vec<_>>().join("; ");
        format!(
            "threads {}{}",
            self.threads.iter().map(|t| format!("[{}]", l(t))).collect::<Vec<_>>().join(" | "),
            if self.before.is_empty() { String::new() } else { format!(" after [{}]", l(&self.before)) }
        )
    }
}

/// results of all calls alone, each in a process of its own
fn alone(sh: &mut Shared, sc: &Scenario) -> Option<Vec<Vec<(u64, u64)>>> {
    let mut out = vec![];
    for t in &sc.threads {
        let mut row = vec![];
        for c in t {
            let p = sh as *mut Shared as usize;
            let set = sc.set;
            let end = child(30, move || unsafe {
                let sh = &mut *(p as *mut Shared);
                settings(set);
                let c = c.clone();
                // as in the exploration, not on the main thread
                let x = std::thread::spawn(move || outcome(&c)).join().unwrap();
                sh.res[0] = f64::from_bits(x.0);
                sh.res[1] = f64::from_bits(x.1);
            });
            if end != End::Ok {
                return None;
            }
            row.push((sh.res[0].to_bits(), sh.res[1].to_bits()));
        }
        out.push(row);
    }
    Some(out)
}

/// one execution
fn execute(sh: &mut Shared, sc: &Scenario) -> (End, Vec<Vec<(u64, u64)>>) {
    let p = sh as *mut Shared as usize;
    let end = child(60, move || unsafe {
        let sh = &mut *(p as *mut Shared);
        rt_init(sh);
        settings(sc.set);
        for c in &sc.before {
            let c = c.clone();
            let _ = std::thread::spawn(move || outcome(&c)).join();
        }
        rt_begin(sc.threads.len() as i32, 1);
        let hs: Vec<_> = sc
            .threads
            .iter()
            .enumerate()
            .map(|(t, calls)| {
                let calls: Vec<Call> = calls.iter().map(|c| c.share()).collect();
                std::thread::spawn(move || {
                    let mut out = Vec::with_capacity(calls.len());
                    rt_enter(t as i32);
                    for c in &calls {
                        out.push(outcome(c));
                    }
                    rt_leave();
                    out
                })
            })
            .collect();
        rt_run();
        let mut n = 0;
        for h in hs {
            for x in h.join().unwrap() {
                sh.res[n] = f64::from_bits(x.0);
                sh.res[n + 1] = f64::from_bits(x.1);
                n += 2;
            }
        }
    });
    let mut out = vec![];
    let mut n = 0;
    for t in &sc.threads {
        out.push(
            t.iter()
                .map(|_| {
                    n += 2;
                    (sh.res[n - 2].to_bits(), sh.res[n - 1].to_bits())
                })
                .collect(),
        );
    }
    (end, out)
}

/// All schedules of a scenario with at most `bound` preemptions (at most `cap` of them).
/// Returns a counterexample.
fn explore(sh: &mut Shared, sc: &Scenario, writes: Option<&BTreeSet<u64>>, bound: u32, cap: u64, st: &mut Stats, stop: &dyn Fn() -> bool) -> Option<String> {
    let Some(want) = alone(sh, sc) else {
        st.undecided += 1;
        return None;
    };
    search(sh, writes.cloned(), Plan { bound, cap, few: u64::MAX, delays: false }, st, stop, &mut |sh, dev| {
        let (end, got) = execute(sh, sc);
        match end {
            End::Ok => {}
            End::Deadlock => return Some(format!("{} deadlock under the schedule {}", sc.desc(), trace(sh))),
            End::Long => return Some(format!("{} do not return under the schedule {dev:?}", sc.desc())),
            End::Killed(c) => return Some(format!("{} end the process (status {c}) under the schedule {}", sc.desc(), trace(sh))),
        }
        for t in 0..want.len() {
            for i in 0..want[t].len() {
                if want[t][i] != got[t][i] {
                    let f = |x: (u64, u64)| format!("{:e}{:+e}i", f64::from_bits(x.0), f64::from_bits(x.1));
                    return Some(format!(
                        "{}: call {i} of thread {t} returns {} instead of {} under the schedule {} (deviations {dev:?})",
                        sc.desc(),
                        f(got[t][i]),
                        f(want[t][i]),
                        trace(sh)
                    ));
                }
            }
        }
        None
    })
}

/// spread items over worker processes; each returns lines
fn workers(n: usize, work: impl Fn(usize, &mut Shared) -> Vec<String>) -> Vec<String> {
    let dir = std::env::temp_dir().join(format!("mc-c03-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let counter = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU64)
    };
    let mut pids = vec![];
    for w in 0..8 {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            let sh = shared();
            unsafe { rt_init(sh) };
            let mut f = std::fs::File::create(dir.join(format!("{w}"))).unwrap();
            loop {
                let i = counter.fetch_add(1, SeqCst) as usize;
                if i >= n {
                    break;
                }
                for l in work(i, sh) {
                    let _ = writeln!(f, "{l}");
                }
            }
            let _ = writeln!(f, "end");
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
    }
    let mut out = vec![];
    let mut ends = 0;
    for w in 0..8 {
        for l in std::fs::read_to_string(dir.join(format!("{w}"))).unwrap_or_default().lines() {
            if l == "end" {
                ends += 1
            } else {
                out.push(l.to_string())
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if ends != 8 {
        eprintln!("a worker ended early");
        std::process::exit(2);
    }
    out
}

fn main() {
    std::panic::set_hook(Box::new(|i| if std::env::var("SCHED_PANICS").is_ok() { eprintln!("{i}") }));
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|x| x == n).and_then(|i| args.get(i + 1)).cloned();
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let cx = Ctx {
        property: args.get(1).cloned().unwrap_or("C03".into()),
        thorough,
        seed: std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1),
        states: 0.into(),
        transitions: 0.into(),
        validated: 0.into(),
        skipped: 0.into(),
        viol: Default::default(),
        nviol: 0.into(),
        known_hit: Default::default(),
        known: vec![],
        samples: Default::default(),
        notes: Default::default(),
        maxratio: Default::default(),
        calibrate: false,
        start: std::time::Instant::now(),
    };
    let verbose = args.iter().any(|x| x == "--verbose");

    // every function in every instantiation (re-exported functions are the same code)
    let mut items: Vec<(&'static F, &'static V, usize)> = vec![];
    let c04 = cx.property == "C04";
    for f in FNS.iter().filter(|f| !c04 || f.cfg).filter(|f| !(f.path.starts_with("qcd") && f.path.ends_with("ghost"))) {
        for v in f.vars {
            for s in 0..SETTINGS {
                items.push((f, v, s));
            }
        }
    }

    // 1. footprints
    let lines = workers(items.len(), |i, sh| {
        let (f, v, s) = items[i];
        let pts = points(f, v, true, thorough);
        match footprint(sh, f, v, s, &pts) {
            Ok(ft) => {
                let l = |x: &BTreeSet<u64>| x.iter().map(|g| g.to_string()).collect::<Vec<_>>().join(",");
                vec![format!(
                    "{i} {} {} r{} w{} p{}",
                    ft.npoints,
                    ft.naccess,
                    l(&ft.reads),
                    l(&ft.writes),
                    ft.at.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                )]
            }
            Err(e) => vec![format!("{i} - {e:?}")],
        }
    });
    let mut foot: Vec<Option<Foot>> = vec![None; items.len()];
    let (mut evals, mut accesses) = (0, 0);
    for l in &lines {
        let w: Vec<&str> = l.split(' ').collect();
        let i: usize = w[0].parse().unwrap();
        if w[1] == "-" {
            if verbose {
                println!("no footprint of {} {l}", items[i].0.full());
            }
            cx.skip(1);
            continue;
        }
        let nums = |s: &str| -> BTreeSet<u64> { s[1..].split(',').filter_map(|x| x.parse().ok()).collect() };
        let ft = Foot {
            npoints: w[1].parse().unwrap(),
            naccess: w[2].parse().unwrap(),
            reads: nums(w[3]),
            writes: nums(w[4]),
            at: w[5][1..].split(',').filter_map(|x| x.parse().ok()).collect(),
        };
        evals += 2 * ft.npoints;
        accesses += ft.naccess;
        cx.state(ft.npoints);
        cx.trans(ft.naccess);
        foot[i] = Some(ft);
    }
    let t1 = cx.start.elapsed().as_secs_f64();
    cx.sample(format!(
        "footprints of {} instantiations in {} settings: {evals} evaluations with {accesses} accesses to memory outside of their stack",
        items.len() / SETTINGS,
        SETTINGS
    ));
    let writers: Vec<usize> = (0..items.len()).filter(|i| foot[*i].as_ref().is_some_and(|f| !f.writes.is_empty())).collect();
    cx.sample(format!("{} instantiations write memory that other threads can reach", writers.len()));
    if verbose {
        for &i in writers.iter().take(20) {
            println!("writer {} mask {} set {} {:?}", items[i].0.full(), items[i].1.mask, items[i].2, foot[i].as_ref().unwrap());
        }
    }

    // 2. schedules
    struct Job {
        sc: Scenario,
        writes: Option<BTreeSet<u64>>,
        bound: u32,
        cap: u64,
    }
    // (a) those which write: every pair and triple with conflicting footprints
    let mut jobs: Vec<Job> = vec![];
    let call = |i: usize, a: &A| Call::new(items[i].0, items[i].1, a);
    let cap = if thorough { 20_000 } else { 1500 };
    // functions with the same footprint of writes are explored through a few of them first
    let mut order: Vec<usize> = vec![];
    {
        let mut seen: std::collections::BTreeMap<Vec<u64>, Vec<usize>> = Default::default();
        for &i in &writers {
            seen.entry(foot[i].as_ref().unwrap().writes.iter().cloned().collect()).or_default().push(i);
        }
        let most = seen.values().map(|v| v.len()).max().unwrap_or(0);
        for k in 0..most {
            for v in seen.values() {
                if let Some(&i) = v.get(k) {
                    order.push(i);
                }
            }
        }
    }
    for &i in &order {
        let ft = foot[i].as_ref().unwrap();
        let set = items[i].2;
        let all = points(items[i].0, items[i].1, true, thorough);
        let mut pts: Vec<A> = ft.at.iter().take(if thorough { 8 } else { 4 }).map(|k| all[*k].clone()).collect();
        let base = points(items[i].0, items[i].1, false, thorough);
        let common = base[0].cfg.clone();
        for a in &mut pts {
            if *a.cfg.quarks == *common.quarks && a.cfg.nc == common.nc && a.cfg.gluon == common.gluon {
                a.cfg = common.clone();
            }
        }
        let w = Some(ft.writes.clone());
        if pts.len() < 3 {
            pts.extend(base.iter().take(2).cloned());
        }
        if items[i].0.cfg {
            pts.extend(base.last().cloned());
        }
        let mut add = |before: Vec<Call>, threads: Vec<Vec<Call>>, bound| {
            jobs.push(Job { sc: Scenario { set, before, threads }, writes: w.clone(), bound, cap })
        };
        let n = pts.len();
        let cs: Vec<Call> = pts.iter().map(|a| call(i, a)).collect();
        let c = |k: usize| cs[k % n].clone();
        for x in 0..n {
            for y in x..n {
                add(vec![], vec![vec![c(x)], vec![c(y)]], 2);
                add(vec![c(y + 1)], vec![vec![c(x)], vec![c(y)]], 2);
            }
        }
        for x in 0..n.min(3) {
            add(vec![], vec![vec![c(x), c(x + 1)], vec![c(x + 1), c(x)]], 2);
            add(vec![c(x + 1)], vec![vec![c(x), c(x + 1)], vec![c(x), c(x + 2)]], 2);
            add(vec![], vec![vec![c(x)], vec![c(x + 1)], vec![c(x + 2)]], 1);
        }
        // partners which read or write the same memory
        let mut partners = 0;
        for j in 0..items.len() {
            let Some(g) = &foot[j] else { continue };
            if j == i || items[j].2 != set || partners >= if thorough { 40 } else { 6 } {
                continue;
            }
            if g.writes.intersection(&ft.writes).next().is_some() || g.reads.intersection(&ft.writes).next().is_some() {
                let o = points(items[j].0, items[j].1, false, thorough);
                if let Some(b) = o.first() {
                    partners += 1;
                    add(vec![], vec![vec![c(0)], vec![call(j, b)]], 2);
                    add(vec![call(j, b)], vec![vec![c(0), c(1)], vec![call(j, b)]], 1);
                }
            }
        }
    }
    let conflicting = jobs.len();
    // (b) every instantiation with itself, and with the next ones: all accesses to writable
    // static memory are scheduling points
    let step = if c04 { usize::MAX } else { 1 };
    let cap = if thorough { 2000 } else { 50 };
    for i in (0..items.len()).step_by(step) {
        if c04 || foot[i].is_none() {
            continue;
        }
        let p = points(items[i].0, items[i].1, false, thorough);
        if p.len() < 2 {
            continue;
        }
        let set = items[i].2;
        jobs.push(Job {
            sc: Scenario { set, before: vec![], threads: vec![vec![call(i, &p[0])], vec![call(i, &p[1])]] },
            writes: None,
            bound: 1,
            cap,
        });
        let j = (i + 2 * (items.len() / 5)) % items.len();
        if foot[j].is_some() {
            let o = points(items[j].0, items[j].1, false, thorough);
            if let Some(b) = o.first() {
                jobs.push(Job {
                    sc: Scenario { set, before: vec![], threads: vec![vec![call(i, &p[0])], vec![call(j, b)], vec![call(i, &p[1])]] },
                    writes: None,
                    bound: 1,
                    cap,
                });
            }
        }
    }
    // (c) evaluations while another thread changes the settings which they must not use
    if c04 {
        let sets = |l: &[(u8, u32)]| l.iter().map(|x| Call::Set(x.0, x.1)).collect::<Vec<_>>();
        for i in 0..items.len() {
            let p: Vec<Call> = points(items[i].0, items[i].1, false, thorough).iter().map(|a| call(i, a)).collect();
            let n = p.len();
            let set = items[i].2;
            for (k, l) in [
                sets(&[(0, 5), (1, 7), (2, 2)]),
                sets(&[(1, 0), (0, 1), (1, 1)]),
                sets(&[(2, 0), (1, 2), (0, 2), (0, 3)]),
            ]
            .into_iter()
            .enumerate()
            {
                // conflicting accesses as scheduling points; for some of them all static memory
                let w = foot[i].as_ref().map(|f| f.writes.clone()).unwrap_or_default();
                let mut add = |threads: Vec<Vec<Call>>, bound, all: bool| {
                    let sc = Scenario { set, before: vec![], threads };
                    if all {
                        jobs.push(Job { sc: sc.clone(), writes: None, bound: 1, cap: if thorough { 3000 } else { 60 } });
                    }
                    jobs.push(Job { sc, writes: Some(w.clone()), bound, cap: if thorough { 20_000 } else { 2000 } });
                };
                for x in 0..n {
                    add(vec![vec![p[x].clone(), p[(x + 1) % n].clone()], l.clone()], 2, k == x);
                    add(vec![vec![p[x].clone()], vec![p[(x + 1) % n].clone()], l.clone()], 1, k == 0 && x == n - 1);
                }
            }
        }
    }
    let budget = if thorough { 5400. } else { 500. };
    let found = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU64)
    };
    let start = cx.start;
    let lines = workers(jobs.len(), |i, sh| {
        let job = &jobs[i];
        let mut st = Stats::default();
        let stop = || found.load(SeqCst) >= 4 || start.elapsed().as_secs_f64() > budget;
        if stop() {
            return vec!["n 0 0 1 0".into()];
        }
        let bad = explore(sh, &job.sc, job.writes.as_ref(), job.bound, job.cap, &mut st, &stop);
        let mut out = vec![format!("n {} {} {} {}", st.schedules, st.points, st.capped, st.undecided)];
        if let Some(b) = bad {
            found.fetch_add(1, SeqCst);
            out.push(format!("v {}|{b}", job.sc.threads[0][0].name()));
        }
        out
    });
    let (mut sched, mut pts, mut capped) = (0, 0, 0);
    for l in &lines {
        if let Some(x) = l.strip_prefix("n ") {
            let n: Vec<u64> = x.split(' ').map(|x| x.parse().unwrap()).collect();
            sched += n[0];
            pts += n[1];
            capped += n[2];
            cx.skip(n[3]);
        } else if let Some((k, t)) = l.strip_prefix("v ").and_then(|x| x.split_once('|')) {
            cx.violation(k.into(), t.into());
        }
    }
    cx.state(sched);
    cx.trans(pts);
    cx.valid(sched);
    cx.sample(format!("{} scenarios ({conflicting} with conflicts): {sched} schedules with {pts} scheduling points; {capped} scenarios cut off at their cap", jobs.len()));
    if verbose {
        println!("footprints {t1:.1} s; {:?}", cx.samples.lock().unwrap());
    }
    cx.note("preemptions are bounded: 2 where accesses conflict, 1 in scenarios with three threads and where all accesses to static memory are scheduling points; memory is sequentially consistent".into());
    let rc = finish::finish(&cx, &opt("--out").unwrap_or_default(), &opt("--replays").unwrap_or("/verif/replays".into()));
    std::process::exit(rc);
}

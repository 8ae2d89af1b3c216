//! What the explorers and the run time of the scheduler (sched/rt.c) share.

pub const TAB: usize = 1 << 16;
pub const MAXP: usize = 1 << 20;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Entry {
    pub g: u64,
    pub r: u8,
    pub w: u8,
    pub a: u8,
    pub pad: [u8; 5],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Point {
    pub enabled: u8,
    pub chosen: u8,
    pub running: u8,
    pub pad: u8,
    /// where in the program
    pub site: u32,
}
#[repr(C)]
pub struct Shared {
    pub all_shared: u32,
    pub nset: u32,
    pub set: [u64; TAB],
    pub ndev: u32,
    pub dev_at: [u32; 64],
    pub dev_to: [u8; 64],
    pub npoints: u32,
    pub status: u32,
    pub naccess: u64,
    pub nwrite: u64,
    pub nent: u32,
    pub full: u32,
    pub tab: [Entry; TAB],
    pub trace: [Point; MAXP],
    pub res: [f64; 64],
    pub flags: [u8; 16],
}
pub fn reset(sh: &mut Shared) {
    sh.npoints = 0;
    sh.status = 0;
    sh.naccess = 0;
    sh.nwrite = 0;
    sh.nent = 0;
    sh.full = 0;
    sh.ndev = 0;
    for e in sh.tab.iter_mut() {
        e.g = 0;
        e.r = 0;
        e.w = 0;
        e.a = 0;
        e.pad = [0; 5];
    }
}

/// was this memory written by one thread and used by another one?
pub fn conflict(e: &Entry) -> bool {
    e.g != 0 && (e.pad[0] != 0 || (e.w != 0 && (e.r | e.w).count_ones() > 1))
}
/// memory whose accesses are scheduling points
pub fn points_at(sh: &mut Shared, set: &std::collections::BTreeSet<u64>) {
    sh.set.fill(0);
    sh.nset = 0;
    for &g in set.iter().take(TAB / 2) {
        let mut h = (g.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 48) as usize;
        while sh.set[h] != 0 {
            h = (h + 1) & (TAB - 1);
        }
        sh.set[h] = g;
        sh.nset += 1;
    }
}

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub schedules: u64,
    pub points: u64,
    pub capped: u64,
    pub undecided: u64,
}

/// Which schedules: those with at most `bound` preemptions, in the order of their number of
/// preemptions, at most `cap` of them. With `delays`, every deviation from the default schedule
/// counts, and those come first which are at places of the program that few others are at.
#[derive(Clone, Copy)]
pub struct Plan {
    pub bound: u32,
    pub cap: u64,
    pub few: u64,
    pub delays: bool,
}

/// Runs the schedules of a plan. `exec` runs one (deviations from the default choices) and says what is
/// wrong with it. With `set`, scheduling points are the accesses to this memory, to which memory
/// in conflict is added as it is found (after `few` schedules without any, the others are
/// equivalent to these); without it, those to all static memory.
pub fn search(
    sh: &mut Shared,
    set: Option<std::collections::BTreeSet<u64>>,
    plan: Plan,
    st: &mut Stats,
    stop: &dyn Fn() -> bool,
    exec: &mut dyn FnMut(&mut Shared, &[(u32, u8)]) -> Option<String>,
) -> Option<String> {
    let Plan { bound, cap, few, delays } = plan;
    sh.all_shared = set.is_none() as u32;
    let dynamic = set.is_some();
    let mut set = set.unwrap_or_default();
    points_at(sh, &set);
    let mut queue: Vec<std::collections::VecDeque<Vec<(u32, u8)>>> = vec![Default::default(); bound as usize + 1];
    queue[0].push_back(vec![]);
    let mut done = 0;
    while let Some(b) = (0..=bound as usize).find(|b| !queue[*b].is_empty()) {
        let dev = queue[b].pop_front().unwrap();
        if done >= cap || stop() {
            st.capped += 1;
            return None;
        }
        done += 1;
        st.schedules += 1;
        reset(sh);
        sh.ndev = dev.len() as u32;
        for (i, d) in dev.iter().enumerate() {
            sh.dev_at[i] = d.0;
            sh.dev_to[i] = d.1;
        }
        let bad = exec(sh, &dev);
        st.points += sh.npoints as u64;
        if bad.is_some() {
            return bad;
        }
        if dynamic {
            // new conflicts between threads: begin again with more scheduling points
            let before = set.len();
            set.extend(sh.tab.iter().filter(|e| conflict(e)).map(|e| e.g));
            if set.len() > before {
                points_at(sh, &set);
                for q in queue.iter_mut() {
                    q.clear();
                }
                queue[0].push_back(vec![]);
                continue;
            }
        }
        if dynamic && set.is_empty() && done >= few {
            // no memory is in conflict: the schedules are equivalent to one another
            return None;
        }
        if dev.len() >= 60 {
            continue;
        }
        let mut next: Vec<(u32, usize, Vec<(u32, u8)>)> = vec![];
        let mut seen: std::collections::HashMap<(u32, u8), u32> = Default::default();
        for i in 0..sh.npoints as usize {
            let p = sh.trace[i];
            let nth = seen.entry((p.site, p.chosen)).or_default();
            *nth += 1;
            if i < dev.last().map_or(0, |d| d.0 as usize + 1) {
                continue;
            }
            for t in 0..8u8 {
                if t == p.chosen || p.enabled >> t & 1 == 0 {
                    continue;
                }
                // leaving a thread that could go on is a preemption
                let cost = delays || (p.running != 255 && p.enabled >> p.running & 1 == 1 && t != p.running);
                let b = b + cost as usize;
                if b <= bound as usize && queue[b].len() + next.len() < 20_000 {
                    let mut d = dev.clone();
                    d.push((i as u32, t));
                    next.push((if delays { *nth } else { 0 }, b, d));
                }
            }
        }
        next.sort_by_key(|x| x.0);
        for (_, b, d) in next {
            queue[b].push_back(d);
        }
    }
    None
}
/// the threads in the order in which they ran
pub fn trace(sh: &Shared) -> String {
    (0..sh.npoints.min(2000) as usize).map(|i| (b'0' + sh.trace[i].chosen) as char).collect()
}

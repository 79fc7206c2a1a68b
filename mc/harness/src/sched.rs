//! Exhaustive, deviation-bounded exploration of schedules.
use actix_rt::mc::{Chooser, Kind, Opt};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

/// A decision taken during an execution.
#[derive(Clone, Debug)]
pub struct Dec {
    pub preempt: bool,
    pub n: u32,
    pub k: u32,
}

/// Replays a prefix of decisions (sparse: position -> option), defaults afterwards.
pub struct PrefixChooser {
    pub devs: Vec<(u32, u32)>,
    pub taken: Vec<Dec>,
    pub allow_preempt: bool,
    pub trace: Option<Vec<String>>,
    /// FNV hash over fired events: identifies the execution
    pub hash: u64,
    pub events: u64,
    pub prefixes: Vec<u64>,
    /// connections that are established on both sides
    pub accepts: u64,
}

impl PrefixChooser {
    pub fn new(devs: Vec<(u32, u32)>, allow_preempt: bool, trace: bool) -> Self {
        Self { devs, taken: vec![], allow_preempt, trace: if trace { Some(vec![]) } else { None }, hash: 0xcbf29ce484222325, events: 0, prefixes: vec![], accepts: 0 }
    }
}

impl Chooser for PrefixChooser {
    fn choose(&mut self, kind: Kind, n: usize, describe: &dyn Fn(usize) -> Opt) -> usize {
        let pos = self.taken.len() as u32;
        let k = match self.devs.iter().find(|d| d.0 == pos) {
            Some(d) => {
                assert!((d.1 as usize) < n, "mc: replay diverged at decision {pos}");
                d.1 as usize
            }
            None => 0,
        };
        self.taken.push(Dec { preempt: kind == Kind::Preempt, n: n as u32, k: k as u32 });
        if k != 0 {
            if let Some(t) = self.trace.as_mut() {
                t.push(format!("  ** decision {pos} ({kind:?}): {:?} instead of {:?}", describe(k), describe(0)));
            }
        }
        k
    }
    fn preempt(&self) -> bool {
        self.allow_preempt
    }
    fn event(&mut self, node: usize, label: &str) {
        self.events += 1;
        self.accepts += (label.starts_with("net ") && label.ends_with(" accept")) as u64;
        for b in label.bytes().chain([node as u8]) {
            self.hash ^= b as u64;
            self.hash = self.hash.wrapping_mul(0x100000001b3);
        }
        self.prefixes.push(self.hash);
        if let Some(t) = self.trace.as_mut() {
            t.push(format!("{node}: {label}"));
        }
    }
}

/// Bounds of one exploration.
#[derive(Clone, Copy, Debug)]
pub struct Bounds {
    /// maximal number of deviations from the default schedule
    pub max_dev: usize,
    /// offer preemption points (external events before local quiescence)
    pub preempt: bool,
    /// cap on executions (hitting it makes the exploration incomplete, reported in evidence)
    pub max_execs: u64,
    /// wall-clock cap in seconds
    pub max_secs: f64,
}

#[derive(Default, Debug, Clone)]
pub struct ExploreStats {
    pub executions: u64,
    pub decisions: u64,
    pub events: u64,
    pub complete: bool,
    pub max_choice_points: usize,
}

pub struct Exec {
    pub taken: Vec<Dec>,
    pub events: u64,
    /// None = property holds on this execution, Some = description of violation
    pub violation: Option<String>,
}

/// Explores every schedule with at most `max_dev` deviations. `run` executes one schedule
/// on the real code. Stops at the first violation (the one with the fewest deviations
/// within a level) and returns it.
pub fn explore(
    bounds: Bounds,
    workers: usize,
    run: &(dyn Fn(&[(u32, u32)], bool) -> Exec + Sync),
) -> (ExploreStats, Option<(Vec<(u32, u32)>, String)>) {
    let start = std::time::Instant::now();
    let stats = Mutex::new(ExploreStats { complete: true, ..Default::default() });
    let mut level: Vec<Vec<(u32, u32)>> = vec![vec![]];
    let found: Mutex<Option<(Vec<(u32, u32)>, String)>> = Mutex::new(None);
    for depth in 0..=bounds.max_dev {
        let next: Mutex<Vec<Vec<(u32, u32)>>> = Mutex::new(vec![]);
        let idx = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let lvl = &level;
        std::thread::scope(|s| {
            for _ in 0..workers.min(lvl.len()).max(1) {
                s.spawn(|| loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let i = idx.fetch_add(1, Ordering::Relaxed) as usize;
                    if i >= lvl.len() {
                        break;
                    }
                    {
                        let mut st = stats.lock().unwrap();
                        if st.executions >= bounds.max_execs || start.elapsed().as_secs_f64() > bounds.max_secs {
                            st.complete = false;
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                        st.executions += 1;
                    }
                    let prefix = &lvl[i];
                    let ex = run(prefix, bounds.preempt);
                    {
                        let mut st = stats.lock().unwrap();
                        st.decisions += ex.taken.len() as u64;
                        st.events += ex.events;
                        st.max_choice_points = st.max_choice_points.max(ex.taken.len());
                    }
                    if let Some(v) = ex.violation {
                        let mut f = found.lock().unwrap();
                        let better = match &*f {
                            None => true,
                            Some((p, _)) => prefix < p,
                        };
                        if better {
                            *f = Some((prefix.clone(), v));
                        }
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                    if depth < bounds.max_dev {
                        let from = prefix.last().map(|d| d.0 as usize + 1).unwrap_or(0);
                        let mut out = vec![];
                        for (pos, d) in ex.taken.iter().enumerate().skip(from) {
                            for k in 1..d.n {
                                let mut p = prefix.clone();
                                p.push((pos as u32, k));
                                out.push(p);
                            }
                        }
                        next.lock().unwrap().append(&mut out);
                    }
                });
            }
        });
        if found.lock().unwrap().is_some() || !stats.lock().unwrap().complete {
            break;
        }
        level = next.into_inner().unwrap();
        level.sort();
        if level.is_empty() {
            break;
        }
    }
    (stats.into_inner().unwrap(), found.into_inner().unwrap())
}


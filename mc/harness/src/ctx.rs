//! What a check runs in: enumerates cases, explores their schedules, collects the evidence.
use crate::cfg::workers;
use crate::sched::{explore, Bounds, Dec, Exec};
use crate::sim::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type Judge = Box<dyn Fn(&Outcome) -> Option<String> + Send + Sync>;
pub type Runner = Box<dyn Fn(&[(u32, u32)], bool, bool) -> Outcome + Send + Sync>;

/// One case: an execution (parametrised by its schedule) and what it is judged by.
pub struct Case {
    pub name: String,
    pub run: Runner,
    pub judge: Judge,
    pub bounds: Bounds,
}

impl Case {
    pub fn new(name: impl Into<String>, job: Job, bounds: Bounds, judge: impl Fn(&Outcome) -> Option<String> + Send + Sync + 'static) -> Self {
        Case { name: name.into(), run: Box::new(move |d, p, t| execute(&job, d, p, t)), judge: Box::new(judge), bounds }
    }
    pub fn with(name: impl Into<String>, bounds: Bounds, run: impl Fn(&[(u32, u32)], bool, bool) -> Outcome + Send + Sync + 'static, judge: impl Fn(&Outcome) -> Option<String> + Send + Sync + 'static) -> Self {
        Case { name: name.into(), run: Box::new(run), judge: Box::new(judge), bounds }
    }
}

pub fn one() -> Bounds {
    Bounds { max_dev: 0, preempt: false, max_execs: 1, max_secs: 1e9 }
}

pub fn devs(n: usize, preempt: bool) -> Bounds {
    Bounds { max_dev: n, preempt, max_execs: u64::MAX, max_secs: 1e9 }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: String,
    pub devs: Vec<(u32, u32)>,
    pub preempt: bool,
    pub message: String,
}

#[derive(Default)]
pub struct Group {
    pub cases: u64,
    pub executions: u64,
    pub transitions: u64,
    pub decisions: u64,
    pub max_choice_points: u64,
    pub incomplete: u64,
    pub bound: String,
    pub outcomes: HashSet<u64>,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    /// seconds after which no new work is started
    pub budget: f64,
    pub violation: Option<Violation>,
    pub groups: BTreeMap<String, Group>,
    pub states: Mutex<HashSet<u64>>,
    pub samples: Vec<serde_json::Value>,
    pub skipped: BTreeMap<String, u64>,
    pub evaluations: u64,
    pub replay: Option<(String, Vec<(u32, u32)>, bool)>,
    pub replayed: Option<(Outcome, Option<String>)>,
    pub notes: Vec<String>,
}

struct Flight {
    since: Instant,
    case: String,
    devs: Vec<(u32, u32)>,
    preempt: bool,
}
static FLIGHTS: Mutex<Vec<Option<Flight>>> = Mutex::new(vec![]);
static NEXT_FLIGHT: AtomicUsize = AtomicUsize::new(0);

/// An execution that does not come back (an endless loop inside a handler) is a violation of its own.
pub fn watchdog(id: String, limit: f64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let f = FLIGHTS.lock().unwrap();
        for x in f.iter().flatten() {
            if x.since.elapsed().as_secs_f64() > limit {
                let v = Violation { case: x.case.clone(), devs: x.devs.clone(), preempt: x.preempt, message: format!("the execution does not come back within {limit} s") };
                report_violation(&id, &v, &[]);
                cleanup();
                unsafe { libc::_exit(1) }
            }
        }
    });
}

struct Guard(usize);
impl Drop for Guard {
    fn drop(&mut self) {
        FLIGHTS.lock().unwrap()[self.0] = None;
    }
}
fn fly(case: &str, devs: &[(u32, u32)], preempt: bool) -> Guard {
    let mut f = FLIGHTS.lock().unwrap();
    let x = Some(Flight { since: Instant::now(), case: case.into(), devs: devs.to_vec(), preempt });
    let i = match f.iter().position(|s| s.is_none()) {
        Some(i) => {
            f[i] = x;
            i
        }
        None => {
            f.push(x);
            f.len() - 1
        }
    };
    let _ = NEXT_FLIGHT.fetch_add(1, Ordering::Relaxed);
    Guard(i)
}

pub fn cleanup() {
    let _ = std::fs::remove_dir_all(scratch_root());
}

pub fn out(line: &str) {
    // fd 1 is /dev/null while the code under test prints its progress
    let fd = STDOUT.load(Ordering::Relaxed) as i32;
    let s = format!("{line}\n");
    unsafe { libc::write(fd, s.as_ptr() as *const libc::c_void, s.len()) };
}
static STDOUT: AtomicU64 = AtomicU64::new(1);
pub fn silence_stdout() {
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        libc::dup2(null, 1);
        STDOUT.store(keep as u64, Ordering::Relaxed);
    }
}

pub fn verif_root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

pub fn report_violation(id: &str, v: &Violation, trace: &[String]) {
    let dir = verif_root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}.json"));
    let j = serde_json::json!({
        "property": id, "case": v.case, "schedule": v.devs, "preempt": v.preempt, "message": v.message, "trace": trace,
        "how": format!("mc/run.sh replay {}", path.display()),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    out(&format!("case: {}", v.case));
    out(&format!("schedule (decision, option): {:?} preempt={}", v.devs, v.preempt));
    out(&format!("what: {}", v.message));
    out(&format!("VIOLATION property={id} replay={}", path.display()));
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64, budget: f64) -> Self {
        Ctx {
            id: id.into(),
            thorough,
            seed,
            start: Instant::now(),
            budget,
            violation: None,
            groups: BTreeMap::new(),
            states: Mutex::new(HashSet::new()),
            samples: vec![],
            skipped: BTreeMap::new(),
            evaluations: 0,
            replay: None,
            replayed: None,
            notes: vec![],
        }
    }
    pub fn left(&self) -> f64 {
        (self.budget - self.start.elapsed().as_secs_f64()).max(0.0)
    }
    pub fn skip(&mut self, why: &str) {
        *self.skipped.entry(why.into()).or_default() += 1;
    }
    pub fn failed(&self) -> bool {
        self.violation.is_some() || self.replayed.is_some()
    }
    /// quick or thorough value
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Cases are explored in parallel, the schedules of one case in sequence.
    pub fn par(&mut self, group: &str, cases: Vec<Case>) {
        self.run(group, cases, true, 1.0)
    }
    /// One case after the other, its schedules in parallel; `share` of the remaining time.
    pub fn deep(&mut self, group: &str, cases: Vec<Case>, share: f64) {
        self.run(group, cases, false, share)
    }

    fn run(&mut self, group: &str, cases: Vec<Case>, par: bool, share: f64) {
        if self.failed() {
            return;
        }
        if let Some((name, devs, preempt)) = &self.replay {
            for c in &cases {
                if c.name == *name {
                    let o = (c.run)(devs, *preempt, true);
                    let v = judged(c, &o);
                    self.replayed = Some((o, v));
                    return;
                }
            }
            return;
        }
        let until = self.start.elapsed().as_secs_f64() + self.left() * share;
        let start = self.start;
        let states = &self.states;
        let outcomes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let g = Mutex::new(Group::default());
        let found: Mutex<Option<Violation>> = Mutex::new(None);
        let n_cases = cases.len();
        let work = |c: &Case, w: usize, until: f64| {
            let left = until - start.elapsed().as_secs_f64();
            if left <= 0.0 {
                g.lock().unwrap().incomplete += 1;
                return;
            }
            let b = Bounds { max_secs: left, ..c.bounds };
            let salt = fnv(&c.name);
            let (st, v) = explore(b, w, &|d, p| {
                let _f = fly(&c.name, d, p);
                let o = (c.run)(d, p, false);
                let violation = judged(c, &o);
                {
                    let mut s = states.lock().unwrap();
                    if s.len() < 40_000_000 {
                        s.extend(o.prefixes.iter().map(|x| x ^ salt));
                    }
                }
                outcomes.lock().unwrap().insert(outcome_hash(&o));
                let (taken, events) = (o.taken, o.events + o.polls);
                Exec { taken, events, violation }
            });
            let mut g = g.lock().unwrap();
            g.cases += 1;
            g.executions += st.executions;
            g.transitions += st.events;
            g.decisions += st.decisions;
            g.max_choice_points = g.max_choice_points.max(st.max_choice_points as u64);
            g.incomplete += !st.complete as u64;
            g.bound = format!("at most {} deviations{}", b.max_dev, if b.preempt { ", preemption points included" } else { "" });
            if let Some((devs, message)) = v {
                let mut f = found.lock().unwrap();
                if f.is_none() {
                    *f = Some(Violation { case: c.name.clone(), devs, preempt: b.preempt, message });
                }
            }
        };
        if par {
            let next = AtomicUsize::new(0);
            std::thread::scope(|s| {
                for _ in 0..workers() {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n_cases || found.lock().unwrap().is_some() {
                            break;
                        }
                        work(&cases[i], 1, until);
                    });
                }
            });
        } else {
            for (i, c) in cases.iter().enumerate() {
                if found.lock().unwrap().is_some() {
                    break;
                }
                // fair share of the time for every remaining case
                let now = start.elapsed().as_secs_f64();
                let u = now + (until - now).max(0.0) / (n_cases - i) as f64;
                work(c, workers(), u);
            }
        }
        for c in cases.iter().take(2) {
            self.samples.push(serde_json::json!({"group": group, "case": c.name}));
        }
        let mut g = g.into_inner().unwrap();
        g.outcomes = outcomes.into_inner().unwrap();
        self.evaluations += g.executions;
        let e = self.groups.entry(group.into()).or_default();
        e.cases += g.cases;
        e.executions += g.executions;
        e.transitions += g.transitions;
        e.decisions += g.decisions;
        e.max_choice_points = e.max_choice_points.max(g.max_choice_points);
        e.incomplete += g.incomplete;
        e.bound = g.bound;
        e.outcomes.extend(g.outcomes);
        if let Some(v) = found.into_inner().unwrap() {
            // the same schedule must fail every time
            let c = cases.iter().find(|c| c.name == v.case).unwrap();
            let o1 = (c.run)(&v.devs, v.preempt, true);
            let o2 = (c.run)(&v.devs, v.preempt, false);
            let mut v = v;
            if judged(c, &o1).is_none() || judged(c, &o2).is_none() {
                // Every source of nondeterminism is controlled, so this can only be state that outlives
                // a call (another run of this process interfered). It has to show up a second time.
                let again = (0..3).any(|_| {
                    let idx: Vec<usize> = (0..cases.len()).collect();
                    crate::cfg::par_map(&idx, |i| judged(&cases[*i], &(cases[*i].run)(&[], cases[*i].bounds.preempt, false)).is_some()).into_iter().any(|x| x)
                });
                if !again {
                    eprintln!("ERROR: the violation of case '{}' {:?} does not reproduce: {}", v.case, v.devs, v.message);
                    cleanup();
                    std::process::exit(2);
                }
                v.message += " [only next to or after other calls in the same process]";
            }
            report_violation(&self.id, &v, &o1.trace);
            self.violation = Some(v);
        }
    }

    pub fn evidence(&self) -> serde_json::Value {
        let mut groups = serde_json::Map::new();
        let (mut ex, mut tr, mut inc) = (0, 0, 0);
        for (k, g) in &self.groups {
            ex += g.executions;
            tr += g.transitions;
            inc += g.incomplete;
            groups.insert(
                k.clone(),
                serde_json::json!({"cases": g.cases, "executions": g.executions, "decisions": g.decisions, "max_choice_points_per_execution": g.max_choice_points,
                    "bound": g.bound, "cases_cut_by_time": g.incomplete, "distinct_outcomes": g.outcomes.len()}),
            );
        }
        serde_json::json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states.lock().unwrap().len(),
                "transitions": tr,
                "traces_validated_against_impl": ex,
                "exhaustive": inc == 0,
                "explanation": "states: distinct event histories (prefixes) of the scheduler; transitions: external events and task steps executed; every trace is an execution of the real code under the controlled scheduler",
                "groups": groups,
                "skipped_inputs": self.skipped,
                "samples": self.samples.iter().take(12).collect::<Vec<_>>(),
                "notes": self.notes,
            },
            "assumptions": ASSUMPTIONS,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violation.is_some() as u32,
        })
    }
}

pub const ASSUMPTIONS: &[&str] = &[
    "network links are reliable and FIFO per direction (TCP); one-to-one with actix-telepathy's framing and serialisation",
    "actor handlers are atomic with respect to their own mailbox (actix); helper threads share no state but messages",
    "inputs for which the correct result hinges on rounding (margin of the reference model below the threshold) are left out",
];

fn judged(c: &Case, o: &Outcome) -> Option<String> {
    if let End::Abort(actix_rt::mc::Abort::Panic { message, .. }) = &o.end {
        if message.starts_with("mc: ") {
            eprintln!("ERROR: {message} in case '{}'", c.name);
            cleanup();
            unsafe { libc::_exit(2) }
        }
    }
    (c.judge)(o)
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn outcome_hash(o: &Outcome) -> u64 {
    let s = match o.all_scores() {
        Some(s) => s.iter().map(|x| format!("{x:.4},")).collect::<String>(),
        None => "none".into(),
    };
    fnv(&format!("{:?}{s}", o.stopped))
}

pub fn write_evidence(ctx: &Ctx) {
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut f = std::fs::File::create(dir.join(format!("{}.json", ctx.id))).expect("evidence file");
    f.write_all(serde_json::to_string_pretty(&ctx.evidence()).unwrap().as_bytes()).unwrap();
}

#[allow(dead_code)]
pub fn describe(d: &[Dec]) -> String {
    d.iter().map(|x| format!("{}/{}{}", x.k, x.n, if x.preempt { "p" } else { "" })).collect::<Vec<_>>().join(" ")
}

//! Runs the real S2G++ (library entry points only) under the controlled scheduler.
use crate::sched::{Dec, PrefixChooser};
use actix_rt::mc::{self, Abort};
use actix_telepathy::sim::{Frame, Net};
use ndarray::{Array1, Array2};
use s2gpp::{s2gpp, s2gpp_async, Parameters, Role};
use std::cell::{Cell, RefCell};
use std::net::SocketAddr;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! { static SEED: Cell<u64> = const { Cell::new(0x5eed) }; }

/// std seeds its hash maps from here: deterministic per execution.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let mut x = SEED.try_with(|s| s.get()).unwrap_or(1);
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for b in out {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *b = (x >> 33) as u8;
    }
    len as libc::ssize_t
}

pub fn scratch_root() -> PathBuf {
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { std::env::temp_dir() };
    base.join(format!("s2gpp-mc-{}", std::process::id()))
}

static DIRS: AtomicU64 = AtomicU64::new(0);

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let p = scratch_root().join(format!("{}", DIRS.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
    pub fn path(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    Abort(Abort),
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    /// in-memory result (library mode)
    pub scores: Option<Vec<f32>>,
    /// raw score file
    pub score_file: Option<String>,
    /// raw contribution file
    pub contrib_file: Option<String>,
    /// score files of the sub nodes (if they were asked for)
    pub sub_files: Vec<Option<String>>,
    /// a node died after all members were connected with each other
    pub formed: bool,
    pub frames: Vec<Frame>,
    /// per node: stopped?
    pub stopped: Vec<bool>,
    pub taken: Vec<Dec>,
    pub trace: Vec<String>,
    pub hash: u64,
    pub prefixes: Vec<u64>,
    pub events: u64,
    pub polls: u64,
}

impl Outcome {
    /// scores from the file (distributed mode) or memory
    pub fn all_scores(&self) -> Option<Vec<f32>> {
        if let Some(s) = &self.scores {
            return Some(s.clone());
        }
        self.score_file.as_ref().map(|f| parse_scores(f))
    }
}

impl Outcome {
    pub fn empty() -> Self {
        Outcome { end: End::Done, scores: None, score_file: None, contrib_file: None, sub_files: vec![], formed: false, frames: vec![], stopped: vec![], taken: vec![], trace: vec![], hash: 0, prefixes: vec![], events: 0, polls: 0 }
    }
}

pub const WAITS: i32 = 77;

/// Wraps a closure: runs it in a world of its own with the default schedule; 0 if it came back.
pub fn default_world(f: impl FnOnce() + Send + 'static) -> impl FnOnce() -> i32 + Send + 'static {
    move || {
        SEED.with(|s| s.set(1));
        let chooser = Rc::new(RefCell::new(PrefixChooser::new(vec![], false, false)));
        mc::install(chooser, 4_000_000);
        let r = catch_unwind(AssertUnwindSafe(f));
        match r {
            Ok(()) => 0,
            // still waiting: accepted, not refused
            Err(p) if matches!(p.downcast_ref::<Abort>(), Some(Abort::Deadlock)) => WAITS,
            Err(_) => 101,
        }
    }
}

pub fn parse_scores(f: &str) -> Vec<f32> {
    f.lines().map(|l| l.trim().parse::<f32>().unwrap_or(f32::NAN)).collect()
}

#[derive(Clone)]
pub enum Input {
    /// `s2gpp(params, Some(data))`
    Memory(Array2<f32>),
    /// `s2gpp(params, None)` with a CSV file (text given)
    File(String),
    /// cluster of `n` nodes, the main node reads the CSV text
    Cluster(String, usize),
}

#[derive(Clone)]
pub struct Job {
    pub params: Parameters,
    pub input: Input,
    /// per node overrides of n_threads
    pub seed: u64,
    pub record: bool,
    /// order in which cluster nodes are started (indices), main = 0
    pub start_order: Vec<usize>,
    pub want_contrib: bool,
    pub want_score_file: bool,
    /// kill node .1 after .0 events
    pub crash: Option<(u64, usize)>,
    /// content of the score file before the run
    pub old_score_file: Option<String>,
    /// sub nodes are given an output path of their own
    pub sub_files: bool,
    /// number of threads per cluster node, if they differ
    pub node_threads: Vec<usize>,
    /// addresses of the cluster nodes, if not ascending ports
    pub hosts: Vec<SocketAddr>,
    /// complete parameters per cluster node (paths are replaced by scratch files)
    pub node_params: Vec<Parameters>,
}

impl Job {
    pub fn new(params: Parameters, input: Input) -> Self {
        Job { params, input, seed: 1, record: false, start_order: vec![], want_contrib: false, want_score_file: false, crash: None, old_score_file: None, sub_files: false, node_threads: vec![], hosts: vec![], node_params: vec![] }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if mc::in_mc() {
            mc::note_panic(format!("{msg} @ {loc}"));
        } else {
            eprintln!("[mc] panic: {msg} @ {loc}");
        }
    }));
}

pub fn host(i: usize) -> SocketAddr {
    format!("127.0.0.1:{}", 1000 + i).parse().unwrap()
}

fn node_params(job: &Job, base: &Parameters, i: usize, n: usize, data_path: &str, score_path: Option<String>) -> Parameters {
    if let Some(p) = job.node_params.get(i) {
        let mut p = p.clone();
        if let Role::Main { data_path: Some(d) } = &mut p.role {
            *d = data_path.to_string();
        }
        if p.score_output_path.is_some() {
            p.score_output_path = if i == 0 { score_path } else { None };
        }
        return p;
    }
    let host = |i: usize| job.hosts.get(i).cloned().unwrap_or_else(|| host(i));
    let mut p = base.clone();
    p.local_host = host(i);
    p.n_cluster_nodes = n;
    if i == 0 {
        p.role = Role::Main { data_path: Some(data_path.to_string()) };
        p.score_output_path = score_path;
    } else {
        p.role = Role::Sub { mainhost: host(0) };
        p.score_output_path = None;
    }
    p
}

/// Executes one schedule in a fresh OS thread.
pub fn execute(job: &Job, devs: &[(u32, u32)], preempt: bool, trace: bool) -> Outcome {
    let job = job.clone();
    let devs = devs.to_vec();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            SEED.with(|s| s.set(job.seed));
            execute_here(&job, devs, preempt, trace)
        })
        .unwrap()
        .join()
        .expect("harness thread panicked")
}

/// Executes several jobs (in-memory or from files) one after the other in one process, thread and
/// world, as a program that calls the library repeatedly; returns the last one's outcome.
pub fn execute_history(jobs: &[Job], devs: &[(u32, u32)], preempt: bool, trace: bool) -> Outcome {
    let jobs = jobs.to_vec();
    let devs = devs.to_vec();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            SEED.with(|s| s.set(jobs[0].seed));
            let n = jobs.len();
            let chooser = Rc::new(RefCell::new(PrefixChooser::new(devs, preempt, trace)));
            mc::install(chooser.clone(), 4_000_000);
            let mut last = None;
            for (i, j) in jobs.iter().enumerate() {
                let o = run_job(j, &chooser);
                let bad = o.end != End::Done;
                last = Some(o);
                if bad && i + 1 < n {
                    // a world that was aborted cannot go on
                    break;
                }
            }
            finish(last.unwrap(), &chooser)
        })
        .unwrap()
        .join()
        .expect("harness thread panicked")
}

fn execute_here(job: &Job, devs: Vec<(u32, u32)>, preempt: bool, trace: bool) -> Outcome {
    let chooser = Rc::new(RefCell::new(PrefixChooser::new(devs, preempt, trace)));
    mc::install(chooser.clone(), 2_000_000);
    let o = run_job(job, &chooser);
    finish(o, &chooser)
}

fn run_job(job: &Job, chooser: &Rc<RefCell<PrefixChooser>>) -> Outcome {
    mc::resource::<Net>().borrow_mut().record = job.record;
    let scratch = Scratch::new();
    let score_path = scratch.path("scores.csv");
    let contrib_path = scratch.path("contrib.csv");
    let mut params = job.params.clone();
    if job.want_contrib || params.explainability {
        params.anomaly_contribution_output_path = contrib_path.clone();
    }
    if let Some(t) = &job.old_score_file {
        std::fs::write(&score_path, t).unwrap();
    }
    let mut scores = None;
    let mut stopped = vec![];
    let mut formed = false;
    let res = catch_unwind(AssertUnwindSafe(|| match &job.input {
        Input::Memory(data) => {
            if job.want_score_file {
                params.score_output_path = Some(score_path.clone());
            }
            let r = s2gpp(params.clone(), Some(data.clone())).expect("s2gpp failed");
            scores = r.map(|a: Array1<f32>| a.to_vec());
        }
        Input::File(text) => {
            let data_path = scratch.path("data.csv");
            std::fs::write(&data_path, text).unwrap();
            params.role = Role::Main { data_path: Some(data_path) };
            params.score_output_path = Some(score_path.clone());
            s2gpp(params.clone(), None).expect("s2gpp failed");
        }
        Input::Cluster(text, n) => {
            let data_path = scratch.path("data.csv");
            std::fs::write(&data_path, text).unwrap();
            let order: Vec<usize> = if job.start_order.is_empty() { (0..*n).collect() } else { job.start_order.clone() };
            // systems exist up front so that node ids equal host indices
            let mut runners: Vec<_> = (0..*n).map(|_| Some(actix_rt::System::new())).collect();
            for &i in &order {
                let mut p = node_params(job, &params, i, *n, &data_path, Some(score_path.clone()));
                if let Some(t) = job.node_threads.get(i) {
                    p.n_threads = *t;
                }
                if i > 0 && job.sub_files {
                    p.score_output_path = Some(scratch.path(&format!("scores-{i}.csv")));
                }
                runners[i].as_ref().unwrap().block_on(s2gpp_async(p)).expect("start failed");
            }
            let mut crashed = false;
            let mut done: Vec<bool> = vec![false; *n];
            mc::run_to_quiescence(|| {
                if let Some((k, x)) = job.crash {
                    if !crashed && chooser.borrow().events >= k {
                        crashed = true;
                        formed = chooser.borrow().accepts as usize >= n * (n - 1) / 2;
                        mc::kill_system(x);
                        if let Some(r) = runners[x].take() {
                            std::mem::forget(r);
                            done[x] = true;
                        }
                    }
                }
                for (i, r) in runners.iter_mut().enumerate() {
                    if r.is_some() && mc::exit_code(i).is_some() {
                        *r = None; // leaves `System::run`, runtime is dropped
                        done[i] = true;
                    }
                }
            });
            stopped = runners.iter().map(|r| r.is_none()).collect();
            std::mem::forget(runners);
            if !stopped[0] && job.crash.is_none() {
                std::panic::resume_unwind(Box::new(Abort::Deadlock));
            }
        }
    }));
    let end = match res {
        Ok(()) => End::Done,
        Err(p) => match p.downcast::<Abort>() {
            Ok(a) => End::Abort(*a),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
                End::Abort(Abort::Panic { node: 0, message: m })
            }
        },
    };
    let frames = std::mem::take(&mut mc::resource::<Net>().borrow_mut().frames);
    let score_file = std::fs::read_to_string(&score_path).ok();
    let contrib_file = std::fs::read_to_string(&contrib_path).ok();
    let sub_files = match &job.input {
        Input::Cluster(_, n) if job.sub_files => (1..*n).map(|i| std::fs::read_to_string(scratch.path(&format!("scores-{i}.csv"))).ok()).collect(),
        _ => vec![],
    };
    Outcome {
        end,
        scores,
        score_file,
        contrib_file,
        sub_files,
        formed,
        frames,
        stopped,
        taken: vec![],
        trace: vec![],
        hash: 0,
        prefixes: vec![],
        events: 0,
        polls: 0,
    }
}

fn finish(mut o: Outcome, chooser: &Rc<RefCell<PrefixChooser>>) -> Outcome {
    let st = mc::uninstall();
    let _ = catch_unwind(AssertUnwindSafe(|| {
        actix::registry::mc_clear_registries();
        actix_telepathy::mc_clear_custom_registry();
    }));
    let mut ch = chooser.borrow_mut();
    o.taken = std::mem::take(&mut ch.taken);
    o.trace = ch.trace.take().unwrap_or_default();
    o.hash = ch.hash;
    o.prefixes = std::mem::take(&mut ch.prefixes);
    o.events = st.events;
    o.polls = st.polls;
    o
}

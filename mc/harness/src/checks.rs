//! One function per property.
use crate::cfg::*;
use crate::checks2::*;
use crate::ctx::*;
use crate::oracle::Reference;
use crate::sim::*;
use std::sync::Arc;

pub const TOL: f64 = 5e-4;

pub fn short(o: &Outcome) -> String {
    match &o.end {
        End::Done => "done".into(),
        End::Abort(a) => format!("{a:?}").chars().take(300).collect(),
    }
}

/// completed and delivered exactly these scores
pub fn scores_match(o: &Outcome, want: &[f64]) -> Option<String> {
    if o.end != End::Done {
        return Some(format!("the run does not complete: {}", short(o)));
    }
    if let Some(i) = o.stopped.iter().position(|s| !*s) {
        return Some(format!("cluster node {i} never stops"));
    }
    let got = match o.all_scores() {
        Some(s) => s,
        None => return Some("no scores".into()),
    };
    same(&got, want)
}

pub fn same(got: &[f32], want: &[f64]) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} scores instead of {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let d = (*g as f64 - w).abs();
        if d.is_nan() || d > TOL {
            return Some(format!("score {i} is {g} instead of {w}"));
        }
    }
    None
}

pub fn by_ref(r: Arc<Reference>) -> impl Fn(&Outcome) -> Option<String> + Send + Sync {
    move |o| scores_match(o, &r.scores)
}


pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Ctx),
}

pub const CHECKS: &[Check] = &[
    Check { id: "P01", run: p01_definition },
    Check { id: "P02", run: p02_threads },
    Check { id: "P03", run: p03_cluster_equals_local },
    Check { id: "P04", run: p04_cluster_schedules },
    Check { id: "P05", run: p05_formation },
    Check { id: "P06", run: p06_partitioning },
    Check { id: "P07", run: p07_input_file },
    Check { id: "P08", run: p08_score_file },
    Check { id: "P09", run: p09_self_correction },
    Check { id: "P10", run: p10_extremes },
    Check { id: "P11", run: p11_borders },
    Check { id: "P12", run: p12_form },
    Check { id: "P13", run: p13_repeatability },
    Check { id: "P14", run: p14_explainability },
    Check { id: "P15", run: p15_histories },
    Check { id: "P16", run: p16_crashes },
    Check { id: "P17", run: p17_command_line },
    Check { id: "P18", run: p18_layouts },
];

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

/// (rows, pattern length, latent, query length)
const SIZES: &[(usize, usize, usize, usize)] = &[(70, 8, 3, 8), (60, 6, 2, 6), (90, 9, 4, 12), (101, 12, 4, 12), (120, 10, 6, 11), (80, 8, 5, 20), (140, 20, 8, 20), (150, 16, 10, 25), (75, 7, 1, 9)];
const RATES: &[usize] = &[4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 20, 25, 33, 50];

/// For every configuration the first `n` inputs whose correct result is well-conditioned.
pub fn stable(c: &mut Ctx, grid: Vec<Cfg>, n: usize, tries: u64, pred: impl Fn(&Reference) -> bool + Sync) -> Vec<(Cfg, Arc<Reference>)> {
    let picked = par_map(&grid, |g| g.pick(n, tries, &pred));
    let mut out = vec![];
    for p in picked {
        if p.len() < n {
            c.skip("configuration without enough well-conditioned inputs among the tried variants");
        }
        out.extend(p);
    }
    out
}

/// Much of everything: rows, channels, segments, long patterns and queries.
pub fn large(nodes: usize) -> Vec<Cfg> {
    let mut v = vec![];
    for sc in [false, true] {
        for (rows, cols, pl, latent, rate, ql) in [
            (300usize, 1usize, 10usize, 4usize, 8usize, 12usize),
            (500, 2, 20, 8, 10, 25),
            (640, 3, 12, 4, 7, 40),
            (1030, 1, 20, 8, 6, 25),
            (1200, 2, 15, 5, 6, 100),
            (2100, 1, 20, 8, 6, 25),
            (4200, 1, 20, 8, 5, 25),
            (120, 5, 10, 4, 8, 12),
            (130, 6, 10, 4, 9, 12),
            (130, 7, 12, 4, 7, 12),
            (150, 8, 10, 4, 8, 12),
            (150, 9, 10, 3, 6, 14),
            (160, 10, 12, 5, 8, 13),
            (200, 12, 12, 5, 7, 13),
            (180, 16, 12, 5, 6, 13),
            (150, 1, 20, 8, 51, 25),
            (150, 2, 20, 8, 64, 25),
            (150, 1, 20, 8, 100, 25),
            (150, 2, 20, 8, 100, 25),
            (130, 1, 20, 8, 130, 25),
            (110, 1, 20, 8, 200, 25),
            (110, 1, 20, 8, 256, 25),
            (110, 1, 20, 8, 360, 25),
            (400, 1, 60, 20, 9, 75),
            (300, 2, 50, 16, 9, 120),
            (350, 1, 100, 33, 8, 150),
        ] {
            // (well-conditioned cluster inputs with many segments are short)
            let (rows, pl, latent, ql) = if nodes > 1 && rate > 50 { (0, 8, 3, 9) } else { (rows, pl, latent, ql) };
            let rows = if nodes > 1 { rows.max(nodes * (pl + ql + 10)) + nodes - 1 } else { rows };
            v.push(Cfg::new(rows, cols, pl, latent, rate.max(nodes), ql).shape(16).sc(sc).nodes(nodes));
        }
        // long patterns, the command line's defaults among them
        for (rows, cols, pl, latent, rate, ql) in [
            (400usize, 1usize, 50usize, 16usize, 100usize, 75usize),
            (400, 2, 50, 16, 20, 75),
            (420, 3, 50, 16, 20, 75),
            (400, 1, 40, 13, 50, 45),
            (450, 2, 60, 20, 12, 75),
            (500, 1, 70, 23, 9, 80),
            (650, 1, 100, 33, 9, 105),
            (830, 1, 130, 32, 6, 140),
        ] {
            let rate = if nodes > 1 { rate.min(50) } else { rate };
            let rows = if nodes > 1 { rows.max(nodes * (pl + ql + 10)) + nodes - 1 } else { rows };
            v.push(Cfg::new(rows, cols, pl, latent, rate.max(nodes), ql).shape(27).sc(sc).nodes(nodes));
        }
    }
    v
}

pub fn ref_cases(v: Vec<(Cfg, Arc<Reference>)>, b: crate::sched::Bounds) -> Vec<Case> {
    v.into_iter().map(|(g, r)| Case::new(g.key(), g.job(), b, by_ref(r))).collect()
}

// ---- P01 ---------------------------------------------------------------------------

fn p01_definition(c: &mut Ctx) {
    let mut grid = vec![];
    for shape in (0..12).chain(17..23) {
        for cols in 1..=4 {
            for &(rows, pl, latent, ql) in SIZES {
                for &rate in RATES {
                    for sc in [false, true] {
                        grid.push(Cfg::new(rows, cols, pl, latent, rate, ql).shape(shape).sc(sc));
                    }
                }
            }
        }
    }
    let n = c.q(1, 6);
    let v = stable(c, grid, n, c.q(12, 60), |_| true);
    c.par("families of series x parameters", ref_cases(v, one()));
    let v = stable(c, large(0), c.q(2, 20), c.q(300, 4000), |_| true);
    c.par("large inputs", ref_cases(v, one()));
    // every word of six motifs over three letters
    let words: Vec<Cfg> = (0..729u64).flat_map(|w| [(1usize, true, 8usize), (2, true, 7), (2, false, 8)].into_iter().map(move |(cols, sc, rate)| Cfg::new(64, cols, 8, 3, rate, 8).shape(6).sc(sc).variant(w))).collect();
    let v = stable(c, words, 1, 1, |_| true);
    c.par("all words of motifs", ref_cases(v, one()));
}

// ---- P02 ---------------------------------------------------------------------------

fn p02_threads(c: &mut Ctx) {
    let mut grid = vec![];
    for threads in 2..=c.q(12, 24) {
        for nodes in [0, 1] {
            for shape in [0, 2, 4, 6] {
                for cols in 1..=3 {
                    for &(rows, pl, latent, ql) in &SIZES[..c.q(4, 9)] {
                        for rate in [5, 8, 13] {
                            grid.push(Cfg::new(rows, cols, pl, latent, rate, ql).shape(shape).sc(true).threads(threads).nodes(nodes));
                        }
                    }
                }
            }
        }
    }
    // few scores and points for many threads
    for threads in 2..=16 {
        for extra in 1..16 {
            for cols in 1..=2 {
                grid.push(Cfg::new(16 + extra, cols, 8, 3, 6, 9).sc(true).threads(threads));
            }
        }
    }
    let v = stable(c, grid, 1, 12, |_| true);
    c.par("thread counts x inputs, default schedule", ref_cases(v, one()));
    let grid: Vec<Cfg> = large(0).into_iter().flat_map(|g| [2usize, 3, 5, 8, 17, 40].map(|t| g.clone().threads(t))).collect();
    let v = stable(c, grid, 1, c.q(100, 1000), |_| true);
    c.par("large inputs x thread counts, default schedule", ref_cases(v, one()));
    // cluster nodes with different numbers of threads
    let grid: Vec<Cfg> = (2..=c.q(3, 4)).flat_map(|n| (1..=2).flat_map(move |cols| [7usize, 9].map(|rate| Cfg::new(27 * n + 2, cols, 8, 3, rate, 9).sc(true).nodes(n)))).collect();
    let v = stable(c, grid, 1, 300, |_| true);
    let mut cases = vec![];
    for (g, r) in v {
        let k = c.q(4usize, 5);
        for x in 0..k.pow(g.nodes as u32) {
            let threads: Vec<usize> = (0..g.nodes).map(|i| x / k.pow(i as u32) % k + 1).collect();
            let mut j = g.job();
            j.node_threads = threads.clone();
            let d = (g.nodes < 3 && g.cols == 1 && threads.iter().all(|t| *t < 4)) as usize;
            cases.push(Case::new(format!("{} threads={threads:?}", g.key()), j, devs(d, false), by_ref(r.clone())));
        }
    }
    c.par("cluster nodes with different numbers of threads", cases);
    let mut deep = vec![];
    for (threads, cols, rate) in [(2usize, 2usize, 7usize), (3, 1, 8), (3, 2, 5), (4, 2, 6), (5, 3, 7), (6, 1, 9)] {
        deep.push(Cfg::new(60, cols, 8, 3, rate, 9).sc(true).threads(threads));
    }
    let v = stable(c, deep.clone(), 1, 100, |_| true);
    c.deep("completion orders of the helpers, one deviation", ref_cases(v.clone(), devs(1, true)), 0.5);
    c.deep("completion orders of the helpers, two deviations", ref_cases(v, devs(2, true)), c.q(0.12, 1.0));
}

// ---- P03 ---------------------------------------------------------------------------

fn cluster_grid(nodes: std::ops::RangeInclusive<usize>, shapes: &[usize], cols: std::ops::RangeInclusive<usize>, sizes: usize, rates: &[usize], threads: &[usize]) -> Vec<Cfg> {
    let mut grid = vec![];
    for n in nodes {
        for &shape in shapes {
            for cols in cols.clone() {
                for &(pl, latent, ql) in &[(8usize, 3usize, 8usize), (9, 4, 12), (12, 4, 13), (7, 1, 9), (16, 8, 16)][..sizes] {
                    for (i, &rate) in rates.iter().enumerate() {
                        let rate = rate.max(n);
                        for &t in threads {
                            for sc in [false, true] {
                                // all remainders of rows / n occur
                                let rows = n * (pl + ql + 8) + (i + pl + cols) % n;
                                grid.push(Cfg::new(rows, cols, pl, latent, rate, ql).shape(shape).sc(sc).threads(t).nodes(n));
                            }
                        }
                    }
                }
            }
        }
    }
    grid
}

fn p03_cluster_equals_local(c: &mut Ctx) {
    let shapes: Vec<usize> = (0..9).chain(17..23).collect();
    let grid = if c.thorough {
        cluster_grid(2..=7, &shapes, 1..=4, 5, RATES, &[1, 2, 3])
    } else {
        cluster_grid(2..=5, &shapes, 1..=3, 4, &[4, 6, 7, 9, 13, 20], &[1, 2])
    };
    let v = stable(c, grid, 1, 40, |_| true);
    c.par("cluster sizes x inputs x parameters, default schedule", ref_cases(v, one()));
    for n in [2usize, 3, 6, 10] {
        let mut v = stable(c, large(n), 1, c.q(40, 400), |_| true);
        for (i, x) in v.iter_mut().enumerate() {
            x.0.threads = 1 + i % 3;
        }
        c.par("large inputs, default schedule", ref_cases(v, one()));
    }
    // quiet phases: a node's partition has no transition at all or a single one
    let mut grid = vec![];
    let mut small = vec![];
    for n in 2..=c.q(5, 6) {
        for (pl, latent, ql) in [(8usize, 3usize, 9usize), (6, 2, 7), (12, 4, 13)] {
            for cols in 1..=2 {
                for rate in [4usize, 6, 9, 13] {
                    for shape in [9usize, 10, 11, 14, 15] {
                        for rest in 0..c.q(1, n) {
                            grid.push(Cfg::new(n * (pl + ql + 8) + (rest + rate) % n, cols, pl, latent, rate.max(n), ql).shape(shape).sc(true).nodes(n));
                        }
                    }
                    // every node scores as few queries as possible
                    for rest in 0..n {
                        small.push(Cfg::new(n * (pl + ql) + rest, cols, pl, latent, rate.max(n), ql).sc(rate != 6).nodes(n));
                    }
                }
            }
        }
    }
    let v = crate::cfg::par_map(&grid, |g| {
        (1..=c.q(40, 200)).filter_map(|v| { let g = g.clone().variant(v); g.stable().filter(|r| g.distributable(r)).map(|r| (g, r)) }).filter(|(g, r)| g.transitions_per_node(r).iter().any(|t| *t < 2)).take(2).collect::<Vec<_>>()
    });
    c.par("partitions with at most one transition", ref_cases(v.into_iter().flatten().collect(), one()));
    let v = stable(c, small, 1, 60, |_| true);
    c.par("smallest partitions", ref_cases(v, one()));
}

// ---- P04 ---------------------------------------------------------------------------

fn p04_cluster_schedules(c: &mut Ctx) {
    let mut small = vec![];
    for (nodes, threads, cols, rate, sc) in [(2usize, 1usize, 1usize, 6usize, true), (2, 2, 2, 7, true), (2, 1, 2, 6, false), (3, 1, 1, 8, true), (3, 2, 2, 7, true), (3, 1, 2, 9, false), (4, 1, 2, 9, true), (4, 1, 1, 8, true), (5, 1, 2, 10, true)] {
        small.push(Cfg::new(27 * nodes + 2, cols, 8, 3, rate, 9).sc(sc).threads(threads).nodes(nodes));
    }
    let v = stable(c, small, 1, 200, |_| true);
    // the middle of the series is quiet: a node has to wait for the first transition after its partition
    let quiet: Vec<Cfg> = [(3usize, 1usize), (3, 2), (5, 2)].into_iter().map(|(n, cols)| Cfg::new(27 * n + 1, cols, 8, 3, 6.max(n), 9).shape(14).sc(true).nodes(n)).collect();
    let q: Vec<_> = quiet.iter().filter_map(|g| (1..400).find_map(|v| { let g = g.clone().variant(v); g.stable().filter(|r| g.distributable(r) && g.transitions_per_node(r)[1..g.nodes - 1].contains(&0)).map(|r| (g, r)) })).collect();
    c.deep("a node without transitions, one deviation", ref_cases(q, devs(1, false)), 0.2);
    c.deep("message orders without preemption, one deviation", ref_cases(v.clone(), devs(1, false)), 0.3);
    c.deep("message orders and preemptions, one deviation", ref_cases(v[..c.q(6, 9).min(v.len())].to_vec(), devs(1, true)), 0.6);
    c.deep("message orders without preemption, two deviations", ref_cases(v[..c.q(2, 9).min(v.len())].to_vec(), devs(2, false)), 1.0);
    if c.thorough {
        c.deep("message orders and preemptions, two deviations", ref_cases(v, devs(2, true)), 1.0);
    }
}

// ---- P05 ---------------------------------------------------------------------------

fn p05_formation(c: &mut Ctx) {
    // the addresses say nothing about who is who
    let mut grid = vec![];
    for nodes in 2..=c.q(4, 5) {
        for order in permutations(nodes) {
            grid.push(Cfg::new(27 * nodes + 1, 2, 8, 3, 9, 9).sc(true).nodes(nodes).order(order));
        }
    }
    let v = stable(c, grid, 1, 100, |_| true);
    let mut cases = vec![];
    for (g, r) in &v {
        for ports in permutations(g.nodes) {
            for ips in 0..2 {
                if g.nodes > 4 && (ips > 0 || ports[0] == 0) {
                    continue;
                }
                let mut j = g.job();
                j.hosts = ports.iter().map(|p| if ips == 0 { format!("127.0.0.1:{}", 1000 + p) } else { format!("127.0.0.{}:{}", 9 - p, 2000 + p) }.parse().unwrap()).collect();
                let deep = g.nodes < c.q(4, 5) && ips == 0;
                cases.push(Case::new(format!("{} hosts={:?}", g.key(), j.hosts), j, devs(deep as usize, false), by_ref(r.clone())));
            }
        }
    }
    c.par("start orders x addresses", cases);
    let mut grid = vec![];
    for nodes in 2..=c.q(4, 5) {
        for order in permutations(nodes) {
            for seed in 1..=c.q(3, 8) {
                grid.push(Cfg::new(27 * nodes + 1, 2, 8, 3, 9, 9).sc(true).nodes(nodes).order(order.clone()).seed(seed));
            }
        }
    }
    let v = stable(c, grid, 1, 100, |_| true);
    c.par("start orders x hash orders, default schedule", ref_cases(v.clone(), one()));
    let few: Vec<_> = v.into_iter().filter(|(g, _)| g.nodes < c.q(4, 9)).collect();
    c.par("start orders x hash orders, one deviation", ref_cases(few, devs(1, false)));
}

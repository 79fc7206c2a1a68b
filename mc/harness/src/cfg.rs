//! Configurations: every enumerated case is one of these (plus a schedule).
use crate::oracle::{reference, Conf, Reference};
use crate::sim::{Input, Job};
use ndarray::Array2;
use s2gpp::Parameters;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub rows: usize,
    pub cols: usize,
    /// family of the series, see `gen_data`
    pub shape: usize,
    pub variant: u64,
    pub pl: usize,
    pub latent: usize,
    pub rate: usize,
    pub ql: usize,
    pub sc: bool,
    pub threads: usize,
    /// 0 = in-memory, 1 = local with a file, n > 1 = cluster of n
    pub nodes: usize,
    /// seed of the hash maps' iteration order
    pub seed: u64,
    /// order in which the cluster nodes are started
    pub order: Vec<usize>,
}

impl Cfg {
    pub fn new(rows: usize, cols: usize, pl: usize, latent: usize, rate: usize, ql: usize) -> Self {
        Cfg { rows, cols, shape: 0, variant: 1, pl, latent, rate, ql, sc: false, threads: 1, nodes: 0, seed: 1, order: vec![] }
    }
    pub fn sc(mut self, v: bool) -> Self {
        self.sc = v;
        self
    }
    pub fn shape(mut self, v: usize) -> Self {
        self.shape = v;
        self
    }
    pub fn variant(mut self, v: u64) -> Self {
        self.variant = v;
        self
    }
    pub fn threads(mut self, v: usize) -> Self {
        self.threads = v;
        self
    }
    pub fn nodes(mut self, v: usize) -> Self {
        self.nodes = v;
        self
    }
    pub fn seed(mut self, v: u64) -> Self {
        self.seed = v;
        self
    }
    pub fn order(mut self, v: Vec<usize>) -> Self {
        self.order = v;
        self
    }
    pub fn key(&self) -> String {
        format!(
            "rows={} cols={} shape={} variant={} pattern={} latent={} rate={} query={} self-correction={} threads={} nodes={} seed={} order={:?}",
            self.rows, self.cols, self.shape, self.variant, self.pl, self.latent, self.rate, self.ql, self.sc, self.threads, self.nodes, self.seed, self.order
        )
    }
    /// inverse of `key`
    pub fn parse(key: &str) -> Cfg {
        let get = |n: &str| key.split_whitespace().find_map(|w| w.strip_prefix(&format!("{n}="))).unwrap_or("0").to_string();
        let num = |n: &str| get(n).parse::<usize>().unwrap_or(0);
        let order = key.split("order=[").nth(1).map(|s| s.trim_end_matches(']').split(", ").filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
        Cfg::new(num("rows"), num("cols"), num("pattern"), num("latent"), num("rate"), num("query"))
            .shape(num("shape")).variant(num("variant") as u64).sc(get("self-correction") == "true").threads(num("threads")).nodes(num("nodes")).seed(num("seed") as u64).order(order)
    }
    pub fn data(&self) -> Array2<f32> {
        gen_data(self.rows, self.cols, self.shape, self.variant)
    }
    pub fn conf(&self) -> Conf {
        Conf { pl: self.pl, latent: self.latent, rate: self.rate, ql: self.ql, self_correction: self.sc }
    }
    pub fn params(&self) -> Parameters {
        Parameters {
            pattern_length: self.pl,
            latent: self.latent,
            rate: self.rate,
            query_length: self.ql,
            self_correction: self.sc,
            n_threads: self.threads,
            ..Default::default()
        }
    }
    pub fn job(&self) -> Job {
        let d = self.data();
        let input = match self.nodes {
            0 => Input::Memory(d),
            1 => Input::File(to_csv(&d)),
            n => Input::Cluster(to_csv(&d), n),
        };
        let mut j = Job::new(self.params(), input);
        j.seed = self.seed;
        j.start_order = self.order.clone();
        j
    }
    pub fn reference(&self) -> Option<Arc<Reference>> {
        type Cache = Mutex<HashMap<Cfg, Option<Arc<Reference>>>>;
        static CACHE: OnceLock<Cache> = OnceLock::new();
        let c = CACHE.get_or_init(Default::default);
        let k = Cfg { threads: 1, nodes: 0, seed: 1, order: vec![], ..self.clone() };
        if let Some(r) = c.lock().unwrap().get(&k) {
            return r.clone();
        }
        let r = reference(&self.data(), &self.conf()).map(Arc::new);
        c.lock().unwrap().insert(k, r.clone());
        r
    }
    /// The correct result is defined and does not hinge on rounding.
    pub fn stable(&self) -> Option<Arc<Reference>> {
        self.reference().filter(|r| r.scores.iter().all(|x| x.is_finite()) && r.margins.safety() >= if self.nodes > 1 { CLUSTER_SAFETY } else { SAFETY })
    }
    /// Every cluster node has enough points for a query and at least one segment (domain of a
    /// distributed run).
    pub fn distributable(&self, r: &Reference) -> bool {
        if self.nodes < 2 {
            return true;
        }
        // every cluster node scores at least one query on its own
        let last = self.rows - (self.nodes - 1) * (self.rows / self.nodes);
        last >= self.ql + self.pl && self.rate >= self.nodes && !r.transitions.is_empty()
    }
    /// number of transitions that start in each cluster node's partition
    pub fn transitions_per_node(&self, r: &Reference) -> Vec<usize> {
        let n = self.nodes.max(1);
        let part = self.rows / n;
        (0..n)
            .map(|i| {
                let (a, b) = (i * part, if i + 1 == n { r.n_points } else { (i + 1) * part });
                r.transitions.iter().filter(|t| **t >= a && **t < b).count()
            })
            .collect()
    }
    /// first variants (>= from) that are stable and fulfil the predicate
    pub fn pick(&self, n: usize, max_variants: u64, pred: impl Fn(&Reference) -> bool) -> Vec<(Cfg, Arc<Reference>)> {
        let mut out = vec![];
        for v in self.variant..self.variant + max_variants {
            let c = self.clone().variant(v);
            if let Some(r) = c.stable() {
                if c.distributable(&r) && pred(&r) {
                    out.push((c, r));
                    if out.len() == n {
                        break;
                    }
                }
            }
        }
        out
    }
}

/// see oracle.rs: calibrated, disagreements due to rounding only exist below 0.3
pub const SAFETY: f64 = 2.0;
/// the merged decomposition of a cluster rounds more; disagreements only exist below 2.3
pub const CLUSTER_SAFETY: f64 = 8.0;

/// Families of series: 0 shifted sines, 1 positive offset, 2 sine with amplitude modulation, 3 saw
/// tooth, 4 sine with an anomalous block, 5 negative offset and trend, 6 word of motifs (base 3
/// digits of the variant), 7 large and 8 small amplitude, 9 quiet middle, 10 quiet end, 11 quiet start
/// (no transitions there), 12 a single deep minimum whose position is given by the variant, 13 the same
/// with a high maximum, 14 quiet between the first and the last quarter, 15 only the middle is active,
/// 16 periods of two sizes in an order given by the variant (well-conditioned also if there is much of it),
/// 17, 18, 19 a sensor that is stuck (exactly the same value) in the middle, at the start, at the end, 20 whole
/// numbers, 21 square waves (two or three values only), 22 all digits of f32, 23 the same values in all channels,
/// 24 the last of several channels is constant, 25 a few whole numbers repeated exactly, with one fault,
/// 26 one minimum and one maximum per channel, each in a row of its own, 27 as 16 with long periods.
pub fn gen_data(rows: usize, cols: usize, shape: usize, variant: u64) -> Array2<f32> {
    let mut x = 0x9E3779B97F4A7C15u64 ^ variant.wrapping_mul(0xD1B54A32D192ED03) ^ ((shape as u64) << 7);
    let mut noise = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 40) as f32 / (1u64 << 24) as f32 - 0.5
    };
    const TAU: f32 = 2.0 * std::f32::consts::PI;
    let mut a = Array2::zeros((rows, cols));
    for r in 0..rows {
        for c in 0..cols {
            let period = 8.0 + c as f32 * 3.0;
            let t = r as f32;
            let base = (t * TAU / period + c as f32).sin() * (1.0 + c as f32);
            let mut v = match shape {
                0 => base,
                1 => base + 6.0 + c as f32,
                2 => base * (1.0 + 0.5 * (t * TAU / 37.0).sin()),
                3 => ((t / period + 0.3 * c as f32).fract() - 0.5) * 3.0,
                4 => {
                    let b = rows / 2 + c;
                    if r >= b && r < b + period as usize {
                        -base * 0.6
                    } else {
                        base
                    }
                }
                5 => base - 4.0 - t / rows as f32,
                7 | 8 | 12 | 13 | 17..=20 | 22 | 24 | 26 => base,
                21 => if base > 0.2 + 0.3 * c as f32 { 2.0 } else if base > -0.4 { 1.0 } else { 0.0 },
                25 => {
                    let p = 7 + variant as usize % 5;
                    let k = (r + 2 * c) % p;
                    let fault = r / p == rows / p / 2 && k == 2 + variant as usize / 5 % 3;
                    ((k * k * 3 + (variant as usize + c) * k) % 5) as f32 + if fault { 3.0 } else { 0.0 }
                }
                23 => (t * TAU / 8.0).sin() * 2.0,
                9 => if r > rows / 3 && r < 2 * rows / 3 { 0.8 + c as f32 } else { base },
                10 => if r > rows / 2 { 0.8 + c as f32 } else { base },
                11 => if r < rows / 2 { 0.8 + c as f32 } else { base },
                14 => if r > rows / 4 && r < 3 * rows / 4 { 0.8 + c as f32 } else { base },
                16 | 27 => {
                    let p = if shape == 16 { 9 } else { 40 };
                    let word = (r as u64 / p).wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(variant.wrapping_mul(0xD1B54A32D192ED03));
                    let size = if (word ^ (word >> 29)).wrapping_mul(0xBF58476D1CE4E5B9) >> 62 == 0 { 2.0 } else { 1.0 };
                    // both directions
                    let t = if variant % 2 == 0 { t } else { -t };
                    (t * TAU / p as f32 + c as f32).sin() * (1.0 + c as f32 % 3.0) * size
                }
                15 => if r < rows / 3 || r > 2 * rows / 3 { 0.8 + c as f32 } else { base },
                _ => {
                    // word over three motifs, one letter per eight rows
                    let letter = (variant / 3u64.pow((r as u32 / 8) % 12)) % 3;
                    match letter {
                        0 => base,
                        1 => base * 0.5,
                        _ => (t * TAU / (period * 0.7) + c as f32).sin() * (1.0 + c as f32),
                    }
                }
            };
            let quiet = match shape {
                9 => r > rows / 3 && r < 2 * rows / 3,
                10 => r > rows / 2,
                11 => r < rows / 2,
                14 => r > rows / 4 && r < 3 * rows / 4,
                15 => r < rows / 3 || r > 2 * rows / 3,
                _ => false,
            };
            let n = noise();
            if shape == 21 {
                // a step now and then
                if n > 0.42 {
                    v = 1.0 - v;
                }
            } else if shape == 23 && c > 0 {
                v = a[[r, 0]];
            } else if shape == 25 {
                // as it is
            } else {
                v += n * if quiet || shape == 16 || shape == 27 { 0.03 } else { 0.2 };
            }
            if shape == 12 && r as u64 == (variant / 4) % rows as u64 {
                v -= 3.0;
            }
            if shape == 13 && r as u64 == (variant / 4) % rows as u64 {
                v += 3.0;
            }
            // every channel has its extremes elsewhere
            if shape == 26 {
                if r as u64 == (variant / 4 + 13 * c as u64) % rows as u64 {
                    v -= 3.0;
                } else if r as u64 == (variant / 4 + 13 * c as u64 + 5 + variant % 4 * 7) % rows as u64 {
                    v += 3.0;
                }
            }
            let unit = match shape {
                7 => 256.0,
                8 => 1.0 / 32.0,
                _ => 1.0,
            };
            a[[r, c]] = match shape {
                20 => (v * 3.0).round(),
                22 => v * 1.2345678,
                24 if c > 0 && c + 1 == cols => 2.5,
                _ => (v * 64.0).round() / 64.0 * unit,
            };
            let stuck = match shape {
                17 => r > rows / 3 && r < 2 * rows / 3,
                18 => r < rows / 3,
                19 => r > 2 * rows / 3,
                _ => false,
            };
            if stuck && r > 0 {
                a[[r, c]] = a[[r - 1, c]];
            }
        }
    }
    a
}

pub fn to_csv(a: &Array2<f32>) -> String {
    let mut s = (0..a.ncols()).map(|c| format!("c{c}")).collect::<Vec<_>>().join(",");
    s.push('\n');
    for r in a.rows() {
        s.push_str(&r.iter().map(|v| format!("{v}")).collect::<Vec<_>>().join(","));
        s.push('\n');
    }
    s
}

pub fn par_map<T: Sync, R: Send>(items: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, R)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..workers() {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= items.len() {
                    break;
                }
                let r = f(&items[i]);
                out.lock().unwrap().push((i, r));
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

pub fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

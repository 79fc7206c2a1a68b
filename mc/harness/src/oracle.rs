//! Independent reference model of Series2Graph++ in double precision.
//!
//! The model follows the published algorithm (phase space, PCA, rotation, segmentation,
//! intersections, KDE node clustering, path graph, weighted degree scoring), written sequentially
//! and without any of the repository's code.  Next to the result it reports by which *margin*
//! every discrete decision (segment of a point, sign of a component, KDE peak, peak assignment) was
//! taken, so that checks only use inputs for which the correct result does not hinge on rounding.
use ndarray::Array2;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::f64::consts::PI;

#[derive(Clone, Debug, PartialEq)]
pub struct Conf {
    pub pl: usize,
    pub latent: usize,
    pub rate: usize,
    pub ql: usize,
    pub self_correction: bool,
}

#[derive(Clone, Debug)]
pub struct Margins {
    /// distance of a point to the closest segment border, as share of the extent of all points
    pub segment: f64,
    /// |first entry| of every kept component (decides its sign)
    pub sign: f64,
    /// relative gap of consecutive eigenvalues among the first four
    pub eigen: f64,
    /// change of a density estimate that moves a local maximum, in units of the expected rounding noise
    pub peak: f64,
    /// difference of the distances to the closest and the second closest peak, relative to the range
    pub assign: f64,
    /// condition of the intersection (|sin| between line and plane)
    pub cross: f64,
    /// relative spread of the values of one dimension within a segment
    pub spread: f64,
}

impl Margins {
    fn new() -> Self {
        Margins { segment: 1.0, sign: 1.0, eigen: 1.0, peak: 1e9, assign: 1.0, cross: 1.0, spread: 1.0 }
    }
    /// factor by which the worst margin exceeds what single precision may change
    pub fn safety(&self) -> f64 {
        [
            self.segment / 1e-5,
            self.sign / 2e-4,
            self.eigen / 1e-2,
            self.peak,
            self.assign / 2e-4,
            self.cross / 1e-3,
            self.spread / 1e-3,
        ]
        .iter()
        .cloned()
        .fold(f64::INFINITY, f64::min)
    }
}

pub type Node = (usize, usize); // (segment, cluster)

#[derive(Clone, Debug)]
pub struct Reference {
    pub n_points: usize,
    pub min: Vec<f64>,
    pub max: Vec<f64>,
    pub n_rows: usize,
    pub points: Vec<Vec<f64>>,
    pub segments: Vec<usize>,
    pub mirrored: bool,
    pub forward: usize,
    pub backward: usize,
    /// ids of the points a valid transition starts from
    pub transitions: Vec<usize>,
    /// (from-point id, segment, node coordinates)
    pub intersections: Vec<(usize, usize, Vec<f64>)>,
    pub path: Vec<(usize, Node)>,
    pub edges: Vec<(usize, Node, Node)>,
    pub weights: HashMap<(Node, Node), usize>,
    pub degrees: HashMap<Node, usize>,
    pub edges_in_time: Vec<usize>,
    pub raw: Vec<f64>,
    /// mean uniqueness of the visited nodes per score and dimension
    pub contributions: Vec<Vec<f64>>,
    pub scores: Vec<f64>,
    pub margins: Margins,
}

fn jacobi(mut a: Vec<Vec<f64>>) -> (Vec<f64>, Vec<Vec<f64>>) {
    let n = a.len();
    let mut v = vec![vec![0.0; n]; n];
    for (i, r) in v.iter_mut().enumerate() {
        r[i] = 1.0;
    }
    for _ in 0..100 {
        let off: f64 = (0..n).flat_map(|i| (0..n).filter(move |j| *j != i).map(move |j| (i, j))).map(|(i, j)| a[i][j] * a[i][j]).sum();
        let diag: f64 = (0..n).map(|i| a[i][i] * a[i][i]).sum();
        if off <= 1e-30 * diag {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q].abs() < 1e-300 {
                    continue;
                }
                let theta = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = theta.signum() / (theta.abs() + (theta * theta + 1.0).sqrt());
                let t = if theta == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (v[k][p], v[k][q]);
                    v[k][p] = c * x - s * y;
                    v[k][q] = s * x + c * y;
                }
            }
        }
    }
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|i, j| a[*j][*j].partial_cmp(&a[*i][*i]).unwrap());
    let vals = idx.iter().map(|i| a[*i][*i]).collect();
    let vecs = idx.iter().map(|i| (0..n).map(|k| v[k][*i]).collect()).collect();
    (vals, vecs)
}

/// 3 leading principal components of the rows (sign: first entry positive), and the column means
fn pca(rows: &[Vec<f64>], m: &mut Margins) -> (Vec<Vec<f64>>, Vec<f64>) {
    let (n, w) = (rows.len() as f64, rows[0].len());
    let mean: Vec<f64> = (0..w).map(|j| rows.iter().map(|r| r[j]).sum::<f64>() / n).collect();
    let mut cov = vec![vec![0.0; w]; w];
    for r in rows {
        for i in 0..w {
            for j in 0..w {
                cov[i][j] += (r[i] - mean[i]) * (r[j] - mean[j]);
            }
        }
    }
    let (vals, mut vecs) = jacobi(cov);
    for k in 0..3.min(w) {
        if k + 1 < w {
            m.eigen = m.eigen.min((vals[k] - vals[k + 1]) / vals[k].max(1e-300));
        }
        // the leading components of a small eigenvalue drown in the rounding of the large ones
        m.eigen = m.eigen.min(vals[k] / vals[0] * 1e3);
        m.sign = m.sign.min(vecs[k][0].abs());
        if vecs[k][0] < 0.0 {
            for x in vecs[k].iter_mut() {
                *x = -*x;
            }
        }
    }
    vecs.truncate(3);
    (vecs, mean)
}

fn project(row: &[f64], comps: &[Vec<f64>], mean: &[f64]) -> [f64; 3] {
    let mut o = [0.0; 3];
    for k in 0..3 {
        o[k] = (0..row.len()).map(|j| (row[j] - mean[j]) * comps[k][j]).sum();
    }
    o
}

/// rotation that turns the direction of `a` onto the z-axis, applied to `p`
fn rotate(a: [f64; 3], p: [f64; 3]) -> [f64; 3] {
    let l = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt();
    let a = [a[0] / l, a[1] / l, a[2] / l];
    // axis v = a x z
    let v = [a[1], -a[0], 0.0];
    let s2 = v[0] * v[0] + v[1] * v[1];
    let c = a[2];
    let cross = |u: [f64; 3], w: [f64; 3]| [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]];
    let kp = cross(v, p);
    let kkp = cross(v, kp);
    let f = (1.0 - c) / s2;
    [p[0] + kp[0] + kkp[0] * f, p[1] + kp[1] + kkp[1] * f, p[2] + kp[2] + kkp[2] * f]
}

fn segment_of(p: &[f64], rate: usize, scale: f64, m: &mut Margins) -> usize {
    let a = (p[1].atan2(p[0]) + 2.0 * PI) / (2.0 * PI / rate as f64);
    let f = a - a.floor();
    let r = (p[0] * p[0] + p[1] * p[1]).sqrt();
    m.segment = m.segment.min(f.min(1.0 - f) * 2.0 * PI / rate as f64 * r / scale);
    a.floor() as usize % rate
}

/// label and centre (one peak per dimension) of every value
fn kde_labels(values: &[Vec<f64>], m: &mut Margins) -> (Vec<usize>, Vec<Vec<usize>>) {
    let n = values.len();
    if n == 1 {
        return (vec![0], vec![vec![0; values[0].len()]]);
    }
    let dims = values[0].len();
    let mut centers: Vec<Vec<usize>> = vec![vec![]; n];
    for d in 0..dims {
        let col: Vec<f64> = values.iter().map(|v| v[d]).collect();
        let mean = col.iter().sum::<f64>() / n as f64;
        let var = col.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / (n as f64 - 1.0);
        m.spread = m.spread.min(var.sqrt() / mean.abs().max(1e-300));
        let h2 = var * (n as f64).powf(-0.4);
        let (lo, hi) = col.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), x| (l.min(*x), h.max(*x)));
        let pad = (hi - lo) * 0.1;
        let grid: Vec<f64> = (0..250).map(|i| lo - pad + (hi - lo + 2.0 * pad) * i as f64 / 249.0).collect();
        let est: Vec<f64> = grid.iter().map(|g| col.iter().map(|x| (-(x - g).powi(2) / (2.0 * h2)).exp()).sum::<f64>()).collect();
        let top = est.iter().cloned().fold(0.0, f64::max);
        let mut peaks = vec![];
        for i in 0..250 {
            let (l, r) = (if i == 0 { est[0] } else { est[i - 1] }, if i == 249 { est[249] } else { est[i + 1] });
            if est[i] > l && est[i] > r {
                peaks.push(i);
            }
            if i > 0 && i < 249 {
                // how much the (relative) estimates may move before this position starts or stops to be a peak
                let (a, b) = ((est[i] - l) / est[i].max(1e-300), (est[i] - r) / est[i].max(1e-300));
                let flip = if a > 0.0 && b > 0.0 { a.min(b) } else { (-a).max(-b) };
                let energy = -(est[i] / n as f64).max(1e-300).ln();
                if energy > 60.0 {
                    m.peak = 0.0; // leaves the range of single precision
                } else {
                    let h = h2.sqrt();
                    let step = (hi - lo + 2.0 * pad) / 249.0;
                    let noise = 3e-7 * (1.0 + energy) + (step / h) * (hi.abs() * 3e-7 / h) * (1.0 + energy);
                    m.peak = m.peak.min(flip / noise);
                }
            }
        }
        if peaks.is_empty() {
            for c in centers.iter_mut() {
                c.push(0);
            }
            continue;
        }
        for (k, x) in col.iter().enumerate() {
            let mut ds: Vec<(f64, usize)> = peaks.iter().map(|p| ((grid[*p] - x).abs(), *p)).collect();
            ds.sort_by(|a, b| a.partial_cmp(b).unwrap());
            if ds.len() > 1 {
                m.assign = m.assign.min((ds[1].0 - ds[0].0) / (hi - lo));
            }
            centers[k].push(ds[0].1 + 1);
        }
    }
    let mut seen: HashMap<Vec<usize>, usize> = HashMap::new();
    let labels = centers
        .iter()
        .map(|c| {
            let k = seen.len();
            *seen.entry(c.clone()).or_insert(k)
        })
        .collect();
    (labels, centers)
}

pub fn reference(data: &Array2<f32>, c: &Conf) -> Option<Reference> {
    let (rows, cols) = data.dim();
    if rows < c.pl + 1 || c.pl < c.latent + 3 {
        return None;
    }
    let w = c.pl - c.latent;
    let mut m = Margins::new();
    let n = rows - c.pl + 1;
    let mut channels: Vec<Vec<[f64; 2]>> = vec![];
    let (mut mins, mut maxs) = (vec![], vec![]);
    let mut base_len = 0.0f64;
    for ch in 0..cols {
        let col: Vec<f64> = data.column(ch).iter().map(|x| *x as f64).collect();
        let (lo, hi) = col.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), x| (l.min(*x), h.max(*x)));
        mins.push(lo);
        maxs.push(hi);
        let phase: Vec<Vec<f64>> = (0..n).map(|i| (0..w).map(|j| col[i + j..i + j + c.latent].iter().sum()).collect()).collect();
        let (comps, mean) = pca(&phase, &mut m);
        let base = project(&vec![lo * c.latent as f64; w], &comps, &mean);
        base_len = base_len.max(base.iter().map(|x| x * x).sum::<f64>().sqrt());
        channels.push(
            phase
                .iter()
                .map(|r| {
                    let p = rotate(base, project(r, &comps, &mean));
                    [p[0], p[1]]
                })
                .collect(),
        );
    }
    let mut points: Vec<Vec<f64>> = (0..n)
        .map(|i| (0..2).flat_map(|k| channels.iter().map(move |ch| ch[i][k])).collect())
        .collect();
    let half = c.rate / 2;
    let scale = points.iter().flat_map(|p| p.iter()).fold(base_len, |s: f64, x| s.max(x.abs()));
    let classify = |points: &Vec<Vec<f64>>, m: &mut Margins| {
        let seg: Vec<usize> = points.iter().map(|p| segment_of(p, c.rate, scale, m)).collect();
        let mut ok = vec![];
        let mut bad = 0;
        for i in 0..n - 1 {
            let d = (seg[i + 1] + c.rate - seg[i]) % c.rate;
            if d == 0 {
                continue;
            }
            if d <= half {
                ok.push(i)
            } else {
                bad += 1
            }
        }
        (seg, ok, bad)
    };
    let (mut segments, mut transitions, backward) = classify(&points, &mut m);
    let forward = transitions.len();
    let mut mirrored = false;
    if c.self_correction && forward < backward {
        mirrored = true;
        for p in points.iter_mut() {
            p[0] = -p[0];
        }
        let r = classify(&points, &mut m);
        segments = r.0;
        transitions = r.1;
    }
    // intersections
    let mut per_segment: BTreeMap<usize, Vec<(usize, Vec<f64>)>> = BTreeMap::new();
    let mut intersections = vec![];
    for &i in &transitions {
        let d = (segments[i + 1] + c.rate - segments[i]) % c.rate;
        let (p, q) = (&points[i], &points[i + 1]);
        for lag in 1..=d {
            let s = (segments[i] + lag) % c.rate;
            let th = 2.0 * PI * s as f64 / c.rate as f64;
            let (nx, ny) = (-th.sin(), th.cos());
            let (dx, dy) = (q[0] - p[0], q[1] - p[1]);
            let den = nx * dx + ny * dy;
            m.cross = m.cross.min(den.abs() / (dx * dx + dy * dy).sqrt());
            let t = -(nx * p[0] + ny * p[1]) / den;
            let x: Vec<f64> = (0..p.len()).map(|k| p[k] + t * (q[k] - p[k])).collect();
            let node: Vec<f64> = (0..cols).map(|k| (x[k] * x[k] + x[k + cols] * x[k + cols]).sqrt()).collect();
            per_segment.entry(s).or_default().push((i, node.clone()));
            intersections.push((i, s, node));
        }
    }
    let mut node_of: HashMap<(usize, usize), usize> = HashMap::new();
    let mut uniqueness: HashMap<Node, Vec<f64>> = HashMap::new();
    for (s, list) in &per_segment {
        let vals: Vec<Vec<f64>> = list.iter().map(|x| x.1.clone()).collect();
        let (labels, centers) = kde_labels(&vals, &mut m);
        for (k, l) in labels.into_iter().enumerate() {
            node_of.insert((list[k].0, *s), l);
            let u: Vec<f64> = (0..cols).map(|d| 1.0 - centers.iter().filter(|x| x[d] == centers[k][d]).count() as f64 / centers.len() as f64).collect();
            uniqueness.insert((*s, l), u);
        }
    }
    let path: Vec<(usize, Node)> = intersections.iter().map(|(i, s, _)| (*i, (*s, node_of[&(*i, *s)]))).collect();
    let edges: Vec<(usize, Node, Node)> = path.windows(2).map(|x| (x[1].0, x[0].1, x[1].1)).collect();
    let mut weights: HashMap<(Node, Node), usize> = HashMap::new();
    let mut degrees: HashMap<Node, usize> = HashMap::new();
    let mut seen = HashSet::new();
    for (_, a, b) in &edges {
        *weights.entry((*a, *b)).or_default() += 1;
        if seen.insert((*a, *b)) {
            *degrees.entry(*a).or_default() += 1;
            *degrees.entry(*b).or_default() += 1;
        }
    }
    let eit: Vec<usize> = (0..n - 1).map(|t| edges.iter().filter(|e| e.0 <= t).count()).collect();
    if eit.len() + 1 <= c.ql || edges.is_empty() {
        return None;
    }
    let mut raw: Vec<f64> = vec![];
    let mut contributions: Vec<Vec<f64>> = vec![];
    for i in 0..eit.len() - (c.ql - 1) {
        let (a, b) = (eit[i], (eit[i + c.ql - 1] + 1).min(edges.len()));
        if a >= b {
            raw.push(raw.last().cloned().unwrap_or(0.0));
            contributions.push(contributions.last().cloned().unwrap_or(vec![0.0; cols]));
            continue;
        }
        let u: Vec<f64> = (0..cols).map(|d| edges[a..b].iter().map(|(_, f, _)| uniqueness[f][d]).sum::<f64>() / (b - a) as f64).collect();
        contributions.push(if u.iter().sum::<f64>() < 1e-9 { contributions.last().cloned().unwrap_or(u) } else { u });
        let s: f64 = edges[a..b].iter().map(|(_, f, t)| (weights[&(*f, *t)] * (degrees[f] - 1)) as f64).sum();
        raw.push(-s / (b - a) as f64);
    }
    let (lo, hi) = raw.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), x| (l.min(*x), h.max(*x)));
    let scores = raw.iter().map(|x| (x - lo) / (hi - lo)).collect();
    Some(Reference {
        n_points: n,
        min: mins,
        max: maxs,
        n_rows: rows,
        points,
        segments,
        mirrored,
        forward,
        backward,
        transitions,
        intersections,
        path,
        edges,
        weights,
        degrees,
        edges_in_time: eit,
        raw,
        contributions,
        scores,
        margins: m,
    })
}

//! Checks of the interfaces: input files, output files, command line, histories, crashes.
use crate::cfg::*;
use crate::checks::*;
use crate::ctx::*;
use crate::oracle::Reference;
use crate::sim::*;
use ndarray::{concatenate, Array2, Axis};
use s2gpp::{Parameters, Role};
use std::sync::Arc;

// ---- P06: partitioning ---------------------------------------------------------------

/// Partitions on the wire: each must be a contiguous range of the rows, together they reach the end.
fn partitions_ok(o: &Outcome, d: &Array2<f32>, nodes: usize) -> Option<String> {
    let mut covered = vec![false; d.nrows()];
    let mut seen = 0;
    let rows: Vec<Vec<String>> = d.rows().into_iter().map(|r| r.iter().map(|x| format!("{x}")).collect()).collect();
    for f in &o.frames {
        if !f.identifier.contains("DataPartition") {
            continue;
        }
        let v: serde_json::Value = flexbuffers::from_slice(&f.payload).ok()?;
        let data: Vec<Vec<String>> = serde_json::from_value(v.get("data")?.clone()).ok()?;
        if data.is_empty() {
            return Some(format!("node {} gets no rows", f.to));
        }
        let at = (0..rows.len()).find(|i| rows[*i..].starts_with(&data));
        match at {
            None => return Some(format!("node {} gets {} rows that are no contiguous part of the input", f.to, data.len())),
            Some(a) => covered[a..a + data.len()].iter_mut().for_each(|x| *x = true),
        }
        seen += 1;
    }
    if seen != nodes - 1 {
        return None; // transported differently: not observable here, the scores tell
    }
    let first = d.nrows() / nodes;
    (first..d.nrows()).find(|i| !covered[*i]).map(|i| format!("no node gets row {i}"))
}

pub fn p06_partitioning(c: &mut Ctx) {
    let mut grid = vec![];
    for nodes in 2..=c.q(5, 7) {
        for &(pl, latent, ql) in &[(6usize, 2usize, 6usize), (8, 3, 9), (12, 4, 13), (9, 5, 15)][..c.q(3, 4)] {
            for extra in 0..c.q(3, 6) * nodes {
                for cols in 1..=2 {
                    grid.push(Cfg::new(nodes * (pl + ql + 1) + extra, cols, pl, latent, 9, ql).sc(true).nodes(nodes));
                }
            }
        }
    }
    // a remainder of at least the pattern length
    for nodes in 5..=c.q(7, 9) {
        for (pl, latent, ql) in [(4usize, 1usize, 4usize), (5, 2, 5), (4, 1, 6)] {
            for extra in 0..2 * nodes {
                for cols in 1..=2 {
                    for rate in [9usize, 12] {
                        grid.push(Cfg::new(nodes * (pl + ql + 3) + extra, cols, pl, latent, rate, ql).sc(true).nodes(nodes));
                    }
                }
            }
        }
    }
    // long patterns and queries, and queries much longer than patterns
    for nodes in 2..=c.q(4, 6) {
        for (pl, latent, ql) in [(20usize, 10usize, 25usize), (40, 13, 45), (6, 2, 40), (70, 23, 75), (8, 3, 70), (100, 33, 110), (130, 32, 140)] {
            for extra in 0..nodes {
                grid.push(Cfg::new(nodes * (pl + ql + 9) + extra, 1 + extra % 2, pl, latent, 9, ql).shape(if pl < 40 { 16 } else { 27 }).sc(true).nodes(nodes));
            }
        }
    }
    let v = stable(c, grid.clone(), c.q(1, 3), c.q(100, 300), |_| true);
    let cases = v
        .into_iter()
        .map(|(g, r)| {
            let mut j = g.job();
            j.record = true;
            let d = g.data();
            let n = g.nodes;
            Case::new(g.key(), j, one(), move |o| partitions_ok(o, &d, n).or_else(|| scores_match(o, &r.scores)))
        })
        .collect();
    c.par("row counts x cluster sizes x pattern lengths", cases);
    // the partitions themselves do not depend on the numbers in them
    let cases = grid
        .into_iter()
        .flat_map(|g| (0..2 * g.nodes + 3).map(move |k| g.clone().shape(1).variant(k as u64)))
        .map(|mut g| {
            g.rows += g.variant as usize;
            g.latent = g.pl - 3;
            let mut j = g.job();
            j.record = true;
            let d = g.data();
            let n = g.nodes;
            Case::new(format!("any data {}", g.key()), j, one(), move |o| partitions_ok(o, &d, n))
        })
        .collect::<Vec<_>>();
    c.par("partitions on the wire, arbitrary data", cases);
    // long files, many computers, wide rows
    let mut cases = vec![];
    for (rows, cols, nodes) in [(1000usize, 1usize, 2usize), (1023, 1, 2), (1025, 2, 3), (2047, 1, 4), (2050, 3, 3), (4100, 1, 7), (1500, 8, 5), (800, 16, 4), (900, 2, 12), (907, 1, 16), (9001, 1, 3)] {
        for k in 0..c.q(3usize, 12) {
            let g = Cfg::new(rows + k, cols, 12, 9, 16, 13).shape(1).variant(k as u64).nodes(nodes);
            let mut j = g.job();
            j.record = true;
            let d = g.data();
            cases.push(Case::new(format!("any data {}", g.key()), j, one(), move |o| partitions_ok(o, &d, nodes)));
        }
    }
    c.par("partitions on the wire, long and wide files", cases);
}

// ---- P07: reading the input file --------------------------------------------------------

#[derive(Clone, Copy, Debug)]
enum Style {
    Plain,
    CrLf,
    Spaces,
    Quoted,
    NoFinalNewline,
    Exponent,
    Plus,
    OddHeader,
    CrLfNoFinalNewline,
    Tabs,
    BlankEnd,
    BlankEnds,
    BlankMiddle,
    NewlineInHeader,
    NumericHeader,
    NegativeHeader,
    Bom,
    UpperExponent,
    Dots,
}
const STYLES: &[Style] = &[Style::Plain, Style::CrLf, Style::Spaces, Style::Quoted, Style::NoFinalNewline, Style::Exponent, Style::Plus, Style::OddHeader, Style::CrLfNoFinalNewline, Style::Tabs, Style::BlankEnd, Style::BlankEnds, Style::BlankMiddle, Style::NewlineInHeader, Style::NumericHeader, Style::NegativeHeader, Style::Bom, Style::UpperExponent, Style::Dots];

fn styled(a: &Array2<f32>, style: Style) -> String {
    let nl = match style {
        Style::CrLf | Style::CrLfNoFinalNewline => "\r\n",
        _ => "\n",
    };
    let num = |x: f32| match style {
        Style::Spaces => format!("  {x} "),
        Style::Tabs => format!("\t{x}"),
        Style::Quoted => format!("\"{x}\""),
        Style::Exponent => format!("{x:e}"),
        Style::UpperExponent => format!("{x:E}"),
        Style::Dots if x.fract() == 0.0 => format!("{x}."),
        Style::Dots if x > 0.0 && x < 1.0 => format!("{x}").trim_start_matches('0').to_string(),
        Style::Plus if x.is_sign_positive() => format!("+{x}"),
        _ => format!("{x}"),
    };
    let head = |c: usize| match style {
        Style::OddHeader => ["\"a, b\"", "1.5", "", "ä ö", "#x", "\"say \"\"hi\"\"\""][c % 6].to_string(),
        Style::NumericHeader => format!("{c}"),
        Style::NegativeHeader => format!("-{c}.5e2"),
        Style::Bom if c == 0 => "\u{feff}c".into(),
        Style::NewlineInHeader => format!("\"c\n{c}\""),
        _ => format!("c{c}"),
    };
    let mut s = (0..a.ncols()).map(head).collect::<Vec<_>>().join(",");
    s.push_str(nl);
    for (i, r) in a.rows().into_iter().enumerate() {
        s.push_str(&r.iter().map(|x| num(*x)).collect::<Vec<_>>().join(","));
        let last = i + 1 == a.nrows();
        if !(last && matches!(style, Style::NoFinalNewline | Style::CrLfNoFinalNewline)) {
            s.push_str(nl);
        }
        if matches!(style, Style::BlankMiddle) && i % 10 == 4 {
            s.push_str(nl);
        }
    }
    match style {
        Style::BlankEnd => s.push_str(nl),
        Style::BlankEnds => s.push_str(&nl.repeat(7)),
        _ => (),
    }
    s
}

/// columns around the ones that are used: an index on the left, labels on the right
fn padded(d: &Array2<f32>, left: usize, right: usize) -> Array2<f32> {
    let n = d.nrows();
    let l = Array2::from_shape_fn((n, left), |(r, c)| (r + c) as f32);
    let r = Array2::from_shape_fn((n, right), |(r, c)| ((r / 7 + c) % 2) as f32);
    concatenate(Axis(1), &[l.view(), d.view(), r.view()]).unwrap()
}

/// all (start, end) pairs that select these columns
fn selections(left: usize, width: usize, right: usize) -> Vec<(usize, isize)> {
    let mut v = vec![(left, (left + width) as isize)];
    if right > 0 {
        v.push((left, -(right as isize)));
    } else {
        v.extend([(left, 0), (left, (left + width) as isize + 1), (left, 1000)]);
    }
    v
}

pub fn p07_input_file(c: &mut Ctx) {
    let mut grid = vec![];
    for nodes in 1..=c.q(3, 4) {
        for cols in 1..=c.q(3, 4) {
            for threads in 1..=2 {
                grid.push(Cfg::new(27 * nodes.max(2) + 1, cols, 8, 3, 9, 9).sc(true).nodes(nodes).threads(threads));
                grid.push(Cfg::new(27 * nodes.max(2) + 1, cols, 8, 3, 7, 9).shape(5).sc(true).nodes(nodes).threads(threads));
            }
        }
    }
    let v = stable(c, grid, 1, 200, |_| true);
    let mut cases = vec![];
    for (g, r) in &v {
        for left in 0..=c.q(2, 3) {
            for right in 0..=c.q(2, 3) {
                for (start, end) in selections(left, g.cols, right) {
                    let styles = if c.thorough || (left + right) % 2 == 0 { STYLES } else { &STYLES[..1] };
                    for style in styles {
                        let text = styled(&padded(&g.data(), left, right), *style);
                        let mut j = g.job();
                        j.params.column_start = start;
                        j.params.column_end = end;
                        j.input = match g.nodes {
                            1 => Input::File(text),
                            n => Input::Cluster(text, n),
                        };
                        let r = r.clone();
                        cases.push(Case::new(format!("{} left={left} right={right} columns={start}..{end} style={style:?}", g.key()), j, one(), move |o| scores_match(o, &r.scores)));
                    }
                }
            }
        }
    }
    c.par("column ranges x notations x cluster sizes", cases);
    let mut cases = vec![];
    for n in [1usize, 3] {
        for (g, r) in stable(c, large(n), 1, c.q(60, 400), |_| true) {
            for (k, style) in STYLES.iter().enumerate() {
                if !c.thorough && g.rows > 700 && k % 4 != 0 {
                    continue;
                }
                let text = styled(&padded(&g.data(), 2, 9), *style);
                let mut j = g.job();
                j.params.column_start = 2;
                j.params.column_end = if k % 2 == 0 { -9 } else { 2 + g.cols as isize };
                j.input = match n {
                    1 => Input::File(text),
                    n => Input::Cluster(text, n),
                };
                let r = r.clone();
                cases.push(Case::new(format!("{} large style={style:?}", g.key()), j, one(), move |o| scores_match(o, &r.scores)));
            }
        }
    }
    c.par("large files", cases);
}

// ---- P08: score file ------------------------------------------------------------------

fn file_holds(o: &Outcome, want: &[f64]) -> Option<String> {
    let text = match &o.score_file {
        None => return Some("no score file".into()),
        Some(t) => t,
    };
    file_text(text, want).or_else(|| {
        let s = o.scores.as_ref()?;
        let got = parse_scores(text);
        (got.iter().zip(s).any(|(a, b)| (a - b).abs() > 1e-6)).then(|| "the score file differs from the returned scores".into())
    })
}

fn file_text(text: &str, want: &[f64]) -> Option<String> {
    if !text.ends_with('\n') {
        return Some("the last line of the score file is incomplete".into());
    }
    if let Some(l) = text.lines().find(|l| l.trim().parse::<f32>().is_err()) {
        return Some(format!("line '{l}' of the score file is no number"));
    }
    same(&parse_scores(text), want).map(|m| format!("score file: {m}"))
}

pub fn p08_score_file(c: &mut Ctx) {
    let mut grid = vec![];
    for nodes in 0..=c.q(4, 6) {
        for cols in 1..=2 {
            for rate in [6usize, 9] {
                for threads in [1usize, 3] {
                    for extra in [1, 30] {
                        grid.push(Cfg::new(27 * nodes.max(2) + extra, cols, 8, 3, rate, 9).sc(true).nodes(nodes).threads(threads));
                    }
                }
            }
        }
    }
    let mut v = stable(c, grid, c.q(1, 3), 200, |_| true);
    for n in [0usize, 1, 3] {
        let l = stable(c, large(n), 1, c.q(60, 400), |_| true);
        v.extend(l);
    }
    let mut cases = vec![];
    for (g, r) in v {
        let n = r.scores.len();
        let olds: Vec<Option<String>> = vec![None, Some(String::new()), Some("7.5\n".repeat(5 * n)), Some("x".repeat(n)), Some("1\n2\n3".into())];
        for (k, old) in olds.into_iter().enumerate() {
            for explain in [false, true] {
                if explain && g.nodes > 1 {
                    continue;
                }
                let mut j = g.job();
                j.want_score_file = true;
                j.old_score_file = old.clone();
                j.params.explainability = explain;
                j.sub_files = true;
                let r2 = r.clone();
                cases.push(Case::new(format!("{} file-before={k} explain={explain}", g.key()), j, one(), move |o| {
                    scores_match(o, &r2.scores).or_else(|| file_holds(o, &r2.scores)).or_else(|| {
                        o.sub_files.iter().enumerate().find_map(|(i, f)| match f {
                            // a sub node may end with the main node, before it wrote its own copy
                            None => None,
                            Some(t) => file_text(t, &r2.scores).map(|m| format!("sub node {}: {m}", i + 1)),
                        })
                    })
                }));
            }
        }
        if g.nodes == 0 {
            let r2 = r.clone();
            cases.push(Case::new(format!("{} no file wanted", g.key()), g.job(), one(), move |o| scores_match(o, &r2.scores).or_else(|| o.score_file.as_ref().map(|_| "a score file appears although none is wanted".into()))));
        }
    }
    c.par("modes x contents of the file before the run", cases);
    let deep: Vec<Cfg> = [(2usize, 1usize), (3, 1), (2, 2)].iter().map(|(n, t)| Cfg::new(27 * n + 2, 1, 8, 3, 8, 9).sc(true).nodes(*n).threads(*t)).collect();
    let v = stable(c, deep, 1, 300, |_| true);
    let cases = v
        .into_iter()
        .map(|(g, r)| {
            let mut j = g.job();
            j.sub_files = true;
            j.old_score_file = Some("7.5\n".repeat(2000));
            Case::new(format!("{} all files", g.key()), j, devs(1, c.thorough), move |o| {
                scores_match(o, &r.scores).or_else(|| file_holds(o, &r.scores)).or_else(|| o.sub_files.iter().find_map(|f| f.as_ref().and_then(|t| file_text(t, &r.scores))))
            })
        })
        .collect();
    c.deep("files of all nodes, one deviation", cases, 1.0);
}

// ---- P09: self-correction ------------------------------------------------------------------

pub fn p09_self_correction(c: &mut Ctx) {
    type Pred = fn(&Reference) -> bool;
    let classes: [(&str, Pred); 5] = [
        ("mirrored", |r| r.mirrored),
        ("tie", |r| r.forward == r.backward),
        ("one too few", |r| r.forward + 1 == r.backward),
        ("one more", |r| r.forward == r.backward + 1),
        ("forward", |r| r.forward > r.backward + 1),
    ];
    let mut all = vec![];
    for nodes in [0usize, 1, 2, 3, 4, 5].iter().cloned().take(c.q(5, 6)) {
        for threads in [1usize, 3] {
            for cols in 1..=c.q(2, 3) {
                for shape in [0usize, 2, 3, 4, 6] {
                    for rate in [7usize, 8, 9, 12] {
                        all.push(Cfg::new(26 * nodes.max(2) + rate % 3, cols, 8, 3, rate, 9).shape(shape).sc(true).nodes(nodes).threads(threads));
                    }
                }
            }
        }
    }
    for (name, pred) in classes {
        let tries = c.q(60, 300);
        let v = stable(c, all.clone(), 1, tries, pred);
        c.par(&format!("self-correction on, {name}"), ref_cases(v, one()));
    }
    for n in [0usize, 2, 5] {
        let big: Vec<Cfg> = large(n).into_iter().filter(|g| g.sc).enumerate().map(|(i, g)| g.threads(1 + i % 3)).collect();
        let v = stable(c, big, 1, c.q(60, 400), |r| r.mirrored);
        c.par("self-correction on, mirrored, large inputs", ref_cases(v, one()));
    }
    // without self-correction nothing is ever mirrored, also when most transitions go backwards
    let off: Vec<Cfg> = all.iter().map(|g| g.clone().sc(false)).collect();
    let v = stable(c, off, 1, c.q(40, 200), |r| r.forward < r.backward);
    c.par("self-correction off, most transitions backwards", ref_cases(v, one()));
    let deep: Vec<Cfg> = [(2usize, 1usize, 9usize), (3, 1, 8), (3, 2, 9)].iter().map(|(n, t, rate)| Cfg::new(27 * n + 2, 1, 8, 3, *rate, 9).sc(true).nodes(*n).threads(*t)).collect();
    let v = stable(c, deep, 1, 400, |r| r.mirrored);
    c.deep("mirrored, one deviation", ref_cases(v, devs(1, c.thorough)), 1.0);
}

// ---- P10: global extremes ---------------------------------------------------------------------

pub fn p10_extremes(c: &mut Ctx) {
    let mut grid = vec![];
    for nodes in [0usize, 2, 3, 1, 4, 5].into_iter().take(c.q(5, 6)) {
        for cols in 1..=3 {
            for &(pl, latent, ql, rate) in &[(8usize, 3usize, 9usize, 9usize), (6, 2, 14, 7), (14, 5, 15, 8)][..c.q(2, 3)] {
                let rows = (pl + ql + 10) * nodes.max(2) + 2;
                for shape in [12usize, 13, 26] {
                    for at in 0..rows {
                        grid.push(Cfg::new(rows, cols, pl, latent, rate, ql).shape(shape).sc(true).nodes(nodes).threads(1 + at % 3).variant(4 * at as u64));
                    }
                }
            }
        }
    }
    // four noises per position, then further ones with the same position
    let picked = par_map(&grid, |g| {
        (0..c.q(20u64, 60))
            .flat_map(|k| (0..4).map(move |x| (k, x)))
            .map(|(k, x)| g.clone().variant(g.variant + x + 4 * g.rows as u64 * k))
            .find_map(|g| g.stable().filter(|r| g.distributable(r)).map(|r| (g, r)))
    });
    let n = picked.iter().filter(|x| x.is_none()).count();
    for _ in 0..n {
        c.skip("position of the extreme without a well-conditioned input among the tried variants");
    }
    c.par("every position of the minimum and of the maximum x cluster sizes", ref_cases(picked.into_iter().flatten().collect(), one()));
}

// ---- P11: borders ---------------------------------------------------------------------------

pub fn p11_borders(c: &mut Ctx) {
    let mut grid = vec![];
    for nodes in 2..=c.q(4, 6) {
        for &(pl, latent, ql) in &[(8usize, 3usize, 9usize), (6, 2, 11), (9, 4, 12), (12, 4, 30)] {
            for rate in [5usize, 7, 12, 23] {
                for len in 0..24 {
                    for shape in [0usize, 3, 6, 9, 10, 11, 15, 19] {
                        // longer partitions: the borders move over the series
                        grid.push(Cfg::new(nodes * (pl + ql + 1 + len), 1 + len % 3, pl, latent, rate.max(nodes), ql).shape(shape).sc(len % 5 != 0).nodes(nodes).threads(1 + len % 2));
                    }
                }
            }
        }
    }
    let v = stable(c, grid, c.q(1, 2), c.q(40, 100), |_| true);
    c.par("every position of the borders", ref_cases(v, one()));
}

// ---- P12: form of the scores -----------------------------------------------------------------

fn well_formed(o: &Outcome, len: usize) -> Option<String> {
    if o.end != End::Done {
        return Some(format!("the run does not complete: {}", short(o)));
    }
    let s = match o.all_scores() {
        None => return Some("no scores".into()),
        Some(s) => s,
    };
    if s.len() != len {
        return Some(format!("{} scores instead of {len}", s.len()));
    }
    if let Some(i) = s.iter().position(|x| !x.is_finite() || *x < 0.0 || *x > 1.0) {
        return Some(format!("score {i} is {}", s[i]));
    }
    let (lo, hi) = s.iter().fold((f32::INFINITY, f32::NEG_INFINITY), |(l, h), x| (l.min(*x), h.max(*x)));
    (lo != 0.0 || hi != 1.0).then(|| format!("scores range from {lo} to {hi} instead of 0 to 1"))
}

pub fn p12_form(c: &mut Ctx) {
    let mut grid = vec![];
    for shape in (0..12).chain(16..23).chain([25]) {
        for cols in 1..=c.q(3, 5) {
            for &(pl, latent, ql) in &[(5usize, 2usize, 5usize), (8, 3, 8), (8, 1, 15), (12, 9, 12), (20, 8, 31), (9, 6, 9)] {
                for rate in [3usize, 4, 6, 9, 16, 37, 100] {
                    for rows in [pl + ql + 12, 64, 103] {
                        for sc in [false, true] {
                            grid.push(Cfg::new(rows, cols, pl, latent, rate, ql).shape(shape).sc(sc));
                        }
                    }
                }
            }
        }
    }
    for shape in [0usize, 2, 4, 16] {
        for (rows, cols, pl, latent, rate, ql) in [(1100usize, 1usize, 20usize, 8usize, 50usize, 30usize), (600, 3, 50, 16, 100, 75), (300, 9, 20, 8, 64, 25), (250, 2, 20, 8, 360, 25), (2100, 2, 10, 4, 20, 200)] {
            grid.push(Cfg::new(rows, cols, pl, latent, rate, ql).shape(shape).sc(true));
        }
    }
    let variants = c.q(3u64, 12);
    let all: Vec<Cfg> = grid.into_iter().flat_map(|g| (1..=variants).map(move |v| g.clone().variant(v))).collect();
    let ok = par_map(&all, |g| match g.reference() {
        Some(r) => r.scores.iter().all(|x| x.is_finite()) && (r.margins.spread > 1e-2 && g.shape < 12 || r.margins.segment > 1e-7 && r.margins.cross > 1e-4) && r.raw.iter().any(|x| (x - r.raw[0]).abs() > 1e-3),
        None => false,
    });
    let mut cases = vec![];
    for (g, ok) in all.into_iter().zip(ok) {
        if !ok {
            c.skip("no edges, constant scores or constant intersections");
            continue;
        }
        let len = g.rows - g.pl + 1 - g.ql;
        let shaky = g.stable().is_none();
        cases.push(Case::new(g.key(), g.job(), one(), move |o| {
            // rounding may make all raw scores equal, which leaves nothing to scale
            if shaky && o.all_scores().map(|s| s.len() == len && s.iter().all(|x| x.is_nan())).unwrap_or(false) {
                return None;
            }
            well_formed(o, len)
        }));
    }
    c.par("all kinds of input, well-conditioned or not", cases);
    let mut cases = vec![];
    for nodes in 2..=c.q(4, 6) {
        for shape in [0usize, 1, 2, 3, 4, 5, 7, 8, 16, 17, 18, 19, 20, 21, 22, 25] {
            for cols in 1..=2 {
                for rate in [6usize, 9, 20] {
                    for threads in [1usize, 3] {
                        for v in 1..=variants {
                            let g = Cfg::new(30 * nodes + v as usize, cols, 8, 3, rate, 9).shape(shape).sc(true).nodes(nodes).threads(threads).variant(v);
                            let r = match g.reference() {
                                Some(r) => r,
                                None => continue,
                            };
                            // margin: no node may lose its transitions by rounding
                            if r.margins.segment < 2e-5 || !g.distributable(&r) || !r.scores.iter().all(|x| x.is_finite()) {
                                c.skip("cluster input outside of the domain");
                                continue;
                            }
                            let len = g.rows - g.pl + 1 - g.ql;
                            cases.push(Case::new(g.key(), g.job(), one(), move |o| well_formed(o, len)));
                        }
                    }
                }
            }
        }
    }
    c.par("clusters", cases);
}

// ---- P13: repeatability -----------------------------------------------------------------------

pub fn p13_repeatability(c: &mut Ctx) {
    let mut base = vec![];
    for nodes in [0usize, 1, 2, 3, 4] {
        for cols in 1..=2 {
            for (rate, threads) in [(6usize, 1usize), (9, 2), (13, 3)] {
                base.push(Cfg::new(27 * nodes.max(2) + 4, cols, 8, 3, rate, 9).sc(true).nodes(nodes).threads(threads));
            }
        }
    }
    let v = stable(c, base, c.q(1, 2), 200, |_| true);
    let seeds = c.q(100u64, 500);
    let mut cases = vec![];
    for (g, r) in v {
        for s in 1..=seeds {
            let g = g.clone().seed(s * 7919);
            if g.nodes < 2 {
                let mut j = g.job();
                j.params.explainability = true;
                j.want_contrib = true;
                let (r, cols) = (r.clone(), g.cols);
                cases.push(Case::new(format!("{} explain", g.key()), j, one(), move |o: &Outcome| scores_match(o, &r.scores).or_else(|| contributions(o, &r, cols))));
            }
            cases.extend(ref_cases(vec![(g, r.clone())], one()));
        }
    }
    for n in [0usize, 3] {
        for (g, r) in stable(c, large(n), 1, c.q(60, 400), |_| true) {
            for s in 1..=c.q(4u64, 40) {
                cases.extend(ref_cases(vec![(g.clone().seed(s * 7919), r.clone())], one()));
            }
        }
    }
    c.par("hash seeds", cases);
}

// ---- P14: explainability ------------------------------------------------------------------------

fn contributions(o: &Outcome, r: &Reference, cols: usize) -> Option<String> {
    let text = match &o.contrib_file {
        None => return Some("no contribution file".into()),
        Some(t) => t,
    };
    let rows: Vec<Vec<f64>> = text.lines().map(|l| l.split(',').map(|x| x.trim().parse().unwrap_or(f64::NAN)).collect()).collect();
    if rows.len() != r.scores.len() {
        return Some(format!("{} contribution rows for {} scores", rows.len(), r.scores.len()));
    }
    if let Some(i) = rows.iter().position(|x| x.len() != cols || x.iter().any(|v| !v.is_finite())) {
        return Some(format!("contribution row {i} is {:?} for {cols} channels", rows[i]));
    }
    // Relative to the median of the channel. A row that does not deviate at all repeats the one before.
    let off: Vec<f64> = (0..cols)
        .map(|d| {
            let mut v: Vec<f64> = r.contributions.iter().map(|x| x[d]).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v[v.len() / 2]
        })
        .collect();
    for i in 0..rows.len() {
        let want: Vec<f64> = (0..cols).map(|d| r.contributions[i][d] - off[d]).collect();
        let near = |x: &[f64]| rows[i].iter().zip(x).all(|(a, b)| (a - b).abs() <= 1e-3);
        if near(&want) || want.iter().sum::<f64>().abs() < 1e-3 && i > 0 && near(&rows[i - 1]) {
            continue;
        }
        return Some(format!("contribution row {i} is {:?} instead of {want:?}", rows[i]));
    }
    None
}

pub fn p14_explainability(c: &mut Ctx) {
    let mut grid = vec![];
    for nodes in [0usize, 1] {
        for shape in (0..12).chain([18, 19, 21, 22]) {
            for cols in 1..=c.q(3, 4) {
                for rate in [5usize, 8, 12, 20] {
                    for threads in [1usize, 2, 4] {
                        for sc in [false, true] {
                            grid.push(Cfg::new(70 + rate, cols, 8, 3, rate, 9).shape(shape).sc(sc).nodes(nodes).threads(threads));
                        }
                    }
                }
            }
        }
    }
    let mut v = stable(c, grid, c.q(1, 4), c.q(20, 60), |_| true);
    for n in [0usize, 1] {
        let l = stable(c, large(n), 1, c.q(100, 1000), |_| true);
        v.extend(l.into_iter().enumerate().map(|(i, (g, r))| (g.threads(1 + i % 3), r)));
    }
    let mut deep = vec![];
    let mut cases = vec![];
    for (g, r) in v {
        let mk = |b| {
            let mut j = g.job();
            j.params.explainability = true;
            j.want_contrib = true;
            let (r, cols) = (r.clone(), g.cols);
            Case::new(format!("{} explain", g.key()), j, b, move |o: &Outcome| scores_match(o, &r.scores).or_else(|| contributions(o, &r, cols)))
        };
        if deep.len() < c.q(3, 8) && g.threads > 1 && g.cols > 1 {
            deep.push(mk(devs(1, true)));
        }
        cases.push(mk(one()));
    }
    c.par("contributions", cases);
    c.deep("contributions, one deviation", deep, 1.0);
}

// ---- P15: histories ---------------------------------------------------------------------------

pub fn p15_histories(c: &mut Ctx) {
    // operations: different inputs, parameters and interfaces
    let ops: Vec<(&str, Cfg, bool)> = vec![
        ("memory", Cfg::new(60, 2, 8, 3, 7, 9).sc(true), false),
        ("memory, other shape", Cfg::new(75, 1, 9, 4, 9, 12).sc(true).threads(2), false),
        ("file", Cfg::new(64, 2, 8, 3, 9, 9).sc(true).nodes(1), false),
        ("memory, explained", Cfg::new(66, 3, 8, 3, 6, 9).sc(true), true),
        ("file, explained", Cfg::new(58, 1, 8, 3, 8, 9).sc(true).nodes(1).threads(2), true),
        ("memory, many threads", Cfg::new(56, 2, 7, 2, 12, 8).sc(true).threads(5), false),
        // differ from the first one in a single respect
        ("memory, other values", Cfg::new(60, 2, 8, 3, 7, 9).sc(true).shape(1), false),
        ("memory, other rate", Cfg::new(60, 2, 8, 3, 8, 9).sc(true), false),
        ("file, other values", Cfg::new(64, 2, 8, 3, 9, 9).sc(true).nodes(1).shape(7), false),
    ];
    let picked: Vec<(Job, Arc<Reference>, usize)> = ops
        .iter()
        .filter_map(|(_, g, explain)| {
            let (g, r) = g.pick(1, 400, |_| true).pop()?;
            let mut j = g.job();
            j.params.explainability = *explain;
            j.want_contrib = *explain;
            j.want_score_file = true;
            Some((j, r, g.cols))
        })
        .collect();
    let depth = c.q(3, 4);
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut all = vec![];
    for _ in 0..depth {
        seqs = seqs.iter().flat_map(|s| (0..picked.len()).map(move |i| [s.clone(), vec![i]].concat())).collect();
        all.extend(seqs.clone());
    }
    let mut cases = vec![];
    for s in all {
        let jobs: Vec<Job> = s.iter().map(|i| picked[*i].0.clone()).collect();
        let (j, r, cols) = picked[*s.last().unwrap()].clone();
        let explain = j.params.explainability;
        cases.push(Case::with(format!("calls {s:?}"), one(), move |d, p, t| execute_history(&jobs, d, p, t), move |o| {
            scores_match(o, &r.scores).or_else(|| file_holds(o, &r.scores)).or_else(|| if explain { contributions(o, &r, cols) } else { None })
        }));
    }
    c.par("sequences of calls", cases);
}

// ---- P16: crashes -----------------------------------------------------------------------------

pub fn p16_crashes(c: &mut Ctx) {
    let mut base = vec![];
    for (nodes, threads) in [(2usize, 1usize), (3, 1), (4, 1), (3, 2)].into_iter().take(c.q(3, 4)) {
        base.push(Cfg::new(27 * nodes + 2, 1, 8, 3, 8, 9).sc(true).nodes(nodes).threads(threads));
    }
    let v = stable(c, base, 1, 300, |_| true);
    for (g, r) in v {
        let whole = execute(&g.job(), &[], false, false);
        let events = whole.events;
        let mut cases = vec![];
        for victim in 0..g.nodes {
            for k in 0..=events {
                let mut j = g.job();
                j.crash = Some((k, victim));
                let r = r.clone();
                cases.push(Case::new(format!("{} node {victim} dies after {k} events", g.key()), j, devs(if c.thorough || g.nodes < 4 { 1 } else { 0 }, false), move |o| {
                    if let Some(s) = o.all_scores() {
                        if let Some(m) = same(&s, &r.scores) {
                            if !(s.is_empty()) {
                                return Some(format!("scores are published although a node died: {m}"));
                            }
                        }
                    }
                    if let End::Abort(a) = &o.end {
                        return Some(format!("{a:?}"));
                    }
                    // before that, the others wait for the missing member
                    if !o.formed {
                        return None;
                    }
                    (1..o.stopped.len()).find(|i| !o.stopped[*i]).map(|i| format!("sub node {i} never ends"))
                }));
            }
        }
        c.par(&format!("crash points, {} nodes, {} threads", g.nodes, g.threads), cases);
    }
}

// ---- P17: command line ------------------------------------------------------------------------

fn same_table(got: Option<&str>, want: Option<&str>, cols: usize) -> Option<String> {
    let parse = |t: &str| t.lines().map(|l| l.split(',').map(|x| x.trim().parse::<f64>().unwrap_or(f64::NAN)).collect::<Vec<_>>()).collect::<Vec<_>>();
    let (got, want) = match (got, want) {
        (Some(g), Some(w)) => (parse(g), parse(w)),
        _ => return Some("no contribution file".into()),
    };
    if got.len() != want.len() || got.iter().any(|r| r.len() != cols) {
        return Some(format!("{} contribution rows instead of {} with {cols} channels each", got.len(), want.len()));
    }
    (0..got.len()).find(|i| got[*i].iter().zip(&want[*i]).any(|(a, b)| !((a - b).abs() < 1e-3 || a.is_nan() && b.is_nan()))).map(|i| format!("contribution row {i} is {:?} instead of {:?}", got[i], want[i]))
}

/// Command lines of all members of a cluster: in which form and order the options stand does not matter,
/// which ones are left out decides which defaults count.
fn cluster_command_lines(c: &mut Ctx) {
    use structopt::StructOpt;
    // absent: default of the command line
    let absent: &[&str] = &["", "pattern", "latent", "rate", "query", "self", "threads", "all"];
    let mut grid = vec![];
    for nodes in 2..=c.q(3, 4) {
        for what in absent {
            let no = |x: &str| *what == x || *what == "all";
            let (pl, latent) = if no("latent") { (22, 16) } else { (9, 4) };
            let ql = if no("query") { 75 } else { pl + 3 };
            let rate = if no("rate") { 100 } else { 8 };
            let base = Cfg::new(nodes * (pl + ql + 12) + 1, 2, pl, latent, rate, ql).sc(!no("self")).nodes(nodes).threads(if no("threads") { 8 } else { 2 });
            if no("pattern") || no("rate") {
                // (rare: found by a longer search)
                let (rows, variant) = match (no("rate"), no("self")) {
                    (true, true) if nodes > 2 => (390, 1286),
                    (true, true) => (260, 1758),
                    (true, false) => (260, 1502),
                    _ => (130 * nodes, 1),
                };
                if rows >= 125 * nodes {
                    grid.push((Cfg::new(rows, 1, 50, 16, rate, 75).shape(16).sc(!no("self")).nodes(nodes).threads(base.threads).variant(variant), *what));
                }
                continue;
            }
            for shape in [16usize, 0, 3, 6] {
                grid.push((base.clone().shape(shape), *what));
            }
        }
    }
    let picked = par_map(&grid, |(g, what)| g.pick(1, c.q(150, 600), |_| true).pop().map(|(g, r)| (g, r, *what)));
    let mut cases = vec![];
    let mut missing = absent.to_vec();
    for (g, r, what) in picked.into_iter().flatten() {
        missing.retain(|x| *x != what);
        for form in 0..c.q(6usize, 24) {
            let host = |i: usize| format!("127.0.0.1:{}", 3000 + (i * 7 + form) % 11);
            let params: Option<Vec<Parameters>> = (0..g.nodes)
                .map(|i| {
                    let mut opts: Vec<Vec<String>> = vec![];
                    let mut put = |names: &[&str], v: Option<String>, leave: &str| {
                        if !leave.is_empty() && (what == leave || what == "all") {
                            return;
                        }
                        let name = names[(form + i) % names.len()].to_string();
                        opts.push(match v {
                            None => vec![name],
                            Some(v) if name.starts_with("--") && form % 2 == 0 => vec![format!("{name}={v}")],
                            Some(v) => vec![name, v],
                        });
                    };
                    put(&["--pattern-length", "-p"], Some(g.pl.to_string()), "pattern");
                    put(&["--latent"], Some(g.latent.to_string()), "latent");
                    put(&["--rate"], Some(g.rate.to_string()), "rate");
                    put(&["--query-length", "-q"], Some(g.ql.to_string()), "query");
                    put(&["--threads", "-t"], Some(g.threads.to_string()), "threads");
                    if g.sc {
                        put(&["--self-correction"], None, "self");
                    }
                    put(&["--cluster-nodes", "-n"], Some(g.nodes.to_string()), "");
                    put(&["--local-host", "-l"], Some(host(i)), "");
                    if i == 0 || form % 3 == 1 {
                        put(&["--score-output-path"], Some("out.csv".into()), "");
                    }
                    put(&["--column-start-idx"], Some("1".into()), "");
                    put(&["--column-end-idx=-1"], None, "");
                    let k = opts.len();
                    opts.rotate_left((form + i) % k);
                    let mut args = vec!["s2gpp".to_string()];
                    args.extend(opts.into_iter().flatten());
                    if i == 0 {
                        args.extend(["main".into(), ["--data-path", "-d"][form % 2].into(), "data.csv".into()]);
                    } else {
                        args.extend(["sub".into(), ["--mainhost", "-h"][form % 2].into(), host(0)]);
                    }
                    Parameters::from_iter_safe(args).ok()
                })
                .collect();
            let text = to_csv(&padded(&g.data(), 1, 1));
            let mut j = g.job();
            j.input = Input::Cluster(text, g.nodes);
            let key = format!("cluster command lines without {what:?}, form {form}, {}", g.key());
            let r = r.clone();
            match params {
                None => cases.push(Case::with(key, one(), |_, _, _| Outcome::empty(), |_| Some("the command line of a cluster member is refused".into()))),
                Some(p) => {
                    j.node_params = p;
                    cases.push(Case::new(key, j, one(), move |o| scores_match(o, &r.scores)));
                }
            }
        }
    }
    for m in missing {
        c.skip(&format!("no suitable input for a cluster without option {m:?}"));
    }
    c.par("command lines of clusters", cases);
}

pub fn p17_command_line(c: &mut Ctx) {
    // every option: absent or given (short and long form in turn)
    struct Opt {
        names: &'static [&'static str],
        value: Option<&'static str>,
    }
    let opts = [
        Opt { names: &["--pattern-length", "-p"], value: Some("40") },
        Opt { names: &["--latent"], value: Some("5") },
        Opt { names: &["--rate"], value: Some("9") },
        Opt { names: &["--threads", "-t"], value: Some("3") },
        Opt { names: &["--query-length", "-q"], value: Some("60") },
        Opt { names: &["--self-correction"], value: None },
        Opt { names: &["--column-start-idx"], value: Some("1") },
        Opt { names: &["--column-end-idx"], value: Some("-1") },
        Opt { names: &["--explainability"], value: None },
        Opt { names: &["--local-host", "-l"], value: Some("127.0.0.1:4711") },
        Opt { names: &["--clustering"], value: Some("kde") },
        Opt { names: &["--cluster-nodes", "-n"], value: Some("1") },
        Opt { names: &["--anomaly-contribution-output-path"], value: Some("why.csv") },
    ];
    let n = opts.len();
    let mut cases = vec![];
    for mask in 0u32..1 << n {
        // quick: all subsets of at most three and at least n - 2 options
        let k = mask.count_ones() as usize;
        if k > c.q(2, 4) && k < n - c.q(1, 2) {
            continue;
        }
        let on = |i: usize| mask >> i & 1 == 1;
        let (start, end) = (on(6) as usize, on(7) as usize);
        let g0 = Cfg::new(240, 4 - start - end, if on(0) { 40 } else { 50 }, if on(1) { 5 } else { 16 }, if on(2) { 9 } else { 100 }, if on(4) { 60 } else { 75 }).sc(on(5));
        let form = mask as usize;
        cases.push((g0, mask, form, start));
    }
    let data = |v: u64| gen_data(240, 4, 2, v);
    // The expectation is a library call with every parameter spelled out (P01 decides whether that is
    // right). An option set needs an input for which every parameter matters and hash orders do not.
    let picked = par_map(&cases, |(g, mask, form, start)| {
        let lib = |v: u64, seed: u64, change: &dyn Fn(&mut Parameters)| {
            let mut p = Parameters {
                role: Role::default(),
                local_host: "127.0.0.1:9000".parse().unwrap(),
                n_cluster_nodes: 1,
                score_output_path: None,
                column_start: 0,
                column_end: 0,
                explainability: mask >> 8 & 1 == 1,
                anomaly_contribution_output_path: String::new(),
                n_threads: if mask >> 3 & 1 == 1 { 3 } else { 8 },
                ..g.params()
            };
            change(&mut p);
            let d = data(v).slice(ndarray::s![.., *start..*start + g.cols]).to_owned();
            let mut j = Job::new(p, Input::Memory(d));
            j.seed = seed;
            execute(&j, &[], false, false)
        };
        let good = |o: &Outcome| o.end == End::Done && o.scores.as_ref().map(|s| s.iter().all(|x| x.is_finite())).unwrap_or(false);
        let fits = |v: u64, differ: usize| {
            let o = lib(v, 1, &|_| ());
            if !good(&o) {
                return None;
            }
            let want: Vec<f64> = o.scores.as_ref()?.iter().map(|x| *x as f64).collect();
            if [7919u64, 104729].iter().any(|s| same(lib(v, *s, &|_| ()).scores.as_deref().unwrap_or(&[]), &want).is_some()) {
                return None;
            }
            let others: [&dyn Fn(&mut Parameters); 5] = [&|p| p.pattern_length += 1, &|p| p.latent += 1, &|p| p.rate += 1, &|p| p.query_length += 1, &|p| p.self_correction = !p.self_correction];
            if others[..differ].iter().any(|f| same(lib(v, 1, *f).scores.as_deref().unwrap_or(&[]), &want).is_none()) {
                return None;
            }
            Some((v, *mask, *form, g.cols, want, o.contrib_file))
        };
        (1..=c.q(10u64, 40)).find_map(|v| fits(v, 5)).or_else(|| (1..=c.q(10u64, 40)).find_map(|v| fits(v, 4)))
    });
    let missing = picked.iter().filter(|x| x.is_none()).count();
    for _ in 0..missing {
        c.skip("option set without a suitable input");
    }
    let mut run = vec![];
    for (v, mask, form, cols, r, why) in picked.into_iter().flatten() {
        let mut args: Vec<String> = vec![];
        for (i, o) in opts.iter().enumerate() {
            if mask >> i & 1 == 1 {
                let name = o.names[(form + i) % o.names.len()];
                match o.value {
                    None => args.push(name.into()),
                    Some(x) if name.starts_with("--") && (x.starts_with('-') || (form + i) % 3 == 0) => args.push(format!("{name}={x}")),
                    Some(x) => args.extend([name.to_string(), x.to_string()]),
                }
            }
        }
        args.extend(["--score-output-path".into(), "out.csv".into(), "main".into(), ["--data-path", "-d"][form % 2].into(), "data.csv".into()]);
        let explain = mask >> 8 & 1 == 1;
        let contrib = if mask >> 12 & 1 == 1 { "why.csv" } else { "anomaly-contribution.csv" };
        let csv = to_csv(&data(v));
        let name = format!("variant={v} s2gpp {}", args.join(" "));
        run.push(Case::with(name, one(), move |_, _, _| crate::cli::run(&args, &csv, "out.csv", contrib), move |o| {
            if o.end != End::Done {
                return Some(format!("the command fails: {}", short(o)));
            }
            let want: Vec<&str> = if explain { vec![contrib, "out.csv"] } else { vec!["out.csv"] };
            let mut want: Vec<String> = want.into_iter().map(Into::into).collect();
            want.sort();
            if o.trace != want {
                return Some(format!("files {:?} are written instead of {want:?}", o.trace));
            }
            file_holds(o, &r).or_else(|| if explain { same_table(o.contrib_file.as_deref(), why.as_deref(), cols) } else { None })
        }));
    }
    c.par("option sets", run);
    cluster_command_lines(c);
    // explainability is refused in a cluster; roles and their options are mandatory
    let mut refuse = vec![];
    for args in [
        vec!["--explainability", "--cluster-nodes", "2", "main", "--data-path", "data.csv"],
        vec!["--explainability", "-n", "3", "sub", "--mainhost", "127.0.0.1:4000"],
        vec!["--pattern-length", "8"],
        vec!["sub"],
        vec!["--rate", "x", "main", "-d", "data.csv"],
        vec!["--clustering", "nothing", "main", "-d", "data.csv"],
        vec!["--local-host", "nowhere", "main", "-d", "data.csv"],
        vec!["--pattern-length", "-5", "main", "-d", "data.csv"],
    ] {
        let args: Vec<String> = args.into_iter().map(Into::into).collect();
        let csv = to_csv(&data(1));
        refuse.push(Case::with(format!("refused: s2gpp {}", args.join(" ")), one(), move |_, _, _| crate::cli::run(&args, &csv, "out.csv", "anomaly-contribution.csv"), |o| {
            if o.end == End::Done || short(o).contains(&format!("Some({WAITS})")) {
                Some("the command is not refused".into())
            } else {
                (!o.trace.is_empty()).then(|| format!("a refused command writes {:?}", o.trace))
            }
        }));
    }
    c.par("refused command lines", refuse);
}

// ---- P18: memory layouts --------------------------------------------------------------------

/// The same series in an owned array whose elements lie differently in memory.
fn in_layout(a: &ndarray::Array2<f32>, layout: &str) -> ndarray::Array2<f32> {
    use ndarray::{s, Array2, Axis};
    let (n, m) = a.dim();
    let b = match layout {
        "rows" => a.clone(),
        "columns" => {
            let mut b = Array2::zeros((m, n));
            b.assign(&a.t());
            b.reversed_axes()
        }
        "part of a wider array" => {
            let mut b = Array2::from_elem((n + 3, m + 2), 1e3);
            b.slice_mut(s![2..n + 2, 1..m + 1]).assign(a);
            b.slice_collapse(s![2..n + 2, 1..m + 1]);
            b
        }
        "every second column" => {
            let mut b = Array2::from_elem((n, 2 * m), -1e3);
            b.slice_mut(s![.., ..;2]).assign(a);
            b.slice_collapse(s![.., ..;2]);
            b
        }
        "every second row of columns" => {
            let mut b = Array2::from_elem((m, 2 * n), 1e3);
            b.slice_mut(s![.., ..;2]).assign(&a.t());
            b.slice_collapse(s![.., ..;2]);
            b.reversed_axes()
        }
        "rows backwards" => {
            let mut b = Array2::zeros((n, m));
            b.slice_mut(s![..;-1, ..]).assign(a);
            b.invert_axis(Axis(0));
            b
        }
        "columns backwards" => {
            let mut b = Array2::zeros((n, m));
            b.slice_mut(s![.., ..;-1]).assign(a);
            b.invert_axis(Axis(1));
            b
        }
        _ => unreachable!(),
    };
    assert!(b == a);
    b
}

pub fn p18_layouts(c: &mut Ctx) {
    let mut grid = vec![];
    for cols in 1..=c.q(4, 6) {
        for threads in [1, 2, 3] {
            for (rows, pl, latent, rate, ql) in [(60usize, 8usize, 3usize, 7usize, 9usize), (75, 9, 4, 9, 12), (64, 6, 2, 13, 6), (61, 7, 1, 8, 20)] {
                for sc in [false, true] {
                    for shape in [0usize, 5] {
                        grid.push(Cfg::new(rows, cols, pl, latent, rate, ql).shape(shape).sc(sc).threads(threads));
                    }
                }
            }
        }
    }
    let mut v = stable(c, grid, c.q(1, 4), c.q(40, 200), |_| true);
    let l = stable(c, large(0), 1, c.q(100, 1000), |_| true);
    v.extend(l);
    let mut cases = vec![];
    for (g, r) in v {
        for layout in ["rows", "columns", "part of a wider array", "every second column", "every second row of columns", "rows backwards", "columns backwards"] {
            for explain in [false, true] {
                let mut p = g.params();
                p.explainability = explain;
                let mut j = Job::new(p, Input::Memory(in_layout(&g.data(), layout)));
                j.want_contrib = explain;
                let (r, cols) = (r.clone(), g.cols);
                cases.push(Case::new(format!("{} layout={layout} explain={explain}", g.key()), j, one(), move |o| scores_match(o, &r.scores).or_else(|| if explain { contributions(o, &r, cols) } else { None })));
            }
        }
    }
    c.par("layouts of the array", cases);
}

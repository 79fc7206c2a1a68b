//! Experiments (calibration of the margins, dumps of the wire traffic); no check uses this.
use crate::cfg::*;
use crate::sim::*;

pub fn main(args: &[String]) {
    match args.first().map(|s| s.as_str()) {
        Some("diag") => {
            let a: Vec<usize> = args[1..].iter().map(|x| x.parse().unwrap()).collect();
            let g = Cfg::new(a[0], a[1], a[2], a[3], a[4], a[5]).threads(a[6]).nodes(a[7]).variant(a[8] as u64).sc(true);
            let mut job = g.job();
            job.record = true;
            let o = execute(&job, &[], false, false);
            for f in &o.frames {
                let v: Result<serde_json::Value, _> = flexbuffers::from_slice(&f.payload);
                println!("{} -> {} {} {} {}", f.from, f.to, f.actor, f.identifier, match v { Ok(v) => v.to_string().chars().take(if a.len() > 9 { a[9] } else { 300 }).collect::<String>(), Err(e) => format!("ERR {e} {}", f.payload.len()) });
            }
            println!("{:?} {:?}", o.end, o.all_scores());
        }
        Some("case") => {
            let g = Cfg::parse(&args[1]);
            let r = g.reference().unwrap();
            println!("margins {:?} safety {}", r.margins, r.margins.safety());
            println!("transitions {:?} edges {}", r.transitions, r.edges.len());
            for n in 0..=g.nodes.max(1) {
                let o = execute(&g.clone().nodes(n).order(vec![]).job(), &[], false, false);
                println!("nodes {n}: {:?}", crate::checks::scores_match(&o, &r.scores));
            }
        }
        Some("any") => {
            let g = Cfg::parse(&args[1]);
            match g.reference() {
                Some(r) => println!("margins {:?} safety {} nan {}", r.margins, r.margins.safety(), r.scores.iter().any(|x| x.is_nan())),
                None => println!("no reference"),
            }
            for n in [0, 1, g.nodes.max(2)] {
                let o = execute(&g.clone().nodes(n).order(vec![]).job(), &[], false, false);
                println!("nodes {n}: {:?} {:?}", o.end, o.all_scores().iter().map(|s| (s.len(), s.iter().filter(|x| x.is_nan()).count())).collect::<Vec<_>>());
            }
        }
        Some("frames") => {
            let g = Cfg::parse(&args[1]);
            let mut job = g.job();
            job.record = true;
            let o = execute(&job, &[], false, false);
            for f in &o.frames {
                let v: Result<serde_json::Value, _> = flexbuffers::from_slice(&f.payload);
                println!("{} -> {} {} {} {}", f.from, f.to, f.actor, f.identifier, match v { Ok(v) => v.to_string(), Err(e) => format!("ERR {e} {}", f.payload.len()) });
            }
            let r = g.reference().unwrap();
            println!("REF edges {:?}", r.edges);
            println!("REF ints {}", serde_json::to_string(&r.intersections).unwrap());
            println!("REF path {}", serde_json::to_string(&r.path).unwrap());
            println!("REF eit {:?}", r.edges_in_time);
        }
        Some("cmargins") => {
            let tries: u64 = args[1].parse().unwrap();
            let mut all = vec![];
            for n in 2..=6usize {
                for shape in 0..9 {
                    for cols in 1..=3 {
                        for (pl, latent, ql) in [(8usize, 3usize, 8usize), (9, 4, 12), (12, 4, 13), (7, 1, 9), (16, 8, 16)] {
                            for rate in [6usize, 9, 13, 20] {
                                for v in 1..=tries {
                                    let rows = n * (pl + ql + 8) + (v as usize) % n;
                                    all.push(Cfg::new(rows, cols, pl, latent, rate.max(n), ql).shape(shape).sc(true).nodes(n).variant(v));
                                }
                            }
                        }
                    }
                }
            }
            let r = par_map(&all, |g| {
                let r = g.reference()?;
                if r.margins.safety() < 0.3 || !r.scores.iter().all(|x| x.is_finite()) || !g.distributable(&r) {
                    return None;
                }
                let o = execute(&g.job(), &[], false, false);
                let bad = crate::checks::scores_match(&o, &r.scores);
                Some((r.margins.safety(), bad, g.key(), format!("{:?}", r.margins)))
            });
            let mut r: Vec<_> = r.into_iter().flatten().collect();
            r.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
            for t in [0.3, 1.0, 2.0, 5.0, 10.0, 20.0, 50.0] {
                println!("safety >= {t}: {} runs, {} disagree", r.iter().filter(|x| x.0 >= t).count(), r.iter().filter(|x| x.0 >= t && x.1.is_some()).count());
            }
            for x in r.iter().filter(|x| x.1.is_some()).take(30) {
                println!("{:.2} {:?}\n   {}\n   {}", x.0, x.1, x.2, x.3);
            }
        }
        Some("crash") => {
            let g = Cfg::parse(&args[1]);
            let r = g.reference().unwrap();
            let whole = execute(&g.job(), &[], false, true);
            for (i, l) in whole.trace.iter().enumerate() {
                println!("{i} {l}");
            }
            for victim in 0..g.nodes {
                for k in 0..=whole.events {
                    let mut j = g.job();
                    j.crash = Some((k, victim));
                    let o = execute(&j, &[], false, false);
                    let sc = o.all_scores().map(|s| crate::checks::same(&s, &r.scores).is_none());
                    println!("victim {victim} after {k}: end {} stopped {:?} scores {:?}", crate::checks::short(&o), o.stopped, sc);
                }
            }
        }
        // lab csv <key> <dir>: input and correct scores as files
        Some("csv") => {
            let g = Cfg::parse(&args[1]);
            let r = g.reference().unwrap();
            println!("safety {} finite {} distributable {} forward {} backward {}", r.margins.safety(), r.scores.iter().all(|x| x.is_finite()), g.distributable(&r), r.forward, r.backward);
            std::fs::write(format!("{}/data.csv", args[2]), to_csv(&g.data())).unwrap();
            let t: String = r.scores.iter().map(|x| format!("{x}\n")).collect();
            std::fs::write(format!("{}/expected.csv", args[2]), t).unwrap();
        }
        // lab pick <key>: the first well-conditioned variant
        // lab large <nodes> <variants>: which large inputs are well-conditioned
        Some("large") => {
            let (nodes, tries): (usize, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
            let l = crate::checks::large(nodes);
            let p = par_map(&l, |g| g.pick(1, tries, |_| true).pop());
            for (g, p) in l.iter().zip(p) {
                let t = std::time::Instant::now();
                let m = p.as_ref().map(|(g, r)| crate::checks::scores_match(&execute(&g.job(), &[], false, false), &r.scores));
                println!("{} -> {:?} {:?} {:.2} s", g.key(), p.map(|(g, r)| (g.variant, r.margins.safety(), r.scores.iter().filter(|x| **x > 0.5).count())), m, t.elapsed().as_secs_f64());
            }
        }
        Some("pick") => {
            let g = Cfg::parse(&args[1]);
            let class = args.get(2).map(|s| s.as_str()).unwrap_or("");
            for (g, r) in g.pick(3, 4000, |r| match class {
                "tie" => r.forward == r.backward,
                "mirrored" => r.mirrored,
                _ => true,
            }) {
                println!("{} safety {:.1} forward {} backward {}", g.key(), r.margins.safety(), r.forward, r.backward);
            }
        }
        // lab quiet: cluster runs in which a partition has hardly any transitions
        Some("quiet") => {
            let tries: u64 = args.get(1).and_then(|x| x.parse().ok()).unwrap_or(40);
            let extra: usize = args.get(2).and_then(|x| x.parse().ok()).unwrap_or(10);
            let small = extra < 4;
            let mut all = vec![];
            for n in [2usize, 3, 4, 5] {
                for shape in [0usize, 9, 10, 11, 14, 15] {
                    for cols in [1usize, 2] {
                        for (pl, latent, ql) in [(8usize, 3usize, 9usize), (6, 2, 7), (12, 4, 13)] {
                            for rate in [4usize, 6, 9, 13] {
                                for v in 1..=tries {
                                    let rows = n * (pl + ql + extra) - 2 * n + (v as usize) % n;
                                    all.push(Cfg::new(rows, cols, pl, latent, rate.max(n), ql).shape(shape).sc(true).nodes(n).variant(v));
                                }
                            }
                        }
                    }
                }
            }
            let r = par_map(&all, |g| {
                let r = g.stable()?;
                if r.transitions.is_empty() {
                    return None;
                }
                let part = g.rows / g.nodes;
                let counts: Vec<usize> = (0..g.nodes)
                    .map(|i| {
                        let (a, b) = (i * part, if i + 1 == g.nodes { r.n_points } else { (i + 1) * part });
                        r.transitions.iter().filter(|t| **t >= a && **t < b).count().min(2)
                    })
                    .collect();
                let o = execute(&g.job(), &[], false, false);
                let bad = crate::checks::scores_match(&o, &r.scores);
                Some((if small { vec![part, g.ql, g.pl] } else { counts }, bad, g.key()))
            });
            let mut m: std::collections::BTreeMap<(Vec<usize>, String), (usize, String)> = Default::default();
            for (c, b, k) in r.into_iter().flatten() {
                let b = b.map(|b| if b.starts_with("score") { "score differs".to_string() } else { b }).unwrap_or("ok".into());
                let e = m.entry((c, b)).or_insert((0, k));
                e.0 += 1;
            }
            for ((c, b), (n, k)) in m {
                println!("{c:?} x{n}: {b}\n     {k}");
            }
        }
        Some("margins") => margins(),
        _ => eprintln!("lab diag|margins"),
    }
    crate::ctx::cleanup();
}

fn margins() {
    let next_shapes: Vec<usize> = (0..7).collect();
    for &shape in &next_shapes {
        for &(rows, cols, pl, latent, rate, ql) in &[(60usize, 1usize, 8usize, 3usize, 6usize, 8usize), (90, 2, 8, 3, 7, 9), (120, 1, 9, 3, 12, 10), (120, 3, 9, 3, 8, 9), (160, 2, 20, 8, 20, 12)] {
            let vs: Vec<u64> = (1..600).collect();
            let r = par_map(&vs, |v| {
                let g = Cfg::new(rows, cols, pl, latent, rate, ql).shape(shape).variant(*v).sc(true);
                let r = g.reference()?;
                let o = execute(&g.job(), &[], false, false);
                let ok = crate::checks::scores_match(&o, &r.scores).is_none();
                Some((r.margins.safety(), ok))
            });
            let n = r.iter().flatten().count();
            let stable = r.iter().flatten().filter(|x| x.0 >= SAFETY).count();
            let worst = r.iter().flatten().filter(|x| !x.1).map(|x| x.0).fold(0.0, f64::max);
            let bad = r.iter().flatten().filter(|x| !x.1).count();
            println!("shape {shape} rows {rows} cols {cols} pl {pl} rate {rate}: defined {n} stable {stable} disagree {bad} largest safety of a disagreement {worst:.3}");
        }
    }
}

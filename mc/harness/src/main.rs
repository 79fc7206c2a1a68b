mod cfg;
mod checks;
mod checks2;
mod cli;
mod ctx;
mod lab;
mod oracle;
mod sched;
mod sim;
use ctx::*;

fn main() {
    sim::install_panic_hook();
    if std::env::var_os(cli::VAR).is_some() {
        cli::child();
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = &args[1];
            let thorough = args.get(2).map(|t| t == "thorough").unwrap_or(false);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let budget = args.get(3).and_then(|b| b.parse().ok()).unwrap_or(if thorough { 600.0 } else { 300.0 });
            let check = match checks::CHECKS.iter().find(|c| c.id == id) {
                Some(c) => c,
                None => {
                    eprintln!("unknown property {id}");
                    std::process::exit(2);
                }
            };
            let mut c = Ctx::new(id, thorough, seed, budget);
            silence_stdout();
            watchdog(id.clone(), 180.0);
            (check.run)(&mut c);
            write_evidence(&c);
            cleanup();
            let n: u64 = c.groups.values().map(|g| g.executions).sum();
            if c.evaluations == 0 {
                eprintln!("nothing was explored");
                std::process::exit(2);
            }
            out(&format!("{id}: {n} executions in {:.1} s, complete={}", c.start.elapsed().as_secs_f64(), c.groups.values().all(|g| g.incomplete == 0)));
            for (k, g) in &c.groups {
                out(&format!("   {k}: {} cases, {} executions, {} distinct outcomes, {} cut by time, max {} choice points; {}", g.cases, g.executions, g.outcomes.len(), g.incomplete, g.max_choice_points, g.bound));
            }
            for (k, g) in &c.skipped {
                out(&format!("   skipped: {k}: {g}"));
            }
            std::process::exit(c.violation.is_some() as i32);
        }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).expect("json");
            let id = j["property"].as_str().unwrap().to_string();
            let devs = j["schedule"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as u32, x[1].as_u64().unwrap() as u32)).collect();
            let check = checks::CHECKS.iter().find(|c| c.id == id).expect("property");
            let thorough = args.get(2).map(|t| t == "thorough").unwrap_or(false);
            let mut c = Ctx::new(&id, thorough, 1, 1e9);
            c.replay = Some((j["case"].as_str().unwrap().to_string(), devs, j["preempt"].as_bool().unwrap()));
            silence_stdout();
            (check.run)(&mut c);
            cleanup();
            match c.replayed {
                Some((o, v)) => {
                    for l in &o.trace {
                        out(l);
                    }
                    out(&format!("end: {}, stopped {:?}", checks::short(&o), o.stopped));
                    out(&format!("scores: {:?}", o.all_scores()));
                    out(&format!("verdict: {}", v.clone().unwrap_or_else(|| "holds".into())));
                    std::process::exit(v.is_some() as i32);
                }
                None => {
                    eprintln!("no such case (other tier?)");
                    std::process::exit(2);
                }
            }
        }
        // one configuration key per line on stdin: the first stable variant with its series and scores
        Some("reference") => {
            let keys: Vec<String> = std::io::stdin().lines().map(|l| l.unwrap()).collect();
            let variants = args.get(1).and_then(|v| v.parse().ok()).unwrap_or(40);
            let found = cfg::par_map(&keys, |k| cfg::Cfg::parse(k).pick(1, variants, |_| true).pop());
            for (k, f) in keys.iter().zip(found) {
                let j = match f {
                    Some((c, r)) => serde_json::json!({"asked": k, "key": c.key(), "scores": r.scores, "data": c.data().outer_iter().map(|x| x.to_vec()).collect::<Vec<_>>()}),
                    None => serde_json::json!({"asked": k}),
                };
                println!("{j}");
            }
        }
        Some("lab") => lab::main(&args[1..]),
        _ => {
            eprintln!("usage: s2gpp-mc check <property> [quick|thorough] [seconds] | replay <file> | lab ...");
            std::process::exit(2);
        }
    }
}

//! The command line front end of /repo, run in a child process of the harness (it reads the process'
//! arguments) under the controlled scheduler.
use crate::sim::{Outcome, End, Scratch};
use std::process::{Command, Stdio};

#[allow(dead_code, unused_imports)]
mod front {
    include!("/repo/src/bin/s2gpp.rs");
    pub fn entry() {
        main()
    }
}

pub const VAR: &str = "S2GPP_MC_CLI";

/// in the child process
pub fn child() -> ! {
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(crate::sim::default_world(|| front::entry())).unwrap();
    std::process::exit(h.join().unwrap_or(101));
}

/// Runs the command line in a fresh directory that contains data.csv.
pub fn run(args: &[String], csv: &str, score_file: &str, contrib_file: &str) -> Outcome {
    let dir = Scratch::new();
    std::fs::write(dir.path("data.csv"), csv).unwrap();
    let exe = std::env::current_exe().expect("own path");
    let mut child = Command::new(exe)
        .args(args)
        .env(VAR, "1")
        .env("RUST_LOG", "off")
        .current_dir(&dir.0)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("child process");
    let start = std::time::Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break s.code();
        }
        if start.elapsed().as_secs() > 120 {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    };
    let files: Vec<String> = {
        let mut f: Vec<String> = std::fs::read_dir(&dir.0).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
        f.retain(|x| x != "data.csv");
        f.sort();
        f
    };
    let mut o = Outcome::empty();
    if status != Some(0) {
        o.end = End::Abort(actix_rt::mc::Abort::Panic { node: 0, message: format!("exit status {status:?}") });
    }
    o.score_file = std::fs::read_to_string(dir.path(score_file)).ok();
    o.contrib_file = std::fs::read_to_string(dir.path(contrib_file)).ok();
    o.trace = files;
    o
}

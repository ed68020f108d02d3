//! C34: generated operations under sanitizers. Each engine is the driver of /verif/san built with a
//! memory checker; the checker is the oracle. This file runs the drivers, reads their verdicts
//! and shrinks what they find.

use crate::engine::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

pub struct Engine {
    pub name: &'static str,
    kind: &'static str,
    /// Cases in all: quick, thorough.
    cases: (u64, u64),
    dir: &'static str,
}

pub const ENGINES: &[Engine] = &[
    Engine { name: "address-sanitizer", kind: "ops", cases: (1_600_000, 24_000_000), dir: "address" },
    Engine { name: "memory-sanitizer", kind: "ops", cases: (1_600_000, 24_000_000), dir: "memory" },
    Engine { name: "thread-sanitizer", kind: "threads", cases: (48_000, 600_000), dir: "thread" },
    Engine { name: "miri", kind: "ops", cases: (0, 3_000), dir: "miri" },
];

pub fn engine(name: &str) -> Option<&'static Engine> {
    ENGINES.iter().find(|e| e.name == name)
}

impl Engine {
    pub fn cases(&self, thorough: bool) -> u64 {
        if thorough { self.cases.1 } else { self.cases.0 }
    }
    fn command(&self, root: &str) -> Command {
        let mut c = if self.name == "miri" {
            let mut c = Command::new("cargo");
            c.args(["+nightly", "miri", "run", "--offline", "--locked", "--quiet", "--manifest-path"])
                .arg(format!("{root}/Cargo.toml"))
                .arg("--target-dir")
                .arg(format!("{root}/target/miri"))
                .arg("--")
                .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks")
                .env("PGDT_REPO", "/nonexistent")
                .env_remove("RUSTFLAGS")
                .env_remove("CARGO_TARGET_DIR");
            c
        } else {
            Command::new(format!("{root}/target/{}/x86_64-unknown-linux-gnu/release/pgdt-san", self.dir))
        };
        c.env("ASAN_OPTIONS", "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1")
            .env("MSAN_OPTIONS", "exitcode=77:abort_on_error=0:allocator_may_return_null=1")
            .env("TSAN_OPTIONS", "exitcode=77:halt_on_error=1:abort_on_error=0:allocator_may_return_null=1")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null());
        c
    }
}

enum Verdict {
    Fine,
    Wrong(String),
    /// Ended without an answer.
    Trouble(String),
}

fn judge(st: ExitStatus, out: &str, err: &str) -> Verdict {
    if st.success() {
        return Verdict::Fine;
    }
    let marks = [
        "ERROR: AddressSanitizer",
        "AddressSanitizer:DEADLYSIGNAL",
        "WARNING: MemorySanitizer",
        "MemorySanitizer:DEADLYSIGNAL",
        "WARNING: ThreadSanitizer",
        "ThreadSanitizer:DEADLYSIGNAL",
        "Undefined Behavior",
        "unsafe precondition(s) violated",
        "from an invalid value",
    ];
    let no_memory = ["out-of-memory", "allocation-size-too-big", "memory allocation of"];
    if let Some(l) = out.lines().find(|l| l.starts_with("WRONG ")) {
        return Verdict::Wrong(l[6..].to_string());
    }
    if !no_memory.iter().any(|m| err.contains(m)) {
        if let Some(l) = err.lines().find(|l| marks.iter().any(|m| l.contains(m))) {
            let place = err.lines().find(|l| l.contains("/repo/") || l.contains("pgdatetime")).unwrap_or("").trim();
            return Verdict::Wrong(format!("{} {}", l.trim().trim_start_matches('='), place));
        }
    }
    Verdict::Trouble(format!("ended with {st}: {}", err.lines().rev().take(3).collect::<Vec<_>>().join(" / ")))
}

fn finish(mut c: Child, deadline: Instant) -> Option<ExitStatus> {
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) if Instant::now() < deadline => std::thread::sleep(Duration::from_millis(5)),
            _ => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
        }
    }
}

/// One case from its tape. Some(text, message) when it is wrong.
fn one(e: &Engine, root: &str, tape: &[u64]) -> (String, Option<String>) {
    let t = tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",");
    let Ok(o) = e.command(root).args(["tape", e.kind, if t.is_empty() { "0" } else { &t }]).output() else { return (String::new(), None) };
    let out = String::from_utf8_lossy(&o.stdout);
    let text = out.lines().find_map(|l| l.strip_prefix("TEXT ")).unwrap_or("").to_string();
    match judge(o.status, &out, &String::from_utf8_lossy(&o.stderr)) {
        Verdict::Wrong(m) => (text, Some(m)),
        _ => (text, None),
    }
}

fn dir() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("pgdt-san-{}", std::process::id()))
}

pub fn run(e: &'static Engine, root: &str, seed: u64, threads: usize, cases: u64, thorough: bool) -> Result<SubReport, String> {
    let t0 = Instant::now();
    let d = dir();
    std::fs::create_dir_all(&d).map_err(|x| x.to_string())?;
    let limit = t0 + Duration::from_secs(if thorough { 4 * 3600 } else { 700 });
    // Does the checker start here at all?
    let o = e.command(root).args(["work", e.kind]).arg(d.join("probe")).args(["1", "0", "1", "0"]).output().map_err(|x| format!("{}: {x}", e.name))?;
    if !o.status.success() {
        return Err(format!("{} does not start: {}", e.name, String::from_utf8_lossy(&o.stderr).lines().take(3).collect::<Vec<_>>().join(" / ")));
    }
    let mut kids = vec![];
    for i in 0..threads {
        let p = d.join(format!("{}-{i}", e.dir));
        let f = |x: &str| std::fs::File::create(format!("{}.{x}", p.display()));
        let kid = e
            .command(root)
            .args(["work", e.kind])
            .arg(&p)
            .args([seed.to_string(), i.to_string(), threads.to_string(), cases.to_string()])
            .stdout(f("out").map_err(|x| x.to_string())?)
            .stderr(f("err").map_err(|x| x.to_string())?)
            .spawn()
            .map_err(|x| x.to_string())?;
        kids.push((i as u64, p, kid));
    }
    let mut rep = SubReport {
        name: e.name,
        evals: 0,
        distinct_nontrivial: 0,
        exhaustive: false,
        labels: BTreeMap::new(),
        samples: vec![],
        known: BTreeMap::new(),
        failure: None,
        wall: 0.0,
    };
    let mut keys = HashSet::new();
    let mut bad: Option<(u64, u64, String)> = None;
    let mut trouble = None;
    for (i, p, kid) in kids {
        let st = finish(kid, limit);
        let read = |x: &str| std::fs::read(format!("{}{x}", p.display())).unwrap_or_default();
        let (out, err) = (String::from_utf8_lossy(&read(".out")).into_owned(), String::from_utf8_lossy(&read(".err")).into_owned());
        let at = read("").get(..8).map_or(i, |b| u64::from_le_bytes(b.try_into().unwrap()));
        rep.samples.extend(out.lines().filter_map(|l| l.strip_prefix("SAMPLE ")).map(String::from));
        for k in read(".keys").chunks_exact(8) {
            if keys.len() < 4_000_000 {
                keys.insert(u64::from_le_bytes(k.try_into().unwrap()));
            }
        }
        rep.evals += out.lines().find_map(|l| l.strip_prefix("DONE ")).and_then(|n| n.trim().parse().ok()).unwrap_or((at - i) / threads as u64);
        match st.map(|st| judge(st, &out, &err)) {
            Some(Verdict::Fine) => {}
            Some(Verdict::Wrong(m)) => {
                if bad.as_ref().map_or(true, |b| at < b.1) {
                    bad = Some((i, at, m));
                }
            }
            Some(Verdict::Trouble(m)) => trouble = Some(format!("{} worker {i} at case {at} {m}", e.name)),
            None => trouble = Some(format!("{} worker {i} at case {at} did not finish", e.name)),
        }
    }
    rep.distinct_nontrivial = keys.len() as u64;
    if let Some((first, at, msg)) = bad {
        let o = e.command(root).args(["case", e.kind]).arg(d.join("c")).args([seed.to_string(), at.to_string()]).output();
        let out = o.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
        let tape: Vec<u64> = out.lines().find_map(|l| l.strip_prefix("TAPE ")).unwrap_or("").split(',').filter_map(|v| v.parse().ok()).collect();
        rep.failure = Some(if !tape.is_empty() && one(e, root, &tape).1.is_some() {
            let small = shrink_by(tape.clone(), 60, &mut |t| one(e, root, t).1.is_some());
            let (text, m) = one(e, root, &small);
            let (small, text, m) = if m.is_some() { (small, text, m) } else { let (x, m) = one(e, root, &tape); (tape, x, m) };
            Failure { sub: e.name, msg: m.unwrap_or(msg), desc: text, replay: json!({"kind": "san", "tape": small.iter().map(|v| v.to_string()).collect::<Vec<_>>()}) }
        } else {
            let desc = out.lines().find_map(|l| l.strip_prefix("TEXT ")).unwrap_or("").to_string();
            let msg = format!("{msg} (only with the cases before it in the same process)");
            Failure { sub: e.name, msg, desc, replay: json!({"kind": "san-run", "seed": seed.to_string(), "first": first, "step": threads, "cases": at + 1}) }
        });
    }
    let _ = std::fs::remove_dir_all(&d);
    rep.wall = t0.elapsed().as_secs_f64();
    match trouble {
        Some(t) if rep.failure.is_none() => Err(t),
        _ => Ok(rep),
    }
}

pub fn replay(e: &'static Engine, root: &str, v: &Value) -> (R, String) {
    let num = |x: &Value| -> u64 { x.as_u64().or_else(|| x.as_str().and_then(|s| s.parse().ok())).unwrap_or(0) };
    if v["kind"] == "san" {
        let tape: Vec<u64> = v["tape"].as_array().map(|a| a.iter().map(num).collect()).unwrap_or_default();
        let (text, m) = one(e, root, &tape);
        return (m.map_or(Ok(()), |m| Err(Fail::from(m))), text);
    }
    let d = dir();
    let _ = std::fs::create_dir_all(&d);
    let o = e
        .command(root)
        .args(["work", e.kind])
        .arg(d.join("replay"))
        .args([num(&v["seed"]), num(&v["first"]), num(&v["step"]), num(&v["cases"])].map(|n| n.to_string()))
        .output();
    let _ = std::fs::remove_dir_all(&d);
    let r = match o.map(|o| judge(o.status, &String::from_utf8_lossy(&o.stdout), &String::from_utf8_lossy(&o.stderr))) {
        Ok(Verdict::Wrong(m)) => Err(Fail::from(m)),
        _ => Ok(()),
    };
    (r, format!("cases {} to {} by {} of seed {}", v["first"], v["cases"], v["step"], v["seed"]))
}

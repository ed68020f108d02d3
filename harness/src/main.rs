//! pgdt-check PROPERTY [quick|thorough] [--replay FILE] [--sub NAME]
//!
//! Exit status: 0 the property held on everything explored, 1 a violation was found (with a
//! VIOLATION line), 2 usage or set-up error, 3 no answer (a case did not finish in time).

use pgdt_harness::engine::*;
use pgdt_harness::{guided, san};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

#[global_allocator]
static ALLOC: pgdt_harness::poison::Poison = pgdt_harness::poison::Poison;

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Lines "KNOWN property=<id> fingerprint=<text> :: <description>"; other lines are records.
fn known_findings(prop: &str) -> BTreeMap<String, String> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    let mut m = BTreeMap::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix(&format!("known: property={prop} fingerprint=")) {
            if let Some((fp, what)) = rest.split_once(" :: ") {
                m.insert(fp.trim().to_string(), what.trim().to_string());
            }
        }
    }
    m
}

enum Stage<'a> {
    Sub(&'a Sub),
    /// The coverage-guided driver's path.
    Guided(String),
    San(&'static san::Engine),
}

impl Stage<'_> {
    fn name(&self) -> &'static str {
        match self {
            Stage::Sub(s) => s.name,
            Stage::Guided(_) => guided::SUB,
            Stage::San(e) => e.name,
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut prop = None;
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut replay_file = None;
    let mut only = None;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                i += 1;
                replay_file = args.get(i).cloned();
            }
            "--sub" => {
                i += 1;
                only = args.get(i).cloned();
            }
            "quick" | "thorough" => tier = args[i].clone(),
            a => prop = Some(a.to_string()),
        }
        i += 1;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let all = pgdt_harness::props::all();
    install_panic_hook();
    if args.first().map_or(false, |a| a == "--eval") {
        let mut t = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).expect("standard input");
        println!("{}", pgdt_harness::props::history::eval(&args[1], &t));
        return;
    }

    if let Some(f) = replay_file {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("replay JSON");
        let id = v["property"].as_str().unwrap();
        let p = all.into_iter().find(|p| p.id == id).expect("property");
        let name = v["sub"].as_str().unwrap();
        let (r, desc) = if name == guided::SUB {
            let b: Vec<u8> = v["replay"]["bytes"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default();
            guided::judge(p.id, &b)
        } else if let Some(e) = san::engine(name) {
            san::replay(e, &format!("{}/san", verif_dir()), &v["replay"])
        } else {
            let s = p.subs.iter().find(|s| s.name == name).expect("sub-check");
            replay(p.id, s, &v["replay"])
        };
        println!("case: {desc}");
        match r {
            Ok(()) => println!("holds"),
            Err(e) => {
                println!("fails: {}", e.msg);
                println!("VIOLATION property={id} replay={f}");
                std::process::exit(1);
            }
        }
        return;
    }

    let Some(id) = prop else {
        for p in &all {
            println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
        }
        return;
    };
    let Some(p) = all.into_iter().find(|p| p.id == id) else {
        eprintln!("no property {id}");
        std::process::exit(2);
    };
    let thorough = tier == "thorough";
    let known = known_findings(p.id);
    let threads = std::env::var("PGDT_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()));
    let div = std::env::var("PGDT_DIV").ok().and_then(|s| s.parse().ok()).filter(|&d| d > 0).unwrap_or(1);
    let cfg = Config { seed, thorough, threads, div, known: known.keys().cloned().collect::<HashSet<_>>() };
    start_watchdog(if thorough { 6 * 3600 } else { 840 });

    let dir = verif_dir();
    let t0 = Instant::now();
    let mut evals = 0;
    let mut distinct = 0;
    let mut samples: Vec<Value> = vec![];
    let mut subs = vec![];
    let mut exhaustive = vec![];
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut failure = None;
    let fuzz_bin = std::env::var("PGDT_FUZZ_BIN").ok().filter(|b| thorough && !b.is_empty() && matches!(p.id, "C13" | "C14"));
    let mut stages: Vec<Stage> = p.subs.iter().map(Stage::Sub).collect();
    stages.extend(fuzz_bin.map(Stage::Guided));
    if p.id == "C34" {
        stages.extend(san::ENGINES.iter().filter(|e| e.cases(thorough) > 0).map(Stage::San));
    }
    for s in stages {
        if only.as_ref().map_or(false, |o| *o != s.name()) {
            continue;
        }
        let r = match &s {
            Stage::Sub(s) => Ok(run_sub(&cfg, p.id, s)),
            Stage::Guided(bin) => guided::run(p.id, bin, seed, threads, (4_000_000 / div).max(1)),
            Stage::San(e) => san::run(e, &format!("{dir}/san"), seed, threads, (e.cases(thorough) / div).max(1), thorough),
        };
        let r = r.unwrap_or_else(|e| {
            eprintln!("no answer: {}: {e}", s.name());
            std::process::exit(3);
        });
        evals += r.evals;
        distinct += r.distinct_nontrivial;
        samples.extend(r.samples.iter().take(3).map(|x| json!(format!("{}: {}", r.name, x))));
        if r.exhaustive {
            exhaustive.push(r.name);
        }
        for (k, n) in &r.known {
            *hits.entry(k.clone()).or_insert(0) += n;
        }
        subs.push(json!({"name": r.name, "evaluations": r.evals, "distinct_nontrivial": r.distinct_nontrivial,
            "exhaustive": r.exhaustive, "labels": r.labels, "wall_s": (r.wall * 100.0).round() / 100.0}));
        eprintln!("{} {}: {} cases, {} distinct non-trivial, {:.1} s {}", p.id, r.name, r.evals, r.distinct_nontrivial, r.wall,
            r.labels.iter().map(|(k, v)| format!("[{k} {v}]")).collect::<Vec<_>>().join(" "));
        if let Some(f) = r.failure {
            failure = Some(f);
            break;
        }
    }

    let mut replay_path = String::new();
    if let Some(f) = &failure {
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        replay_path = format!("{dir}/replays/{}-{}-{}.json", p.id, f.sub, seed);
        let doc = json!({"property": p.id, "sub": f.sub, "case": f.desc, "failure": f.msg, "replay": f.replay,
            "how": format!("/verif/check.sh {} --replay {}", p.id, replay_path)});
        std::fs::write(&replay_path, serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("write replay");
    }
    if only.is_none() {
        let ev = json!({
            "property": p.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": distinct, "rule": p.rule, "samples": samples,
                "exhaustive": failure.is_none() && exhaustive.len() == subs.len() && !subs.is_empty(),
                "exhaustive_parts": exhaustive, "parts": subs,
                "known_findings_hit": hits,
            },
            "assumptions": p.assumptions, "violations": failure.is_some() as u32,
            "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        });
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        std::fs::write(format!("{dir}/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
    }
    for (fp, what) in &known {
        println!("KNOWN-FINDING: property={} {what} [{fp}; hit {} times]", p.id, hits.get(fp).copied().unwrap_or(0));
    }
    if let Some(f) = failure {
        println!("case: {}", f.desc);
        println!("fails: {}", f.msg);
        println!("VIOLATION property={} replay={}", p.id, replay_path);
        std::process::exit(1);
    }
    println!("OK property={} cases={} distinct_nontrivial={} wall={:.1}s", p.id, evals, distinct, t0.elapsed().as_secs_f64());
}

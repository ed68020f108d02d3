//! The coverage-guided stage of the thorough C13 and C14 checks: runs the libFuzzer driver in
//! /verif/fuzz (built by check.sh) and judges what it finds with this build of the harness.

use crate::engine::*;
use crate::props::robust::fuzz_one;
use serde_json::json;
use std::process::{Command, Stdio};
use std::time::Instant;

pub const SUB: &str = "coverage-guided";

/// Runs one input in a fresh thread, so that thread-local state starts clean.
pub fn judge(prop: &'static str, data: &[u8]) -> (R, String) {
    let data = data.to_vec();
    std::thread::spawn(move || {
        let mut o = Obs::new(true);
        let r = fuzz_one(prop, &data, &mut o).map(|_| ());
        let text = String::from_utf8_lossy(data.get(2..).unwrap_or(&[])).into_owned();
        (r, if o.desc.is_empty() { format!("{text:?}") } else { o.desc })
    })
    .join()
    .unwrap_or_else(|_| (Ok(()), String::new()))
}

fn shrink_bytes(prop: &'static str, data: Vec<u8>) -> Vec<u8> {
    let mut best = data;
    let t0 = Instant::now();
    for block in [16usize, 8, 4, 2, 1, 1] {
        let mut i = 2;
        while i < best.len() && t0.elapsed().as_secs() < 20 {
            let mut c = best.clone();
            c.drain(i..(i + block).min(best.len()));
            if judge(prop, &c).0.is_err() {
                best = c;
            } else {
                i += 1;
            }
        }
    }
    best
}

/// Runs the driver in `threads` processes of `runs` inputs each. Err: it could not be run.
pub fn run(prop: &'static str, bin: &str, seed: u64, threads: usize, runs: u64) -> Result<SubReport, String> {
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("pgdt-fuzz-{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let mut kids = vec![];
    for i in 0..threads {
        let d = dir.join(i.to_string());
        std::fs::create_dir_all(d.join("corpus")).map_err(|e| e.to_string())?;
        for (k, t) in SEEDS.iter().enumerate() {
            let mut b = vec![(k * 7) as u8, 0];
            b.extend_from_slice(t.as_bytes());
            let _ = std::fs::write(d.join(format!("corpus/{k}")), b);
        }
        let log = std::fs::File::create(d.join("log")).map_err(|e| e.to_string())?;
        let kid = Command::new(bin)
            .arg(d.join("corpus"))
            .arg(format!("-artifact_prefix={}/", d.display()))
            .arg(format!("-runs={runs}"))
            .arg(format!("-seed={}", (seed.wrapping_mul(1009).wrapping_add(i as u64 + 1)) as u32 & 0x7fff_ffff))
            .args(["-max_len=160", "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", "-use_value_profile=1"])
            .env("PGDT_FUZZ_PROP", prop)
            .stdout(Stdio::null())
            .stderr(log)
            .spawn();
        match kid {
            Ok(k) => kids.push((k, d)),
            Err(e) => return Err(e.to_string()),
        }
    }
    let mut evals = 0;
    let mut distinct = 0;
    let mut failure = None;
    let mut trouble = None;
    let mut samples = vec![];
    for (mut k, d) in kids {
        let st = k.wait().map_err(|e| e.to_string())?;
        let log = String::from_utf8_lossy(&std::fs::read(d.join("log")).unwrap_or_default()).into_owned();
        let stat = |key: &str| -> u64 { log.lines().rev().find_map(|l| l.strip_prefix(key)).and_then(|v| v.trim().parse().ok()).unwrap_or(0) };
        evals += stat("stat::number_of_executed_units:");
        for e in std::fs::read_dir(d.join("corpus")).into_iter().flatten().flatten() {
            distinct += 1;
            if samples.len() < 6 && distinct % 97 == 5 {
                let b = std::fs::read(e.path()).unwrap_or_default();
                samples.push(format!("{:?}", String::from_utf8_lossy(b.get(2..).unwrap_or(&[]))));
            }
        }
        if st.success() {
            continue;
        }
        let mut found = false;
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            if e.file_name().to_string_lossy().starts_with("crash-") {
                let b = std::fs::read(e.path()).unwrap_or_default();
                if judge(prop, &b).0.is_err() {
                    found = true;
                    let b = shrink_bytes(prop, b);
                    let (r, desc) = judge(prop, &b);
                    let msg = r.err().map(|f| f.msg).unwrap_or_default();
                    failure = Some(Failure { sub: SUB, msg, desc, replay: json!({"kind": "bytes", "bytes": b}) });
                }
            }
        }
        if !found {
            trouble = Some(format!("the driver ended with {st} and left no input that fails here"));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if failure.is_none() {
        if let Some(t) = trouble {
            return Err(t);
        }
    }
    Ok(SubReport {
        name: SUB,
        evals,
        distinct_nontrivial: distinct,
        exhaustive: false,
        labels: Default::default(),
        samples,
        known: Default::default(),
        failure,
        wall: t0.elapsed().as_secs_f64(),
    })
}

const SEEDS: &[&str] = &[
    "1999-01-08 04:05:06.789",
    "January 8, 99 BC",
    "Sat 19990108T040506.5",
    "08-Jan-1999 12:05 PM",
    "1999.008",
    "J2451187 allballs",
    "y1999m1d8h4mm5s6.7",
    "infinity",
    "1 year 2 mons -3.5 days 4:05:06.7 ago",
    "1-2 +3 -4:05:06",
    "P1Y2M3W4DT5H6M7.8S",
    "P0001-02-03T04:05:06",
    "P00010203T040506.7",
    "-1.5 decades 2 c 3 mil",
];

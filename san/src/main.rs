//! Runs generated operations under a sanitizer. It judges nothing but that returned text is UTF-8:
//! the sanitizer ends the process when memory is misused, and /verif/harness/src/san.rs
//! reads the verdict.
//!
//!   pgdt-san work THREADS STATE SEED FIRST STEP CASES   cases FIRST, FIRST+STEP, ... below CASES
//!   pgdt-san case THREADS STATE SEED INDEX              one case, printing its tape and text
//!   pgdt-san tape THREADS 1,2,3                         one case from its choice tape

use pgdt_harness::engine::*;
use pgdt_harness::props::history::{exercise, exercise_text, exercise_threads};
use std::io::{Seek, SeekFrom, Write};

const WRONG: i32 = 78;

fn source(kind: &str, seed: u64, i: u64) -> Src<'static> {
    Src::from_rng(chunk_rng(seed, "C34", kind, i))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| -> u64 { a[i].parse().expect("a number") };
    let kind = a[2].as_str();
    let f: CaseFn = if kind == "threads" { exercise_threads } else { exercise };
    install_panic_hook();
    match a[1].as_str() {
        "work" => {
            let mut state = std::fs::File::create(&a[3]).expect("state file");
            let mut keys = std::io::BufWriter::new(std::fs::File::create(format!("{}.keys", a[3])).expect("key file"));
            let (seed, first, step, cases) = (num(4), num(5), num(6), num(7));
            let (mut i, mut done) = (first, 0u64);
            while i < cases {
                state.seek(SeekFrom::Start(0)).expect("state");
                state.write_all(&i.to_le_bytes()).expect("state");
                let mut o = Obs::new(done < 2);
                if let Err(e) = guarded(|| f(&mut source(kind, seed, i), &mut o)).unwrap_or(Ok(())) {
                    println!("WRONG {}", e.msg);
                    std::process::exit(WRONG);
                }
                if o.nontrivial {
                    keys.write_all(&o.key.to_le_bytes()).expect("keys");
                }
                if done < 2 && first == 0 {
                    println!("SAMPLE {}", o.desc);
                }
                done += 1;
                i += step;
            }
            keys.flush().expect("keys");
            println!("DONE {done}");
        }
        "case" => {
            let mut s = source(kind, num(4), num(5));
            let text = exercise_text(&mut s);
            println!("TAPE {}", s.tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
            println!("TEXT {text}");
        }
        _ => {
            let tape: Vec<u64> = a[3].split(',').filter_map(|v| v.parse().ok()).collect();
            let mut s = Src::from_tape(&tape);
            let mut o = Obs::new(true);
            println!("TEXT {}", exercise_text(&mut Src::from_tape(&tape)));
            if let Err(e) = guarded(|| f(&mut s, &mut o)).unwrap_or(Ok(())) {
                println!("WRONG {}", e.msg);
                std::process::exit(WRONG);
            }
        }
    }
}

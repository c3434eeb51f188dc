//! Conformance harness: runs the kserd crate on inputs and reports what it did as JSON.
//!
//!   kv record PROP SEED COUNT OUT   random inputs; one {"in", "obs", "bad"} object per line
//!   kv replay PROP VECTORS OUT      {"in", "exp"} lines from the specification; mismatches to OUT
//!   kv exec PROP FILE OUT           runs the inputs of FILE; {"in", "obs", "bad"} lines to OUT
//!
//! VECTORS and FILE may be - for the standard input; lines that are not objects go to stderr.
//!
//! The input being run is kept in the file named by KV_CURRENT so that a crash or a hang can be
//! attributed. A run of one input longer than KV_HANG seconds ends the process with code 7.

mod exact;
mod gen;
mod props;
mod rng;
mod tree;

use serde_json::{json, Value as J};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Milliseconds since start when the current input began, plus one; zero when idle.
static BEGAN: AtomicU64 = AtomicU64::new(0);

struct Runner {
    prop: String,
    current: Option<File>,
    start: Instant,
}

impl Runner {
    fn run(&mut self, input: &J) -> J {
        if let Some(f) = self.current.as_mut() {
            let line = input.to_string();
            f.seek(SeekFrom::Start(0)).ok();
            f.write_all(line.as_bytes()).ok();
            f.set_len(line.len() as u64).ok();
        }
        BEGAN.store(self.start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| props::exec(&self.prop, input)));
        BEGAN.store(0, Ordering::SeqCst);
        match r {
            Ok(v) => v,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if m.starts_with("harness:") {
                    eprintln!("{} on {}", m, input);
                    std::process::exit(9);
                }
                json!({"r": "panic", "m": m})
            }
        }
    }
}

fn work(args: Vec<String>) -> i32 {
    let start = Instant::now();
    let hang: u64 = std::env::var("KV_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(60);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let b = BEGAN.load(Ordering::SeqCst);
        if b > 0 && start.elapsed().as_millis() as u64 + 1 > b + hang * 1000 {
            eprintln!("hang");
            std::process::exit(7);
        }
    });
    let current = std::env::var("KV_CURRENT").ok().map(|p| File::create(p).expect("harness: current file"));
    let prop = args[2].clone();
    let mut run = Runner { prop: prop.clone(), current, start };
    // JSON objects, or JSON objects quoted as TLC prints them among its other messages
    let lines = |p: &str| {
        let f: Box<dyn Read> = match p {
            "-" => Box::new(std::io::stdin()),
            p => Box::new(File::open(p).expect("harness: input file")),
        };
        BufReader::new(f).lines().filter_map(|l| {
            let l = l.unwrap();
            match l.as_bytes().first() {
                Some(b'{') => Some(serde_json::from_str::<J>(&l).expect("harness: JSON line")),
                Some(b'"') => {
                    let q = serde_json::from_str::<String>(&l).expect("harness: quoted line");
                    Some(serde_json::from_str::<J>(&q).expect("harness: JSON line"))
                }
                _ => {
                    eprintln!("{}", l);
                    None
                }
            }
        })
    };
    match args[1].as_str() {
        "record" => {
            let seed: u64 = args[3].parse().unwrap();
            let n: usize = args[4].parse().unwrap();
            let mut out = BufWriter::new(File::create(&args[5]).unwrap());
            for i in 0..n {
                let mut r = rng::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
                let input = match catch_unwind(AssertUnwindSafe(|| props::gen(&prop, &mut r, i))) {
                    Ok(x) => x,
                    // a generator that uses the crate itself (to aim at boundaries) may hit its defects
                    Err(_) => continue,
                };
                let obs = run.run(&input);
                if i % 97 == 5 {
                    if let Some(bad) = props::corrupt(&prop, &input, &obs) {
                        writeln!(out, "{}", json!({"in": input, "obs": bad, "bad": true})).unwrap();
                    }
                }
                writeln!(out, "{}", json!({"in": input, "obs": obs, "bad": false})).unwrap();
            }
            0
        }
        "replay" => {
            let mut out = BufWriter::new(File::create(&args[4]).unwrap());
            let (mut n, mut bad) = (0u64, 0u64);
            let mut samples = vec![];
            for v in lines(&args[3]) {
                let obs = run.run(&v["in"]);
                n += 1;
                if (n == 10 || n == 2000) && samples.len() < 2 {
                    samples.push(v.clone());
                }
                if tree::canonical(&props::project(&prop, &obs)) != tree::canonical(&v["exp"]) {
                    bad += 1;
                    if bad <= 20 {
                        writeln!(out, "{}", json!({"in": v["in"], "exp": v["exp"], "obs": obs})).unwrap();
                    }
                }
            }
            println!("{}", json!({"run": n, "bad": bad, "samples": samples}));
            0
        }
        "exec" => {
            let mut out = BufWriter::new(File::create(&args[4]).unwrap());
            let mut n = 0u64;
            for v in lines(&args[3]) {
                let obs = run.run(&v["in"]);
                n += 1;
                writeln!(out, "{}", json!({"in": v["in"], "obs": obs, "bad": false})).unwrap();
            }
            println!("{}", json!({"run": n}));
            0
        }
        x => {
            eprintln!("unknown command {}", x);
            9
        }
    }
}

fn main() {
    if std::env::var("KV_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: kv record|replay|exec PROP ...");
        std::process::exit(9);
    }
    let code = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || work(args))
        .unwrap()
        .join()
        .unwrap_or(9);
    std::process::exit(code);
}

// Replays generated vectors in the crate and records executions of it.
pub mod doc;
pub mod exec;
pub mod mj;
pub mod types;
use mj::{o, M};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use types::Entry;

/// PROG exec IN OUT   each line of IN is a case; writes the case with "obs" added
/// PROG cmp IN        each line of IN has a case "in" and its expectation "exp"; reports the first differences
pub fn main_with(reg: fn() -> HashMap<String, Entry>) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let cur: Arc<Mutex<(usize, Instant)>> = Arc::new(Mutex::new((0, Instant::now())));
    let c2 = cur.clone();
    let limit = std::env::var("JH_CASE_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(30u64);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        let (n, t) = *c2.lock().unwrap();
        if t.elapsed() > Duration::from_secs(limit) {
            println!("HANG {}", n);
            std::process::exit(42);
        }
    });
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run(args, cur, reg)).unwrap();
    if h.join().is_err() { std::process::exit(3); }
}

fn run(args: Vec<String>, cur: Arc<Mutex<(usize, Instant)>>, reg: fn() -> HashMap<String, Entry>) {
    let cx = exec::Ctx { reg: reg() };
    let inp = BufReader::new(std::fs::File::open(&args[2]).expect("harness: input"));
    // the number of the case being run, for the driver when this process dies
    let at = std::fs::File::create(format!("{}.at", args[2])).unwrap();
    let mark = |n: usize| { use std::os::unix::fs::FileExt; let _ = at.write_at(&(n as u64).to_le_bytes(), 0); *cur.lock().unwrap() = (n, Instant::now()); };
    if args[1] == "exec" {
        let mut out = BufWriter::new(std::fs::File::create(&args[3]).unwrap());
        let mut n = 0;
        for l in inp.lines() {
            let l = l.unwrap();
            mark(n);
            let m = M::read(&l);
            let obs = exec::exec(&cx, &m);
            // the case text as given, with the observation appended
            writeln!(out, "{},\"obs\":{}}}", &l[..l.len() - 1], obs.write()).unwrap();
            n += 1;
        }
        out.flush().unwrap();
        println!("EXECUTED {}", n);
    } else {
        let (mut n, mut bad) = (0, 0);
        for l in inp.lines() {
            let m = M::read(&l.unwrap());
            mark(n);
            let obs = exec::exec(&cx, m.get("in"));
            if !answers(m.get("exp"), &obs) {
                bad += 1;
                if bad <= 20 {
                    println!("DIFF {}", o(vec![("n", M::N(n as i64)), ("in", m.get("in").clone()), ("exp", m.get("exp").clone()), ("obs", obs)]).write());
                }
            }
            n += 1;
        }
        println!("COMPARED {} {}", n, bad);
    }
}

/// the observation is the expectation; an expectation with "es" names the allowed error kinds
fn answers(exp: &M, obs: &M) -> bool {
    if exp == obs { return true; }
    match (exp, obs) {
        (M::O(a), M::O(b)) => {
            if let Some(es) = exp.opt("es") {
                return obs.opt("e").map_or(false, |e| es.arr().contains(e)) && b.len() == 2;
            }
            a.len() == b.len() && a.iter().zip(b.iter()).all(|((k, x), (l, y))| k == l && answers(x, y))
        }
        (M::A(a), M::A(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| answers(x, y)),
        _ => false,
    }
}

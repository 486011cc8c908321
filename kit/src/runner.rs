//! Runs units (named case functions) over generated cases on several threads, shrinks failures and
//! reports everything as JSON.
use crate::case::{hash_str, mix, Case, R};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type UnitFn = fn(&mut Case) -> R;

pub struct Unit {
    pub name: String,
    pub cases: u64,
    pub f: UnitFn,
}

#[derive(Default)]
pub struct Units(pub Vec<Unit>);

impl Units {
    pub fn add(&mut self, name: &str, cases: u64, f: UnitFn) {
        self.0.push(Unit { name: name.to_string(), cases, f });
    }
    /// One unit per instantiation listed by the `dims` macros.
    pub fn add_all(&mut self, prefix: &str, cases: u64, fs: &[(&str, UnitFn)]) {
        for &(n, f) in fs {
            self.add(&format!("{} {}", prefix, n), cases, f);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: Cell<bool> = Cell::new(false);
}

fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        } else {
            default(info)
        }
    }));
}

/// Runs `f`; Err(message) if it panicked.
pub fn panics<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// As `panics`, instantiated only once: Some(message) if `f` panicked.
pub fn panics_dyn(f: &mut dyn FnMut()) -> Option<String> {
    panics(|| f()).err()
}

fn run_case(f: UnitFn, c: &mut Case) -> R {
    match panics(|| f(c)) {
        Ok(r) => r,
        Err(m) => Err(format!("unexpected panic: {}", m)),
    }
}

fn case_seed(seed: u64, unit: &str, i: u64) -> u64 {
    mix(mix(seed, hash_str(unit)), i)
}

pub fn shrink(f: UnitFn, tape: Vec<u64>, msg: String, budget: Duration) -> (Vec<u64>, String, u64) {
    let start = Instant::now();
    let (mut best, mut best_msg) = (tape, msg);
    let mut tries = 0u64;
    // true if the candidate still fails and is simpler
    fn attempt(f: UnitFn, cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String, tries: &mut u64) -> bool {
        *tries += 1;
        let mut c = Case::replay(cand);
        let r = run_case(f, &mut c);
        if let Err(m) = r {
            let used = c.tape;
            if used.len() < best.len() || (used.len() == best.len() && used < *best) {
                *best = used;
                *best_msg = m;
                return true;
            }
        }
        false
    }
    loop {
        let before = best.clone();
        let out = |t: u64| start.elapsed() > budget || t > 20000;
        let mut size = best.len().next_power_of_two();
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                if out(tries) { return (best, best_msg, tries); }
                let lo = i.saturating_sub(size);
                let mut cand = best.clone();
                if i <= cand.len() {
                    cand.drain(lo..i);
                    attempt(f, cand, &mut best, &mut best_msg, &mut tries);
                }
                i = lo.min(best.len());
            }
            size /= 2;
        }
        let mut size = best.len().next_power_of_two();
        while size >= 1 {
            let mut lo = 0;
            while lo < best.len() {
                if out(tries) { return (best, best_msg, tries); }
                let hi = (lo + size).min(best.len());
                if best[lo..hi].iter().any(|&v| v != 0) {
                    let mut cand = best.clone();
                    for v in &mut cand[lo..hi] { *v = 0; }
                    attempt(f, cand, &mut best, &mut best_msg, &mut tries);
                }
                lo += size;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let mut delta = best[i] / 2 + best[i] % 2;
            while i < best.len() && delta > 0 && best[i] > 0 {
                if out(tries) { return (best, best_msg, tries); }
                let mut cand = best.clone();
                cand[i] -= delta.min(cand[i]);
                if !attempt(f, cand, &mut best, &mut best_msg, &mut tries) {
                    delta /= 2;
                } else if i < best.len() {
                    delta = delta.min(best[i]);
                }
            }
            i += 1;
        }
        if best == before {
            return (best, best_msg, tries);
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Failure {
    unit: String,
    index: u64,
    tape: Vec<u64>,
    msg: String,
    shrinks: u64,
}

fn failure_json(f: &Failure) -> String {
    format!("{{\"unit\":{},\"index\":{},\"tape\":{:?},\"message\":{},\"shrink_steps\":{}}}",
            json_str(&f.unit), f.index, f.tape, json_str(&f.msg), f.shrinks)
}

/// Entry point of every harness binary.
pub fn main(units: Units) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) };
    let mode = args.get(1).map(|s| s.as_str()).unwrap_or("run");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let find = |name: &str| -> UnitFn {
        units.0.iter().find(|u| u.name == name).unwrap_or_else(|| { eprintln!("no unit {}", name); std::process::exit(3) }).f
    };
    match mode {
        "list" => {
            for u in &units.0 { println!("{}\t{}", u.name, u.cases); }
            std::process::exit(0)
        }
        // run one tape, print the outcome
        "replay" => {
            let f = find(&get("--unit").unwrap());
            let tape: Vec<u64> = std::fs::read_to_string(get("--tape").unwrap()).unwrap()
                .split_whitespace().map(|x| x.parse().unwrap()).collect();
            let r = on_big_stack(move || {
                let mut c = Case::replay(tape);
                c.want_note = true;
                let r = run_case(f, &mut c);
                if let Some(n) = c.note { println!("case: {}", n); }
                r
            });
            match r {
                Ok(()) => { println!("holds"); std::process::exit(0) }
                Err(m) => { println!("FAILS: {}", m); std::process::exit(1) }
            }
        }
        // run one generated case, writing its tape while it is drawn
        "case" => {
            let name = get("--unit").unwrap();
            let f = find(&name);
            let i: u64 = get("--index").unwrap().parse().unwrap();
            let file = std::fs::File::create(get("--dump").unwrap()).unwrap();
            let r = on_big_stack(move || run_case(f, &mut Case::dump(case_seed(seed, &name, i), file)));
            if let Err(ref m) = r { println!("FAILS: {}", m) }
            std::process::exit(if r.is_err() { 1 } else { 0 })
        }
        _ => {}
    }
    if mode == "digest" {
        // per-unit digests of everything the cases observed; with --cases, one line per case of one unit
        let scale: f64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let only = get("--unit");
        let next = AtomicUsize::new(0);
        let lines = Mutex::new(Vec::new());
        let (units, next, lines, only) = (&units, &next, &lines, &only);
        std::thread::scope(|s| {
            for _ in 0..8 {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || loop {
                    let ui = next.fetch_add(1, Ordering::Relaxed);
                    if ui >= units.0.len() { break; }
                    let u = &units.0[ui];
                    if let Some(ref o) = *only { if *o != u.name { continue; } }
                    let n = ((u.cases as f64 * scale).ceil() as u64).max(1);
                    let (mut d, mut nt, mut seen) = (0, 0u64, HashSet::new());
                    let mut note = String::new();
                    for i in 0..n {
                        let mut c = Case::random(case_seed(seed, &u.name, i));
                        c.want_note = i == 0;
                        if let Err(m) = run_case(u.f, &mut c) { c.out_str(&m.split(" at ").next().unwrap_or("").to_string()); }
                        if only.is_some() { lines.lock().unwrap().push(format!("{}\t{:x}", i, c.digest)); }
                        d = mix(d, c.digest);
                        if c.nontrivial { nt += 1; seen.insert(c.tape.iter().fold(1, |h, &x| mix(h, x))); }
                        if let Some(x) = c.note { note = x; }
                    }
                    if only.is_none() { lines.lock().unwrap().push(format!("{}\t{:x}\t{}\t{}\t{}\t{}", u.name, d, n, nt, seen.len(), note.replace('\n', " ").replace('\t', " "))); }
                }).unwrap();
            }
        });
        let mut l = lines.lock().unwrap().clone();
        l.sort();
        for x in l { println!("{}", x); }
        std::process::exit(0)
    }
    if mode == "digest-tape" {
        let f = find(&get("--unit").unwrap());
        let tape: Vec<u64> = std::fs::read_to_string(get("--tape").unwrap()).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
        on_big_stack(move || {
            let mut c = Case::replay(tape);
            c.want_note = true;
            if let Err(m) = run_case(f, &mut c) { c.out_str(&m.split(" at ").next().unwrap_or("").to_string()); }
            println!("{:x}\t{}", c.digest, c.note.unwrap_or_default().replace('\n', " "));
        });
        std::process::exit(0)
    }
    let scale: f64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let filter = get("--filter");
    let max_cases: u64 = get("--max-cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let slots = get("--slots").map(|p| {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap();
        f.set_len(24 * threads as u64).unwrap();
        f
    });
    // work items: (unit, first case, last case)
    let mut work: Vec<(usize, u64, u64)> = Vec::new();
    for (ui, u) in units.0.iter().enumerate() {
        if let Some(ref f) = filter { if !u.name.contains(f.as_str()) { continue; } }
        let n = (((u.cases as f64) * scale).ceil() as u64).max(1).min(max_cases);
        let mut a = 0;
        while a < n {
            let b = (a + 256).min(n);
            work.push((ui, a, b));
            a = b;
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    // failing cases are noted behind the slots before they are shrunk: what they broke can end the process later
    let noted = AtomicUsize::new(threads);
    let failures: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
    struct Tot { evals: u64, nontrivial: u64, seen: HashSet<u64>, labels: BTreeMap<&'static str, u64>, notes: Vec<(u64, String)>, units: HashSet<usize> }
    let tot = Mutex::new(Tot { evals: 0, nontrivial: 0, seen: HashSet::new(), labels: BTreeMap::new(), notes: Vec::new(), units: HashSet::new() });
    let start = Instant::now();
    // when each thread began its current case, in ms after `start`, plus 1; 0 = idle
    let began: Vec<std::sync::atomic::AtomicU64> = (0..threads).map(|_| Default::default()).collect();
    let all_done = AtomicBool::new(false);
    let hang_after: u64 = get("--hang-after").and_then(|s| s.parse().ok()).unwrap_or(60);
    std::thread::scope(|s| {
        let (units, work, next, stop, noted, failures, tot, slots, began, all_done) = (&units, &work, &next, &stop, &noted, &failures, &tot, &slots, &began, &all_done);
        s.spawn(move || {
            while !all_done.load(Ordering::Relaxed) {
                std::thread::park_timeout(Duration::from_millis(500));
                let now = start.elapsed().as_millis() as u64;
                for b in began {
                    let b = b.load(Ordering::Relaxed);
                    if b != 0 && now + 1 > b + hang_after * 1000 {
                        eprintln!("a case did not finish within {} s", hang_after);
                        std::process::exit(4);
                    }
                }
            }
        });
        let left = std::sync::Arc::new(AtomicUsize::new(threads));
        for t in 0..threads {
            let left = left.clone();
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let mut evals = 0u64;
                let mut nontrivial = 0u64;
                let mut seen = HashSet::new();
                let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                let mut notes = Vec::new();
                let mut done = HashSet::new();
                'outer: loop {
                    let w = next.fetch_add(1, Ordering::Relaxed);
                    if w >= work.len() || stop.load(Ordering::Relaxed) { break; }
                    let (ui, a, b) = work[w];
                    let u = &units.0[ui];
                    done.insert(ui);
                    let uh = hash_str(&u.name);
                    for i in a..b {
                        if let Some(ref f) = *slots {
                            let mut buf = [0u8; 24];
                            buf[..8].copy_from_slice(&(ui as u64 + 1).to_le_bytes());
                            buf[8..16].copy_from_slice(&i.to_le_bytes());
                            let _ = f.write_at(&buf, 24 * t as u64);
                        }
                        began[t].store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let mut c = Case::random(case_seed(seed, &u.name, i));
                        c.want_note = i == a && mix(uh, seed) % 97 < std::cmp::max(3, 97 * 25 / work.len() as u64);
                        let r = run_case(u.f, &mut c);
                        evals += 1;
                        for (k, v) in &c.labels { *labels.entry(k).or_insert(0) += v; }
                        if c.nontrivial {
                            nontrivial += 1;
                            seen.insert(c.tape.iter().fold(uh, |h, &x| mix(h, x)));
                            if let Some(n) = c.note.take() {
                                notes.push((mix(uh, seed), format!("[{}] {}", u.name, n)));
                            }
                        }
                        if let Err(msg) = r {
                            if let Some(ref f) = *slots {
                                let mut buf = [0u8; 24];
                                buf[..8].copy_from_slice(&(ui as u64 + 1).to_le_bytes());
                                buf[8..16].copy_from_slice(&i.to_le_bytes());
                                let _ = f.write_at(&buf, 24 * noted.fetch_add(1, Ordering::Relaxed) as u64);
                            }
                            let budget = Duration::from_secs(8);
                            let (tape, msg, steps) = shrink(u.f, c.tape, msg, budget);
                            let mut fs = failures.lock().unwrap();
                            fs.push(Failure { unit: u.name.clone(), index: i, tape, msg, shrinks: steps });
                            if fs.len() >= 3 { stop.store(true, Ordering::Relaxed); }
                            continue 'outer;
                        }
                    }
                    if let Some(ref f) = *slots {
                        let _ = f.write_at(&[0u8; 24], 24 * t as u64);
                    }
                }
                let mut g = tot.lock().unwrap();
                g.evals += evals;
                g.nontrivial += nontrivial;
                g.seen.extend(seen);
                for (k, v) in labels { *g.labels.entry(k).or_insert(0) += v; }
                g.notes.extend(notes);
                g.units.extend(done);
                began[t].store(0, Ordering::Relaxed);
                if left.fetch_sub(1, Ordering::Relaxed) == 1 { all_done.store(true, Ordering::Relaxed); }
            }).unwrap();
        }
    });
    let mut g = tot.into_inner().unwrap();
    let mut fails = failures.into_inner().unwrap();
    fails.sort_by(|a, b| (a.tape.len(), &a.unit).cmp(&(b.tape.len(), &b.unit)));
    g.notes.sort();
    g.notes.truncate(6);
    let labels: Vec<String> = g.labels.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let notes: Vec<String> = g.notes.iter().map(|n| json_str(&n.1)).collect();
    let fj: Vec<String> = fails.iter().map(failure_json).collect();
    let out = format!("{{\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"units\":{},\"labels\":{{{}}},\"samples\":[{}],\"failures\":[{}],\"wall_s\":{:.3}}}\n",
        g.evals, g.nontrivial, g.seen.len(), g.units.len(), labels.join(","), notes.join(","), fj.join(","), start.elapsed().as_secs_f64());
    match get("--out") {
        Some(p) => std::fs::write(p, out).unwrap(),
        None => print!("{}", out),
    }
    std::process::exit(if fails.is_empty() { 0 } else { 1 })
}

fn on_big_stack<T: Send, F: FnOnce() -> T + Send>(f: F) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

#![allow(clippy::all)]
mod g;
mod vt;
mod gen;
mod p_wrap;
mod p_fit;
mod p_draw;
mod p_input;
mod p_views;
mod p_style;
mod p_ask;
mod p_bar;
mod p_skin;
mod p_events;

use g::G;
use std::{
    cell::RefCell,
    collections::HashSet,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{atomic::{AtomicBool, AtomicU64, Ordering}, Arc, Mutex},
    time::{Duration, Instant},
};

/// Ok(true): a non trivial case
pub type R = Result<bool, String>;
pub enum Kind {
    Random(fn(&mut G) -> R),
    /// enumerates a finite domain completely, returns the number of cases
    Exhaustive(fn(bool) -> Result<u64, String>),
}
pub struct Check { pub prop: &'static str, pub name: &'static str, pub kind: Kind, pub weight: u32 }

fn checks() -> Vec<Check> {
    let mut v = Vec::new();
    v.extend(p_wrap::checks());
    v.extend(p_fit::checks());
    v.extend(p_draw::checks());
    v.extend(p_input::checks());
    v.extend(p_views::checks());
    v.extend(p_style::checks());
    v.extend(p_ask::checks());
    v.extend(p_bar::checks());
    v.extend(p_skin::checks());
    v.extend(p_events::checks());
    v
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

fn run_case(f: fn(&mut G) -> R, g: &mut G) -> R {
    match catch_unwind(AssertUnwindSafe(|| f(g))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// reduce the choices while the check still fails
fn shrink(f: fn(&mut G) -> R, choices: Vec<u64>, msg: String) -> (Vec<u64>, String, Vec<String>) {
    let start = Instant::now();
    let mut best = choices;
    let mut best_msg = msg;
    let try_it = |c: &Vec<u64>| -> Option<String> {
        let mut g = G::from_choices(c.clone());
        g.verbose = false;
        run_case(f, &mut g).err()
    };
    let mut improved = true;
    while improved && start.elapsed() < Duration::from_secs(6) {
        improved = false;
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if let Some(m) = try_it(&c) { best = c; best_msg = m; improved = true; } else { i += size; }
                if start.elapsed() > Duration::from_secs(6) { break; }
            }
            if size == 1 { break; }
            size /= 2;
        }
        for i in 0..best.len() {
            for v in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if v < best[i] {
                    let mut c = best.clone();
                    c[i] = v;
                    if let Some(m) = try_it(&c) { best = c; best_msg = m; improved = true; break; }
                }
            }
            if start.elapsed() > Duration::from_secs(6) { break; }
        }
    }
    let mut g = G::from_choices(best.clone());
    if let Err(m) = run_case(f, &mut g) { best_msg = m; }
    (best, best_msg, g.notes)
}

fn main() {
    std::env::remove_var("NO_COLOR");
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("ask-child") { p_ask::child(&args[2..]); return; }
    if args.get(1).map(|s| s.as_str()) == Some("events-child") { p_events::child(&args[2..]); return; }
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => for c in checks() { println!("{} {}", c.prop, c.name); },
        Some("replay") => {
            // replay PROP CHECK choices(comma separated)
            let c = checks().into_iter().find(|c| c.prop == args[2] && c.name == args[3]).expect("unknown check");
            let r = match c.kind {
                Kind::Random(f) => {
                    let choices = args.get(4).map(|s| s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()).unwrap_or_default();
                    let mut g = G::from_choices(choices);
                    let r = run_case(f, &mut g);
                    for n in &g.notes { println!("  {n}"); }
                    r.map(|_| ())
                }
                Kind::Exhaustive(f) => catch_unwind(|| f(true)).unwrap_or_else(|_| Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone())))).map(|_| ()),
            };
            match r {
                Ok(()) => println!("holds on this case"),
                Err(m) => { println!("FAILS: {m}"); std::process::exit(1); }
            }
        }
        Some("run") => run(&args[2..]),
        _ => { eprintln!("usage: vh run PROP --seed N --secs S --out FILE [--only CHECK] | replay PROP CHECK CHOICES | list"); std::process::exit(2); }
    }
}

struct Failure { check: String, seed: u64, choices: Vec<u64>, msg: String, notes: Vec<String> }

fn run(args: &[String]) {
    let prop = args[0].clone();
    let mut seed = 1u64; let mut secs = 10f64; let mut out = String::new(); let mut only = None;
    let mut threads = 6usize; let mut journal: Option<String> = None; let mut thorough = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--seed" => { seed = args[i + 1].parse().unwrap_or(1); i += 1; }
            "--secs" => { secs = args[i + 1].parse().unwrap(); i += 1; }
            "--out" => { out = args[i + 1].clone(); i += 1; }
            "--only" => { only = Some(args[i + 1].clone()); i += 1; }
            "--threads" => { threads = args[i + 1].parse().unwrap(); i += 1; }
            "--journal" => { journal = Some(args[i + 1].clone()); i += 1; }
            "--thorough" => thorough = true,
            a => { eprintln!("unknown arg {a}"); std::process::exit(2); }
        }
        i += 1;
    }
    let cs: Vec<Check> = checks().into_iter().filter(|c| c.prop == prop && only.as_ref().map_or(true, |o| o == c.name)).collect();
    let total_weight: u32 = cs.iter().map(|c| match c.kind { Kind::Random(_) => c.weight, _ => 0 }).sum();
    let mut failures: Vec<Failure> = Vec::new();
    let mut rows: Vec<String> = Vec::new();
    for c in &cs {
        let start = Instant::now();
        let mut evals = 0u64; let mut nontrivial = 0usize; let mut samples: Vec<String> = Vec::new(); let mut exhaustive = false;
        match c.kind {
            Kind::Exhaustive(f) => {
                exhaustive = true;
                match catch_unwind(|| f(thorough)).unwrap_or_else(|_| Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone())))) {
                    Ok(n) => { evals = n; nontrivial = n as usize; }
                    Err(m) => failures.push(Failure { check: c.name.into(), seed: 0, choices: vec![], msg: m, notes: vec![] }),
                }
            }
            Kind::Random(f) => {
                let deadline = start + Duration::from_secs_f64(secs * c.weight as f64 / total_weight as f64);
                let stop = Arc::new(AtomicBool::new(false));
                let fails: Arc<Mutex<Vec<(u64, Vec<u64>, String)>>> = Default::default();
                let n_evals = Arc::new(AtomicU64::new(0));
                let seen: Arc<Mutex<HashSet<u64>>> = Default::default();
                let started = Instant::now();
                let mut cur: Vec<(Arc<AtomicU64>, Arc<AtomicU64>)> = Vec::new();
                let mut hs = Vec::new();
                for t in 0..threads {
                    let (stop, fails, n_evals, seen) = (stop.clone(), fails.clone(), n_evals.clone(), seen.clone());
                    let cseed = Arc::new(AtomicU64::new(0)); let cstart = Arc::new(AtomicU64::new(0));
                    cur.push((cseed.clone(), cstart.clone()));
                    let journal = journal.clone();
                    let name = c.name;
                    hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                        let mut hasher = std::collections::hash_map::DefaultHasher::new();
                        (seed, t as u64, name).hash(&mut hasher);
                        let base = hasher.finish();
                        let mut local: HashSet<u64> = HashSet::new();
                        let mut k = 0u64;
                        while !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
                            let case_seed = base.wrapping_add(k.wrapping_mul(0x2545_F491_4F6C_DD1D));
                            k += 1;
                            cseed.store(case_seed, Ordering::Relaxed);
                            cstart.store(started.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            if let Some(j) = &journal { let _ = std::fs::write(j, format!("{name} {case_seed}")); }
                            let mut g = G::from_seed(case_seed);
                            let r = run_case(f, &mut g);
                            n_evals.fetch_add(1, Ordering::Relaxed);
                            match r {
                                Ok(nt) => if nt && local.len() < 400_000 {
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    g.choices.hash(&mut h);
                                    local.insert(h.finish());
                                },
                                Err(m) => {
                                    fails.lock().unwrap().push((case_seed, g.choices, m));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        cstart.store(0, Ordering::Relaxed);
                        seen.lock().unwrap().extend(local);
                    }).unwrap());
                }
                // watchdog
                let mut hung = None;
                loop {
                    std::thread::sleep(Duration::from_millis(20));
                    if hs.iter().all(|h| h.is_finished()) { break; }
                    let now = started.elapsed().as_millis() as u64;
                    for (s, st) in &cur {
                        let st = st.load(Ordering::Relaxed);
                        if st > 0 && now > st + 20_000 { hung = Some(s.load(Ordering::Relaxed)); }
                    }
                    if hung.is_some() { break; }
                }
                if let Some(s) = hung {
                    failures.push(Failure { check: c.name.into(), seed: s, choices: vec![], msg: "no termination within 20 s on one small case".into(), notes: vec![] });
                    write_out(&out, &prop, &rows, &failures, true);
                    std::process::exit(0);
                }
                evals = n_evals.load(Ordering::Relaxed);
                nontrivial = seen.lock().unwrap().len();
                if let Some((s, choices, msg)) = fails.lock().unwrap().pop() {
                    let (choices, msg, notes) = shrink(f, choices, msg);
                    failures.push(Failure { check: c.name.into(), seed: s, choices, msg, notes });
                }
                // one sample, written out
                for k in 0..200u64 {
                    let mut g = G::from_seed(seed.wrapping_mul(7919).wrapping_add(k));
                    g.verbose = true;
                    if let Ok(true) = run_case(f, &mut g) { samples.push(g.notes.join("; ")); if samples.len() == 2 { break; } }
                }
            }
        }
        rows.push(format!("{{\"check\":{},\"exhaustive\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.2},\"samples\":[{}]}}",
            esc(c.name), exhaustive, evals, nontrivial, start.elapsed().as_secs_f64(), samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")));
    }
    write_out(&out, &prop, &rows, &failures, false);
}

fn write_out(out: &str, prop: &str, rows: &[String], failures: &[Failure], hung: bool) {
    let fs: Vec<String> = failures.iter().map(|f| format!(
        "{{\"check\":{},\"seed\":\"{}\",\"choices\":[{}],\"message\":{},\"case\":[{}]}}",
        esc(&f.check), f.seed, f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), esc(&f.msg),
        f.notes.iter().map(|n| esc(n)).collect::<Vec<_>>().join(","))).collect();
    let s = format!("{{\"property\":{},\"hung\":{},\"checks\":[{}],\"failures\":[{}]}}\n", esc(prop), hung, rows.join(","), fs.join(","));
    if out.is_empty() { println!("{s}"); } else { std::fs::write(out, s).unwrap(); }
}

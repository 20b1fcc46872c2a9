//! `osuverif check ID`, `osuverif replay FILE`, `osuverif list`.

#![allow(dead_code, unused_imports, unused_mut)]

#[macro_use]
mod engine;
mod checks;
mod cov;
mod gen;
mod model;
mod mutate;
mod report;

use checks::{Check, Fixed};
use engine::*;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const FIXED: u64 = 1 << 32;

fn verif_dir() -> PathBuf {
    std::env::var_os("OSUVERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1)
}

const QUICK_SEARCH_SECS: u64 = 12;

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

/// Percentage of the cases to run, for trials by hand.
fn scale() -> u64 {
    std::env::var("OSUVERIF_SCALE").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(100)
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|a| a.as_str()).collect();
    let find = |id: &str| checks::all().into_iter().find(|c| c.id == id);
    match args.as_slice() {
        ["list"] => {
            for c in checks::all() {
                println!("{}", c.id);
            }
            ExitCode::SUCCESS
        }
        ["check", id] => match find(id) {
            Some(c) => parent(&c),
            None => usage(),
        },
        ["worker", id] => match find(id) {
            Some(c) => worker(&c),
            None => usage(),
        },
        ["single", id, part, shard, index] => match find(id) {
            Some(c) => single(&c, num(part), num(shard), num(index)),
            None => usage(),
        },
        ["search", id, part, seed, cases, secs, out] => match find(id) {
            Some(c) => search(&c, num(part), num(seed), num(cases), num(secs), Path::new(out)),
            None => usage(),
        },
        ["replay", file] => replay(Path::new(file)),
        _ => usage(),
    }
}

fn num(s: &str) -> u64 {
    s.parse().expect("number")
}

fn usage() -> ExitCode {
    eprintln!("usage: osuverif check ID | replay FILE | list");
    ExitCode::from(2)
}

fn slots_file(id: &str) -> PathBuf {
    verif_dir().join("replays").join(format!("{id}.slots"))
}

/// Runs the check in a process of its own, so that a case that ends the process is found.
fn parent(c: &Check) -> ExitCode {
    let start = Instant::now();
    let _ = std::fs::create_dir_all(verif_dir().join("replays"));
    let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
    let slots = slots_file(c.id);
    let _ = std::fs::remove_file(&slots);
    let exe = std::env::current_exe().expect("exe");
    let status = Command::new(&exe).args(["worker", c.id]).status();
    let status = match status {
        Ok(s) => s,
        Err(e) => {
            eprintln!("can't run the worker: {e}");
            return ExitCode::from(2);
        }
    };
    if let Some(code) = status.code() {
        let _ = std::fs::remove_file(&slots);
        return ExitCode::from(code as u8);
    }

    // ended by a signal
    eprintln!("the worker ended with {status}, looking for the case");
    let mut b = Vec::new();
    if let Ok(mut f) = std::fs::File::open(&slots) {
        let _ = f.read_to_end(&mut b);
    }
    for s in b.chunks_exact(32) {
        let n = |i: usize| u64::from_le_bytes(s[i * 8..i * 8 + 8].try_into().unwrap());
        if n(0) == 0 {
            continue;
        }
        let (part, shard, index) = (n(1), n(2), n(3));
        let status = Command::new(&exe)
            .args(["single", c.id, &part.to_string(), &shard.to_string(), &index.to_string()])
            .status();
        match status {
            Ok(s) if s.code() == Some(0) => {}
            Ok(s) if s.code() == Some(1) => return ExitCode::from(1),
            Ok(s) => {
                let what = format!("the case ends the process ({s})");
                let replay = write_single(c, part, shard, index, &what);
                println!("{what}");
                println!("VIOLATION property={} replay={}", c.id, replay.display());
                report::write_evidence(
                    &verif_dir(),
                    c,
                    seed(),
                    thorough(),
                    &Totals::default(),
                    0,
                    start.elapsed(),
                    &[what],
                    None,
                );
                let _ = std::fs::remove_file(&slots);
                return ExitCode::from(1);
            }
            Err(_) => {}
        }
    }
    eprintln!("no case ends the process when it's run alone");
    ExitCode::from(2)
}

fn replay_path(c: &Check, what: &str) -> PathBuf {
    let tag = hash(what.as_bytes());
    verif_dir()
        .join("replays")
        .join(format!("{}-{:016x}.txt", c.id, tag))
}

fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

fn write_single(c: &Check, part: u64, shard: u64, index: u64, message: &str) -> PathBuf {
    let path = replay_path(c, &format!("{part}.{shard}.{index}"));
    let body = format!(
        "check={}\nkind=single\nseed={}\npart={part}\nshard={shard}\nindex={index}\nmessage={}\n",
        c.id,
        seed(),
        one_line(message)
    );
    let _ = std::fs::write(&path, body);
    path
}

fn write_fixed(c: &Check, name: &str, message: &str) -> PathBuf {
    let path = replay_path(c, name);
    let body = format!(
        "check={}\nkind=fixed\nname={}\nmessage={}\n",
        c.id,
        one_line(name),
        one_line(message)
    );
    let _ = std::fs::write(&path, body);
    path
}

fn write_choices(c: &Check, part: &str, choices: &[u64], message: &str) -> PathBuf {
    let list: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let path = replay_path(c, &format!("{part}{}", list.join(",")));
    let body = format!(
        "check={}\nkind=choices\npart={part}\nchoices={}\nmessage={}\n",
        c.id,
        list.join(","),
        one_line(message)
    );
    let _ = std::fs::write(&path, body);
    path
}

fn worker(c: &Check) -> ExitCode {
    install_panic_hook();
    let start = Instant::now();
    let deadline = Duration::from_secs(if thorough() { 3 * 3600 } else { 400 });
    let monitor = Arc::new(Monitor {
        start,
        deadline,
        file: std::fs::OpenOptions::new()
            .create(true)
            .truncate(true)
            .write(true)
            .open(slots_file(c.id))
            .ok(),
    });
    // the failure that's being shrunk
    let pending: Arc<Mutex<Option<PathBuf>>> = Arc::default();
    let done = Arc::new(AtomicBool::new(false));
    watchdog(c.id, monitor.clone(), pending.clone(), done.clone());

    let mut totals = Totals::default();
    let m = monitor.clone();
    let mut fixed = Fixed {
        only: None,
        ran: 0,
        failed: Vec::new(),
        before: Box::new(move |i| m.enter(0, FIXED, 0, i)),
    };
    (c.fixed)(&mut fixed);
    monitor.leave(0);
    let mut violations = Vec::new();
    if !fixed.failed.is_empty() {
        for (name, message) in fixed.failed.iter().take(5) {
            println!("{name}: {message}");
        }
        let (name, message) = &fixed.failed[0];
        let path = write_fixed(c, name, message);
        println!("VIOLATION property={} replay={}", c.id, path.display());
        violations.push(format!("{name}: {message}"));
    }

    if violations.is_empty() {
        for (i, part) in c.parts.iter().enumerate() {
            let total = if thorough() { part.thorough } else { part.quick };
            let total = (total * scale() / 100).max(1);
            let before = totals.evaluations;
            let failure = run_part(c.id, i, part, total, seed(), &monitor, &mut totals);
            totals.by_part.push((part.name, totals.evaluations - before));
            if let Some(f) = failure {
                let path = write_choices(c, part.name, &f.choices, &f.message);
                *pending.lock().unwrap() = Some(path.clone());
                monitor.enter(0, i as u64, f.shard as u64, f.index);
                let (choices, message) = shrink(part.case, f.choices, f.message, 60_000);
                monitor.leave(0);
                let _ = std::fs::remove_file(&path);
                let path = write_choices(c, part.name, &choices, &message);
                println!("{} {}: {message}", c.id, part.name);
                println!("VIOLATION property={} replay={}", c.id, path.display());
                violations.push(message);
                break;
            }
        }
    }
    let mut searched = None;
    if violations.is_empty() {
        let (text, failures) = search_parts(c, &mut totals);
        searched = text;
        for f in failures.into_iter().take(1) {
            let what = match f {
                Failed::Case(i, choices, message) => {
                    let part = &c.parts[i];
                    let path = write_choices(c, part.name, &choices, &message);
                    *pending.lock().unwrap() = Some(path.clone());
                    monitor.enter(0, i as u64, 0, 0);
                    let (choices, message) = shrink(part.case, choices, message, 60_000);
                    monitor.leave(0);
                    let _ = std::fs::remove_file(&path);
                    let path = write_choices(c, part.name, &choices, &message);
                    println!("{} {}: {message}", c.id, part.name);
                    println!("VIOLATION property={} replay={}", c.id, path.display());
                    message
                }
                Failed::Process(i, seed, cases, message) => {
                    let path = write_search(c, i, seed, cases, &message);
                    println!("{} {}: {message}", c.id, c.parts[i].name);
                    println!("VIOLATION property={} replay={}", c.id, path.display());
                    message
                }
            };
            violations.push(what);
        }
    }
    done.store(true, Ordering::SeqCst);

    for known in totals.known.keys() {
        println!("KNOWN-FINDING: property={} {known}", c.id);
    }
    println!(
        "{}: {} fixed and {} generated cases, {} non-trivial ({} distinct) in {:.1} s",
        c.id,
        fixed.ran,
        totals.evaluations,
        totals.nontrivial,
        totals.distinct.len(),
        start.elapsed().as_secs_f64()
    );
    report::write_evidence(
        &verif_dir(),
        c,
        seed(),
        thorough(),
        &totals,
        fixed.ran,
        start.elapsed(),
        &violations,
        searched.as_deref(),
    );
    if violations.is_empty() {
        ExitCode::SUCCESS
    } else {
        ExitCode::from(1)
    }
}

enum Failed {
    /// A failing case of a part.
    Case(usize, Vec<u64>, String),
    /// A search of a part ended the process: the seed and the amount of cases of the search.
    Process(usize, u64, u64, String),
}

/// Binary with the instrumented crate.
fn searcher() -> PathBuf {
    verif_dir().join("harness/target/cov/release/osuverif")
}

const SEARCHES: u64 = 8;

/// Runs the coverage-guided searches of all parts.
fn search_parts(c: &Check, totals: &mut Totals) -> (Option<String>, Vec<Failed>) {
    // seconds and cases of every process
    let (secs, cases) = match std::env::var("OSUVERIF_SEARCH_SECS").ok().and_then(|s| s.parse().ok()) {
        Some(s) => (s, u64::MAX),
        None if thorough() => (1200, u64::MAX),
        None => (QUICK_SEARCH_SECS, u64::MAX),
    };
    if secs == 0 {
        return (None, Vec::new());
    }
    if !searcher().exists() {
        eprintln!("there's no build with counters, only random cases are run");
        return (None, Vec::new());
    }
    let secs = (secs / c.parts.len() as u64).max(1);
    let exe = searcher();
    let mut failures = Vec::new();
    let mut text = Vec::new();
    for (i, part) in c.parts.iter().enumerate() {
        let mut running = Vec::new();
        for n in 0..SEARCHES {
            let seed = case_seed(seed(), c.id, part.name, SHARDS + n as usize, 0);
            let out = verif_dir().join("replays").join(format!("{}.{}.{i}.{n}.search", c.id, std::process::id()));
            let args = [i as u64, seed, cases, secs].map(|n| n.to_string());
            let child = Command::new(&exe).args(["search", c.id]).args(args).arg(&out).spawn();
            match child {
                Ok(child) => running.push((child, seed, out)),
                Err(e) => eprintln!("{}: {e}", exe.display()),
            }
        }
        let (mut ran, mut kept, mut edges, mut reached) = (0, 0, 0, 0);
        for (mut child, seed, out) in running {
            let status = child.wait();
            let found = std::fs::read_to_string(&out).ok().and_then(|t| cov::Found::from_text(&t));
            let _ = std::fs::remove_file(&out);
            match found {
                Some(f) => {
                    ran += f.cases;
                    totals.evaluations += f.cases;
                    totals.nontrivial += f.nontrivial;
                    kept += f.kept;
                    edges = edges.max(f.edges);
                    reached = reached.max(f.reached);
                    if let Some((choices, message)) = f.failure {
                        failures.push(Failed::Case(i, choices, message));
                    }
                }
                None => {
                    let what = match status {
                        Ok(s) if s.code() == Some(cov::HUNG as i32) => "a case of the search doesn't end".to_string(),
                        Ok(s) if s.code() == Some(2) => {
                            eprintln!("{}: the search can't be made", part.name);
                            continue;
                        }
                        Ok(s) => format!("a case of the search ends the process ({s})"),
                        Err(e) => {
                            eprintln!("{e}");
                            continue;
                        }
                    };
                    failures.push(Failed::Process(i, seed, cases, what));
                }
            }
        }
        text.push(format!(
            "{}: {{\"cases\": {ran}, \"kept_for_new_coverage\": {kept}, \"edges_of_the_crate_reached\": {edges}, \"edge_counts_and_comparisons_reached\": {reached}}}",
            report::json(part.name)
        ));
        if !failures.is_empty() {
            break;
        }
    }
    (Some(format!("\n    \"coverage_guided\": {{{}}},", text.join(", "))), failures)
}

fn search(c: &Check, part: u64, seed: u64, cases: u64, secs: u64, out: &Path) -> ExitCode {
    install_panic_hook();
    if !cov::instrumented() {
        eprintln!("this build has no counters");
        return ExitCode::from(2);
    }
    let case = c.parts[part as usize].case;
    let found = std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(scope, || cov::search(case, seed, cases, Duration::from_secs(secs)))
            .expect("spawn")
            .join()
            .expect("join")
    });
    match std::fs::write(out, found.to_text()) {
        Ok(()) => ExitCode::SUCCESS,
        Err(e) => {
            eprintln!("{}: {e}", out.display());
            ExitCode::from(2)
        }
    }
}

fn write_search(c: &Check, part: usize, seed: u64, cases: u64, message: &str) -> PathBuf {
    let path = replay_path(c, &format!("search {part} {seed}"));
    let body = format!(
        "check={}\nkind=search\npart={part}\nseed={seed}\ncases={cases}\nmessage={}\n",
        c.id,
        one_line(message)
    );
    let _ = std::fs::write(&path, body);
    path
}

/// Ends the process with a violation when a case runs for too long.
fn watchdog(
    id: &'static str,
    monitor: Arc<Monitor>,
    pending: Arc<Mutex<Option<PathBuf>>>,
    done: Arc<AtomicBool>,
) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if done.load(Ordering::SeqCst) {
            return;
        }
        let now = monitor.start.elapsed().as_millis() as u64;
        for (i, slot) in SLOT.iter().enumerate() {
            let since = slot.since.load(Ordering::Acquire);
            if since == 0 || now < since + HANG.as_millis() as u64 {
                continue;
            }
            let shrinking = pending.lock().unwrap().clone();
            if i == 0 && shrinking.is_some() && now < since + 2 * HANG.as_millis() as u64 {
                // shrinking is many cases
                continue;
            }
            let c = checks::all().into_iter().find(|c| c.id == id).unwrap();
            let what = format!("a case doesn't end in {} s", HANG.as_secs());
            let path = shrinking.unwrap_or_else(|| {
                write_single(
                    &c,
                    slot.part.load(Ordering::Relaxed),
                    slot.shard.load(Ordering::Relaxed),
                    slot.index.load(Ordering::Relaxed),
                    &what,
                )
            });
            println!("{what}");
            println!("VIOLATION property={id} replay={}", path.display());
            report::write_evidence(
                &verif_dir(),
                &c,
                seed(),
                thorough(),
                &Totals::default(),
                0,
                monitor.start.elapsed(),
                &[what],
                None,
            );
            std::process::exit(1);
        }
    });
}

fn single(c: &Check, part: u64, shard: u64, index: u64) -> ExitCode {
    install_panic_hook();
    if part == FIXED {
        let mut fixed = Fixed {
            only: None,
            ran: 0,
            failed: Vec::new(),
            before: Box::new(|_| {}),
        };
        (c.fixed)(&mut fixed);
        return match fixed.failed.first() {
            Some((name, message)) => {
                println!("{name}: {message}");
                ExitCode::from(1)
            }
            None => ExitCode::SUCCESS,
        };
    }
    let p = &c.parts[part as usize];
    let mut src = Src::random(case_seed(seed(), c.id, p.name, shard as usize, index));
    match on_big_stack(p.case, &mut src) {
        Ok(()) => ExitCode::SUCCESS,
        Err(m) => {
            let path = write_single(c, part, shard, index, &m);
            println!("{m}");
            println!("VIOLATION property={} replay={}", c.id, path.display());
            ExitCode::from(1)
        }
    }
}

fn on_big_stack(f: CaseFn, src: &mut Src) -> CaseResult {
    std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(scope, || run_case(f, src, &mut Ctx::default()))
            .expect("spawn")
            .join()
            .expect("join")
    })
}

fn replay(file: &Path) -> ExitCode {
    install_panic_hook();
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {e}", file.display());
            return ExitCode::from(2);
        }
    };
    let get = |key: &str| -> String {
        text.lines()
            .find_map(|l| l.strip_prefix(key).and_then(|l| l.strip_prefix('=')))
            .unwrap_or_default()
            .to_string()
    };
    let Some(c) = checks::all().into_iter().find(|c| c.id == get("check")) else {
        eprintln!("unknown check");
        return ExitCode::from(2);
    };
    let r = match get("kind").as_str() {
        "fixed" => {
            let mut fixed = Fixed {
                only: None,
                ran: 0,
                failed: Vec::new(),
                before: Box::new(|_| {}),
            };
            (c.fixed)(&mut fixed);
            match fixed.failed.iter().find(|(n, _)| one_line(n) == get("name")) {
                Some((_, m)) => Err(m.clone()),
                None => Ok(()),
            }
        }
        "single" => {
            std::env::set_var("VERIF_SEED", get("seed"));
            let (part, shard, index) = (num(&get("part")), num(&get("shard")), num(&get("index")));
            return single(&c, part, shard, index);
        }
        "search" => {
            // the search is made again, it's the same up to the case
            let out = verif_dir().join("replays").join(format!("{}.search", std::process::id()));
            let args = ["part", "seed", "cases"].map(get);
            let status = Command::new(searcher()).args(["search", c.id]).args(args).arg("3600").arg(&out).status();
            let _ = std::fs::remove_file(&out);
            match status {
                Ok(s) if s.success() => Ok(()),
                Ok(s) => Err(format!("the search ends with {s}")),
                Err(e) => Err(e.to_string()),
            }
        }
        _ => {
            let part = get("part");
            let Some(p) = c.parts.iter().find(|p| p.name == part) else {
                eprintln!("unknown part");
                return ExitCode::from(2);
            };
            let choices = get("choices");
            let choices: Vec<u64> = choices
                .split(',')
                .filter(|c| !c.is_empty())
                .map(num)
                .collect();
            on_big_stack(p.case, &mut Src::replay(choices))
        }
    };
    match r {
        Ok(()) => {
            println!("the property holds for this replay");
            ExitCode::SUCCESS
        }
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", c.id, file.display());
            ExitCode::from(1)
        }
    }
}

mod engine;
mod gen;
mod obs;
mod props;
mod walk;

use engine::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

/// Requests above this are refused, as an exhausted machine would: the code under test then aborts and the
/// parent reports the input. No input explored here needs more than a few MB.
const ALLOC_LIMIT: usize = 1 << 30;
struct Guard;
thread_local! {
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static PEAK: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
fn account(d: i64) {
    // of the requests of this thread only; what it frees for another makes this a lower bound
    let _ = LIVE.try_with(|c| {
        let n = c.get() + d;
        c.set(n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(n)));
    });
}
/// Most memory held at once by this thread while `f` runs, above what it held before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = LIVE.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, PEAK.with(|p| p.get()) - base)
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > ALLOC_LIMIT {
            return std::ptr::null_mut();
        }
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > ALLOC_LIMIT {
            return std::ptr::null_mut();
        }
        account(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > ALLOC_LIMIT {
            return std::ptr::null_mut();
        }
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GUARD: Guard = Guard;

static OUT: OnceLock<PathBuf> = OnceLock::new();
static PARTIAL: std::sync::Mutex<Option<Outcome>> = std::sync::Mutex::new(None);

/// Called by the watchdog: the process cannot continue (a thread is stuck), so leave the verdict and go.
pub fn report_hang(v: Violation) -> ! {
    let mut o = PARTIAL.lock().unwrap().clone().unwrap_or_default();
    o.violations.push(v);
    if let Some(p) = OUT.get() {
        let _ = std::fs::write(p, serde_json::to_vec(&o).unwrap());
    }
    std::process::exit(0)
}

/// A directory of this run, removed by the parent.
pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("FITSMC_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string()))
}

fn threads() -> usize {
    std::env::var("FITSMC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    })
}

fn worker(id: &str, tier: &str, out: &Path, slots: &Path) -> ExitCode {
    OUT.set(out.to_path_buf()).unwrap();
    install_hook();
    let Some(p) = props::find(id) else { return ExitCode::from(2) };
    let thorough = tier == "thorough";
    let n = threads();
    let files: Vec<_> = (0..n)
        .map(|i| std::fs::File::create(slots.join(format!("slot{i}"))).expect("slot"))
        .collect();
    // thorough spaces that do not fit are cut and reported as not exhaustive; quick ones are sized to fit
    let limit = if thorough { 3 * 3600 } else { 600 };
    let deadline = Instant::now() + Duration::from_secs(limit);
    let mut o = Outcome::default();
    let only = std::env::var("FITSMC_SPACE").ok();
    for (i, sp) in p.spaces.iter().enumerate() {
        if only.as_ref().is_some_and(|s| s != sp.name) {
            continue;
        }
        let (st, v, e) = explore(i, sp, thorough, n, &files, Some(deadline));
        if std::env::var("FITSMC_VERBOSE").is_ok() {
            eprintln!("{} {:?}", id, st);
        }
        o.spaces.push(st);
        let fresh = v.iter().any(|v| v.sig.is_none());
        o.violations.extend(v);
        if e.is_some() {
            o.engine_error = e;
            break;
        }
        *PARTIAL.lock().unwrap() = Some(o.clone());
        if fresh {
            // the verdict is settled; the spaces after this one would only repeat it
            break;
        }
    }
    std::fs::write(out, serde_json::to_vec(&o).unwrap()).expect("write outcome");
    ExitCode::SUCCESS
}

fn one(id: &str, tier: &str, space: &str, choices: &str) -> ExitCode {
    install_hook();
    let Some(p) = props::find(id) else { return ExitCode::from(2) };
    let Some(sp) = p.spaces.iter().find(|s| s.name == space) else { return ExitCode::from(2) };
    let prefix: Vec<u32> = choices.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("choice")).collect();
    let sp = *sp;
    let thorough = tier == "thorough";
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(60));
        println!("hang: no answer within 60 s");
        std::process::exit(1);
    });
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let (ch, end) = run_one(&sp, prefix, thorough, true);
            println!("case: {}", ch.desc);
            match end {
                RunEnd::Ok => {
                    println!("held");
                    0
                }
                RunEnd::Violation(m) => {
                    println!("violated: {m}");
                    1
                }
                RunEnd::Engine(m) => {
                    println!("engine error: {m}");
                    2
                }
            }
        })
        .unwrap();
    ExitCode::from(h.join().unwrap_or(2))
}

fn choices_str(p: &[u32]) -> String {
    p.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
}

#[derive(serde::Deserialize)]
struct Known {
    property: String,
    sig: String,
    what: String,
}

fn known(verif: &Path) -> Vec<Known> {
    // lines: "known: <json>"; other lines (fixed: ..., comments) suppress nothing
    let Ok(s) = std::fs::read_to_string(verif.join("known_findings.txt")) else { return vec![] };
    s.lines().filter_map(|l| l.strip_prefix("known: ")).filter_map(|j| serde_json::from_str(j).ok()).collect()
}

fn check(id: &str) -> ExitCode {
    let t0 = Instant::now();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {id}");
        return ExitCode::from(2);
    };
    let work = verif.join(format!(".build/run-{id}-{}", std::process::id()));
    let rep = verif.join(".build/replays");
    std::fs::create_dir_all(&work).expect("work dir");
    std::fs::create_dir_all(&rep).expect("replay dir");
    let out = work.join("outcome.json");
    let exe = std::env::current_exe().unwrap();
    let status = Command::new(&exe)
        .args(["worker", id, tier])
        .arg(&out)
        .arg(&work)
        .env("FITSMC_SCRATCH", &work)
        .status()
        .expect("spawn worker");
    let mut o: Outcome = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
    if !out.exists() {
        // the process died: abort, stack overflow, refused allocation. One of the announced cases did it.
        let mut found = false;
        for e in std::fs::read_dir(&work).unwrap().flatten() {
            let Ok(b) = std::fs::read(e.path()) else { continue };
            if b.len() < 8 || !e.file_name().to_string_lossy().starts_with("slot") {
                continue;
            }
            let w = |i: usize| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
            let (sp, n) = (w(0) as usize, w(1) as usize);
            if b.len() < 8 + 4 * n || sp >= p.spaces.len() {
                continue;
            }
            let prefix: Vec<u32> = (0..n).map(|i| w(2 + i)).collect();
            let o1 = Command::new(&exe)
                .args(["one", id, tier, p.spaces[sp].name, &choices_str(&prefix)])
                .env("FITSMC_SCRATCH", &work)
                .output()
                .expect("spawn one");
            if o1.status.code() != Some(0) && o1.status.code() != Some(2) {
                let err = String::from_utf8_lossy(&o1.stderr);
                o.violations.push(Violation {
                    space: p.spaces[sp].name.into(),
                    prefix,
                    msg: format!("process died ({}): {}", o1.status, err.lines().last().unwrap_or("")),
                    sig: None,
                });
                found = true;
            }
        }
        if !found {
            eprintln!("engine error: worker ended with {status} and no announced case reproduces it");
            let _ = std::fs::remove_dir_all(&work);
            return ExitCode::from(2);
        }
    }
    let _ = std::fs::remove_dir_all(&work);
    let kn = known(&verif);
    let mut fresh = vec![];
    let mut listed: Vec<String> = vec![];
    for v in &o.violations {
        match kn.iter().find(|k| k.property == id && Some(&k.sig) == v.sig.as_ref()) {
            Some(k) => {
                if !listed.contains(&k.what) {
                    listed.push(k.what.clone())
                }
            }
            None => fresh.push(v),
        }
    }
    let states: u64 = o.spaces.iter().map(|s| s.states).sum();
    let transitions: u64 = o.spaces.iter().map(|s| s.transitions).sum();
    let execs: u64 = o.spaces.iter().map(|s| s.executions).sum();
    let exhaustive = !o.spaces.is_empty() && o.spaces.len() == p.spaces.len() && o.spaces.iter().all(|s| s.complete);
    let samples: Vec<String> = o.spaces.iter().flat_map(|s| s.samples.iter().take(6).map(move |x| format!("[{}] {}", s.name, x))).collect();
    let mut cov = serde_json::json!({
        "samples": samples,
        "exhaustive": exhaustive,
        "spaces": o.spaces.iter().map(|s| serde_json::json!({
            "name": s.name, "executions": s.executions, "transitions": s.transitions, "states": s.states,
            "max_decisions": s.max_depth, "complete": s.complete, "wall_s": s.wall_s })).collect::<Vec<_>>(),
        "rule": p.rule,
    });
    let m = cov.as_object_mut().unwrap();
    if p.level == "fault_enumeration" {
        m.insert("evaluations".into(), execs.into());
        m.insert("distinct_nontrivial".into(), states.into());
    }
    m.insert("states".into(), states.into());
    m.insert("transitions".into(), transitions.into());
    m.insert("traces_validated_against_impl".into(), execs.into());
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": seed, "level": p.level,
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": fresh.len(),
    });
    let evdir = verif.join("evidence");
    std::fs::create_dir_all(&evdir).expect("evidence dir");
    std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    for w in &listed {
        println!("KNOWN-FINDING: property={id} {w}");
    }
    if !fresh.is_empty() {
        for (i, v) in fresh.iter().take(5).enumerate() {
            let f = rep.join(format!("{id}-{i}.json"));
            let j = serde_json::json!({"property": id, "tier": tier, "space": v.space, "choices": v.prefix, "message": v.msg});
            std::fs::write(&f, serde_json::to_string(&j).unwrap()).expect("replay");
            println!("[{}] {}", v.space, v.msg.chars().take(1500).collect::<String>());
            println!("VIOLATION property={id} replay={}", f.display());
        }
        return ExitCode::from(1);
    }
    if let Some(e) = o.engine_error {
        eprintln!("engine error: {e}");
        return ExitCode::from(2);
    }
    println!("{id}: held; executions={execs} states={states} transitions={transitions} exhaustive={exhaustive} wall={:.1}s", t0.elapsed().as_secs_f64());
    ExitCode::SUCCESS
}

fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("worker") => worker(&a[2], &a[3], Path::new(&a[4]), Path::new(&a[5])),
        Some("one") => one(&a[2], &a[3], &a[4], a.get(5).map(|s| s.as_str()).unwrap_or("")),
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).expect("replay file")).expect("json");
            let c: Vec<u32> = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            one(j["property"].as_str().unwrap(), j["tier"].as_str().unwrap(), j["space"].as_str().unwrap(), &choices_str(&c))
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.spaces.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("usage: fitsmc check ID | replay FILE | list");
            ExitCode::from(2)
        }
    }
}

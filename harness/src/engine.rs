//! Stateless explicit enumeration: a body draws every decision from a [`Ch`], and the engine runs the
//! body once for every possible sequence of decisions (depth-first, by re-execution from a prefix).
//! Nothing is sampled: when a run ends without the budget being cut, the finite space is covered.

use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

pub type R = Result<(), String>;

#[derive(Clone, Copy)]
pub struct Space {
    pub name: &'static str,
    pub body: fn(&mut Ch) -> R,
}

pub struct Ch {
    prefix: Vec<u32>,
    pos: usize,
    /// (chosen, arity) of every decision of this run
    pub trace: Vec<(u32, u32)>,
    pub thorough: bool,
    pub sampling: bool,
    pub desc: String,
    fps: Vec<u64>,
    pub steps: u64,
    pub inner: u64,
    pub sig: Option<String>,
}

impl Ch {
    fn new(prefix: Vec<u32>, thorough: bool, sampling: bool) -> Self {
        Ch {
            prefix,
            pos: 0,
            trace: vec![],
            thorough,
            sampling,
            desc: String::new(),
            fps: vec![],
            steps: 0,
            inner: 0,
            sig: None,
        }
    }
    /// One decision among `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "engine: empty choice");
        if n == 1 {
            return 0;
        }
        let c = if self.pos < self.prefix.len() { self.prefix[self.pos] } else { 0 };
        self.pos += 1;
        assert!((c as usize) < n, "engine: replayed choice out of range");
        self.trace.push((c, n as u32));
        c as usize
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.choose(xs.len())].clone()
    }
    /// Value in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }
    /// Record the fingerprint of a state reached.
    pub fn visit<T: Hash>(&mut self, t: &T) {
        self.fps.push(fp(t));
    }
    /// Count one executed step (operation, event) of the system.
    pub fn step(&mut self) {
        self.steps += 1;
    }
    /// For bodies that enumerate an inner product in a plain loop: one more execution compared.
    pub fn exec(&mut self) {
        self.inner += 1;
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.sampling {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&f());
        }
    }
}

pub fn fp<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
pub struct Violation {
    pub space: String,
    pub prefix: Vec<u32>,
    pub msg: String,
    pub sig: Option<String>,
}

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, Default)]
pub struct SpaceStats {
    pub name: String,
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub max_depth: u64,
    pub complete: bool,
    pub wall_s: f64,
    pub samples: Vec<String>,
}

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, Default)]
pub struct Outcome {
    pub spaces: Vec<SpaceStats>,
    pub violations: Vec<Violation>,
    pub engine_error: Option<String>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
            let line = info.location().map(|l| l.line()).unwrap_or(0);
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            PANIC.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() {
                    *p = Some((loc.clone(), format!("panic at {loc}:{line}: {msg}")))
                }
            });
        } else {
            def(info)
        }
    }));
}

pub enum RunEnd {
    Ok,
    Violation(String),
    Engine(String),
}

fn is_harness_file(f: &str) -> bool {
    // path of this crate's own sources as rustc records them (those of /repo are absolute)
    f.starts_with("src/") || f.contains("/verif/harness/src/")
}

/// Run the body on one decision prefix.
pub fn run_one(sp: &Space, prefix: Vec<u32>, thorough: bool, sampling: bool) -> (Ch, RunEnd) {
    let mut ch = Ch::new(prefix, thorough, sampling);
    PANIC.with(|p| *p.borrow_mut() = None);
    QUIET.with(|q| q.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sp.body)(&mut ch)));
    QUIET.with(|q| q.set(false));
    let end = match r {
        Ok(Ok(())) => RunEnd::Ok,
        Ok(Err(m)) => RunEnd::Violation(m),
        Err(_) => {
            let (file, m) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness_file(&file) {
                RunEnd::Engine(m)
            } else {
                RunEnd::Violation(m)
            }
        }
    };
    (ch, end)
}

struct Shared {
    queue: Mutex<Vec<Vec<u32>>>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    done: AtomicBool,
    execs: AtomicU64,
    trans: AtomicU64,
    depth: AtomicU64,
    seen: Vec<Mutex<HashSet<u64>>>,
    viol: Mutex<Vec<Violation>>,
    err: Mutex<Option<String>>,
    samples: Mutex<Vec<String>>,
    /// start time of the current run of each worker (ms since epoch0, 0 = idle)
    started: Vec<AtomicU64>,
    current: Vec<Mutex<Vec<u32>>>,
}

const HANG_MS: u64 = 45_000;

pub fn explore(
    idx: usize,
    sp: &Space,
    thorough: bool,
    threads: usize,
    slots: &[std::fs::File],
    deadline: Option<Instant>,
) -> (SpaceStats, Vec<Violation>, Option<String>) {
    let t0 = Instant::now();
    let sh = Shared {
        queue: Mutex::new(vec![vec![]]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        done: AtomicBool::new(false),
        execs: AtomicU64::new(0),
        trans: AtomicU64::new(0),
        depth: AtomicU64::new(0),
        seen: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        viol: Mutex::new(vec![]),
        err: Mutex::new(None),
        samples: Mutex::new(vec![]),
        started: (0..threads).map(|_| AtomicU64::new(0)).collect(),
        current: (0..threads).map(|_| Mutex::new(vec![])).collect(),
    };
    let cut = AtomicBool::new(false);
    std::thread::scope(|s| {
        for w in 0..threads {
            let (sh, slot, cut) = (&sh, &slots[w], &cut);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || worker(w, idx, sp, thorough, threads, sh, slot, t0, deadline, cut))
                .expect("spawn");
        }
        let sh = &sh;
        s.spawn(move || {
            while !sh.done.load(SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(100));
                let now = t0.elapsed().as_millis() as u64 + 1;
                for w in 0..threads {
                    let st = sh.started[w].load(SeqCst);
                    if st != 0 && now > st + HANG_MS {
                        // the run does not come back: report from here, the process ends
                        let prefix = sh.current[w].lock().unwrap().clone();
                        let v = Violation {
                            space: sp.name.into(),
                            prefix,
                            msg: format!("no answer within {HANG_MS} ms (hang)"),
                            sig: None,
                        };
                        crate::report_hang(v);
                    }
                }
            }
        });
    });
    let states: u64 = sh.seen.iter().map(|m| m.lock().unwrap().len() as u64).sum();
    let stats = SpaceStats {
        name: sp.name.into(),
        executions: sh.execs.load(SeqCst),
        transitions: sh.trans.load(SeqCst),
        states,
        max_depth: sh.depth.load(SeqCst),
        complete: !sh.stop.load(SeqCst) && !cut.load(SeqCst),
        wall_s: t0.elapsed().as_secs_f64(),
        samples: sh.samples.into_inner().unwrap(),
    };
    (stats, sh.viol.into_inner().unwrap(), sh.err.into_inner().unwrap())
}

#[allow(clippy::too_many_arguments)]
fn worker(
    w: usize,
    idx: usize,
    sp: &Space,
    thorough: bool,
    threads: usize,
    sh: &Shared,
    slot: &std::fs::File,
    t0: Instant,
    deadline: Option<Instant>,
    cut: &AtomicBool,
) {
    let mut local: Vec<Vec<u32>> = vec![];
    let mut nrun = 0u64;
    let max = if std::env::var("FITSMC_FAILFAST").is_ok() { 1 } else { 100 };
    loop {
        if sh.stop.load(Relaxed) || cut.load(Relaxed) {
            break;
        }
        let prefix = match local.pop() {
            Some(p) => p,
            None => {
                let mut q = sh.queue.lock().unwrap();
                let mut p = q.pop();
                if p.is_none() {
                    sh.idle.fetch_add(1, SeqCst);
                    loop {
                        if sh.stop.load(SeqCst) || cut.load(SeqCst) || sh.done.load(SeqCst) {
                            break;
                        }
                        if sh.idle.load(SeqCst) == threads && q.is_empty() {
                            sh.done.store(true, SeqCst);
                            sh.cv.notify_all();
                            break;
                        }
                        let (g, _) = sh.cv.wait_timeout(q, std::time::Duration::from_millis(20)).unwrap();
                        q = g;
                        p = q.pop();
                        if p.is_some() {
                            sh.idle.fetch_sub(1, SeqCst);
                            break;
                        }
                    }
                }
                match p {
                    Some(p) => p,
                    None => break,
                }
            }
        };
        // announce (for the watchdog and for the parent, should this process die)
        *sh.current[w].lock().unwrap() = prefix.clone();
        let mut rec = Vec::with_capacity(8 + 4 * prefix.len());
        rec.extend_from_slice(&(idx as u32).to_le_bytes());
        rec.extend_from_slice(&(prefix.len() as u32).to_le_bytes());
        for c in &prefix {
            rec.extend_from_slice(&c.to_le_bytes());
        }
        let _ = slot.write_all_at(&rec, 0);
        sh.started[w].store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
        let forced = prefix.len();
        let sampling = nrun.is_power_of_two() && nrun < 1 << 20 && sh.samples.lock().unwrap().len() < 12;
        let (ch, end) = run_one(sp, prefix, thorough, sampling);
        sh.started[w].store(0, SeqCst);
        nrun += 1;
        sh.execs.fetch_add(1 + ch.inner, Relaxed);
        // decisions taken for the first time by this run are new edges of the execution tree
        let new_edges = ch.trace.len().saturating_sub(forced.saturating_sub(1)) as u64;
        sh.trans.fetch_add(new_edges + ch.steps, Relaxed);
        sh.depth.fetch_max(ch.trace.len() as u64, Relaxed);
        if ch.fps.is_empty() {
            let f = fp(&ch.trace);
            sh.seen[(f % 64) as usize].lock().unwrap().insert(f);
        }
        for f in &ch.fps {
            sh.seen[(f % 64) as usize].lock().unwrap().insert(*f);
        }
        if sampling && !ch.desc.is_empty() {
            sh.samples.lock().unwrap().push(ch.desc.clone());
        }
        let choices: Vec<u32> = ch.trace.iter().map(|t| t.0).collect();
        match end {
            RunEnd::Ok => {}
            RunEnd::Violation(m) => {
                let mut v = sh.viol.lock().unwrap();
                if v.len() < max {
                    v.push(Violation { space: sp.name.into(), prefix: choices.clone(), msg: m, sig: ch.sig.clone() });
                }
                if v.len() >= max {
                    sh.stop.store(true, SeqCst);
                }
            }
            RunEnd::Engine(m) => {
                *sh.err.lock().unwrap() = Some(format!("{} at {:?}: {m}", sp.name, choices));
                sh.stop.store(true, SeqCst);
            }
        }
        // alternatives of the decisions taken by default in this run
        for pos in forced..ch.trace.len() {
            let (_, n) = ch.trace[pos];
            for alt in (1..n).rev() {
                let mut p = choices[..pos].to_vec();
                p.push(alt);
                local.push(p);
            }
        }
        if local.len() > 1 && sh.idle.load(Relaxed) > 0 {
            let mut q = sh.queue.lock().unwrap();
            let give = (local.len() / 2).min(256);
            q.extend(local.drain(..give));
            sh.cv.notify_all();
        }
        if let Some(d) = deadline {
            if nrun % 64 == 0 && Instant::now() > d {
                cut.store(true, SeqCst);
            }
        }
    }
    if sh.stop.load(SeqCst) || cut.load(SeqCst) {
        sh.done.store(true, SeqCst);
        sh.cv.notify_all();
    }
}

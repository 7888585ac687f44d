//! A small property-based-testing engine.
//!
//! Every random decision of a case is drawn through [`G`], which records it as
//! one number.  A case is therefore a pure function of a sequence of numbers
//! (the *choices*), a failing case is shrunk by editing that sequence, and a
//! replay file is that sequence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use serde_json::{json, Value};

pub type R = Result<(), String>;

/// splitmix64
fn mix(z: &mut u64) -> u64 {
    *z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut x = *z;
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// The source of every decision of one case.
pub struct G {
    state: u64,
    prefix: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub note: String,
    pub known: Vec<(String, String)>,
    case: u64,
}

/// The integer literals of the code under test: those it had when this was
/// written, and others. Inputs next to the constants in the code are the ones
/// most likely to take a branch that no others take.
static DICT: std::sync::LazyLock<(Vec<u64>, Vec<u64>)> = std::sync::LazyLock::new(|| {
    let text = std::env::var("VERIF_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
    let mut d = (vec![], vec![]);
    for l in text.lines() {
        let mut w = l.split_whitespace();
        if let (Some(kind), Some(Ok(v))) = (w.next(), w.next().map(|v| v.parse::<u64>())) {
            if kind == "new" { d.1.push(v) } else { d.0.push(v) }
        }
    }
    d
});

impl G {
    pub fn fresh(seed: u64, case: u64) -> Self {
        G { state: seed, prefix: None, rec: Vec::new(), labels: Vec::new(), nontrivial: false, note: String::new(), known: Vec::new(), case }
    }
    fn replay(choices: &[u64]) -> Self {
        G { state: 0, prefix: Some(choices.to_vec()), rec: Vec::new(), labels: Vec::new(), nontrivial: false, note: String::new(), known: Vec::new(), case: 0 }
    }

    fn put(&mut self, v: u64) {
        self.rec.push(v);
        if let Some(f) = TRACE.get() {
            use std::io::Write;
            let _ = (&*f).write_all(format!("{v}\n").as_bytes());
        }
    }

    /// A number in `0..n` that runs through all of them as the cases go on
    /// (a quick way to enumerate: `n` cases cover everything).
    pub fn turn(&mut self, n: u64) -> u64 {
        let v = match &self.prefix {
            None => self.case % n,
            Some(p) => p.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
        };
        self.put(v);
        v
    }

    /// A number in `0..bound` (`bound` 0 means any u64). Shrinks towards 0.
    pub fn draw(&mut self, bound: u64) -> u64 {
        let v = match &self.prefix {
            None => {
                let x = mix(&mut self.state);
                if bound == 0 { x } else { ((x as u128 * bound as u128) >> 64) as u64 }
            }
            Some(p) => {
                let x = p.get(self.rec.len()).copied().unwrap_or(0);
                if bound == 0 || x < bound { x } else { bound - 1 }
            }
        };
        self.put(v);
        v
    }

    /// Uniform in `lo..=hi`.
    pub fn int(&mut self, lo: u64, hi: u64) -> u64 {
        assert!(lo <= hi);
        lo + self.draw((hi - lo).wrapping_add(1))
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as u64, hi as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: u64) -> bool {
        self.draw(n) == n - 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64) as usize;
        &xs[i]
    }

    /// A number that occurs in the code under test (see `DICT`), or one next to it.
    pub fn literal(&mut self) -> u64 {
        let v = match &self.prefix {
            None => {
                let (old, new) = &*DICT;
                let x = mix(&mut self.state);
                let from = if old.is_empty() || (!new.is_empty() && x & 1 == 1) { new } else { old };
                if from.is_empty() { x >> 32 } else { from[(x >> 8) as usize % from.len()] }
            }
            Some(p) => p.get(self.rec.len()).copied().unwrap_or(0),
        };
        self.put(v);
        let d = self.draw(6);
        match d {
            0 | 1 | 2 => v,
            3 => v.wrapping_add(1),
            4 => v.wrapping_sub(1),
            _ => v.wrapping_mul(2),
        }
    }

    /// A length: up to `common`, now and then much longer.
    pub fn len(&mut self, common: usize) -> usize {
        if self.draw(48) != 47 {
            return self.us(0, common);
        }
        self.label("long");
        match self.draw(4) {
            0 => (1usize << self.us(6, 12)) + self.us(0, 2) - 1,
            1 => self.us(0, 5000),
            2 => 1 << self.us(6, 13),
            _ => {
                let v = self.literal();
                if v <= 10_000 { v as usize } else { self.us(0, 300) }
            }
        }
    }

    /// An integer in `lo..=hi`, biased to the ends, to powers of two and to
    /// small distances from them.
    pub fn edge(&mut self, lo: u64, hi: u64) -> u64 {
        assert!(lo <= hi, "edge({lo},{hi})");
        let span = hi - lo;
        match self.draw(9) {
            8 => {
                let v = self.literal();
                if v < lo || v > hi { self.int(lo, hi) } else { v }
            }
            0 => lo + self.draw(span.min(7) + 1),
            1 => hi - self.draw(span.min(7) + 1),
            2 | 3 => {
                // close to a power of two, or a power of two times a small number
                let k = self.draw(64);
                let d = self.draw(7) as i128 - 3;
                let base = (1u128 << k) as i128 + d;
                let v = base.clamp(lo as i128, hi as i128);
                v as u64
            }
            4 => {
                // uniformly random bit length
                let bits = self.draw(65);
                let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
                let v = self.draw(0) & m;
                if v < lo || v > hi { lo + if span == u64::MAX { v } else { v % (span + 1) } } else { v }
            }
            _ => self.int(lo, hi),
        }
    }

    /// A vector of `n` numbers in `0..m`: uniform, all equal, sparse, extreme.
    pub fn vec(&mut self, n: usize, m: u64) -> Vec<u64> {
        // m == 0 means any u64
        let hi = m.wrapping_sub(1);
        match self.draw(6) {
            0 => vec![self.edge(0, hi); n],
            1 => {
                let mut v = vec![0; n];
                if n > 0 {
                    for _ in 0..self.us(0, 3.min(n)) {
                        let i = self.us(0, n - 1);
                        v[i] = self.edge(0, hi);
                    }
                }
                v
            }
            2 => {
                // only values next to 0 and to the modulus
                let mut s = self.draw(0);
                (0..n).map(|_| {
                    let r = mix(&mut s);
                    let d = (r >> 1) % 3.min(hi.saturating_add(1).max(1));
                    if r & 1 == 0 { d } else { hi - d }
                }).collect()
            }
            3 if n <= 64 => (0..n).map(|_| self.edge(0, hi)).collect(),
            _ if n <= 16 => (0..n).map(|_| self.draw(m)).collect(),
            _ => {
                let mut s = self.draw(0);
                (0..n).map(|_| { let x = mix(&mut s); if m == 0 { x } else { ((x as u128 * m as u128) >> 64) as u64 } }).collect()
            }
        }
    }

    /// A generator for code that wants one; a pure function of the choices.
    pub fn rng(&mut self) -> ChaCha12Rng {
        ChaCha12Rng::seed_from_u64(self.draw(0))
    }

    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Marks the case as non-trivial by the sub-check's stated rule.
    pub fn hit(&mut self) {
        self.nontrivial = true;
    }
    pub fn hit_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true
        }
    }
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if self.note.is_empty() {
            self.note = s();
        }
    }
    /// A failure whose exact signature is `id`: it is a known finding when the
    /// committed file lists it, and a violation otherwise.
    pub fn known(&mut self, id: &str, what: impl Into<String>) -> R {
        let what = what.into();
        if KNOWN.lock().unwrap().contains(id) {
            self.known.push((id.to_string(), what));
            Ok(())
        } else {
            Err(format!("[{id}] {what}"))
        }
    }
}

static KNOWN: Mutex<std::collections::BTreeSet<String>> = Mutex::new(std::collections::BTreeSet::new());

pub struct Sub {
    pub name: &'static str,
    /// cases in the quick and in the thorough tier
    pub quick: usize,
    pub thorough: usize,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub f: fn(&mut G) -> R,
    /// runs on one thread (the case itself uses threads or is memory hungry)
    pub serial: bool,
    /// budget of re-executions while shrinking
    pub shrink: usize,
}

pub const fn sub(name: &'static str, quick: usize, thorough: usize, rule: &'static str, f: fn(&mut G) -> R) -> Sub {
    Sub { name, quick, thorough, rule, f, serial: false, shrink: 3000 }
}
impl Sub {
    pub const fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
    pub const fn shrink(mut self, n: usize) -> Self {
        self.shrink = n;
        self
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // what ends the process at once: a checked precondition of something unsafe
        if ["unsafe precondition", "misaligned pointer", "null pointer", "invalid enum value"].iter().any(|m| msg.contains(m)) {
            eprintln!("{msg} ({loc})");
            verif_death();
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked: {msg} ({loc})"));
        if !QUIET.with(|q| *q.borrow()) && std::env::var("VERIF_PANICS").is_ok() {
            old(info);
        }
    }));
}

/// Runs `f`, returning `None` when it panicked.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Option<T> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    QUIET.with(|q| *q.borrow_mut() = false);
    r
}

/// What a worker is doing, for the watchdog.
struct Worker {
    /// milliseconds since the start of the process, 0 when idle
    since: AtomicU64,
    case: AtomicU64,
    case_seed: AtomicU64,
    what: String,
    choices: Mutex<Vec<u64>>,
}
static WORKERS: Mutex<Vec<Arc<Worker>>> = Mutex::new(Vec::new());
static EPOCH: OnceLock<Instant> = OnceLock::new();
/// seconds after which a single execution counts as not terminating
const HANG_SECS: u64 = 240;

impl Worker {
    fn register(what: String) -> Arc<Worker> {
        let w = Arc::new(Worker { since: AtomicU64::new(0), case: AtomicU64::new(0), case_seed: AtomicU64::new(0), what, choices: Mutex::new(vec![]) });
        WORKERS.lock().unwrap().push(w.clone());
        w
    }
    fn start(&self) {
        let now = EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64;
        self.since.store(now + 1, Ordering::Relaxed);
    }
    fn stop(&self) {
        self.since.store(0, Ordering::Relaxed);
    }
}

/// Ends the run with a violation when one execution does not terminate.
fn watchdog(prop: &'static str, dir: String) {
    let epoch = *EPOCH.get_or_init(Instant::now);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = epoch.elapsed().as_millis() as u64 + 1;
        for w in WORKERS.lock().unwrap().iter() {
            let t = w.since.load(Ordering::Relaxed);
            if t != 0 && now > t + HANG_SECS * 1000 {
                let choices = w.choices.lock().unwrap().clone();
                let mut body = json!({"property": prop, "sub": w.what, "message": format!("the case did not terminate within {HANG_SECS} s")});
                if choices.is_empty() {
                    body["case"] = json!(w.case.load(Ordering::Relaxed));
                    body["case_seed"] = json!(w.case_seed.load(Ordering::Relaxed));
                } else {
                    body["choices"] = json!(choices);
                }
                let rdir = format!("{dir}/replays");
                let _ = std::fs::create_dir_all(&rdir);
                let path = format!("{rdir}/{prop}-hang.json");
                let _ = std::fs::write(&path, body.to_string());
                println!("a case of {} did not terminate within {HANG_SECS} s", w.what);
                println!("VIOLATION property={prop} replay={path}");
                std::process::exit(1);
            }
        }
    });
}

fn execute(f: fn(&mut G) -> R, mut g: G) -> (G, R) {
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut g)));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    };
    (g, r)
}

/// Shrinks a failing choice sequence.
fn shrink(name: &str, f: fn(&mut G) -> R, choices: Vec<u64>, msg: String, budget: usize) -> (Vec<u64>, String, usize) {
    let worker = Worker::register(name.to_string());
    let mut best = choices;
    let mut best_msg = msg;
    let mut runs = 0usize;
    let start = Instant::now();
    let spent = std::cell::Cell::new(false);
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        if runs >= budget || start.elapsed().as_secs() > 60 {
            spent.set(true);
            return false;
        }
        runs += 1;
        *worker.choices.lock().unwrap() = cand.to_vec();
        worker.start();
        let (g, r) = execute(f, G::replay(cand));
        worker.stop();
        match r {
            Err(m) => {
                // the recorded sequence is what the case really consumed
                let smaller = (g.rec.len(), &g.rec) < (best.len(), &*best);
                if smaller {
                    *best = g.rec;
                    *best_msg = m;
                }
                smaller
            }
            Ok(()) => false,
        }
    };
    loop {
        let before = best.clone();
        // delete blocks
        for size in [32usize, 8, 4, 2, 1] {
            let mut i = best.len();
            while i >= size && size > 0 && !spent.get() {
                i -= 1;
                if i + size > best.len() {
                    continue;
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                attempt(&c, &mut best, &mut best_msg);
                if i == 0 {
                    break;
                }
            }
        }
        // zero, then minimise single numbers
        let mut i = 0;
        while i < best.len() && !spent.get() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(&c, &mut best, &mut best_msg) && i < best.len() {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi && !spent.get() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt(&c, &mut best, &mut best_msg) {
                            if i >= best.len() {
                                break;
                            }
                            hi = best[i].min(mid);
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || spent.get() {
            break;
        }
    }
    (best, best_msg, runs)
}

#[derive(Default)]
struct Stats {
    runs: usize,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, usize>,
    samples: Vec<String>,
    known: BTreeMap<String, (String, usize)>,
    failure: Option<(usize, Vec<u64>, String)>,
    secs: f64,
}

fn digest(v: &[u64]) -> u64 {
    let mut h = 0x1234_5678u64 ^ v.len() as u64;
    for x in v {
        h ^= *x;
        mix(&mut h);
    }
    h
}

fn run_sub(prop: &str, s: &Sub, seed: u64, cases: usize, threads: usize) -> Stats {
    let total = Mutex::new(Stats::default());
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let base = hash_str(&format!("{prop}/{}", s.name)) ^ seed.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    let t0 = Instant::now();
    let threads = if s.serial { 1 } else { threads };
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, || {
                    let worker = Worker::register(s.name.to_string());
                    let mut loc = Stats::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cases || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut st = base.wrapping_add((i as u64).wrapping_mul(0xA24B_AED4_963E_E407));
                        let case_seed = mix(&mut st);
                        let (g, r) = {
                            worker.case.store(i as u64, Ordering::Relaxed);
                            worker.case_seed.store(case_seed, Ordering::Relaxed);
                            worker.start();
                            let r = execute(s.f, G::fresh(case_seed, i as u64));
                            worker.stop();
                            r
                        };
                        loc.runs += 1;
                        for l in &g.labels {
                            *loc.labels.entry(l).or_default() += 1;
                        }
                        if g.nontrivial {
                            loc.nontrivial.insert(digest(&g.rec));
                        }
                        if loc.samples.len() < 3 && !g.note.is_empty() {
                            loc.samples.push(g.note.clone());
                        }
                        for (k, w) in g.known {
                            let e = loc.known.entry(k).or_insert((w, 0));
                            e.1 += 1;
                        }
                        if let Err(m) = r {
                            stop.store(true, Ordering::Relaxed);
                            loc.failure = Some((i, g.rec, m));
                            break;
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.runs += loc.runs;
                    t.nontrivial.extend(loc.nontrivial);
                    for (k, v) in loc.labels {
                        *t.labels.entry(k).or_default() += v;
                    }
                    t.samples.extend(loc.samples);
                    t.samples.truncate(3);
                    for (k, (w, n)) in loc.known {
                        let e = t.known.entry(k).or_insert((w, 0));
                        e.1 += n;
                    }
                    if let Some(f) = loc.failure {
                        if t.failure.as_ref().map_or(true, |g| f.0 < g.0) {
                            t.failure = Some(f);
                        }
                    }
                })
                .expect("spawn");
        }
    });
    let mut t = total.into_inner().unwrap();
    t.secs = t0.elapsed().as_secs_f64();
    t
}

/// One property and its sub-checks.
pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Sub>,
    pub assumptions: &'static [&'static str],
}

/// A history of its own: a few cases of every sub-check, on one thread, starting with the `k`-th.
fn child(prop: &Prop, seed: u64, k: u64, thorough: bool, dir: &str) -> ! {
    watchdog(prop.id, dir.to_string());
    let (mut evals, mut nontrivial) = (0, 0);
    let n = prop.subs.len();
    for i in 0..n {
        let s = &prop.subs[(i + k as usize) % n];
        if s.shrink < 100 {
            // long cases
            continue;
        }
        let cases = if k % 2 == 0 { (s.quick / 400).clamp(2, 1000) } else { (s.quick / 60).clamp(2, 8000) };
        let st = run_sub(prop.id, s, seed.wrapping_mul(1_000_003).wrapping_add(k + 1), cases, 1);
        evals += st.runs;
        nontrivial += st.nontrivial.len();
        if let Some((case, choices, msg)) = st.failure {
            println!("  process {k}, sub-check {}, case {case}: {}", s.name, msg.chars().take(600).collect::<String>());
            let (g, r) = execute(s.f, G::replay(&choices));
            println!("  input: {}", g.note.chars().take(600).collect::<String>());
            let rdir = format!("{dir}/replays");
            let _ = std::fs::create_dir_all(&rdir);
            let path = format!("{rdir}/{}-process-{k}.json", prop.id);
            let body = json!({
                "property": prop.id, "process": k, "seed": seed, "thorough": thorough, "sub": s.name, "case": case, "choices": choices,
                "message": msg, "input": g.note, "repeats at once": r.is_err(),
                "how": format!("bin/check {} --replay {} (runs the same sequence of cases in a new process)", prop.id, path),
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            println!("VIOLATION property={} replay={}", prop.id, path);
            std::process::exit(1)
        }
    }
    println!("process {k}: {evals} {nontrivial}");
    std::process::exit(0)
}

/// Every other process is of the build without debug assertions and overflow checks,
/// and every eighth of the one with the feature `nightly`, where there is one.
fn exe_of(k: u64) -> std::path::PathBuf {
    if let (5, Ok(p)) = (k % 8, std::env::var("VERIF_NIGHTLY")) {
        return p.into();
    }
    match std::env::var("VERIF_PLAIN") {
        Ok(p) if k % 2 == 1 => p.into(),
        _ => std::env::current_exe().expect("own path"),
    }
}

/// Runs `n` processes; returns cases, non-trivial cases and replay files of violations.
fn children(prop: &str, seed: u64, n: u64, threads: usize) -> (usize, usize, Vec<String>) {
    let next = AtomicU64::new(0);
    let all = Mutex::new((0, 0, vec![]));
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= n || !all.lock().unwrap().2.is_empty() {
                    break;
                }
                // running out of 8 GB ends a process with an abort
                let out = std::process::Command::new("/bin/sh")
                    .args(["-c", "ulimit -v 8388608; exec \"$0\" \"$@\""])
                    .arg(exe_of(k))
                    .args([prop, "--process", &k.to_string()])
                    .env("VERIF_SEED", seed.to_string())
                    .output()
                    .expect("start a process");
                let text = String::from_utf8_lossy(&out.stdout);
                let mut a = all.lock().unwrap();
                if let Some(l) = text.lines().find(|l| l.starts_with("VIOLATION ")) {
                    print!("{}", text.lines().filter(|l| !l.starts_with("VIOLATION ")).fold(String::new(), |s, l| s + l + "\n"));
                    let path = l.split("replay=").nth(1).unwrap_or("none").to_string();
                    a.2.push(path);
                } else if let Some(l) = text.lines().find(|l| l.starts_with("process ")) {
                    let v: Vec<usize> = l.split([' ', ':']).filter_map(|w| w.parse().ok()).collect();
                    a.0 += v[1];
                    a.1 += v[2];
                } else {
                    use std::os::unix::process::ExitStatusExt;
                    let sig = out.status.signal().unwrap_or(0);
                    println!("  process {k} ended by itself: {:?} {}", out.status, text.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>());
                    if [4, 6, 7, 8, 11].contains(&sig) {
                        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
                        let path = format!("{dir}/replays/{prop}-process-{k}.json");
                        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
                        let _ = std::fs::write(&path, json!({"property": prop, "process": k, "seed": seed, "message": format!("killed by signal {sig}")}).to_string());
                        a.2.push(path);
                    } else {
                        std::process::exit(3);
                    }
                }
            });
        }
    });
    all.into_inner().unwrap()
}

/// Where the choices of a case go as they are made, for cases that end the process.
static TRACE: OnceLock<std::fs::File> = OnceLock::new();

/// The case that is running, for the report of a sanitizer.
static NOW: [AtomicU64; 3] = [const { AtomicU64::new(0) }; 3];

#[no_mangle]
pub extern "C" fn verif_death() {
    println!("DEATH {} {} {}", NOW[0].load(Ordering::Relaxed), NOW[1].load(Ordering::Relaxed), NOW[2].load(Ordering::Relaxed));
}

/// Entry point of a binary whose cases may end the process: a driver runs it
/// (bin/safe.py) and finds out which case it was.
///
/// `--worker K SCALE`: cases of every sub-check, starting with the K-th;
/// `--case SUB SEED N [FILE]`: one of them, its choices to FILE;
/// `--choices SUB FILE`: the case with these choices.
pub fn worker(prop: Prop) -> ! {
    install_hook();
    extern "C" {
        #[cfg(sanitized)]
        fn __sanitizer_set_death_callback(f: extern "C" fn());
    }
    #[cfg(sanitized)]
    unsafe {
        __sanitizer_set_death_callback(verif_death)
    };
    let args: Vec<String> = std::env::args().skip(1).collect();
    let num = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    match args.first().map(String::as_str) {
        Some("--case") => {
            let s = &prop.subs[num(1) as usize];
            if let Some(f) = args.get(4) {
                let _ = TRACE.set(std::fs::File::create(f).expect("trace file"));
            }
            let (g, r) = execute(s.f, G::fresh(num(2), num(3)));
            println!("{}: {} {r:?}", s.name, g.note);
            std::process::exit(r.is_err() as i32)
        }
        Some("--choices") => {
            let s = &prop.subs[num(1) as usize];
            let text = std::fs::read_to_string(&args[2]).expect("choices");
            let c: Vec<u64> = text.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            let (g, r) = execute(s.f, G::replay(&c));
            println!("{}: {} {r:?}", s.name, g.note);
            std::process::exit(r.is_err() as i32)
        }
        Some("--worker") => {
            let k = num(1);
            let scale: f64 = args[2].parse().expect("scale");
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
            let n = prop.subs.len();
            // no new case once this much time has passed
            let limit: f64 = std::env::var("VERIF_LIMIT").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1e9);
            let start = Instant::now();
            for i in 0..n {
                let stop = limit * (i + 1) as f64 / n as f64;
                let at = (i + k as usize) % n;
                let s = &prop.subs[at];
                let cases = ((s.quick as f64 * scale) as u64).max(1);
                let base = hash_str(&format!("{}/{}", prop.id, s.name)) ^ seed.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ k.wrapping_mul(0x9E6C_63D0_876A_3F6B);
                let mut st = Stats::default();
                let t0 = Instant::now();
                for i in 0..cases {
                    if i > 0 && start.elapsed().as_secs_f64() > stop {
                        break;
                    }
                    let mut z = base.wrapping_add(i.wrapping_mul(0xA24B_AED4_963E_E407));
                    let case_seed = mix(&mut z);
                    for (a, v) in NOW.iter().zip([at as u64, case_seed, i]) {
                        a.store(v, Ordering::Relaxed);
                    }
                    if cfg!(miri) {
                        println!("AT {at} {case_seed} {i}");
                    }
                    let (g, r) = execute(s.f, G::fresh(case_seed, i));
                    st.runs += 1;
                    for l in &g.labels {
                        *st.labels.entry(l).or_default() += 1;
                    }
                    if g.nontrivial {
                        st.nontrivial.insert(digest(&g.rec));
                    }
                    if st.samples.is_empty() {
                        st.samples.push(g.note);
                    }
                    if let Err(m) = r {
                        // a call of the preparation panicked
                        *st.labels.entry("preparation panicked").or_default() += 1;
                        if st.samples.len() < 3 {
                            st.samples.push(m);
                        }
                    }
                }
                println!("{}", json!({"at": at, "sub": s.name, "rule": s.rule, "runs": st.runs, "nontrivial": st.nontrivial.len(), "labels": st.labels, "samples": st.samples, "secs": t0.elapsed().as_secs_f64()}));
            }
            println!("done");
            std::process::exit(0)
        }
        _ => {
            println!("usage: --worker K SCALE | --case SUB SEED N [FILE] | --choices SUB FILE");
            std::process::exit(3)
        }
    }
}

/// Entry point of a harness binary. Never returns.
pub fn main(props: Vec<Prop>) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(prop) = props.into_iter().find(|p| p.id == id) else {
        println!("error: this binary does not decide {id}");
        std::process::exit(3)
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
    });
    {
        // known-findings: lines "open: id=<signature> property=<id> ..." are listed findings
        let text = std::fs::read_to_string(format!("{dir}/known_findings.txt")).unwrap_or_default();
        let mut k = KNOWN.lock().unwrap();
        for line in text.lines() {
            let line = line.trim();
            if let Some(rest) = line.strip_prefix("open:") {
                let word = |key: &str| rest.split_whitespace().find_map(|w| w.strip_prefix(key)).map(str::to_string);
                if word("property=").as_deref() == Some(prop.id) {
                    if let Some(sig) = word("id=") {
                        k.insert(sig);
                    }
                }
            }
        }
    }

    if let Some(file) = opt("--replay") {
        let text = std::fs::read_to_string(&file).expect("replay file");
        let v: Value = serde_json::from_str(&text).expect("replay file is JSON");
        if let Some(k) = v["process"].as_u64() {
            use std::os::unix::process::CommandExt;
            let exe = exe_of(k);
            if exe != std::env::current_exe().expect("own path") {
                println!("{}", std::process::Command::new(exe).args([prop.id, "--replay", &file]).exec());
                std::process::exit(3)
            }
            child(&prop, v["seed"].as_u64().unwrap_or(1), k, v["thorough"].as_bool().unwrap_or(false), &dir);
        }
        let name = v["sub"].as_str().unwrap_or_default();
        let choices: Vec<u64> = v["choices"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
        let s = prop.subs.iter().find(|s| s.name == name).expect("sub-check of the replay file");
        let start = match v["case_seed"].as_u64() {
            Some(cs) => G::fresh(cs, v["case"].as_u64().unwrap_or(0)),
            None => G::replay(&choices),
        };
        let (g, r) = execute(s.f, start);
        println!("replay {}/{}: {}", prop.id, name, g.note);
        match r {
            Ok(()) => {
                println!("held");
                std::process::exit(0)
            }
            Err(m) => {
                println!("{m}");
                println!("VIOLATION property={} replay={}", prop.id, file);
                std::process::exit(1)
            }
        }
    }

    if let Some(k) = opt("--process").and_then(|k| k.parse().ok()) {
        child(&prop, seed, k, thorough, &dir);
    }
    watchdog(prop.id, dir.clone());
    let only = opt("--sub");
    let t0 = Instant::now();
    let mut rows = Vec::new();
    let (mut evals, mut nontrivial) = (0usize, 0usize);
    let mut samples = Vec::new();
    let mut known: BTreeMap<String, (String, usize)> = BTreeMap::new();
    let mut violations = Vec::new();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    for s in &prop.subs {
        if violations.len() >= 2 {
            break;
        }
        if only.as_deref().is_some_and(|o| o != s.name) {
            continue;
        }
        let cases = if thorough { s.thorough } else { s.quick };
        // enumerations are run once whatever the scale
        let cases = if scale == 1.0 || s.quick == s.thorough { cases } else { ((cases as f64 * scale) as usize).max(1) };
        // named in the report should the process be killed by a signal
        let _ = std::fs::write(format!("{}/current-{}", std::env::var("VERIF_WORK").unwrap_or_else(|_| "/tmp".into()), prop.id), s.name);
        let st = run_sub(prop.id, s, seed, cases, threads);
        evals += st.runs;
        nontrivial += st.nontrivial.len();
        for x in &st.samples {
            samples.push(format!("{}: {}", s.name, x.chars().take(300).collect::<String>()));
        }
        println!(
            "{:>4} {:<34} cases={:<9} nontrivial={:<9} {:.2}s {:?}",
            prop.id, s.name, st.runs, st.nontrivial.len(), st.secs, st.labels
        );
        rows.push(json!({
            "sub": s.name, "rule": s.rule, "evaluations": st.runs,
            "distinct_nontrivial": st.nontrivial.len(), "classes": st.labels,
            "seconds": (st.secs * 100.0).round() / 100.0,
        }));
        for (k, (w, n)) in st.known {
            let e = known.entry(k).or_insert((w, 0));
            e.1 += n;
        }
        if let Some((case, choices, msg)) = st.failure {
            println!("  failing case {case}: {}", msg.chars().take(600).collect::<String>());
            let (small, msg, runs) = shrink(s.name, s.f, choices, msg, s.shrink);
            let (g, _) = execute(s.f, G::replay(&small));
            println!("  shrunk in {runs} runs to {} choices: {}", small.len(), msg.chars().take(600).collect::<String>());
            println!("  input: {}", g.note.chars().take(600).collect::<String>());
            let rdir = format!("{dir}/replays");
            let _ = std::fs::create_dir_all(&rdir);
            let path = format!("{rdir}/{}-{}.json", prop.id, s.name);
            let body = json!({
                "property": prop.id, "sub": s.name, "seed": seed, "case": case, "choices": small,
                "message": msg, "input": g.note,
                "how": format!("bin/check {} --replay {}", prop.id, path),
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            violations.push(path);
        }
    }
    if only.is_none() && violations.is_empty() {
        let t = Instant::now();
        let n = if thorough { 200 } else { 24 };
        let (e, nt, v) = children(prop.id, seed, n, threads);
        evals += e;
        nontrivial += nt;
        violations.extend(v);
        println!("{:>4} {:<34} cases={e:<9} nontrivial={nt:<9} {:.2}s {{\"processes\": {n}}}", prop.id, "fresh processes", t.elapsed().as_secs_f64());
        rows.push(json!({
            "sub": "fresh processes", "rule": "new processes that run a few cases of every sub-check on one thread, each starting with another one, so that what is computed once per process meets many first uses; every other one is of a build without debug assertions and overflow checks (for C01 to C07, every eighth of one with the feature nightly)",
            "evaluations": e, "distinct_nontrivial": nt, "classes": {"processes": n},
            "seconds": (t.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        }));
    }
    let wall = t0.elapsed().as_secs_f64();
    if only.is_none() {
        let evidence = json!({
            "property": prop.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": nontrivial,
                "rule": "Per sub-check below: every case is drawn from a seeded choice sequence; a case counts as non-trivial when it meets the sub-check's stated rule, and as distinct when its choice sequence is.",
                "samples": samples, "subchecks": rows,
                "known_findings_hit": known.iter().map(|(k, (w, n))| json!({"id": k, "what": w, "cases": n})).collect::<Vec<_>>(),
            },
            "assumptions": prop.assumptions,
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": violations.len(),
        });
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        if let Err(e) = std::fs::write(format!("{dir}/evidence/{}.json", prop.id), serde_json::to_string_pretty(&evidence).unwrap() + "\n") {
            println!("error: cannot write evidence: {e}");
            std::process::exit(3);
        }
    }
    for (k, (w, n)) in &known {
        println!("KNOWN-FINDING: property={} id={k} {w} ({n} cases)", prop.id);
    }
    println!("{}: {evals} cases, {nontrivial} distinct non-trivial, {wall:.1}s, {} violation(s)", prop.id, violations.len());
    if violations.is_empty() {
        std::process::exit(0)
    }
    for v in &violations {
        println!("VIOLATION property={} replay={}", prop.id, v);
    }
    std::process::exit(1)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}

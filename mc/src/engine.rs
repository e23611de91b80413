//! Bounded exhaustive explorer.
//!
//! A check is a list of *phases*; a phase enumerates a finite index space completely.  Each index
//! is one *trace*: a closed driver run (a call history over the real code) judged step by step
//! against a boring reference model.  Counters:
//!   transitions = steps of the real implementation judged against the model,
//!   states      = distinct (operation, model outcome) pairs reached, by 64-bit hash,
//!   traces      = driver runs completed on the implementation.
//! Every trace is identified by "phase:index", so a violation is replayed without the explorer by
//! running the same binary with VERIF_ONLY=phase:index.
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const THREADS: usize = 8;
const SHARDS: usize = 64;
const STATE_CAP: usize = 12_000_000 / SHARDS;
const MAX_VIOLATIONS: usize = 200;

macro_rules! complain { ($($x:tt)*) => { if !quiet() { eprintln!($($x)*) } }; }

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

/// An allocation that the system refuses aborts the process, which nothing can catch; the trace that
/// asked for it is reported instead.
struct Alloc;
static GLOBAL: std::sync::OnceLock<Arc<Shared>> = std::sync::OnceLock::new();
thread_local! { static AT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }
fn out_of_memory(n: usize) {
    let i = AT.with(|a| a.replace(usize::MAX));
    if let (Some(s), true) = (GLOBAL.get(), i != usize::MAX) {
        stop(s, i, "out-of-memory", format!("asks for {n} bytes of memory, which aborts the process"));
    }
}
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        if p.is_null() { out_of_memory(l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc_zeroed(l);
        if p.is_null() { out_of_memory(l.size()); }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let p = std::alloc::System.realloc(p, l, n);
        if p.is_null() { out_of_memory(n); }
        p
    }
}
#[cfg(feature = "alloc")]
#[global_allocator]
static ALLOC: Alloc = Alloc;

/// FNV-1a; deterministic across runs (no randomised hashing anywhere in the explorer).
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
#[derive(Default, Clone)]
struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}
type IdBuild = std::hash::BuildHasherDefault<IdHash>;
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub phase_no: usize,
    pub phase: String,
    pub index: usize,
    pub seq: u64,
    pub key: String,
    pub case: String,
    pub want: String,
    pub got: String,
}

struct PhaseStat {
    name: String,
    n: usize,
    transitions: u64,
    wall: f64,
}

struct Slot {
    start: AtomicU64, // ms since t0, 0 = idle
    index: AtomicU64,
}

struct Shared {
    id: String,
    tier: String,
    seed: i64,
    t0: Instant,
    shards: Vec<Mutex<HashSet<u64, IdBuild>>>,
    capped: AtomicBool,
    transitions: AtomicU64,
    traces: AtomicU64,
    viol: Mutex<Vec<Violation>>,
    nviol: AtomicUsize,
    phases: Mutex<Vec<PhaseStat>>,
    cur_phase: Mutex<(usize, String)>,
    slots: Vec<Slot>,
    samples: Mutex<Vec<String>>,
    bounds: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    only: Option<(String, usize)>,
    hang_ms: u64,
    budget_ms: AtomicU64,
    cut: Mutex<Vec<String>>,
    known: Vec<(String, String)>,
}

#[derive(Clone)]
pub struct Mc(Arc<Shared>);

fn root() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: String) -> String {
    if s.chars().count() > 1500 {
        let a: String = s.chars().take(1500).collect();
        format!("{}… ({} bytes)", a, s.len())
    } else {
        s
    }
}

/// Run a closure on real code; Err(message) if it panicked.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}
/// Built without debug assertions and overflow checks (see C34), and a check whose refusals rest on them in
/// this library: calls outside the contract are then not made.
pub fn lenient() -> bool {
    LENIENT.load(SeqCst)
}
static LENIENT: AtomicBool = AtomicBool::new(false);
const DEBUG_REFUSALS: [&str; 8] = ["C05", "C06", "C08", "C09", "C10", "C11", "C14", "C18"];
pub fn rejects<T>(f: impl FnOnce() -> T) -> bool {
    attempt(f).is_err()
}

impl Mc {
    pub fn new(id: &str) -> Mc {
        std::panic::set_hook(Box::new(|i| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = clip(m) + &l);
        }));
        LENIENT.store(!cfg!(debug_assertions) && DEBUG_REFUSALS.contains(&id), SeqCst);
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let only = std::env::var("VERIF_ONLY").ok().map(|s| {
            let (p, i) = s.rsplit_once(':').expect("VERIF_ONLY=phase:index");
            (p.to_string(), i.parse().expect("index"))
        });
        let known = std::fs::read_to_string(root().join("known-findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.trim();
                let r = l.strip_prefix("known: property=")?;
                let (p, rest) = r.split_once(" key=")?;
                let k = rest.split_once(" -- ").map(|x| x.0).unwrap_or(rest);
                Some((p.to_string(), k.trim().to_string()))
            })
            .collect();
        let s = Arc::new(Shared {
            id: id.into(),
            hang_ms: if tier == "thorough" { 600_000 } else { 420_000 },
            budget_ms: AtomicU64::new(match std::env::var("VERIF_BUDGET").ok().and_then(|x| x.parse::<u64>().ok()) {
                Some(s) => s * 1000,
                None if tier == "thorough" => u64::MAX,
                None => 400_000,
            }),
            cut: Mutex::new(vec![]),
            tier,
            seed,
            t0: Instant::now(),
            shards: (0..SHARDS).map(|_| Mutex::new(HashSet::default())).collect(),
            capped: AtomicBool::new(false),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            viol: Mutex::new(vec![]),
            nviol: AtomicUsize::new(0),
            phases: Mutex::new(vec![]),
            cur_phase: Mutex::new((0, String::new())),
            slots: (0..THREADS).map(|_| Slot { start: AtomicU64::new(0), index: AtomicU64::new(0) }).collect(),
            samples: Mutex::new(vec![]),
            bounds: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            only,
            known,
        });
        let _ = GLOBAL.set(s.clone());
        let w = s.clone();
        std::thread::spawn(move || watchdog(w));
        Mc(s)
    }
    pub fn thorough(&self) -> bool {
        self.0.tier == "thorough"
    }
    /// Seconds after which a quick run starts no further trace, so that it still answers in time when the
    /// code under test became many times slower; what was left out is said in the evidence.
    pub fn budget(&self, s: u64) {
        if !self.thorough() && std::env::var_os("VERIF_BUDGET").is_none() {
            self.0.budget_ms.store(s * 1000, SeqCst);
        }
    }
    /// quick value / thorough value
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.0.bounds.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.0.assumptions.lock().unwrap().push(s.into());
    }
    /// Self-test of the harness (reference models against published vectors): failure is an error of
    /// the check (exit 2), never a verdict.
    pub fn selftest(&self, what: &str, ok: bool) {
        if !ok {
            complain!("ERROR: harness self-test failed: {}", what);
            std::process::exit(2);
        }
    }

    /// Enumerate 0..n completely, one trace per index.
    pub fn phase<F: Fn(usize, &mut Tr) + Sync>(&self, name: &str, n: usize, f: F) {
        let s = &self.0;
        let phase_no = {
            let mut c = s.cur_phase.lock().unwrap();
            *c = (c.0 + 1, name.to_string());
            c.0
        };
        let t = Instant::now();
        let before = s.transitions.load(SeqCst);
        let (lo, hi) = match &s.only {
            Some((p, i)) if p == name => (*i, *i + 1),
            Some(_) => return,
            None => (0, n),
        };
        // the listener of C31 walks large index spaces of the longest driver in steps
        let every = if hi - lo > 300 { std::env::var("VERIF_EVERY").ok().and_then(|x| x.parse().ok()).unwrap_or(1) } else { 1usize };
        let next = AtomicUsize::new(lo);
        let left_out = AtomicUsize::new(0);
        let base_viol = s.nviol.load(SeqCst);
        std::thread::scope(|sc| {
            for th in 0..THREADS.min(hi.saturating_sub(lo)) {
                let (next, f, s, left_out) = (&next, &f, s.clone(), &left_out);
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(sc, move || loop {
                        let i = next.fetch_add(every, SeqCst);
                        if i >= hi || s.nviol.load(Relaxed) >= base_viol + MAX_VIOLATIONS {
                            break;
                        }
                        if s.t0.elapsed().as_millis() as u64 > s.budget_ms.load(Relaxed) {
                            left_out.fetch_add(1, SeqCst);
                            continue;
                        }
                        s.slots[th].index.store(i as u64, SeqCst);
                        s.slots[th].start.store(s.t0.elapsed().as_millis() as u64 + 1, SeqCst);
                        let mut tr = Tr {
                            s: s.clone(),
                            phase: name,
                            phase_no,
                            index: i,
                            seq: 0,
                            transitions: 0,
                            states: vec![],
                            viol: vec![],
                            sample: None,
                        };
                        AT.with(|a| a.set(i));
                        let r = attempt(|| f(i, &mut tr));
                        AT.with(|a| a.set(usize::MAX));
                        if let Err(e) = r {
                            // a panic outside a judged step is a harness error
                            complain!("ERROR: harness panicked in {}:{}: {}", name, i, e);
                            std::process::exit(2);
                        }
                        tr.flush();
                        s.slots[th].start.store(0, SeqCst);
                    })
                    .unwrap();
            }
        });
        let skipped = left_out.load(SeqCst);
        if skipped > 0 {
            s.cut.lock().unwrap().push(format!("{name}: {skipped} of {} traces", hi - lo));
        }
        let tn = s.transitions.load(SeqCst) - before;
        s.phases.lock().unwrap().push(PhaseStat { name: name.into(), n: hi - lo - skipped, transitions: tn, wall: t.elapsed().as_secs_f64() });
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("  phase {name}: {} traces, {tn} transitions, {:.2}s", hi - lo, t.elapsed().as_secs_f64());
        }
    }

    pub fn finish(self) -> ! {
        let code = report(&self.0);
        std::process::exit(code)
    }
}

fn watchdog(s: Arc<Shared>) {
    let page = 4096u64;
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = s.t0.elapsed().as_millis() as u64;
        let mut oldest = (u64::MAX, 0u64);
        for sl in &s.slots {
            let st = sl.start.load(SeqCst);
            if st != 0 && st < oldest.0 {
                oldest = (st, sl.index.load(SeqCst));
            }
        }
        let rss = std::fs::read_to_string("/proc/self/statm")
            .ok()
            .and_then(|t| t.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
            .unwrap_or(0)
            * page;
        let why = if oldest.0 != u64::MAX && now > oldest.0 + s.hang_ms {
            format!("step did not terminate within {} s", s.hang_ms / 1000)
        } else if rss > (16u64 << 30) && oldest.0 != u64::MAX {
            format!("memory grew to {} MB", rss >> 20)
        } else {
            continue;
        };
        stop(&s, oldest.1 as usize, "no-termination", why);
    }
}
/// Report that the trace `index` of the current phase cannot be completed, and end the check.
fn stop(s: &Shared, index: usize, key: &str, why: String) {
    let (pn, p) = s.cur_phase.lock().unwrap().clone();
    s.viol.lock().unwrap().push(Violation {
        phase_no: pn,
        phase: p,
        index,
        seq: 0,
        key: key.into(),
        case: "see phase:index".into(),
        want: "the call returns or panics".into(),
        got: why,
    });
    let code = report(s);
    std::process::exit(code);
}

extern "C" {
    fn dup(a: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
/// Send what the code under test prints to /dev/null, until the report.
pub fn mute() {
    use std::os::fd::AsRawFd;
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    unsafe {
        OUT.store(dup(1), SeqCst);
        dup2(null.as_raw_fd(), 1);
    }
}
/// Run only as a driver: no report, no evidence (see C31).
pub fn quiet() -> bool {
    std::env::var_os("VERIF_QUIET").is_some()
}
fn unmute() {
    let o = OUT.swap(-1, SeqCst);
    if o >= 0 {
        unsafe { dup2(o, 1) };
    }
}

fn report(s: &Shared) -> i32 {
    unmute();
    let mut v = s.viol.lock().unwrap().clone();
    v.sort_by_key(|v| (v.phase_no, v.index, v.seq));
    let (known, fresh): (Vec<_>, Vec<_>) =
        v.into_iter().partition(|v| s.known.iter().any(|(p, k)| *p == s.id && *k == v.key));
    let states: usize = s.shards.iter().map(|m| m.lock().unwrap().len()).sum();
    let transitions = s.transitions.load(SeqCst);
    let traces = s.traces.load(SeqCst);
    let phases = s.phases.lock().unwrap();
    let mut cov = String::new();
    cov.push_str(&format!("\"states\": {states}, \"transitions\": {transitions}, \"traces_validated_against_impl\": {traces}, "));
    if s.capped.load(SeqCst) {
        cov.push_str("\"states_note\": \"lower bound: the distinct-state set reached its size cap\", ");
    }
    let mut cut = s.cut.lock().unwrap().clone();
    if cut.len() > 4 {
        let more = cut.len() - 3;
        cut.truncate(3);
        cut.push(format!("and {more} more phases"));
    }
    cov.push_str(&format!("\"exhaustive\": {}, ", fresh.is_empty() && s.only.is_none() && cut.is_empty()));
    if !cut.is_empty() {
        cov.push_str(&format!("\"time_limit\": {}, ", jstr(&format!("reached; left out: {}", cut.join("; ")))));
    }
    cov.push_str("\"explanation\": \"transitions: calls of the real implementation judged against the reference model; states: distinct (operation, model outcome) pairs reached, a tight row of operand combinations counting as one; traces: closed driver runs executed on the implementation; every phase enumerates its index space completely\", ");
    cov.push_str("\"phases\": [");
    cov.push_str(
        &phases
            .iter()
            .map(|p| format!("{{\"name\": {}, \"traces\": {}, \"steps\": {}, \"wall_s\": {:.3}}}", jstr(&p.name), p.n, p.transitions, p.wall))
            .collect::<Vec<_>>()
            .join(", "),
    );
    cov.push_str("], \"bounds\": [");
    cov.push_str(&s.bounds.lock().unwrap().iter().map(|b| jstr(b)).collect::<Vec<_>>().join(", "));
    cov.push_str("], \"samples\": [");
    cov.push_str(&s.samples.lock().unwrap().iter().map(|b| jstr(b)).collect::<Vec<_>>().join(", "));
    cov.push_str("]");
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{{}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        jstr(&s.id),
        jstr(&s.tier),
        s.seed,
        cov,
        s.assumptions.lock().unwrap().iter().map(|b| jstr(b)).collect::<Vec<_>>().join(", "),
        s.t0.elapsed().as_secs_f64(),
        fresh.len()
    );
    if quiet() {
        // a driver run for another check, which listens to what is printed: say nothing
        if let Ok(f) = std::env::var("VERIF_STATS") {
            let _ = std::fs::write(f, format!("{states} {transitions} {traces}"));
        }
        return if fresh.is_empty() { 0 } else { 1 };
    }
    if s.only.is_none() {
        let d = root().join("evidence");
        let _ = std::fs::create_dir_all(&d);
        if let Err(e) = std::fs::write(d.join(format!("{}.json", s.id)), ev) {
            complain!("ERROR: cannot write evidence: {e}");
            return 2;
        }
    }
    println!("{}: {} states, {} transitions, {} traces, {:.1}s", s.id, states, transitions, traces, s.t0.elapsed().as_secs_f64());
    if !cut.is_empty() {
        println!("NOTE: time limit reached, left out: {}", cut.join("; "));
    }
    let mut seen = HashSet::new();
    for k in &known {
        if seen.insert(k.key.clone()) {
            println!("KNOWN-FINDING: property={} {}: {} expected {} got {}", s.id, k.key, k.case, k.want, k.got);
        }
    }
    if s.only.is_none() && fresh.is_empty() && traces == 0 {
        complain!("ERROR: nothing was explored");
        return 2;
    }
    if let Some(f) = fresh.first() {
        let d = root().join("replays");
        let _ = std::fs::create_dir_all(&d);
        let p = d.join(format!("{}.txt", s.id));
        let mut txt = format!(
            "property {}\nreplay: cd /verif && VERIF_ONLY={}:{} VERIF_TIER={} ./run.sh {}\n\n",
            s.id, f.phase, f.index, s.tier, s.id
        );
        for f in fresh.iter().take(20) {
            txt.push_str(&format!("[{}:{} step {}] {}\n  case: {}\n  expected: {}\n  observed: {}\n", f.phase, f.index, f.seq, f.key, f.case, f.want, f.got));
        }
        let _ = std::fs::write(&p, &txt);
        for f in fresh.iter().take(5) {
            println!("  [{}:{}] {} | {} | expected {} | observed {}", f.phase, f.index, f.key, f.case, f.want, f.got);
        }
        println!("VIOLATION property={} replay={}", s.id, p.display());
        return 1;
    }
    0
}

/// One trace: a driver run over the real code.
pub struct Tr<'a> {
    s: Arc<Shared>,
    phase: &'a str,
    phase_no: usize,
    pub index: usize,
    seq: u64,
    transitions: u64,
    states: Vec<u64>,
    viol: Vec<Violation>,
    sample: Option<String>,
}

impl<'a> Tr<'a> {
    fn flush(&mut self) {
        let s = self.s.clone();
        s.transitions.fetch_add(self.transitions, SeqCst);
        s.traces.fetch_add(1, SeqCst);
        self.flush_states();
        if !self.viol.is_empty() {
            s.nviol.fetch_add(self.viol.len(), SeqCst);
            s.viol.lock().unwrap().append(&mut self.viol);
        }
        if let Some(x) = self.sample.take() {
            let mut sm = self.s.samples.lock().unwrap();
            if sm.len() < 40 {
                sm.push(format!("{}:{} {}", self.phase, self.index, x));
            }
        }
    }
    fn flush_states(&mut self) {
        if self.states.is_empty() {
            return;
        }
        self.states.sort_unstable();
        self.states.dedup();
        for x in std::mem::take(&mut self.states) {
            let mut m = self.s.shards[(x % SHARDS as u64) as usize].lock().unwrap();
            if m.len() < STATE_CAP {
                m.insert(x / SHARDS as u64);
            } else {
                self.s.capped.store(true, Relaxed);
            }
        }
    }
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.push(h64(t));
        if self.states.len() > 1 << 16 {
            self.flush_states();
        }
    }
    pub fn step(&mut self) {
        self.transitions += 1;
        self.seq += 1;
    }
    /// Count steps judged in a tight loop by the caller.
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn fail(&mut self, key: &str, case: String, want: String, got: String) {
        if self.viol.len() < 50 {
            self.viol.push(Violation {
                phase_no: self.phase_no,
                phase: self.phase.to_string(),
                index: self.index,
                seq: self.seq,
                key: key.to_string(),
                case: clip(case),
                want: clip(want),
                got: clip(got),
            });
        }
    }
    pub fn failed(&self) -> bool {
        !self.viol.is_empty()
    }
    /// The implementation must return exactly `want` (and not panic).
    pub fn eq<T: PartialEq + Debug + Hash>(&mut self, key: &str, case: impl FnOnce() -> String, want: T, got: impl FnOnce() -> T) {
        self.step();
        let g = attempt(got);
        self.states.push(h64(&(key, &want)));
        if self.states.len() > 1 << 16 {
            self.flush_states();
        }
        match g {
            Ok(g) if g == want => {
                if self.index % 97 == 0 && self.sample.is_none() && self.seq == 1 {
                    self.sample = Some(clip_s(format!("{} {} -> {:?}", key, case(), want)));
                }
            }
            Ok(g) => self.fail(key, case(), format!("{:?}", want), format!("{:?}", g)),
            Err(e) => self.fail(key, case(), format!("{:?}", want), format!("panic: {}", e)),
        }
    }
    /// The model says this call has no result: the implementation must refuse (panic).
    pub fn refuses<T: Debug>(&mut self, key: &str, case: impl FnOnce() -> String, f: impl FnOnce() -> T) {
        if lenient() {
            return;
        }
        self.step();
        self.states.push(h64(&(key, "refused")));
        if let Ok(g) = attempt(f) {
            self.fail(key, case(), "refused (panic)".into(), format!("{:?}", g));
        }
    }
    /// want=Some(v): must return v; want=None: must refuse.
    pub fn opt<T: PartialEq + Debug + Hash>(&mut self, key: &str, case: impl FnOnce() -> String, want: Option<T>, got: impl FnOnce() -> T) {
        match want {
            Some(w) => self.eq(key, case, w, got),
            None => self.refuses(key, case, got),
        }
    }
    /// May refuse, but must never return anything else than `want`.
    pub fn eq_or_refuse<T: PartialEq + Debug + Hash>(&mut self, key: &str, case: impl FnOnce() -> String, want: T, got: impl FnOnce() -> T) {
        if lenient() {
            return;
        }
        self.step();
        match attempt(got) {
            Ok(g) => {
                self.states.push(h64(&(key, &want)));
                if g != want {
                    self.fail(key, case(), format!("{:?} (or refused)", want), format!("{:?}", g))
                }
            }
            Err(_) => self.states.push(h64(&(key, "refused"))),
        }
    }
    /// `n` cheap steps of one operation in a tight loop: `f(j)` returns Some((expected, observed)) on
    /// disagreement; a panic is a disagreement as well.  Counts n transitions and one state per row.
    pub fn row(&mut self, key: &str, n: usize, case: impl Fn(usize) -> String, f: impl Fn(usize) -> Option<(String, String)>) {
        let at = std::cell::Cell::new(0usize);
        self.steps(n as u64);
        self.seq += 1;
        self.states.push(h64(&(key, self.phase, self.index, self.seq)));
        let r = attempt(|| {
            for j in 0..n {
                at.set(j);
                if let Some(m) = f(j) {
                    return Some(m);
                }
            }
            None
        });
        match r {
            Ok(None) => {}
            Ok(Some((w, g))) => self.fail(key, case(at.get()), w, g),
            Err(e) => self.fail(key, case(at.get()), "a result".into(), format!("panic: {}", e)),
        }
        if self.states.len() > 1 << 16 {
            self.flush_states();
        }
    }
    pub fn holds(&mut self, key: &str, case: impl FnOnce() -> String, f: impl FnOnce() -> bool) {
        self.eq(key, case, true, f)
    }
    pub fn sample(&mut self, x: impl FnOnce() -> String) {
        if self.sample.is_none() && self.index % 97 == 0 {
            self.sample = Some(clip_s(x()));
        }
    }
}
fn clip_s(s: String) -> String {
    if s.chars().count() > 300 {
        let a: String = s.chars().take(300).collect();
        a + "…"
    } else {
        s
    }
}

/// Deterministic byte stream (a fixed member of the data alphabet, not a sample).
pub struct Stream(pub u64);
impl Stream {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
}
/// The content alphabet for byte strings of a given length.
pub const PATTERNS: usize = 8;
pub fn pattern(p: usize, n: usize) -> Vec<u8> {
    match p {
        0 => (0..n).map(|i| (i as u8).wrapping_add(1)).collect(),
        1 => vec![0; n],
        2 => vec![0xff; n],
        3 => (0..n).map(|i| if i % 2 == 0 { 0x80 } else { 0x01 }).collect(),
        4 => Stream(n as u64 * 1000 + 4).bytes(n),
        5 => (0..n).map(|i| 255 - (i as u8)).collect(),
        6 => vec![0x80; n],
        p => Stream(n as u64 * 1000 + p as u64).bytes(n),
    }
}
pub fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
/// short description of a byte string
pub fn hxs(b: &[u8]) -> String {
    if b.len() <= 48 {
        format!("[{}]{}", b.len(), hx(b))
    } else {
        format!("[{}]{}…", b.len(), hx(&b[..48]))
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| !c.is_ascii_whitespace()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

//! C35: concurrent calls do not interfere.
//!
//! Stateless exploration of the real code under a controlled scheduler (sched.c): two threads make one call each, on
//! argument objects they share; every memory access of theirs is intercepted. Accesses to places that both touch
//! and one of them writes are the scheduling points. Without any, all schedules of the pair are equivalent
//! to the two serial ones, which are run; otherwise every schedule with up to two preemptions at these points is run.
#[path = "../../../mc/src/shared/calls.rs"]
mod calls;
use calls::{menu, plain, world, Call, Plain, World};
use mc::*;
use std::collections::HashSet;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn il_setup();
    fn il_run(first: i32, plan: *const u32, n: i32) -> i32;
    fn il_conflicts() -> u32;
    fn il_places() -> u32;
    fn il_points(t: i32) -> u32;
    fn il_alloc(n: usize, al: usize) -> *mut u8;
    fn il_free(p: *mut u8, n: usize, al: usize);
    fn il_register(t: i32, alone: i32);
    fn il_done(t: i32);
    fn il_store(t: i32, s: *const u8, n: u32);
    fn il_load(t: i32, s: *mut u8) -> u32;
    fn _exit(c: i32) -> !;
}
struct Heaps;
unsafe impl std::alloc::GlobalAlloc for Heaps {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        il_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        il_free(p, l.size(), l.align())
    }
}
#[global_allocator]
static HEAPS: Heaps = Heaps;
struct Share<'a>(&'a World);
unsafe impl Sync for Share<'_> {}
unsafe impl Send for Share<'_> {}

// calls for the self-tests: the explorer has to find what is wrong with the first four, and nothing in the others
static A: AtomicU64 = AtomicU64::new(0);
static B: AtomicU64 = AtomicU64::new(0);
static mut BUF: [u64; 4] = [0; 4];
static LOCK: Mutex<[u64; 4]> = Mutex::new([0; 4]);
static MEMO: Mutex<Vec<(u8, u64)>> = Mutex::new(vec![]);
static SPIN: AtomicU64 = AtomicU64::new(0);
static ONCE: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
static L1: Mutex<u64> = Mutex::new(0);
static L2: Mutex<u64> = Mutex::new(0);
fn probe(i: usize, x: u8, w: usize) -> String {
    let x8 = x as u64;
    match i {
        // a result that passes through a static
        0 => { A.store(x8, SeqCst); A.load(SeqCst) }
        // a memo whose key and value are two words
        1 => { if A.load(SeqCst) != x8 { B.store(x8 * x8, SeqCst); A.store(x8, SeqCst); } B.load(SeqCst) }
        // a scratch buffer that is filled and read in blocks
        2 => unsafe { let b = std::hint::black_box([x8; 4]); *std::ptr::addr_of_mut!(BUF) = b; let c = *std::ptr::addr_of!(BUF); c[0] + 3 * c[3] },
        // locks taken in different order
        3 => if w == 0 { let mut a = L1.lock().unwrap(); *L2.lock().unwrap() += 1; *a += 1; x8 } else { let mut a = L2.lock().unwrap(); *L1.lock().unwrap() += 1; *a += 1; x8 },
        // correct uses of shared state
        4 => { let mut g = LOCK.lock().unwrap(); for k in 0..4 { g[k] = x8; } g.iter().sum() }
        5 => { let mut g = MEMO.lock().unwrap(); if let Some(e) = g.iter().find(|e| e.0 == x) { e.1 } else { let v = x8 * x8; g.push((x, v)); v } }
        6 => { while SPIN.compare_exchange(0, 1, SeqCst, SeqCst).is_err() { std::hint::spin_loop(); } unsafe { BUF[0] = x8; let v = BUF[0]; SPIN.store(0, SeqCst); v } }
        7 => ONCE.get_or_init(|| (0..256).map(|x| x * 3).collect())[x as usize],
        _ => x8,
    }
    .to_string()
}
const PROBES: usize = 8;

/// (call, world); calls from 1000 on are the probes
type Site = (usize, usize);
fn perform(m: &[Call], ws: &[World], s: Site) -> String {
    let w = Share(&ws[s.1]);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let w = &w;
        if s.0 >= 1000 { probe(s.0 - 1000, w.0.p.k32[0], s.1) } else { (m[s.0].run)(w.0) }
    }))
    .unwrap_or_else(|_| "refused".into())
}
/// one schedule in a process of its own: results of the two threads, or what went wrong
fn run(m: &[Call], ws: &[World], before: Option<Site>, sites: &[Site], first: usize, plan: &[u32]) -> Result<Vec<String>, String> {
    unsafe {
        let r = il_run(first as i32, plan.as_ptr(), plan.len() as i32);
        if r == 0 {
            if let Some(b) = before {
                perform(m, ws, b);
            }
            let alone = (sites.len() == 1) as i32;
            let (m, sh) = (&Ms(m), &Ws(ws));
            std::thread::scope(|s| {
                let hs: Vec<_> = sites
                    .iter()
                    .enumerate()
                    .map(|(t, c)| {
                        s.spawn(move || {
                            let (m, sh) = (m, sh);
                            il_register(t as i32, alone);
                            let o = perform(m.0, sh.0, *c);
                            il_done(t as i32);
                            il_store(t as i32, o.as_ptr(), o.len() as u32);
                        })
                    })
                    .collect();
                for h in hs {
                    let _ = h.join();
                }
            });
            _exit(0)
        }
        match r {
            1 => Ok((0..sites.len())
                .map(|t| {
                    let mut b = vec![0u8; 1 << 16];
                    let n = il_load(t as i32, b.as_mut_ptr());
                    String::from_utf8_lossy(&b[..n as usize]).to_string()
                })
                .collect()),
            2 => Err("the threads wait for each other forever".to_string()),
            _ => Err("the process dies".to_string()),
        }
    }
}
struct Ms<'a>(&'a [Call]);
unsafe impl Sync for Ms<'_> {}
struct Ws<'a>(&'a [World]);
unsafe impl Sync for Ws<'_> {}

/// a pair of calls, the calls made before them, and how many schedules at most
struct Out {
    schedules: u64,
    conflicts: u32,
    places: u32,
    whole: bool,
    alone: Vec<String>,
    bad: Option<(String, String, String)>,
}
fn explore(m: &[Call], ws: &[World], before: Option<Site>, a: Site, b: Site, cap: u64, time: Duration) -> Out {
    let t0 = Instant::now();
    let mut o = Out { schedules: 0, conflicts: 0, places: 0, whole: true, alone: vec![], bad: None };
    unsafe { il_setup() }
    for s in [a, b] {
        match run(m, ws, before, &[s], 0, &[]) {
            Ok(v) => o.alone.push(v[0].clone()),
            Err(e) => o.alone.push(e),
        }
    }
    // one schedule; true: go on
    let mut judge = |o: &mut Out, first: usize, plan: &[u32]| -> Option<()> {
        let r = run(m, ws, before, &[a, b], first, plan);
        o.schedules += 1;
        let got = match r {
            Ok(v) if v == o.alone => return Some(()),
            Ok(v) => format!("{:?}", v),
            Err(e) => e,
        };
        let n = ["first", "second"];
        let d = match plan.len() {
            0 => format!("the {} thread, then the other one", n[first]),
            1 => format!("the {} thread is preempted at its shared access {}, the other one runs, then the first again", n[first], plan[0] + 1),
            _ => format!("the {} thread is preempted at its shared access {}, the other one at its shared access {}", n[first], plan[0] + 1, plan[1] + 1),
        };
        o.bad = Some((d, format!("{:?}", o.alone), got));
        None
    };
    let mut seen = 0;
    'again: loop {
        for first in 0..2 {
            if judge(&mut o, first, &[]).is_none() {
                return o;
            }
        }
        o.conflicts = unsafe { il_conflicts() };
        o.places = unsafe { il_places() };
        if o.conflicts == seen {
            return o;
        }
        seen = o.conflicts;
        // one preemption, then two; coarse to fine, so that what is cut off is spread out
        let mut pts = [0u32; 2];
        let mut grow = |p: &mut [u32; 2]| (0..2).for_each(|t| p[t] = p[t].max(unsafe { il_points(t as i32) }));
        let mut own = [0; 2];
        for first in 0..2 {
            if judge(&mut o, first, &[]).is_none() {
                return o;
            }
            grow(&mut pts);
            own[first] = unsafe { il_points(first as i32) };
        }
        for depth in 1..=2 {
            for first in 0..2 {
                let (mut di, mut dj) = (0, 0);
                loop {
                    let (ni, nj) = (own[first], if depth == 1 { 1 } else { pts[1 - first] });
                    if (ni, nj) == (di, dj) {
                        break;
                    }
                    let mut k = 31 - ni.max(nj).max(1).leading_zeros();
                    loop {
                        let st = 1u32 << k;
                        let top = k == 31 - ni.max(nj).max(1).leading_zeros();
                        for i in (0..ni).step_by(st as usize) {
                            for j in (0..nj).step_by(st as usize) {
                                if (i < di && j < dj) || (!top && i % (2 * st) == 0 && j % (2 * st) == 0) {
                                    continue;
                                }
                                if o.schedules >= cap || t0.elapsed() > time {
                                    o.whole = false;
                                    return o;
                                }
                                if judge(&mut o, first, &[i, j][..depth]).is_none() {
                                    return o;
                                }
                                grow(&mut pts);
                            }
                        }
                        if k == 0 {
                            break;
                        }
                        k -= 1;
                    }
                    (di, dj) = (ni, nj);
                }
            }
        }
        // places that came into play under these schedules only?
        if unsafe { il_conflicts() } == seen {
            return o;
        }
        continue 'again;
    }
}
fn child() -> ! {
    std::panic::set_hook(Box::new(|_| ()));
    let m = menu();
    let ws: Vec<World> = (0..3).map(|i| world(&plain(i))).collect();
    let line = std::env::var("MC_C35_CHILD").unwrap();
    let v: Vec<i64> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
    let before = if v[0] < 0 { None } else { Some((v[0] as usize, v[1] as usize)) };
    let o = explore(&m, &ws, before, (v[2] as usize, v[3] as usize), (v[4] as usize, v[5] as usize), v[6] as u64, Duration::from_millis(v[7] as u64));
    let esc = |s: &str| s.replace('\n', " ");
    let mut out = format!("{} {} {} {}\n{}\n{}\n", o.schedules, o.conflicts, o.places, o.whole as u8, esc(&o.alone[0]), esc(&o.alone[1]));
    if let Some((a, b, c)) = &o.bad {
        out += &format!("{}\n{}\n{}\n", esc(a), esc(b), esc(c));
    }
    let _ = std::io::stdout().write_all(out.as_bytes());
    unsafe { _exit(0) }
}
fn ask(before: Option<Site>, a: Site, b: Site, cap: u64, ms: u64) -> Out {
    let (p, q) = before.map_or((-1, 0), |s| (s.0 as i64, s.1));
    let mut c = Command::new(std::env::current_exe().unwrap())
        .env("MC_C35_CHILD", format!("{p} {q} {} {} {} {} {cap} {ms}", a.0, a.1, b.0, b.1))
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("child");
    let l: Vec<String> = BufReader::new(c.stdout.take().unwrap()).lines().map_while(Result::ok).collect();
    let st = c.wait().unwrap();
    if !st.success() || l.len() < 3 {
        panic!("the exploring process ends with {st}");
    }
    let n: Vec<u64> = l[0].split(' ').map(|x| x.parse().unwrap()).collect();
    Out { schedules: n[0], conflicts: n[1] as u32, places: n[2] as u32, whole: n[3] == 1, alone: l[1..3].to_vec(), bad: (l.len() >= 6).then(|| (l[3].clone(), l[4].clone(), l[5].clone())) }
}

fn main() {
    if std::env::var("MC_C35_CHILD").is_ok() {
        child()
    }
    let mc = Mc::new("C35");
    let m = menu();
    let ps: Vec<Plain> = (0..3).map(plain).collect();
    let want: Vec<Vec<Option<String>>> = ps.iter().map(|p| m.iter().map(|c| (c.want)(p)).collect()).collect();
    mc.selftest("reference models", refs::selftest().is_ok());
    // the explorer itself
    for i in 0..PROBES {
        let o = ask(None, (1000 + i, 0), (1000 + i, 1), 20000, 60000);
        mc.selftest(&format!("probe {i}: schedules {} conflicts {} {:?}", o.schedules, o.conflicts, o.bad), o.bad.is_some() == (i < 4) && o.conflicts > 0 && (o.whole || i < 4));
    }
    let (sched, confl, partial, most) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let cases: Mutex<HashSet<(usize, usize)>> = Mutex::new(HashSet::new());
    // what is left of the time for a part is shared by its explorations still to come; each may take a multiple of its share
    let start = Instant::now();
    let begun = AtomicU64::new(0);
    let pair = |t: &mut Tr, before: Option<Site>, a: Site, b: Site, part: (u64, u64, u64)| {
        let (cap, of, until) = part;
        let left = (until * 1000).saturating_sub(start.elapsed().as_millis() as u64);
        let share = left * 8 / of.saturating_sub(begun.fetch_add(1, SeqCst)).max(1);
        let ms = (share * 4).clamp(20, 30_000);
        let nm = |s: Site| format!("{} (arguments {})", m[s.0].name, s.1);
        let c = || format!("{} || {}{}", nm(a), nm(b), before.map_or(String::new(), |s| format!(", after {}", nm(s))));
        match attempt(|| ask(before, a, b, cap, ms)) {
            Err(e) => t.fail("concurrent calls", c(), "results".into(), e),
            Ok(o) => {
                t.steps(o.schedules + 2);
                t.state(&(a, b, before));
                sched.fetch_add(o.schedules, SeqCst);
                most.fetch_max(o.places as u64, SeqCst);
                if o.conflicts > 0 {
                    confl.fetch_add(1, SeqCst);
                    cases.lock().unwrap().insert((a.0, b.0));
                }
                if !o.whole {
                    partial.fetch_add(1, SeqCst);
                }
                for (k, s) in [a, b].into_iter().enumerate() {
                    let w = want[s.1][s.0].clone().unwrap_or_else(|| "refused".into()).replace('\n', " ");
                    t.eq(m[s.0].name, || format!("alone: {}", c()), w, || o.alone[k].clone());
                }
                if let Some((d, w, g)) = o.bad {
                    t.fail("concurrent calls", format!("{}: {d}", c()), w, g);
                }
            }
        }
    };
    let n = m.len();
    let (c1, c2) = (mc.q(20000, 200000), mc.q(2000, 20000));
    let (t1, t2) = (mc.q(150, 600), mc.q(300, 1400));
    mc.bound(format!("every call of {n} beside itself with other arguments (worlds 0/1, 0/2 and 0/0), cold and after the same call with each of the worlds; up to {c1} schedules each, {t1} s together"));
    let part = (c1, n as u64 * 12, t1);
    mc.phase("same-call", n * 3, |i, t| {
        let (k, y) = (i % n, i / n);
        for before in [None, Some((k, 0)), Some((k, 1)), Some((k, 2))] {
            pair(t, before, (k, 0), (k, y), part);
        }
    });
    begun.store(0, SeqCst);
    let thorough = mc.q(0, 1) == 1;
    mc.bound(format!("every unordered pair of the {n} calls, argument worlds 0/1, 0/2 and 0/0, cold{}; up to {c2} schedules each, {} s together", if thorough { " and after each of the two calls with world 2" } else { "" }, t2 - t1));
    let part = (c2, (n * (n - 1) / 2 * if thorough { 9 } else { 3 }) as u64, t2);
    mc.phase("pairs", n * n, |i, t| {
        let (a, b) = (i / n, i % n);
        if a < b {
            for before in if thorough { vec![None, Some((a, 2)), Some((b, 2))] } else { vec![None] } {
                for y in 0..3 {
                    pair(t, before, (a, 0), (b, y), part);
                }
            }
        }
    });
    let (s, c, p) = (sched.load(SeqCst), confl.load(SeqCst), partial.load(SeqCst));
    mc.bound(format!("{s} schedules; {c} explorations with conflicting accesses ({p} of them cut off at the bounds stated above), the others with none: their two serial schedules stand for all; up to {} places of 8 bytes accessed by a pair", most.load(SeqCst)));
    mc.assume("two threads; sequentially consistent memory; scheduling points at accesses of the library's own code (those inside the precompiled standard library are not intercepted; futex waits are)");
    mc.finish()
}

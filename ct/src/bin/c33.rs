//! C33: random data comes from the operating system's entropy.
//!
//! The environment (the answers of the operating system's entropy source, entropy.c) is what is explored: every
//! member of the answer set (a fixed stream, and the stream with any single one of the bits inverted that a draw
//! consumes) runs in a process of its own, for every kind of draw as the first one, followed by a history of further
//! draws, also from other threads. A second part runs one long history per kind and looks for every value at every position.
use hacspec::prelude::*;
use mc::*;
use std::collections::{HashMap, HashSet};
use std::process::Command;

extern "C" {
    fn ent_start(flip: i64);
    fn ent_used() -> u64;
    fn getentropy(b: *mut u8, n: usize) -> i32;
}
array!(A8, 32, U8);
array!(A16, 16, U16);
array!(A32, 8, U32);
array!(A64, 6, U64);
array!(A128, 3, U128);
array!(P8, 32, u8);
array!(P16, 16, u16);
array!(P32, 8, u32);
array!(P64, 6, u64);
array!(P128, 3, u128);
bytes!(B45, 45);
public_bytes!(Q45, 45);
poly!(F2, u32, 160, 2u32, [(0, 1u32), (160, 1)]);
poly!(F7, u64, 64, 7u64, [(0, 1u64), (64, 1)]);
poly!(F3329, u16, 24, 3329u16, [(0, 1u16), (24, 1)]);
poly!(F3g, u32, 12, 3221225472u32, [(0, 1u32), (12, 1)]);
poly!(FB, u128, 8, 3u128 << 126, [(0, 1u128), (8, 1)]);
poly!(FI, i64, 12, 1000003i64, [(0, 1i64), (12, 1)]);

/// one draw: its elements, and the number of values each may take (0: all of its 2^width)
struct Draw {
    name: &'static str,
    width: usize,
    n: u128,
    f: fn() -> Vec<u128>,
}
macro_rules! arr { ($A:ident, $w:expr, secret) => { Draw { name: concat!("array ", stringify!($A)), width: $w, n: 0, f: || $A::random().iter().map(|x| x.declassify() as u128).collect() } };
                   ($A:ident, $w:expr, public) => { Draw { name: concat!("array ", stringify!($A)), width: $w, n: 0, f: || $A::random().iter().map(|x| *x as u128).collect() } }; }
macro_rules! pol { ($P:ident, $w:expr, $n:expr) => { Draw { name: concat!("polynomial ", stringify!($P)), width: $w, n: $n, f: || $P::random().poly.iter().map(|x| *x as u128).collect() } }; }
fn draws() -> Vec<Draw> {
    vec![
        arr!(A8, 8, secret), arr!(A16, 16, secret), arr!(A32, 32, secret), arr!(A64, 64, secret), arr!(A128, 128, secret), arr!(B45, 8, secret),
        arr!(P8, 8, public), arr!(P16, 16, public), arr!(P32, 32, public), arr!(P64, 64, public), arr!(P128, 128, public), arr!(Q45, 8, public),
        Draw { name: "Seq::random(33)", width: 8, n: 0, f: || Seq::<U8>::random(33).iter().map(|x| x.declassify() as u128).collect() },
        Draw { name: "Seq::random(64)", width: 8, n: 0, f: || Seq::<U8>::random(64).iter().map(|x| x.declassify() as u128).collect() },
        pol!(F2, 32, 2), pol!(F7, 64, 7), pol!(F3329, 16, 3329), pol!(F3g, 32, 3221225472), pol!(FB, 128, 3 << 126), pol!(FI, 64, 1000003),
    ]
}
fn line(v: &[u128]) -> String {
    v.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(",")
}
/// child: one history of draws under one environment
fn child(spec: &str) -> ! {
    let p: Vec<i64> = spec.split(' ').map(|x| x.parse().unwrap()).collect();
    let (kind, flip, short) = (p[0] as usize, p[1], p[2] == 1);
    let d = draws();
    unsafe { ent_start(flip) }
    let first = (d[kind].f)();
    let mut out = format!("{}\n{}\n", unsafe { ent_used() }, line(&first));
    if !short {
        let again = |from: usize| {
            let d = draws();
            let mut o = String::new();
            for i in 0..2 * d.len() {
                let k = (i + from) % d.len();
                o += &format!("{}:{}\n", k, line(&(d[k].f)()));
            }
            o
        };
        out += &again(kind);
        for th in 0..3 {
            out += &std::thread::spawn(move || again(kind + th)).join().unwrap();
        }
    }
    print!("{out}");
    std::process::exit(0)
}
/// (entropy bytes used by the first draw, first draw, the others)
fn run(kind: usize, flip: i64, short: bool) -> (u64, String, Vec<String>) {
    let o = Command::new(std::env::current_exe().unwrap()).env("MC_C33_CHILD", format!("{kind} {flip} {}", short as u8)).output().expect("child");
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    let mut l = s.lines().map(|x| x.to_string());
    let used = l.next().and_then(|x| x.parse().ok());
    match used {
        Some(u) if o.status.success() => (u, l.next().unwrap_or_default(), l.collect()),
        _ => panic!("the draw failed: {}", String::from_utf8_lossy(&o.stderr).chars().take(200).collect::<String>()),
    }
}

fn main() {
    if let Ok(s) = std::env::var("MC_C33_CHILD") {
        child(&s)
    }
    let mc = Mc::new("C33");
    let d = draws();
    mc.selftest("the entropy source is under control", {
        let ask = |f: i64| unsafe {
            ent_start(f);
            let mut b = [0u8; 8];
            getentropy(b.as_mut_ptr(), 8);
            (ent_used(), u64::from_le_bytes(b))
        };
        let (a, b) = (ask(-1), ask(9));
        a.0 == 8 && a.1 ^ b.1 == 1 << 9 && ask(-1) == a
    });
    mc.bound(format!("{} kinds of draws (arrays of every element type, byte sequences, polynomial rings), each as the first draw of a process; environments: the entropy stream with no or any single bit inverted among those consumed (up to 4096)", d.len()));
    mc.assume("the operating system's entropy source is the system call getrandom");
    let need = 128;
    mc.phase("environments", d.len(), |k, t| {
        let nm = d[k].name;
        let ran = std::cell::Cell::new(0);
        t.eq(&format!("{nm}: at least {need} bits of entropy are requested and influence the result"), || "every environment".into(), "yes".to_string(), || {
            let (used, base, _) = run(k, -1, true);
            if used * 8 < need {
                return format!("{used} bytes requested");
            }
            let mut seen: HashSet<String> = HashSet::new();
            seen.insert(base.clone());
            // (a draw straight from the source maps some environments to the same value: 2^32 * 7 / 2^32)
            for f in 0..(used * 8).min(4096) as i64 {
                let (_, o, _) = run(k, f, true);
                ran.set(ran.get() + 1);
                seen.insert(o);
            }
            if (seen.len() as u64) <= need {
                format!("the environments with one inverted bit lead to {} results only", seen.len())
            } else {
                "yes".into()
            }
        });
        t.steps(ran.get());
    });
    mc.bound(format!("histories: first draw, every kind twice, the same in three further threads; {} starting points: no draw equals another one, and no 16-byte block of full-range elements occurs twice", d.len()));
    mc.phase("histories", d.len(), |k, t| {
        let drawn = std::cell::Cell::new(0);
        t.eq("no repetition in a history of draws", || format!("starting with {}", d[k].name), "none".to_string(), || {
            let (_, first, rest) = run(k, -1, false);
            let mut seen: HashMap<String, String> = HashMap::new();
            let mut all = vec![format!("{k}:{first}")];
            all.extend(rest);
            drawn.set(all.len() as u64 - 1);
            for (i, l) in all.iter().enumerate() {
                let (kind, v) = l.split_once(':').unwrap();
                let kind: usize = kind.parse().unwrap();
                let what = format!("draw {i} ({})", d[kind].name);
                if let Some(o) = seen.insert(v.to_string(), what.clone()) {
                    return format!("{what} repeats {o}");
                }
                if d[kind].n == 0 {
                    let bytes: Vec<u8> = v.split(',').flat_map(|x| u128::from_str_radix(x, 16).unwrap().to_le_bytes()[..d[kind].width / 8].to_vec()).collect();
                    for c in bytes.chunks_exact(16) {
                        if let Some(o) = seen.insert(format!("block {}", hx(c)), what.clone()) {
                            return format!("a block of {what} repeats {o}");
                        }
                    }
                }
            }
            "none".into()
        });
        t.steps(drawn.get());
    });
    let n = mc.q(1usize << 18, 1 << 21);
    mc.bound(format!("long histories: {n} draws of every kind, no two equal"));
    unsafe { ent_start(-1) }
    mc.phase("repetition", d.len(), |k, t| {
        let mut seen: HashSet<(u64, u64)> = HashSet::with_capacity(n);
        let mut twice = None;
        t.eq(&format!("{}: no draw is repeated", d[k].name), || format!("{n} draws"), None, || {
            for i in 0..n {
                let v = (d[k].f)();
                if !seen.insert((h64(&v), h64(&(&v, 1u8)))) {
                    twice = Some(i);
                    break;
                }
            }
            twice
        });
        t.steps(seen.len() as u64);
    });
    // one history per kind for the values
    let n = mc.q(16384usize, 131072);
    mc.bound(format!("{n} draws per kind: every value (of each byte of each element, or 1 of n, or every 64th of the range) at every position, each as often as the others up to 20 %"));
    mc.phase("values", d.len(), |k, t| {
        let dr = &d[k];
        let len = (dr.f)().len();
        // slots: bytes of elements for full-range types, the elements otherwise; classes of values
        let (slots, classes) = if dr.n == 0 { (len * dr.width / 8, 256usize) } else { (len, if dr.n < 64 { dr.n as usize } else { 64 }) };
        let mut hist = vec![vec![0u64; classes]; slots];
        let mut over = None;
        t.eq(&format!("{}: every draw is in range", dr.name), || format!("{n} draws"), None, || {
            for i in 0..n {
                let v = (dr.f)();
                if v.len() != len {
                    return Some(format!("draw {i} has {} elements", v.len()));
                }
                for (j, x) in v.iter().enumerate() {
                    if dr.n == 0 {
                        for b in 0..dr.width / 8 {
                            hist[j * dr.width / 8 + b][(x >> (8 * b)) as usize & 255] += 1;
                        }
                    } else if *x >= dr.n {
                        return Some(format!("element {j} of draw {i} is {x}"));
                    } else {
                        hist[j][if dr.n < 64 { *x as usize } else { class(*x, dr.n) }] += 1;
                    }
                }
            }
            over = Some(());
            None
        });
        if over.is_none() {
            return;
        }
        t.steps(n as u64);
        for s in 0..slots {
            let missing = (0..classes).find(|c| hist[s][*c] == 0);
            t.eq(&format!("{}: every value occurs at every position", dr.name), || format!("position {s}"), None, || missing);
        }
        let total: Vec<u64> = (0..classes).map(|c| hist.iter().map(|h| h[c]).sum()).collect();
        let mean = total.iter().sum::<u64>() as f64 / classes as f64;
        let off = (0..classes).find(|c| (total[*c] as f64 - mean).abs() > mean * 0.2).map(|c| format!("value class {c} of {classes} occurs {} times, the mean is {mean:.0}", total[c]));
        t.eq(&format!("{}: no value is preferred", dr.name), || format!("{n} draws"), None, || off);
    });
    // every length
    let top = mc.q(260usize, 1100);
    let mut ls: Vec<usize> = (0..=top).collect();
    for k in 9..=16 { for x in [(1usize << k) - 1, 1 << k, (1 << k) + 1] { if x > top { ls.push(x) } } }
    type V = Vec<u128>;
    fn seq(l: usize) -> V { Seq::<U8>::random(l).iter().map(|x| x.declassify() as u128).collect() }
    fn bseq(l: usize) -> V { ByteSeq::random(l).iter().map(|x| x.declassify() as u128).collect() }
    let mut gens: Vec<(&str, usize, fn(usize) -> V)> = vec![("Seq::random", 8, seq), ("ByteSeq::random", 8, bseq)];
    macro_rules! gv { ($A:ident, $w:expr, secret) => { gens.push((concat!(stringify!($A), "::get_random_vec"), $w, |l| $A::get_random_vec(l).iter().map(|x| x.declassify() as u128).collect())) };
                      ($A:ident, $w:expr, public) => { gens.push((concat!(stringify!($A), "::get_random_vec"), $w, |l| $A::get_random_vec(l).iter().map(|x| *x as u128).collect())) }; }
    gv!(A8, 8, secret); gv!(A16, 16, secret); gv!(A32, 32, secret); gv!(A64, 64, secret); gv!(A128, 128, secret); gv!(B45, 8, secret);
    gv!(P8, 8, public); gv!(P16, 16, public); gv!(P32, 32, public); gv!(P64, 64, public); gv!(P128, 128, public); gv!(Q45, 8, public);
    mc.bound(format!("{} generators of a given length x {} lengths (up to 65537): the length is exact; in 48 draws (4 beyond length 1100) every position takes at least 12 (2) values, no two neighbouring or mirrored positions and none a power of two apart always agree or differ by a constant, and in one draw no 16-byte block occurs twice", gens.len(), ls.len()));
    mc.phase("lengths", ls.len(), |k, t| {
        let l = ls[ls.len() - 1 - k];
        let rounds = if l > 1100 { 4 } else { 48 };
        for (nm, w, f) in &gens {
            t.eq(&format!("{nm} of every length"), || format!("length {l}"), "random at every position".to_string(), || {
                let v: Vec<V> = (0..rounds).map(|_| f(l)).collect();
                if let Some(x) = v.iter().find(|x| x.len() != l) { return format!("{} elements", x.len()); }
                for j in 0..l {
                    let mut d: Vec<u128> = v.iter().map(|x| x[j]).collect();
                    d.sort(); d.dedup();
                    // 4 draws of a byte may agree (probability 2^-24 each): only wider elements are judged there
                    if d.len() < 12 && rounds == 48 || d.len() < 2 && *w >= 32 { return format!("position {j} takes {} values", d.len()); }
                }
                if rounds == 48 {
                    for j in 1..l {
                        let mut with = vec![j - 1, l - 1 - j];
                        let mut s = 2; while s <= j { with.push(j - s); s *= 2; }
                        for i in with {
                            if i == j { continue; }
                            let x: HashSet<u128> = v.iter().map(|x| x[i] ^ x[j]).collect();
                            let m = if *w == 128 { u128::MAX } else { (1 << w) - 1 };
                            let y: HashSet<u128> = v.iter().map(|x| x[i].wrapping_sub(x[j]) & m).collect();
                            if x.len() < 5 || y.len() < 5 { return format!("positions {i} and {j} are related"); }
                        }
                    }
                }
                let bytes: Vec<u8> = v[0].iter().flat_map(|x| x.to_le_bytes()[..w / 8].to_vec()).collect();
                let mut seen = HashSet::new();
                for c in bytes.windows(16).step_by(if *w == 8 { 1 } else { w / 8 }) {
                    if !seen.insert(c) { return "a block of 16 bytes occurs twice".into(); }
                }
                "random at every position".into()
            });
            t.steps(rounds as u64);
        }
    });
    mc.finish()
}
/// which 64th of 0..n
fn class(x: u128, n: u128) -> usize {
    (0..64).rev().find(|k| x >= part(n, *k)).unwrap_or(0) as usize
}
fn part(n: u128, k: u128) -> u128 {
    n / 64 * k + (n % 64) * k / 64
}

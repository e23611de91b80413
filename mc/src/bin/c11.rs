//! C11: element-wise arithmetic of arrays and sequences, and the order of public arrays.
use hacspec::prelude::*;
use mc::words::*;
use mc::*;

array!(S8, 3, U8);
array!(S16, 3, U16);
array!(S32, 3, U32);
array!(S64, 3, U64);
array!(S128, 3, U128);
array!(P8, 3, u8);
array!(P16, 3, u16);
array!(P32, 3, u32);
array!(P64, 3, u64);
array!(P128, 3, u128);
bytes!(S1, 1);
public_bytes!(P9, 9);
array!(W9, 9, U32);

const OPS: [&str; 4] = ["+", "-", "*", "^"];
fn word(o: usize, a: u128, b: u128, m: u128) -> u128 {
    (match o { 0 => a.wrapping_add(b), 1 => a.wrapping_sub(b), 2 => a.wrapping_mul(b), _ => a ^ b }) & m
}
/// the other two elements of the arrays
const SIDE: [(u128, u128); 2] = [(3, 250), (200, 7)];
fn place(pos: usize, x: u128, side: usize) -> [u128; 3] {
    let s = |k: usize| if side == 0 { SIDE[k].0 } else { SIDE[k].1 };
    match pos { 0 => [x, s(0), s(1)], 1 => [s(0), x, s(1)], _ => [s(0), s(1), x] }
}
macro_rules! public { (secret, $b:block) => {}; (public, $b:block) => { $b } }
macro_rules! arrays {
    ($mc:expr, $($A:ident $bits:expr, $secret:ident, $mk:expr, $un:expr);+) => {$({
        let (bits, m) = ($bits as u32, mask($bits));
        let nm = concat!(stringify!($A), "[3]");
        let v: Vec<u128> = if bits == 8 { (0..256).collect() } else if bits <= 32 && $mc.thorough() { runs(bits) } else { alphabet(bits) };
        $mc.bound(format!("{nm}: every pair of {} words at every position", v.len()));
        $mc.phase(concat!("array-", stringify!($A)), v.len() * 3, |i, t| {
            let (pos, x) = (i % 3, v[i / 3]);
            let mk = |e: &[u128; 3]| $A::from_array([$mk(e[0]), $mk(e[1]), $mk(e[2])]);
            let un = |a: $A| -> [u128; 3] { [$un(a[0]), $un(a[1]), $un(a[2])] };
            let a = place(pos, x, 0);
            for &y in &v {
                let b = place(pos, y, 1);
                for o in 0..4 {
                    let w = [word(o, a[0], b[0], m), word(o, a[1], b[1], m), word(o, a[2], b[2], m)];
                    let c = || format!("{:x?} {} {:x?}", a, OPS[o], b);
                    t.eq(&format!("{nm} {}", OPS[o]), c, w, || un(match o { 0 => mk(&a) + mk(&b), 1 => mk(&a) - mk(&b), 2 => mk(&a) * mk(&b), _ => mk(&a) ^ mk(&b) }));
                    if o < 3 {
                        t.eq(&format!("{nm} wrap {}", OPS[o]), c, w, || un(match o { 0 => mk(&a).wrap_add(mk(&b)), 1 => mk(&a).wrap_sub(mk(&b)), _ => mk(&a).wrap_mul(mk(&b)) }));
                    }
                }
                public!($secret, {
                    let w = if b.contains(&0) { None } else { Some([a[0] / b[0], a[1] / b[1], a[2] / b[2]]) };
                    t.opt(&format!("{nm} /"), || format!("{:x?} / {:x?}", a, b), w, || un(mk(&a) / mk(&b)));
                    let (p, q) = (mk(&a), mk(&b));
                    t.eq(&format!("{nm} order"), || format!("{:x?} {:x?}", a, b), (a.cmp(&b), a < b, a <= b, a > b, a >= b, a == b), || (p.cmp(&q), p < q, p <= q, p > q, p >= q, p == q));
                    // equal prefixes, so that later elements decide
                    let mut b2 = a;
                    b2[2] = y;
                    let q = mk(&b2);
                    t.eq(&format!("{nm} order"), || format!("{:x?} {:x?}", a, b2), (a.cmp(&b2), Some(a.cmp(&b2)), a == b2), || (p.cmp(&q), p.partial_cmp(&q), p == q));
                });
            }
        });
    })+};
}

macro_rules! seqs {
    ($mc:expr, $($t:ident $u:ty, $bits:expr, $signed:expr);+) => {$({
        let m = mask($bits);
        let nm = concat!("PublicSeq<", stringify!($t), ">");
        let n = $mc.q(12usize, 40);
        let v: Vec<u128> = if $mc.thorough() && $bits <= 32 { runs($bits) } else { alphabet($bits) };
        let mk = |e: &[u128]| PublicSeq::<$t>::from_vec(e.iter().map(|x| *x as $u as $t).collect());
        let un = |s: PublicSeq<$t>| -> Vec<u128> { s.iter().map(|x| *x as $u as u128).collect() };
        let go = |t: &mut Tr, a: &[u128], b: &[u128]| {
            for o in 0..4 {
                let c = || format!("{:x?} {} {:x?}", a, OPS[o], b);
                let w = if a.len() == b.len() { Some(a.iter().zip(b).map(|(x, y)| word(o, *x, *y, m)).collect::<Vec<_>>()) } else { None };
                t.opt(&format!("{nm} {}", OPS[o]), c, w.clone(), || un(match o { 0 => mk(a) + mk(b), 1 => mk(a) - mk(b), 2 => mk(a) * mk(b), _ => mk(a) ^ mk(b) }));
                if o < 3 {
                    t.opt(&format!("{nm} wrap {}", OPS[o]), c, w.clone(), || un(match o { 0 => mk(a).wrap_add(mk(b)), 1 => mk(a).wrap_sub(mk(b)), _ => mk(a).wrap_mul(mk(b)) }));
                    let z: $t = 0;
                    let s = |e: &[u128]| Seq::<$t>::from_vec(e.iter().map(|x| *x as $u as $t).collect());
                    t.opt(&format!("vec_poly {} over the integers, Seq<{}>", OPS[o], stringify!($t)), c, w, || (match o { 0 => vec_poly_add(s(a), s(b), z), 1 => vec_poly_sub(s(a), s(b), z), _ => vec_poly_mul(s(a), s(b), z) }).iter().map(|x| *x as $u as u128).collect());
                }
            }
        };
        $mc.bound(format!("{nm}: every pair of lengths 0..={n} and equal or almost equal lengths up to 65537; every pair of {} words inside a 3-element sequence", v.len()));
        $mc.phase(&format!("seq-lengths-{nm}"), (n + 1) * (n + 1), |i, t| {
            let (x, y) = (i / (n + 1), i % (n + 1));
            for p in 0..PATTERNS {
                let f = |l: usize, q: usize| -> Vec<u128> { pattern(q, l).iter().enumerate().map(|(k, b)| (*b as u128).wrapping_mul(0x0101010101010101010101010101) << (k % 3) & m).collect() };
                go(t, &f(x, p), &f(y, (p + 3) % PATTERNS));
            }
        });
        let long = [255usize, 256, 257, 1000, 4096, 65535, 65536, 65537];
        $mc.phase(&format!("seq-long-{nm}"), long.len(), |i, t| {
            let f = |l: usize, q: usize| -> Vec<u128> { pattern(q, l).iter().enumerate().map(|(k, b)| (*b as u128 + k as u128).wrapping_mul(0x0101010101010101010101010101) << (k % 3) & m).collect() };
            go(t, &f(long[i], 4), &f(long[i], 5));
            go(t, &f(long[i], 4), &f(long[i] - 1, 5));
        });
        $mc.phase(&format!("seq-words-{nm}"), v.len(), |i, t| {
            for &y in &v {
                go(t, &[v[i], 1, y], &[y, v[i], 2]);
            }
        });
        // modular element-wise operations: exact, or refused where an element operation would overflow
        let ms: Vec<u128> = [1u128, 2, 3, 7, 10, 97, 127].to_vec();
        let es: Vec<i128> = if $signed { (-40..128).step_by(3).collect() } else { (0..128).step_by(2).collect() };
        $mc.bound(format!("{nm}: modular element-wise operations for {} moduli and {} values squared", ms.len(), es.len()));
        $mc.phase(&format!("seq-mod-{nm}"), ms.len(), |i, t| {
            let n = ms[i] as i128;
            for &x in &es {
                for &y in &es {
                    for o in 0..3 {
                        let f = |a: i128, b: i128| match o { 0 => a + b, 1 => a - b, _ => a * b };
                        let (a, b) = ([x, 5, y], [y, x, 3]);
                        let w: Vec<i128> = a.iter().zip(b.iter()).map(|(p, q)| f(*p, *q).rem_euclid(n)).collect();
                        let s = |e: &[i128]| PublicSeq::<$t>::from_vec(e.iter().map(|x| *x as $t).collect());
                        let run = || (match o { 0 => vec_poly_add(s(&a), s(&b), n as $t), 1 => vec_poly_sub(s(&a), s(&b), n as $t), _ => vec_poly_mul(s(&a), s(&b), n as $t) }).iter().map(|x| *x as i128).collect::<Vec<_>>();
                        let key = format!("vec_poly {} mod n, PublicSeq<{}>", OPS[o], stringify!($t));
                        let c = || format!("{:?} {} {:?} mod {n}", a, OPS[o], b);
                        // unsigned machine words refuse where the unreduced value does not fit
                        let big = a.iter().zip(b.iter()).any(|(p, q)| f(*p, *q) > <$t>::max_value() as i128);
                        if big && !$signed && $bits < 127 { t.eq_or_refuse(&key, c, w, run) } else { t.eq(&key, c, w, run) }
                    }
                }
            }
        });
    })+};
}
fn main() {
    let mc = Mc::new("C11");
    arrays!(mc, S8 8, secret, |x: u128| U8(x as u8), |x: U8| x.0 as u128; S16 16, secret, |x: u128| U16(x as u16), |x: U16| x.0 as u128; S32 32, secret, |x: u128| U32(x as u32), |x: U32| x.0 as u128;
        S64 64, secret, |x: u128| U64(x as u64), |x: U64| x.0 as u128; S128 128, secret, |x: u128| U128(x), |x: U128| x.0;
        P8 8, public, |x: u128| x as u8, |x: u8| x as u128; P16 16, public, |x: u128| x as u16, |x: u16| x as u128; P32 32, public, |x: u128| x as u32, |x: u32| x as u128;
        P64 64, public, |x: u128| x as u64, |x: u64| x as u128; P128 128, public, |x: u128| x, |x: u128| x);
    seqs!(mc, u8 u8, 8, false; u16 u16, 16, false; u32 u32, 32, false; u64 u64, 64, false; u128 u128, 128, false; i8 u8, 8, true; i16 u16, 16, true; i32 u32, 32, true; i64 u64, 64, true; i128 u128, 128, true);
    // other lengths: element k never leaks into element l
    mc.bound("9-element arrays: every single-element difference");
    mc.phase("isolation", 9 * 256, |i, t| {
        let (k, x) = (i / 256, i % 256);
        let mut a = [0u8; 9];
        let mut b: [u8; 9] = [1, 2, 3, 4, 5, 6, 7, 8, 9];
        a[k] = x as u8;
        for o in 0..4 {
            let w: Vec<u128> = (0..9).map(|j| word(o, a[j] as u128, b[j] as u128, 0xff)).collect();
            let (p, q) = (P9::from_array(a), P9::from_array(b));
            t.eq(&format!("P9 {}", OPS[o]), || format!("{:?} {:?}", a, b), w.clone(), || (match o { 0 => p + q, 1 => p - q, 2 => p * q, _ => p ^ q }).iter().map(|x| *x as u128).collect());
            let w: Vec<u128> = (0..9).map(|j| word(o, (a[j] as u128) << 24, (b[j] as u128) << 22, mask(32))).collect();
            let f = |a: &[u8; 9], s: u32| { let mut z = W9::new(); for j in 0..9 { z[j] = U32((a[j] as u32) << s); } z };
            t.eq(&format!("W9 {}", OPS[o]), || format!("{:?} {:?}", a, b), w, || { let (p, q) = (f(&a, 24), f(&b, 22)); (match o { 0 => p + q, 1 => p - q, 2 => p * q, _ => p ^ q }).iter().map(|x| x.0 as u128).collect() });
        }
        b[k] = x as u8;
        t.eq("S1 ^", || format!("{x}"), 0u8, || { let r: S1 = S1::from_public_slice(&[x as u8]) ^ S1::from_public_slice(&[b[k]]); let e: U8 = r[0usize]; e.0 });
    });
    mc.finish()
}

//! C02: comparisons of machine integers: bool results and bit masks, secret and public.
use hacspec::traits::{NumericBase, Integer};
use mc::words::*;
use mc::*;
use secret_integers::*;

fn key(x: u128, bits: u32, signed: bool) -> u128 {
    // order-preserving key of the value: flip the sign bit of signed words
    if signed {
        x ^ (1u128 << (bits - 1))
    } else {
        x
    }
}
fn truth(op: usize, a: u128, b: u128) -> bool {
    match op {
        0 => a == b,
        1 => a != b,
        2 => a >= b,
        3 => a > b,
        4 => a <= b,
        _ => a < b,
    }
}
const OPS: [&str; 6] = ["==", "!=", ">=", ">", "<=", "<"];

macro_rules! cmp {
    ($mc:expr, $T:ident, $u:ty, $bits:expr, $signed:expr, $mk:expr, $un:expr, $masks:expr, $may_refuse:expr) => {{
        let mc = &$mc;
        let bits: u32 = $bits;
        let nm = stringify!($T);
        let (mk, un) = ($mk, $un);
        let masks: Vec<(String, usize, fn($T, $T) -> $T)> = $masks;
        let bools: Vec<(&str, usize, fn($T, $T) -> bool)> = vec![
            ("equal", 0, |a, b| a.equal(b)),
            ("greater_than_or_qual", 2, |a, b| a.greater_than_or_qual(b)),
            ("greater_than", 3, |a, b| a.greater_than(b)),
            ("less_than_or_equal", 4, |a, b| a.less_than_or_equal(b)),
            ("less_than", 5, |a, b| a.less_than(b)),
        ];
        let va: Vec<u128> = if bits <= 16 { (0..1u128 << bits).collect() } else if bits <= 64 || mc.thorough() { runs(bits) } else { alphabet(bits) };
        let vb: Vec<u128> = if bits == 16 && !mc.thorough() { runs(16) } else { va.clone() };
        let both = va.len() != vb.len();
        mc.bound(format!("{nm}: {} x {} operand pairs{}", va.len(), vb.len(), if both { ", both orders" } else { "" }));
        mc.phase(&format!("compare-{nm}"), va.len(), |i, t| {
            // neighbours of a as well: the off-by-one cases of every word
            let a = va[i];
            let mut vb2 = vec![];
            let vbr: &Vec<u128> = if bits > 8 {
                vb2.extend(vb.iter().copied());
                for d in [1u128, 2] {
                    vb2.push(a.wrapping_add(d) & mask(bits));
                    vb2.push(a.wrapping_sub(d) & mask(bits));
                }
                vb2.push(a);
                vb2.push(!a & mask(bits));
                vb2.push(a ^ (1 << (bits - 1)));
                &vb2
            } else { &vb };
            for swap in 0..(1 + both as usize) {
                let pair = |j: usize| if swap == 1 { (vbr[j], a) } else { (a, vbr[j]) };
                for (n, op, f) in &masks {
                    if $may_refuse && attempt(|| f(mk(pair(0).0), mk(pair(0).1))).is_err() {
                        t.step();
                        continue;
                    }
                    t.row(&format!("{nm} {n}"), vbr.len(), |j| format!("{:#x} {} {:#x}", pair(j).0, OPS[*op], pair(j).1), |j| {
                        let (a, b) = pair(j);
                        let w = if truth(*op, key(a, bits, $signed), key(b, bits, $signed)) { mask(bits) } else { 0 };
                        let g: u128 = un(f(mk(a), mk(b)));
                        if g == w { None } else { Some((format!("{:#x}", w), format!("{:#x}", g))) }
                    });
                }
                for (n, op, f) in &bools {
                    t.row(&format!("{nm} {n}"), vbr.len(), |j| format!("{:#x} {} {:#x}", pair(j).0, OPS[*op], pair(j).1), |j| {
                        let (a, b) = pair(j);
                        let w = truth(*op, key(a, bits, $signed), key(b, bits, $signed));
                        let g = f(mk(a), mk(b));
                        if g == w { None } else { Some((w.to_string(), g.to_string())) }
                    });
                }
            }
        });
    }};
}
macro_rules! bm {
    ($T:ident) => {
        vec![
            ("equal_bm".to_string(), 0usize, (|a, b| a.equal_bm(b)) as fn($T, $T) -> $T),
            ("not_equal_bm".into(), 1, |a, b| a.not_equal_bm(b)),
            ("greater_than_or_qual_bm".into(), 2, |a, b| a.greater_than_or_qual_bm(b)),
            ("greater_than_bm".into(), 3, |a, b| a.greater_than_bm(b)),
            ("less_than_or_equal_bm".into(), 4, |a, b| a.less_than_or_equal_bm(b)),
            ("less_than_bm".into(), 5, |a, b| a.less_than_bm(b)),
        ]
    };
}
macro_rules! comp {
    ($T:ident) => {
        vec![
            ("comp_eq".to_string(), 0usize, (|a, b| a.comp_eq(b)) as fn($T, $T) -> $T),
            ("comp_ne".into(), 1, |a, b| a.comp_ne(b)),
            ("comp_gte".into(), 2, |a, b| a.comp_gte(b)),
            ("comp_gt".into(), 3, |a, b| a.comp_gt(b)),
            ("comp_lte".into(), 4, |a, b| a.comp_lte(b)),
            ("comp_lt".into(), 5, |a, b| a.comp_lt(b)),
        ]
    };
}
macro_rules! secret {
    ($mc:expr, $T:ident, $r:ty, $u:ty, $bits:expr, $signed:expr) => {{
        let mut m = bm!($T);
        m.extend(comp!($T));
        cmp!($mc, $T, $u, $bits, $signed, |x: u128| $T(x as $u as $r), |x: $T| x.0 as $u as u128, m, $signed);
    }};
}
macro_rules! public {
    ($mc:expr, $T:ident, $u:ty, $bits:expr, $signed:expr) => {
        cmp!($mc, $T, $u, $bits, $signed, |x: u128| x as $u as $T, |x: $T| x as $u as u128, bm!($T), false)
    };
}

fn main() {
    let mc = Mc::new("C02");
    let _ = <u8 as Integer>::NUM_BITS;
    mc.assume("secret signed integers have no mask comparison yet (they refuse); if one is offered it is judged like the others");
    secret!(mc, U8, u8, u8, 8, false);
    secret!(mc, U16, u16, u16, 16, false);
    secret!(mc, U32, u32, u32, 32, false);
    secret!(mc, U64, u64, u64, 64, false);
    secret!(mc, U128, u128, u128, 128, false);
    secret!(mc, I8, i8, u8, 8, true);
    secret!(mc, I16, i16, u16, 16, true);
    secret!(mc, I32, i32, u32, 32, true);
    secret!(mc, I64, i64, u64, 64, true);
    secret!(mc, I128, i128, u128, 128, true);
    public!(mc, u8, u8, 8, false);
    public!(mc, u16, u16, 16, false);
    public!(mc, u32, u32, 32, false);
    public!(mc, u64, u64, 64, false);
    public!(mc, u128, u128, 128, false);
    public!(mc, i8, u8, 8, true);
    public!(mc, i16, u16, 16, true);
    public!(mc, i32, u32, 32, true);
    public!(mc, i64, u64, 64, true);
    public!(mc, i128, u128, 128, true);
    mc.finish()
}

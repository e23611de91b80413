//! C01: arithmetic, bitwise, shift and rotate operators of secret integers.
//! Oracle: schoolbook two's-complement arithmetic on u128 words with an explicit carry-out, masked to
//! the width (independent of the std operators the implementation wraps).
use mc::words::*;
use mc::*;
use secret_integers::*;

/// (a*b) mod 2^128 and whether the exact product needs more than 128 bits, by 64-bit limbs
fn mul128(a: u128, b: u128) -> (u128, bool) {
    let (a1, a0, b1, b0) = (a >> 64, a & mask(64), b >> 64, b & mask(64));
    let lo = a0 * b0;
    let (m1, m2) = (a1 * b0, a0 * b1);
    let mid = (lo >> 64) + (m1 & mask(64)) + (m2 & mask(64));
    let hi = a1 * b1 + (m1 >> 64) + (m2 >> 64) + (mid >> 64);
    ((mid << 64) | (lo & mask(64)), hi != 0)
}
/// sign-magnitude value of a word
fn split(x: u128, bits: u32, signed: bool) -> (bool, u128) {
    if signed && x >> (bits - 1) & 1 == 1 {
        (true, (!x & mask(bits)) + 1)
    } else {
        (false, x)
    }
}
/// does the signed/unsigned value (neg, magnitude, overflowed) fit?
fn fits(neg: bool, mag: u128, over: bool, bits: u32, signed: bool) -> bool {
    if over {
        return false;
    }
    if !signed {
        return (!neg || mag == 0) && mag <= mask(bits);
    }
    if neg {
        mag <= 1u128 << (bits - 1)
    } else {
        mag < 1u128 << (bits - 1)
    }
}
/// wrapped result and exact-fit flag
fn model(op: u8, a: u128, b: u128, bits: u32, signed: bool) -> (u128, bool) {
    let m = mask(bits);
    let ((na, ma), (nb, mb)) = (split(a, bits, signed), split(b, bits, signed));
    match op {
        0 | 1 => {
            let nb = if op == 1 { !nb } else { nb };
            // exact sum of two sign-magnitude numbers
            let (n, mag, over) = if na == nb {
                let s = ma.wrapping_add(mb);
                (na, s, s < ma)
            } else if ma >= mb {
                (na, ma - mb, false)
            } else {
                (nb, mb - ma, false)
            };
            let w = if n { (!mag).wrapping_add(1) } else { mag };
            (w & m, fits(n, mag, over, bits, signed))
        }
        _ => {
            let (p, over) = mul128(ma, mb);
            let n = na != nb;
            let w = if n { (!p).wrapping_add(1) } else { p };
            (w & m, fits(n, p, over, bits, signed))
        }
    }
}
fn sar(a: u128, k: u32, bits: u32, signed: bool) -> u128 {
    let mut r = a >> k;
    if signed && a >> (bits - 1) & 1 == 1 {
        for i in bits - k..bits {
            r |= 1u128 << i;
        }
    }
    r & mask(bits)
}
fn rol(a: u128, k: u32, bits: u32) -> u128 {
    let k = k % bits;
    let mut r = 0;
    for i in 0..bits {
        if a >> i & 1 == 1 {
            r |= 1u128 << ((i + k) % bits);
        }
    }
    r
}

macro_rules! check {
    ($mc:expr, $S:ident, $r:ty, $u:ty, $bits:expr, $signed:expr) => {{
        let mc = &$mc;
        let bits: u32 = $bits;
        let nm = stringify!($S);
        let mk = |x: u128| $S(x as $u as $r);
        let un = |x: $S| x.0 as $u as u128;
        // binary operators
        let full = bits == 8 || bits == 16;
        let va: Vec<u128> = if full { (0..1u128 << bits).collect() } else if bits <= 64 || mc.thorough() { runs(bits) } else { alphabet(bits) };
        let vb: Vec<u128> = if bits == 16 && !mc.thorough() { alphabet(16) } else { va.clone() };
        mc.bound(format!("{nm}: {} x {} operand pairs for each binary operator, both orders", va.len(), vb.len()));
        type F = fn($S, $S) -> $S;
        let ops: Vec<(&str, F, u8)> = vec![
            ("+", |a, b| a + b, 0),
            ("-", |a, b| a - b, 1),
            ("*", |a, b| a * b, 2),
            ("&", |a, b| a & b, 3),
            ("|", |a, b| a | b, 4),
            ("^", |a, b| a ^ b, 5),
            ("+=", |a, b| { let mut x = a; x += b; x }, 0),
            ("-=", |a, b| { let mut x = a; x -= b; x }, 1),
            ("*=", |a, b| { let mut x = a; x *= b; x }, 2),
            ("&=", |a, b| { let mut x = a; x &= b; x }, 3),
            ("|=", |a, b| { let mut x = a; x |= b; x }, 4),
            ("^=", |a, b| { let mut x = a; x ^= b; x }, 5),
        ];
        mc.phase(&format!("binary-{nm}"), va.len(), |i, t| {
            let a = va[i];
            for swap in 0..2 {
                if swap == 1 && va.len() == vb.len() { continue; }
                for (on, f, code) in &ops {
                    t.row(&format!("{nm} {on}"), vb.len(),
                        |j| if swap == 1 { format!("{:#x} {on} {:#x}", vb[j], a) } else { format!("{:#x} {on} {:#x}", a, vb[j]) },
                        |j| {
                            let (a, b) = if swap == 1 { (vb[j], a) } else { (a, vb[j]) };
                            let w = match code {
                                3 => a & b,
                                4 => a | b,
                                5 => a ^ b,
                                c => model(*c, a, b, bits, $signed).0,
                            };
                            let g = un(f(mk(a), mk(b)));
                            if g == w { None } else { Some((format!("{:#x}", w), format!("{:#x}", g))) }
                        });
                }
            }
        });
        // checked arithmetic: exact or refused
        let vc = if bits == 8 { va.clone() } else if mc.thorough() { alphabet(bits) } else { small(bits) };
        mc.phase(&format!("checked-{nm}"), vc.len(), |i, t| {
            let a = vc[i];
            for &b in &vc {
                for (on, f, code) in [("checked_add", $S::checked_add as F, 0u8), ("checked_sub", $S::checked_sub as F, 1), ("checked_mul", $S::checked_mul as F, 2)] {
                    let (w, ok) = model(code, a, b, bits, $signed);
                    t.opt(&format!("{nm} {on}"), || format!("{:#x} {on} {:#x}", a, b), if ok { Some(w) } else { None }, || un(f(mk(a), mk(b))));
                }
            }
        });
        // unary, shifts, rotations, constants
        let vu = if bits <= 16 { va.clone() } else { runs(bits) };
        mc.phase(&format!("unary-{nm}"), vu.len(), |i, t| {
            let a = vu[i];
            if i == 0 {
                let k = mask(bits);
                t.eq(&format!("{nm} zero"), String::new, 0, || un($S::zero()));
                t.eq(&format!("{nm} one"), String::new, 1, || un($S::one()));
                t.eq(&format!("{nm} ones"), String::new, k, || un($S::ones()));
                t.eq(&format!("{nm} max_value"), String::new, if $signed { k >> 1 } else { k }, || un($S::max_value()));
                t.eq(&format!("{nm} default"), String::new, 0, || un($S::default()));
            }
            t.eq(&format!("{nm} !"), || format!("!{:#x}", a), !a & mask(bits), || un(!mk(a)));
            let neg = model(1, 0, a, bits, $signed);
            if $signed && !neg.1 {
                // -MIN does not exist: wrapping and refusing are both right, any other value is not
                t.eq_or_refuse(&format!("{nm} neg"), || format!("-{:#x}", a), neg.0, || un(-mk(a)));
            } else {
                t.eq(&format!("{nm} neg"), || format!("-{:#x}", a), neg.0, || un(-mk(a)));
            }
            t.row(&format!("{nm} <<"), bits as usize, |k| format!("{:#x} << {k}", a), |k| {
                let w = (a << k) & mask(bits);
                let mut y = mk(a);
                y <<= k as u32;
                let (g, h) = (un(mk(a) << k as u32), un(y));
                if g == w && h == w { None } else { Some((format!("{:#x}", w), format!("{:#x}/{:#x}", g, h))) }
            });
            t.row(&format!("{nm} >>"), bits as usize, |k| format!("{:#x} >> {k}", a), |k| {
                let w = sar(a, k as u32, bits, $signed);
                let mut y = mk(a);
                y >>= k as u32;
                let (g, h) = (un(mk(a) >> k as u32), un(y));
                if g == w && h == w { None } else { Some((format!("{:#x}", w), format!("{:#x}/{:#x}", g, h))) }
            });
            let rots = 2 * bits as usize + 2;
            t.row(&format!("{nm} rotate_left"), rots, |k| format!("{:#x} rotl {k}", a), |k| {
                let w = rol(a, k as u32, bits);
                let g = un(mk(a).rotate_left(k as u32));
                if g == w { None } else { Some((format!("{:#x}", w), format!("{:#x}", g))) }
            });
            t.row(&format!("{nm} rotate_right"), rots, |k| format!("{:#x} rotr {k}", a), |k| {
                let w = rol(a, bits - k as u32 % bits, bits);
                let g = un(mk(a).rotate_right(k as u32));
                if g == w { None } else { Some((format!("{:#x}", w), format!("{:#x}", g))) }
            });
        });
    }};
}

fn main() {
    let mc = Mc::new("C01");
    let mut ok = true;
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            for (s, op) in [(false, 0u8), (false, 1), (false, 2), (true, 0), (true, 1), (true, 2)] {
                let (w, f) = model(op, a as u128, b as u128, 8, s);
                let e = if s {
                    let (x, y) = (a as i8 as i64, b as i8 as i64);
                    [x + y, x - y, x * y][op as usize]
                } else {
                    let (x, y) = (a as i64, b as i64);
                    [x + y, x - y, x * y][op as usize]
                };
                let inr = if s { (-128..128).contains(&e) } else { (0..256).contains(&e) };
                ok &= w == (e & 255) as u128 && f == inr;
            }
        }
    }
    mc.selftest("word model", ok && mul128(u128::MAX, u128::MAX) == (1, true) && mul128(1 << 64, 1 << 63) == (1 << 127, false));
    mc.assume("shift amounts are below the width (a larger one has no defined result)");
    check!(mc, U8, u8, u8, 8, false);
    check!(mc, I8, i8, u8, 8, true);
    check!(mc, U16, u16, u16, 16, false);
    check!(mc, I16, i16, u16, 16, true);
    check!(mc, U32, u32, u32, 32, false);
    check!(mc, I32, i32, u32, 32, true);
    check!(mc, U64, u64, u64, 64, false);
    check!(mc, I64, i64, u64, 64, true);
    check!(mc, U128, u128, u128, 128, false);
    check!(mc, I128, i128, u128, 128, true);
    mc.finish()
}

//! C06: the Numeric / ModNumeric operations of machine integers are exact, or refuse.
use hacspec::prelude::*;
use mc::words::*;
use mc::*;
use num::bigint::{BigInt, Sign};
use num::{One, Signed, ToPrimitive, Zero};

/// the mathematical value of a word
fn big(x: u128, bits: u32, signed: bool) -> BigInt {
    let v = BigInt::from_bytes_le(Sign::Plus, &x.to_le_bytes());
    if signed && x >> (bits - 1) & 1 == 1 {
        v - (BigInt::one() << bits as usize)
    } else {
        v
    }
}
fn word(v: &BigInt, bits: u32) -> u128 {
    let m = BigInt::one() << bits as usize;
    let r: BigInt = v % &m;
    let r = if r.is_negative() { r + m } else { r };
    r.to_u128().unwrap()
}
fn fits(v: &BigInt, bits: u32, signed: bool) -> bool {
    let (lo, hi) = if signed {
        (-(BigInt::one() << (bits as usize - 1)), BigInt::one() << (bits as usize - 1))
    } else {
        (BigInt::zero(), BigInt::one() << bits as usize)
    };
    *v >= lo && *v < hi
}
fn modp(v: &BigInt, n: &BigInt) -> BigInt {
    let r: BigInt = v % n;
    if r.is_negative() {
        r + n
    } else {
        r
    }
}
fn gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let t = &a % &b;
        a = b;
        b = t;
    }
    a
}
fn inverse(x: &BigInt, n: &BigInt) -> BigInt {
    let (mut r0, mut r1, mut t0, mut t1) = (n.clone(), modp(x, n), BigInt::zero(), BigInt::one());
    while !r1.is_zero() {
        let q = &r0 / &r1;
        let r = &r0 - &q * &r1;
        r0 = r1;
        r1 = r;
        let t = &t0 - &q * &t1;
        t0 = t1;
        t1 = t;
    }
    modp(&t0, n)
}

macro_rules! go {
    ($mc:expr, $T:ident, $u:ty, $bits:expr, $signed:expr, $secret:expr, $mk:expr, $un:expr) => {{
        let mc = &$mc;
        let bits: u32 = $bits;
        let (nm, sg) = (stringify!($T), $signed);
        let (mk, un) = ($mk, $un);
        let va: Vec<u128> = if bits == 8 { (0..256).collect() } else { alphabet(bits) };
        let vm: Vec<u128> = if bits == 8 { (0..256).collect() } else if bits <= 64 || mc.thorough() { alphabet(bits) } else { small(bits) };
        mc.bound(format!("{nm}: {} operands squared; {} moduli", va.len(), vm.len()));
        if bits == 16 {
            mc.bound(format!("{nm}: every dividend by every divisor of the alphabet and the reverse; every operand modulo every modulus of the alphabet"));
            mc.phase(&format!("full-{nm}"), va.len(), |i, t| {
                let y = va[i];
                let b = big(y, bits, sg).to_i64().unwrap();
                for x in 0..65536u128 {
                    let a = big(x, bits, sg).to_i64().unwrap();
                    for (a, b, x, y) in [(a, b, x, y), (b, a, y, x)] {
                        let c = |o: &str| format!("{nm} {a} {o} {b}");
                        if b != 0 && (sg && a == -32768 && b == -1) == false {
                            t.eq(&format!("{nm} div"), || c("/"), (a / b) as u16 as u128, || un(NumericBase::div(mk(x), mk(y))));
                            let w = (a / b) as u16 as u128;
                            if !$secret {
                                t.eq(&format!("{nm} wrap_div"), || c("/"), w, || un(mk(x).wrap_div(mk(y))));
                            }
                        }
                        if b > 0 {
                            t.eq(&format!("{nm} modulo"), || c("mod"), a.rem_euclid(b) as u128, || un(mk(x).modulo(mk(y))));
                        }
                    }
                }
            });
        }
        // plain and wrapping arithmetic
        mc.phase(&format!("wrap-{nm}"), va.len(), |i, t| {
            let x = va[i];
            let a = big(x, bits, sg);
            for &y in &va {
                let b = big(y, bits, sg);
                let c = |o: &str| format!("{nm} {o} {a} {b}");
                t.eq(&format!("{nm} wrap_add"), || c("+"), word(&(&a + &b), bits), || un(mk(x).wrap_add(mk(y))));
                t.eq(&format!("{nm} wrap_sub"), || c("-"), word(&(&a - &b), bits), || un(mk(x).wrap_sub(mk(y))));
                t.eq(&format!("{nm} wrap_mul"), || c("*"), word(&(&a * &b), bits), || un(mk(x).wrap_mul(mk(y))));
                let q = if b.is_zero() { None } else { Some(&a / &b) };
                match &q {
                    None => {
                        t.refuses(&format!("{nm} div by zero"), || c("/"), || un(NumericBase::div(mk(x), mk(y))));
                        t.refuses(&format!("{nm} wrap_div by zero"), || c("/"), || un(mk(x).wrap_div(mk(y))));
                    }
                    Some(q) => {
                        if fits(q, bits, sg) {
                            t.eq(&format!("{nm} div"), || c("/"), word(q, bits), || un(NumericBase::div(mk(x), mk(y))));
                        } else {
                            t.refuses(&format!("{nm} div overflow"), || c("/"), || un(NumericBase::div(mk(x), mk(y))));
                        }
                        if $secret {
                            t.eq_or_refuse(&format!("{nm} wrap_div"), || c("/"), word(q, bits), || un(mk(x).wrap_div(mk(y))));
                        } else {
                            t.eq(&format!("{nm} wrap_div"), || c("/"), word(q, bits), || un(mk(x).wrap_div(mk(y))));
                        }
                    }
                }
            }
        });
        // powers
        let exps: Vec<u32> = (0..=mc.q(20u32, 300)).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).collect();
        let vp = if bits <= 8 || mc.thorough() { va.clone() } else { small(bits) };
        mc.phase(&format!("pow-{nm}"), vp.len(), |i, t| {
            let x = vp[i];
            let a = big(x, bits, sg);
            let mut p = BigInt::one();
            let mut at = 0;
            let mut es = exps.clone();
            es.sort();
            for e in es {
                while at < e {
                    p = p * &a;
                    at += 1;
                }
                if fits(&p, bits, sg) {
                    t.eq(&format!("{nm} pow"), || format!("{a}^{e}"), word(&p, bits), || un(NumericBase::pow(mk(x), e)));
                } else if $secret {
                    t.eq(&format!("{nm} pow wrapping"), || format!("{a}^{e}"), word(&p, bits), || un(NumericBase::pow(mk(x), e)));
                } else {
                    t.refuses(&format!("{nm} pow overflow"), || format!("{a}^{e}"), || un(NumericBase::pow(mk(x), e)));
                }
            }
        });
        // modular arithmetic: moduli n > 0
        let inner: Vec<u128> = if bits == 8 && !mc.thorough() { va.iter().copied().filter(|x| x % 3 == 0 || *x < 20 || *x > 235 || (*x > 120 && *x < 135)).collect() } else if bits == 8 || bits == 16 { va.clone() } else { small(bits) };
        mc.phase(&format!("mod-{nm}"), vm.len(), |i, t| {
            let n = vm[i];
            let nb = big(n, bits, sg);
            let cap = if sg { 128 } else { bits };
            if nb.is_zero() {
                for &x in &inner {
                    t.refuses(&format!("{nm} modulo 0"), || format!("{x:#x}"), || un(mk(x).modulo(mk(0))));
                    t.refuses(&format!("{nm} add_mod 0"), || format!("{x:#x}"), || un(mk(x).add_mod(mk(1), mk(0))));
                    t.refuses(&format!("{nm} sub_mod 0"), || format!("{x:#x}"), || un(mk(x).sub_mod(mk(1), mk(0))));
                    t.refuses(&format!("{nm} mul_mod 0"), || format!("{x:#x}"), || un(mk(x).mul_mod(mk(1), mk(0))));
                }
                return;
            }
            if nb.is_negative() {
                return;
            }
            for &x in &inner {
                let a = big(x, bits, sg);
                t.eq(&format!("{nm} modulo"), || format!("{a} mod {nb}"), word(&modp(&a, &nb), bits), || un(mk(x).modulo(mk(n))));
                for &y in &inner {
                    let b = big(y, bits, sg);
                    // exact; where the unreduced sum or product does not fit the machine word, refusing is allowed too
                    for o in 0..3usize {
                        let raw = match o { 0 => &a + &b, 1 => &a - &b, _ => &a * &b };
                        let w = word(&modp(&raw, &nb), bits);
                        let c = || format!("({a} {} {b}) mod {nb}", ["+", "-", "*"][o]);
                        let k = format!("{nm} {}", ["add_mod", "sub_mod", "mul_mod"][o]);
                        let f = || un(match o { 0 => mk(x).add_mod(mk(y), mk(n)), 1 => mk(x).sub_mod(mk(y), mk(n)), _ => mk(x).mul_mod(mk(y), mk(n)) });
                        if fits(&raw, cap, sg) || (o == 1 && !sg) {
                            t.eq(&k, c, w, f);
                        } else {
                            t.eq_or_refuse(&k, c, w, f);
                        }
                    }
                }
            }
        });
        // modular inverse
        let vx: Vec<u128> = if bits <= 8 { va.clone() } else if bits == 16 { (0..65536).step_by(mc.q(7, 1)).collect() } else { alphabet(bits) };
        let mut vn: Vec<u128> = if bits <= 8 { va.clone() } else { small(bits) };
        vn.extend([65537u128, 106103, 7, 13, 97, 0x7fff, 0xfff1, 251, 241, 0x7fffffff, 4294967291, (1 << 61) - 1, 0xffffffffffffffc5, (1 << 127) - 1].iter().copied().filter(|x| *x <= mask(bits)));
        mc.phase(&format!("inv-{nm}"), vn.len(), |i, t| {
            let n = vn[i];
            let nb = big(n, bits, sg);
            if nb <= BigInt::one() {
                return;
            }
            for &x in &vx {
                let a = big(x, bits, sg);
                let c = || format!("{a}^-1 mod {nb}");
                let f = || un(NumericBase::inv(mk(x), mk(n)));
                if a.is_zero() {
                    // zero has no inverse; like the prime-field inverse the library may map it to zero
                    t.eq_or_refuse(&format!("{nm} inv 0"), c, 0, f);
                } else if gcd(&a, &nb).is_one() {
                    t.eq(&format!("{nm} inv"), c, word(&inverse(&a, &nb), bits), f);
                } else {
                    t.refuses(&format!("{nm} inv of a non-unit"), c, f);
                }
            }
        });
    }};
}
macro_rules! pair {
    ($mc:expr, $(($p:ident $S:ident $u:ty, $b:expr, $s:expr)),+) => {$(
        go!($mc, $p, $u, $b, $s, false, |x: u128| x as $u as $p, |x: $p| x as $u as u128);
        go!($mc, $S, $u, $b, $s, true, |x: u128| $S(x as $u as $p), |x: $S| x.0 as $u as u128);
    )+};
}

fn main() {
    let mc = Mc::new("C06");
    let i = |x: i64| BigInt::from(x);
    mc.selftest("reference arithmetic", modp(&i(-7), &i(5)) == i(3) && gcd(&i(12), &i(-18)) == i(6) && inverse(&i(3), &i(7)) == i(5) && word(&i(-1), 8) == 255 && big(0x80, 8, true) == i(-128) && !fits(&i(128), 8, true) && fits(&i(-128), 8, true));
    mc.assume("moduli are positive; a negative modulus has no meaning for the library");
    pair!(mc, (u8 U8 u8, 8, false), (i8 I8 u8, 8, true), (u16 U16 u16, 16, false), (i16 I16 u16, 16, true), (u32 U32 u32, 32, false), (i32 I32 u32, 32, true),
        (u64 U64 u64, 64, false), (i64 I64 u64, 64, true), (u128 U128 u128, 128, false), (i128 I128 u128, 128, true));
    mc.finish()
}

//! C07: bit utilities and conditional (constant-time style) operations.
use hacspec::prelude::*;
use mc::words::*;
use mc::*;

struct Ty<'a> {
    nm: &'a str,
    bits: u32,
    signed: bool,
}
fn go<T: Integer>(mc: &Mc, ty: Ty, mk: impl Fn(u128) -> T + Sync, un: impl Fn(T) -> u128 + Sync) {
    let (nm, bits, m) = (ty.nm, ty.bits, mask(ty.bits));
    let all: Vec<u128> = words(bits, 16);
    let some: Vec<u128> = if bits == 8 { (0..256).collect() } else if mc.thorough() && bits <= 64 { runs(bits) } else { alphabet(bits) };
    mc.bound(format!("{nm}: {} words at every bit position and rotation; {} words squared for conditional operations{}", all.len(), some.len(), if bits == 16 { "; division of every word by each of them" } else { " and division" }));
    let ch = 64;
    mc.phase(&format!("bits-{nm}"), (all.len() + ch - 1) / ch, |k, t| {
        for &x in &all[k * ch..(k * ch + ch).min(all.len())] {
            for i in 0..bits {
                let c = || format!("{nm} {x:#x} bit {i}");
                t.eq(&format!("{nm} get_bit"), c, x >> i & 1, || un(mk(x).get_bit(i)));
                t.eq(&format!("{nm} set_bit 0"), c, x & !(1u128 << i), || un(mk(x).set_bit(T::ZERO, i)));
                t.eq(&format!("{nm} set_bit 1"), c, x | 1u128 << i, || un(mk(x).set_bit(T::ONE, i)));
                let rl = |n: u32| if n == 0 { x } else { (x << n | x >> (bits - n)) & m };
                t.eq(&format!("{nm} Integer::rotate_left"), c, rl(i), || un(<T as Integer>::rotate_left(mk(x), i)));
                t.eq(&format!("{nm} Integer::rotate_right"), c, rl((bits - i) % bits), || un(<T as Integer>::rotate_right(mk(x), i)));
            }
            t.refuses(&format!("{nm} rotate_left by the width"), || format!("{x:#x}"), || un(<T as Integer>::rotate_left(mk(x), bits)));
            t.refuses(&format!("{nm} rotate_right by the width"), || format!("{x:#x}"), || un(<T as Integer>::rotate_right(mk(x), bits)));
        }
    });
    let few: Vec<u128> = if bits == 8 { vec![0, 1, 0x55, 0x80, 0xa3, 0xff] } else { vec![0, 1, m, 1u128 << (bits - 1), 0xdeadbeefcafebabe0badf00d8badf00d & m] };
    mc.phase(&format!("set-{nm}"), (bits * bits) as usize, |k, t| {
        let (p, q) = (k as u32 / bits, k as u32 % bits);
        for &x in &few {
            for &y in &few {
                let w = x & !(1u128 << p) | (y >> q & 1) << p;
                t.eq(&format!("{nm} set"), || format!("{x:#x} bit {p} <- {y:#x} bit {q}"), w, || un(mk(x).set(p, mk(y), q)));
            }
        }
    });
    mc.phase(&format!("conditional-{nm}"), some.len(), |k, t| {
        let x = some[k];
        for &y in &some {
            for on in [false, true] {
                let cm = if on { m } else { 0 };
                let c = || format!("{nm} {x:#x} {y:#x} c={on}");
                let sw = if on { (y, x) } else { (x, y) };
                t.eq(&format!("{nm} cswap"), c, sw, || { let (a, b) = cswap(mk(x), mk(y), mk(cm)); (un(a), un(b)) });
                t.eq(&format!("{nm} cswap_bit"), c, sw, || { let (a, b) = cswap_bit(mk(x), mk(y), mk(on as u128)); (un(a), un(b)) });
                t.eq(&format!("{nm} cadd"), c, if on { x.wrapping_add(y) & m } else { x }, || un(cadd(mk(x), mk(y), mk(cm))));
                t.eq(&format!("{nm} csub"), c, if on { x.wrapping_sub(y) & m } else { x }, || un(csub(mk(x), mk(y), mk(cm))));
                t.eq(&format!("{nm} cmul"), c, if on { x.wrapping_mul(y) & m } else { x }, || un(cmul(mk(x), mk(y), mk(cm))));
            }
        }
        for i in 0..bits {
            for b in [0u128, 1] {
                for on in [false, true] {
                    let w = if on { x & !(1u128 << i) | b << i } else { x };
                    t.eq(&format!("{nm} cset_bit"), || format!("{x:#x} bit {i} <- {b} c={on}"), w, || un(cset_bit(mk(x), mk(b), i, mk(if on { m } else { 0 }))));
                }
            }
        }
    });
    // division: non-negative dividends, positive divisors
    let top = if ty.signed { m / 2 } else { m };
    let over: Vec<u128> = if bits == 16 { all.clone() } else { some.clone() };
    mc.phase(&format!("ct_div-{nm}"), over.len(), |k, t| {
        let x = over[k];
        for &y in &some {
            if y == 0 || x > top || y > top {
                continue;
            }
            let f = || { let (a, b) = ct_div(mk(x), mk(y)); (un(a), un(b)) };
            if nm.starts_with('I') {
                // comparison masks of secret signed integers are unimplemented!()
                t.eq_or_refuse(&format!("{nm} ct_div"), || format!("{x} / {y}"), (x / y, x % y), f);
            } else {
                t.eq(&format!("{nm} ct_div"), || format!("{x} / {y}"), (x / y, x % y), f);
            }
        }
    });
}
macro_rules! pair {
    ($mc:expr, $(($p:ident $S:ident $u:ty, $b:expr, $s:expr)),+) => {$(
        go::<$p>(&$mc, Ty { nm: stringify!($p), bits: $b, signed: $s }, |x: u128| x as $u as $p, |x: $p| x as $u as u128);
        go::<$S>(&$mc, Ty { nm: stringify!($S), bits: $b, signed: $s }, |x: u128| $S(x as $u as $p), |x: $S| x.0 as $u as u128);
    )+};
}
fn main() {
    let mc = Mc::new("C07");
    mc.assume("bit indices are below the width; conditions are all-zero or all-one masks (0 or 1 for cswap_bit); ct_div gets a non-negative dividend and a positive divisor");
    pair!(mc, (u8 U8 u8, 8, false), (i8 I8 u8, 8, true), (u16 U16 u16, 16, false), (i16 I16 u16, 16, true), (u32 U32 u32, 32, false), (i32 I32 u32, 32, true),
        (u64 U64 u64, 64, false), (i64 I64 u64, 64, true), (u128 U128 u128, 128, false), (i128 I128 u128, 128, true));
    mc.finish()
}

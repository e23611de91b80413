//! C12: bounded integers compute exact results, and refuse everything outside their bounds.
use hacspec::prelude::*;
use mc::*;
use num::bigint::{BigInt, BigUint, Sign};
use num::{One, Signed, ToPrimitive, Zero};

unsigned_integer!(US8, 8);
unsigned_integer!(US13, 13);
unsigned_integer!(US64, 64);
unsigned_integer!(US200, 200);
unsigned_integer!(US1030, 1030);
signed_integer!(SS8, 8);
signed_integer!(SS13, 13);
signed_integer!(SS64, 64);
signed_integer!(SS200, 200);
unsigned_public_integer!(UP8, 8);
unsigned_public_integer!(UP13, 13);
unsigned_public_integer!(UP64, 64);
unsigned_public_integer!(UP200, 200);
unsigned_public_integer!(UP1030, 1030);
signed_public_integer!(SP8, 8);
signed_public_integer!(SP13, 13);
signed_public_integer!(SP64, 64);
signed_public_integer!(SP200, 200);

fn p2(k: usize) -> BigInt {
    BigInt::one() << k
}
fn max(bits: usize) -> BigInt {
    p2(bits) - 1
}
fn inside(v: &BigInt, bits: usize, signed: bool) -> bool {
    *v <= max(bits) && if signed { *v >= -max(bits) } else { !v.is_negative() }
}
/// boundary values of the type, and a little beyond
fn values(bits: usize, signed: bool, full: usize) -> Vec<BigInt> {
    let mut v: Vec<BigInt> = vec![];
    if bits <= full {
        let m = max(bits).to_i64().unwrap();
        v = (0..=m).map(BigInt::from).collect();
    } else {
        for k in (0..=bits).filter(|k| bits <= 64 || k % 8 < 2 || k % 64 > 61 || *k + 4 > bits) {
            for d in -1..=1 {
                v.push(p2(k) + d);
            }
        }
        v.extend([0, 3, 5, 10, 97, 255, 256, 1000].iter().map(|x| BigInt::from(*x)));
        let s = Stream(bits as u64).bytes((bits + 7) / 8);
        v.push(BigInt::from_bytes_be(Sign::Plus, &s) % p2(bits));
        v.push((BigInt::from_bytes_be(Sign::Plus, &s) % p2(bits)) >> (bits / 2));
    }
    v.retain(|x| inside(x, bits, true) && !x.is_negative());
    if signed {
        let n: Vec<BigInt> = v.iter().map(|x| -x).collect();
        v.extend(n);
    }
    v.sort();
    v.dedup();
    v
}
/// values to convert, including ones outside
fn raw(bits: usize) -> Vec<BigInt> {
    let mut v = values(bits, true, 8);
    for k in [bits, bits + 1, bits + 7, bits + 8, bits + 64, 2 * bits] {
        for d in -2..=2 {
            let y: BigInt = p2(k) + d;
            v.push(-y.clone());
            v.push(y);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn modp(v: &BigInt, n: &BigInt) -> BigInt {
    let r: BigInt = v % n;
    if r.is_negative() { r + n } else { r }
}
fn le(v: &BigInt) -> Vec<u8> {
    // minimal little-endian magnitude; zero is one zero byte
    let mut b = vec![];
    let mut x = v.clone();
    while !x.is_zero() {
        let r: BigInt = &x % BigInt::from(256);
        b.push(r.to_u8().unwrap());
        x = x >> 8;
    }
    if b.is_empty() { b.push(0) }
    b
}
fn hexs(v: &BigInt, digits: usize) -> String {
    let mut b = le(&v.abs());
    while b.len() * 2 < digits { b.push(0) }
    b.reverse();
    hx(&b)
}
type S = String;

macro_rules! common {
    ($mc:expr, $T:ident, $bits:expr, $signed:expr) => {{
        let nm = stringify!($T);
        let (bits, signed): (usize, bool) = ($bits, $signed);
        let mk = |v: &BigInt| -> $T { $T::from(v.clone()) };
        let un = |x: $T| -> S { let b: BigInt = x.into(); b.to_string() };
        let ok = |v: &BigInt| if inside(v, bits, signed) { Some(v.to_string()) } else { None };
        let rs = raw(bits);
        $mc.bound(format!("{nm}: conversion of {} integers in and outside the bounds", rs.len()));
        $mc.phase(&format!("convert-{nm}"), rs.len(), |i, t| {
            let v = &rs[i];
            let c = || format!("{nm} {v}");
            t.opt(&format!("{nm} from BigInt"), c, ok(v), || un($T::from(v.clone())));
            if let Some(u) = v.to_biguint() {
                t.opt(&format!("{nm} from BigUint"), c, ok(v), || un($T::from(u.clone())));
                if inside(v, bits, signed) {
                    t.eq(&format!("{nm} into BigUint"), c, v.to_string(), || { let b: BigUint = mk(v).into(); b.to_string() });
                }
            } else if inside(v, bits, signed) {
                t.refuses(&format!("{nm} negative into BigUint"), c, || { let b: BigUint = mk(v).into(); b.to_string() });
            }
            if let Some(u) = v.to_u128() {
                t.opt(&format!("{nm} from_literal"), c, ok(v), || un($T::from_literal(u)));
            }
            if let Some(s) = v.to_i128() {
                t.opt(&format!("{nm} from_signed_literal"), c, ok(v), || un($T::from_signed_literal(s)));
            }
            if inside(v, bits, signed) {
                t.eq(&format!("{nm} Display"), c, v.to_string(), || format!("{}", mk(v)));
                t.eq(&format!("{nm} Debug"), c, v.to_string(), || format!("{:?}", mk(v)));
                if !v.is_negative() {
                    let w = (bits + 7) / 8 * 8;
                    for k in 0..w {
                        let b: BigInt = (v >> k) & BigInt::one();
                        t.eq(&format!("{nm} bit"), || format!("{nm} {v} bit {k}"), b.is_one(), || mk(v).bit(k));
                    }
                    for k in [w, w + 1, w + 8, usize::MAX] {
                        t.refuses(&format!("{nm} bit past the width"), || format!("{nm} {v} bit {k}"), || mk(v).bit(k));
                    }
                }
            }
        });
        $mc.phase(&format!("pow2-{nm}"), bits + 20, |k, t| {
            t.opt(&format!("{nm} pow2"), || format!("{nm} 2^{k}"), ok(&p2(k)), || un($T::pow2(k)));
        });
        $mc.phase(&format!("default-{nm}"), 1, |_, t| {
            t.eq(&format!("{nm} default"), || nm.into(), "0".to_string(), || un($T::default()));
            t.eq(&format!("{nm} default + 1"), || nm.into(), "1".to_string(), || un($T::default() + mk(&BigInt::one())));
        });
        let vs = values(bits, signed, 8);
        $mc.bound(format!("{nm}: arithmetic on {} values squared; every history of 4 operations with 7 operands on one value", vs.len()));
        $mc.phase(&format!("arith-{nm}"), vs.len(), |i, t| {
            let a = &vs[i];
            for b in &vs {
                let c = |o: &str| format!("{nm} {a} {o} {b}");
                t.opt(&format!("{nm} +"), || c("+"), ok(&(a + b)), || un(mk(a) + mk(b)));
                t.opt(&format!("{nm} -"), || c("-"), ok(&(a - b)), || un(mk(a) - mk(b)));
                t.opt(&format!("{nm} *"), || c("*"), ok(&(a * b)), || un(mk(a) * mk(b)));
                t.opt(&format!("{nm} wrap_add"), || c("+"), ok(&(a + b)), || un(mk(a).wrap_add(mk(b))));
                t.opt(&format!("{nm} wrap_sub"), || c("-"), ok(&(a - b)), || un(mk(a).wrap_sub(mk(b))));
                t.opt(&format!("{nm} wrap_mul"), || c("*"), ok(&(a * b)), || un(mk(a).wrap_mul(mk(b))));
            }
        });
        // histories: one live value, every sequence of operations
        let m = max(bits);
        let os: Vec<BigInt> = vec![BigInt::zero(), BigInt::one(), BigInt::from(2), &m - 1, m.clone(), if signed { BigInt::from(-1) } else { BigInt::from(3) }, if signed { -m.clone() } else { &m / 2 }];
        let d = $mc.q(4u32, 5);
        let k = os.len() * 3;
        $mc.phase(&format!("histories-{nm}"), k * k, |i, t| {
            for r in 0..k.pow(d - 2) {
                let mut at = i + r * k * k;
                let mut v = os[r % os.len()].clone();
                let mut x = mk(&v);
                for _ in 0..d {
                    let (o, y) = (at % 3, &os[at / 3 % os.len()]);
                    at /= k;
                    let w = match o { 0 => &v + y, 1 => &v - y, _ => &v * y };
                    let g = attempt(|| { let z = match o { 0 => x + mk(y), 1 => x - mk(y), _ => x * mk(y) }; (un(z), z) });
                    t.opt(&format!("{nm} history {}", ["+", "-", "*"][o]), || format!("{nm} {v} then {} {y}", ["+", "-", "*"][o]), ok(&w), || match &g { Ok((s, _)) => s.clone(), Err(e) => panic!("{}", e) });
                    if let Ok((_, z)) = g {
                        x = z;
                        v = w;
                    } // refused: go on with the old value
                }
            }
        });
    }};
}
macro_rules! unsigned {
    ($mc:expr, $T:ident, $bits:expr) => {{
        let nm = stringify!($T);
        let bits: usize = $bits;
        let mk = |v: &BigInt| -> $T { $T::from(v.clone()) };
        let un = |x: $T| -> S { let b: BigInt = x.into(); b.to_string() };
        let ok = |v: &BigInt| if inside(v, bits, false) { Some(v.to_string()) } else { None };
        let vs: Vec<BigInt> = raw(bits).into_iter().filter(|v| !v.is_negative()).collect();
        $mc.phase(&format!("text-bytes-{nm}"), vs.len(), |i, t| {
            let v = &vs[i];
            let n = le(v).len();
            for pad in 0..4 {
                let h = hexs(v, 2 * (n + pad));
                t.opt(&format!("{nm} from_hex"), || format!("{nm} {h}"), ok(v), || un($T::from_hex(&h)));
                t.opt(&format!("{nm} from_hex upper case"), || format!("{nm} {h}"), ok(v), || un($T::from_hex(&h.to_uppercase())));
                let mut b = le(v);
                b.extend(vec![0; pad]);
                t.opt(&format!("{nm} from_le_bytes"), || format!("{nm} {}", hx(&b)), ok(v), || un($T::from_le_bytes(&b)));
            }
            if inside(v, bits, false) {
                t.eq(&format!("{nm} to_le_bytes"), || format!("{nm} {v}"), { let mut b = le(v); while b.len() > 1 && b[b.len() - 1] == 0 { b.pop(); } b }, || { let mut b = mk(v).to_le_bytes(); while b.len() > 1 && b[b.len() - 1] == 0 { b.pop(); } b });
                t.eq(&format!("{nm} byte round trip"), || format!("{nm} {v}"), v.to_string(), || un($T::from_le_bytes(&mk(v).to_le_bytes())));
            }
        });
        $mc.phase(&format!("bad-text-{nm}"), 1, |_, t| {
            for s in ["0", "0g", "+f", "-1", " 1", "0x", "000", "1 ", "é"] {
                t.refuses(&format!("{nm} from_hex of other text"), || format!("{:?}", s), || un($T::from_hex(s)));
            }
            t.eq(&format!("{nm} from_hex of nothing"), || "".into(), "0".to_string(), || un($T::from_hex("")));
            t.eq(&format!("{nm} from_le_bytes of nothing"), || "".into(), "0".to_string(), || un($T::from_le_bytes(&[])));
        });
    }};
}
macro_rules! signed {
    ($mc:expr, $T:ident, $bits:expr) => {{
        let nm = stringify!($T);
        let bits: usize = $bits;
        let un = |x: $T| -> S { let b: BigInt = x.into(); b.to_string() };
        let ok = |v: &BigInt| if inside(v, bits, true) { Some(v.to_string()) } else { None };
        let vs: Vec<BigInt> = raw(bits);
        $mc.phase(&format!("text-{nm}"), vs.len(), |i, t| {
            let v = &vs[i];
            for pad in 0..3 {
                let h = hexs(v, 2 * (le(&v.abs()).len() + pad));
                t.opt(&format!("{nm} from_hex"), || format!("{nm} {v}"), ok(v), || un($T::from_hex(if v.is_negative() { "-" } else { "+" }, &h)));
            }
        });
        $mc.phase(&format!("bad-text-{nm}"), 1, |_, t| {
            for (g, s) in [("+", "0"), ("+", "0g"), ("-", "+f"), ("+", "-1"), ("++", "01"), ("x", "01"), (" ", "01"), ("+-", "01")] {
                t.refuses(&format!("{nm} from_hex of other text"), || format!("{:?} {:?}", g, s), || un($T::from_hex(g, s)));
            }
        });
    }};
}
macro_rules! public {
    ($mc:expr, $T:ident, $bits:expr, $signed:expr) => {{
        let nm = stringify!($T);
        let (bits, signed): (usize, bool) = ($bits, $signed);
        let mk = |v: &BigInt| -> $T { $T::from(v.clone()) };
        let un = |x: $T| -> S { let b: BigInt = x.into(); b.to_string() };
        let ok = |v: &BigInt| if inside(v, bits, signed) { Some(v.to_string()) } else { None };
        let vs = values(bits, signed, 8);
        $mc.phase(&format!("division-order-{nm}"), vs.len(), |i, t| {
            let a = &vs[i];
            for b in &vs {
                let c = |o: &str| format!("{nm} {a} {o} {b}");
                let (q, r) = if b.is_zero() { (None, None) } else { (ok(&(a / b)), ok(&(a % b))) };
                t.opt(&format!("{nm} /"), || c("/"), q, || un(mk(a) / mk(b)));
                t.opt(&format!("{nm} %"), || c("%"), r, || un(mk(a) % mk(b)));
                let (x, y) = (mk(a), mk(b));
                t.eq(&format!("{nm} order"), || c("cmp"), (a.cmp(b), a == b, a < b, a <= b, a > b, a >= b, a != b), || (x.cmp(&y), x == y, x < y, x <= y, x > y, x >= y, x != y));
            }
        });
        // modular powers and prime-field inverses
        let ms: Vec<BigInt> = [2u64, 3, 7, 97, 127, 251, 8191, 65537, 4294967291, (1 << 61) - 1].iter().map(|x| BigInt::from(*x)).chain([p2(127) - 1, p2(130) - 5, p2(255) - 19, p2(521) - 1]).filter(|m| inside(m, bits, signed)).collect();
        let some: Vec<BigInt> = vs.iter().enumerate().filter(|(i, _)| vs.len() < 600 || i % 2 == 0).map(|(_, v)| v.clone()).collect();
        $mc.bound(format!("{nm}: powers and inverses of {} values modulo {} primes", some.len(), ms.len()));
        $mc.phase(&format!("modpow-{nm}"), some.len(), |i, t| {
            let a = &some[i];
            for m in &ms {
                let mut p = modp(&BigInt::one(), m);
                for e in 0..40u32 {
                    t.eq(&format!("{nm} pow"), || format!("{a}^{e} mod {m}"), p.to_string(), || un(mk(a).pow(e as u128, mk(m))));
                    let eb = BigInt::from(e);
                    t.eq(&format!("{nm} pow_felem"), || format!("{a}^{e} mod {m}"), p.to_string(), || un(mk(a).pow_felem(mk(&eb), mk(m))));
                    p = modp(&(p * a), m);
                }
                // Fermat: large exponents
                let r = modp(a, m);
                if !r.is_zero() {
                    let e = m - 1;
                    t.eq(&format!("{nm} pow_felem"), || format!("{a}^{e} mod {m}"), modp(&BigInt::one(), m).to_string(), || un(mk(a).pow_felem(mk(&e), mk(m))));
                    t.eq(&format!("{nm} pow_felem"), || format!("{a}^{m} mod {m}"), r.to_string(), || un(mk(a).pow_felem(mk(m), mk(m))));
                    if let Some(u) = e.to_u128() {
                        t.eq(&format!("{nm} pow"), || format!("{a}^{e} mod {m}"), modp(&BigInt::one(), m).to_string(), || un(mk(a).pow(u, mk(m))));
                    }
                    t.eq(&format!("{nm} inv"), || format!("{a}^-1 mod {m}: times {a}, reduced"), (modp(&BigInt::one(), m).to_string(), true), || {
                        let z: BigInt = mk(a).inv(mk(m)).into();
                        (modp(&(&z * a), m).to_string(), z < *m && !z.is_negative())
                    });
                }
            }
            for e in [1u128 << 64, (1 << 64) + 1, 1 << 127, u128::MAX] {
                for m in &ms {
                    // square and multiply, bit by bit
                    let mut p = modp(&BigInt::one(), m);
                    for k in (0..128).rev() {
                        p = modp(&(&p * &p), m);
                        if e >> k & 1 == 1 { p = modp(&(p * a), m) }
                    }
                    t.eq(&format!("{nm} pow"), || format!("{a}^{e} mod {m}"), p.to_string(), || un(mk(a).pow(e, mk(m))));
                }
            }
        });
    }};
}
fn main() {
    let mc = Mc::new("C12");
    mc.selftest("reference", max(8) == BigInt::from(255) && inside(&BigInt::from(-255), 8, true) && !inside(&BigInt::from(256), 8, true) && !inside(&BigInt::from(-1), 8, false) && le(&BigInt::from(258)) == vec![2, 1] && hexs(&BigInt::from(258), 6) == "000102");
    mc.assume("the arbitrary-precision arithmetic of the num crate, itself used as the reference, is not part of this repository");
    mc.assume("bit() of negative values and inverses of multiples of the modulus are not judged");
    common!(mc, US8, 8, false);
    common!(mc, US13, 13, false);
    common!(mc, US64, 64, false);
    common!(mc, US200, 200, false);
    common!(mc, US1030, 1030, false);
    common!(mc, SS8, 8, true);
    common!(mc, SS13, 13, true);
    common!(mc, SS64, 64, true);
    common!(mc, SS200, 200, true);
    common!(mc, UP8, 8, false);
    common!(mc, UP13, 13, false);
    common!(mc, UP64, 64, false);
    common!(mc, UP200, 200, false);
    common!(mc, UP1030, 1030, false);
    common!(mc, SP8, 8, true);
    common!(mc, SP13, 13, true);
    common!(mc, SP64, 64, true);
    common!(mc, SP200, 200, true);
    unsigned!(mc, US8, 8);
    unsigned!(mc, US13, 13);
    unsigned!(mc, US200, 200);
    unsigned!(mc, UP8, 8);
    unsigned!(mc, UP13, 13);
    unsigned!(mc, UP64, 64);
    unsigned!(mc, UP1030, 1030);
    signed!(mc, SS8, 8);
    signed!(mc, SS13, 13);
    signed!(mc, SS200, 200);
    signed!(mc, SP8, 8);
    signed!(mc, SP64, 64);
    signed!(mc, SP200, 200);
    public!(mc, UP8, 8, false);
    public!(mc, UP13, 13, false);
    public!(mc, UP64, 64, false);
    public!(mc, UP200, 200, false);
    public!(mc, UP1030, 1030, false);
    public!(mc, SP8, 8, true);
    public!(mc, SP13, 13, true);
    public!(mc, SP64, 64, true);
    public!(mc, SP200, 200, true);
    mc.finish()
}

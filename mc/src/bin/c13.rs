//! C13: modular integers compute in Z/n exactly and keep their representatives below n.
use hacspec::prelude::*;
use mc::conv::*;
use mc::*;
use num::bigint::{BigInt, BigUint, Sign};
use num::{One, Signed, ToPrimitive, Zero};

nat_mod!(N7, N7C, 8, "07");
nat_mod!(N91, N91C, 8, "5b");
nat_mod!(N251, N251C, 8, "fb");
nat_mod!(N256, N256C, 9, "0100");
nat_mod!(N61, N61C, 61, "1fffffffffffffff");
nat_mod!(N130, N130C, 130, "03fffffffffffffffffffffffffffffffb");
nat_mod!(N255, N255C, 256, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed");
nat_mod!(NP, NPC, 256, "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
public_nat_mod!(P2, P2C, 8, "02");
public_nat_mod!(P7, P7C, 8, "07");
public_nat_mod!(P91, P91C, 8, "5b");
public_nat_mod!(P251, P251C, 8, "fb");
public_nat_mod!(P256M, P256MC, 9, "0100");
public_nat_mod!(P61, P61C, 61, "1fffffffffffffff");
public_nat_mod!(P130, P130C, 131, "03fffffffffffffffffffffffffffffffb");
public_nat_mod!(P255, P255C, 256, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed");
public_nat_mod!(PP, PPC, 256, "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
public_nat_mod!(P521, P521C, 521, "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff");
unsigned_public_integer!(UP13, 13);
define_refined_modular_integer!(R8191, UP13, UP13::pow2(13 - 1) + (UP13::pow2(12) - UP13::from_literal(1)));
define_refined_modular_integer!(R5000, UP13, UP13::from_literal(5000));

fn p2(k: usize) -> BigInt {
    BigInt::one() << k
}
fn hexi(s: &str) -> BigInt {
    BigInt::from_bytes_be(Sign::Plus, &unhex(s))
}
fn modp(v: &BigInt, n: &BigInt) -> BigInt {
    let r: BigInt = v % n;
    if r.is_negative() { r + n } else { r }
}
fn trim(mut b: Vec<u8>) -> Vec<u8> {
    while b.len() > 1 && b[b.len() - 1] == 0 { b.pop(); }
    b
}
fn le(v: &BigInt) -> Vec<u8> {
    let mut b = vec![];
    let mut x = v.clone();
    while !x.is_zero() {
        let r: BigInt = &x % BigInt::from(256);
        b.push(r.to_u8().unwrap());
        x = x >> 8;
    }
    if b.is_empty() { b.push(0) }
    b
}
fn hexs(v: &BigInt, pad: usize) -> String {
    let mut b = le(v);
    b.extend(vec![0; pad]);
    b.reverse();
    hx(&b)
}
/// residues: all of them for a small modulus, otherwise the ones around powers of two and around the ends
fn residues(n: &BigInt, bits: usize) -> Vec<BigInt> {
    let mut v: Vec<BigInt> = vec![];
    if *n <= BigInt::from(260) {
        return (0..n.to_i64().unwrap()).map(BigInt::from).collect();
    }
    for k in (0..=bits).filter(|k| k % 8 < 2 || k % 32 > 29 || *k + 3 > bits) {
        for d in -1..=1 {
            v.push(p2(k) + d);
            v.push(n - p2(k) + d);
        }
    }
    for k in 1..5 {
        v.push(n / k);
        v.push(n / k + 1);
    }
    v.push(BigInt::from_bytes_be(Sign::Plus, &Stream(bits as u64).bytes((bits + 7) / 8)) % n);
    v.push(BigInt::from_bytes_be(Sign::Plus, &Stream(bits as u64 + 1).bytes((bits + 7) / 8)) % n);
    v.retain(|x| !x.is_negative() && x < n);
    v.sort();
    v.dedup();
    v
}
/// canvas values at and beyond the modulus
fn canvas(n: &BigInt, bits: usize) -> Vec<BigInt> {
    let mut v = residues(n, bits);
    if bits <= 13 {
        v = (0..(1i64 << bits)).map(BigInt::from).collect();
    }
    for b in [n.clone(), n * 2, p2(bits), p2(bits + 1), p2(bits + 8), n * n] {
        for d in -2..=2 {
            v.push(&b + d);
        }
    }
    v.sort();
    v.dedup();
    v.retain(|x| !x.is_negative());
    v
}

macro_rules! common {
    ($mc:expr, $T:ident, $B:ident, $bits:expr, $n:expr) => {{
        let nm = stringify!($T);
        let bits: usize = $bits;
        let n: BigInt = $n;
        let n = &n;
        let mk = |v: &BigInt| -> $T { $T::from($B::from(v.clone())) };
        let un = |x: $T| -> String { let b: $B = x.into(); let b: BigInt = b.into(); b.to_string() };
        let fits = |v: &BigInt| *v < p2(bits);
        let cs = canvas(n, bits);
        $mc.bound(format!("{nm}: modulus {n}, {} canvas values converted", cs.len()));
        $mc.phase(&format!("convert-{nm}"), cs.len(), |i, t| {
            let v = &cs[i];
            let c = || format!("{nm} {v}");
            let want = if fits(v) { Some(modp(v, n).to_string()) } else { None };
            t.opt(&format!("{nm} from canvas"), c, want.clone(), || un(mk(v)));
            for pad in 0..3 {
                t.opt(&format!("{nm} from_hex"), || format!("{nm} {v} padded {pad}"), want.clone(), || un($T::from_hex(&hexs(v, pad))));
                let mut b = le(v);
                b.extend(vec![0; pad]);
                t.opt(&format!("{nm} from_le_bytes"), || format!("{nm} {v} padded {pad}"), want.clone(), || un($T::from_le_bytes(&b)));
            }
            if let Some(u) = v.to_u128() {
                let want = if v <= n { Some(modp(v, n).to_string()) } else { None };
                t.opt(&format!("{nm} from_literal"), c, want, || un($T::from_literal(u)));
            }
            if let Some(u) = v.to_i128() {
                let want = if v <= n { Some(modp(v, n).to_string()) } else { None };
                t.opt(&format!("{nm} from_signed_literal"), c, want, || un($T::from_signed_literal(u)));
                let want = if v <= n { Some(modp(&-v.clone(), n).to_string()) } else { None };
                t.opt(&format!("{nm} from_signed_literal of a negative"), || format!("{nm} -{v}"), want, || un($T::from_signed_literal(-u)));
            }
            if v < n {
                t.eq(&format!("{nm} Display"), c, v.to_string(), || format!("{}", mk(v)));
                t.eq(&format!("{nm} Debug"), c, v.to_string(), || format!("{:?}", mk(v)));
                t.eq(&format!("{nm} to_le_bytes"), c, le(v), || trim(mk(v).to_le_bytes()));
                t.eq(&format!("{nm} byte round trip"), c, v.to_string(), || un($T::from_le_bytes(&mk(v).to_le_bytes())));
                for k in 0..bits {
                    let b: BigInt = (v >> k) & BigInt::one();
                    t.eq(&format!("{nm} bit"), || format!("{nm} {v} bit {k}"), b.is_one(), || mk(v).bit(k));
                }
                let w = (bits + 7) / 8 * 8;
                for k in [w, w + 1, usize::MAX] {
                    t.refuses(&format!("{nm} bit past the width"), || format!("{nm} {v} bit {k}"), || mk(v).bit(k));
                }
            }
        });
        $mc.phase(&format!("constants-{nm}"), 1, |_, t| {
            t.eq(&format!("{nm} max"), || nm.into(), n.to_string(), || { let b: BigInt = $T::max().into(); b.to_string() });
            t.eq(&format!("{nm} default"), || nm.into(), "0".to_string(), || un($T::default()));
            for s in ["0", "0g", "+1", "-1", " 1", "0x", "1 "] {
                t.refuses(&format!("{nm} from_hex of other text"), || format!("{:?}", s), || un($T::from_hex(s)));
            }
            for x in [i128::MIN, i128::MIN + 1, i128::MAX] {
                let v = BigInt::from(x);
                let want = if v.abs() <= *n { Some(modp(&v, n).to_string()) } else { None };
                t.opt(&format!("{nm} from_signed_literal"), || format!("{nm} {x}"), want, || un($T::from_signed_literal(x)));
            }
            let v = BigInt::from(u128::MAX);
            let want = if v <= *n { Some(modp(&v, n).to_string()) } else { None };
            t.opt(&format!("{nm} from_literal"), || format!("{nm} {v}"), want, || un($T::from_literal(u128::MAX)));
        });
        let rs = residues(n, bits);
        $mc.bound(format!("{nm}: every pair of {} residues under + - *, every history of operations on boundary residues", rs.len()));
        $mc.phase(&format!("arith-{nm}"), rs.len(), |i, t| {
            let a = &rs[i];
            for b in &rs {
                let c = |o: &str| format!("{nm} {a} {o} {b}");
                t.eq(&format!("{nm} +"), || c("+"), modp(&(a + b), n).to_string(), || un(mk(a) + mk(b)));
                t.eq(&format!("{nm} -"), || c("-"), modp(&(a - b), n).to_string(), || un(mk(a) - mk(b)));
                t.eq(&format!("{nm} *"), || c("*"), modp(&(a * b), n).to_string(), || un(mk(a) * mk(b)));
            }
        });
        // histories on one live value
        let os: Vec<BigInt> = { let mut v = vec![BigInt::zero(), BigInt::one(), BigInt::from(2), n - 1, n - 2, n / 2, n / 2 + 1]; v.iter_mut().for_each(|x| *x = modp(x, n)); v.sort(); v.dedup(); v };
        let d = $mc.q(4u32, 5);
        let k = os.len() * 3;
        $mc.phase(&format!("histories-{nm}"), k * k, |i, t| {
            for r in 0..k.pow(d - 2) {
                let mut at = i + r * k * k;
                let mut v = os[r % os.len()].clone();
                let mut x = mk(&v);
                for _ in 0..d {
                    let (o, y) = (at % 3, &os[at / 3 % os.len()]);
                    at /= k;
                    let w = modp(&match o { 0 => &v + y, 1 => &v - y, _ => &v * y }, n);
                    let z = attempt(|| match o { 0 => x + mk(y), 1 => x - mk(y), _ => x * mk(y) });
                    t.eq(&format!("{nm} history {}", ["+", "-", "*"][o]), || format!("{nm} {v} {} {y}", ["+", "-", "*"][o]), w.to_string(), || match &z { Ok(z) => un(*z), Err(e) => panic!("{}", e) });
                    let Ok(z) = z else { break };
                    x = z;
                    v = w;
                }
            }
        });
    }};
}
macro_rules! wraps {
    ($mc:expr, $T:ident, $B:ident, $bits:expr, $n:expr) => {{
        let nm = stringify!($T);
        let bits: usize = $bits;
        let n: BigInt = $n;
        let n = &n;
        let mk = |v: &BigInt| -> $T { $T::from($B::from(v.clone())) };
        let un = |x: $T| -> String { let b: $B = x.into(); let b: BigInt = b.into(); b.to_string() };
        let rs = residues(n, bits);
        $mc.phase(&format!("wrapping-{nm}"), rs.len(), |i, t| {
            let a = &rs[i];
            for b in &rs {
                let c = |o: &str| format!("{nm} {a} {o} {b}");
                t.eq(&format!("{nm} wrap_add"), || c("+"), modp(&(a + b), n).to_string(), || un(mk(a).wrap_add(mk(b))));
                t.eq(&format!("{nm} wrap_sub"), || c("-"), modp(&(a - b), n).to_string(), || un(mk(a).wrap_sub(mk(b))));
                t.eq(&format!("{nm} wrap_mul"), || c("*"), modp(&(a * b), n).to_string(), || un(mk(a).wrap_mul(mk(b))));
            }
        });
    }};
}
macro_rules! public {
    ($mc:expr, $T:ident, $B:ident, $bits:expr, $n:expr, $prime:expr) => {{
        let nm = stringify!($T);
        let bits: usize = $bits;
        let n: BigInt = $n;
        let n = &n;
        let mk = |v: &BigInt| -> $T { $T::from($B::from(v.clone())) };
        let un = |x: $T| -> String { let b: $B = x.into(); let b: BigInt = b.into(); b.to_string() };
        let rs = residues(n, bits);
        $mc.phase(&format!("division-order-{nm}"), rs.len(), |i, t| {
            let a = &rs[i];
            for b in &rs {
                let c = |o: &str| format!("{nm} {a} {o} {b}");
                let (q, r) = if b.is_zero() { (None, None) } else { (Some((a / b).to_string()), Some((a % b).to_string())) };
                t.opt(&format!("{nm} /"), || c("/"), q, || un(mk(a) / mk(b)));
                t.opt(&format!("{nm} %"), || c("%"), r, || un(mk(a) % mk(b)));
                let (x, y) = (mk(a), mk(b));
                t.eq(&format!("{nm} order"), || c("cmp"), (a.cmp(b), a == b, a < b, a <= b, a > b, a >= b, a != b), || (x.cmp(&y), x == y, x < y, x <= y, x > y, x >= y, x != y));
            }
            // different routes to one residue are equal
            let over = a + n;
            if over < p2(bits) {
                t.eq(&format!("{nm} equality of representatives"), || format!("{nm} {a}"), true, || mk(a) == mk(&over) && mk(a) == mk(&over) + mk(&BigInt::zero()));
            }
        });
        let some: Vec<BigInt> = rs.clone();
        $mc.bound(format!("{nm}: powers with exponents 0 to 39 and at the width ends, and inverses, of {} residues", some.len()));
        $mc.phase(&format!("powers-{nm}"), some.len(), |i, t| {
            let a = &some[i];
            let mut p = modp(&BigInt::one(), n);
            for e in 0..40u32 {
                t.eq(&format!("{nm} pow"), || format!("{a}^{e} mod {n}"), p.to_string(), || un($T::pow(mk(a), e as u128)));
                let eb = BigInt::from(e);
                if eb < *n {
                    t.eq(&format!("{nm} pow_felem"), || format!("{a}^{e} mod {n}"), p.to_string(), || un(mk(a).pow_felem(mk(&eb))));
                }
                p = modp(&(p * a), n);
            }
            let ladder = |e: &BigInt| {
                let mut p = modp(&BigInt::one(), n);
                for k in (0..p.bits().max(e.bits())).rev() {
                    p = modp(&(&p * &p), n);
                    let b: BigInt = (e >> k) & BigInt::one();
                    if b.is_one() { p = modp(&(p * a), n) }
                }
                p
            };
            for e in [1u128 << 31, 1 << 32, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 1 << 127, u128::MAX] {
                t.eq(&format!("{nm} pow"), || format!("{a}^{e} mod {n}"), ladder(&BigInt::from(e)).to_string(), || un($T::pow(mk(a), e)));
            }
            for e in [n - 1, n - 2, n / 2, n / 2 + 1] {
                let e = modp(&e, n);
                t.eq(&format!("{nm} pow_felem"), || format!("{a}^{e} mod {n}"), ladder(&e).to_string(), || un(mk(a).pow_felem(mk(&e))));
            }
            if $prime && !a.is_zero() {
                t.eq(&format!("{nm} inv"), || format!("{a}^-1 mod {n}, times {a}"), modp(&BigInt::one(), n).to_string(), || un(mk(a).inv() * mk(a)));
                t.eq(&format!("{nm} inv"), || format!("{a}^-1 mod {n}, judged outside"), modp(&BigInt::one(), n).to_string(), || { let z: $B = mk(a).inv().into(); let z: BigInt = z.into(); assert!(z < *n); modp(&(z * a), n).to_string() });
                t.eq(&format!("{nm} inv twice"), || format!("{a} mod {n}"), a.to_string(), || un(mk(a).inv().inv()));
            }
        });
    }};
}
macro_rules! bytes {
    ($mc:expr, $T:ident, $B:ident, $bits:expr, $n:expr) => {{
        let nm = stringify!($T);
        let bits: usize = $bits;
        let n: BigInt = $n;
        let n = &n;
        let un = |x: $T| -> String { let b: $B = x.into(); let b: BigInt = b.into(); b.to_string() };
        let cs = canvas(n, bits);
        $mc.phase(&format!("byte-sequences-{nm}"), cs.len(), |i, t| {
            let v = &cs[i];
            let c = || format!("{nm} {v}");
            let want = if *v < p2(bits) { Some(modp(v, n).to_string()) } else { None };
            for pad in 0..3 {
                let mut b = le(v);
                b.extend(vec![0; pad]);
                t.opt(&format!("{nm} from_byte_seq_le"), c, want.clone(), || un($T::from_byte_seq_le(bs(&b))));
            }
            if let Some(u) = v.to_u128() {
                let want = if v <= n { Some(modp(v, n).to_string()) } else { None };
                t.opt(&format!("{nm} from_secret_literal"), c, want, || un($T::from_secret_literal(U128::classify(u))));
            }
            if v < n {
                let x = $T::from($B::from(v.clone()));
                t.eq(&format!("{nm} to_byte_seq_le"), c, le(v), || trim(vb(&x.to_byte_seq_le())));
                t.eq(&format!("{nm} to_public_byte_seq_le"), c, le(v), || trim(x.to_public_byte_seq_le().iter().cloned().collect()));
                t.eq(&format!("{nm} byte sequence round trip"), c, v.to_string(), || un($T::from_byte_seq_le(x.to_byte_seq_le())));
            }
        });
    }};
}
fn main() {
    let mc = Mc::new("C13");
    mc.selftest("reference", modp(&BigInt::from(-3), &BigInt::from(7)) == BigInt::from(4) && le(&BigInt::from(258)) == vec![2, 1] && hexs(&BigInt::from(258), 1) == "000102" && hexi("0102") == BigInt::from(258) && residues(&BigInt::from(7), 8).len() == 7);
    mc.assume("the arbitrary-precision arithmetic of the num crate, itself used as the reference, is not part of this repository");
    mc.assume("inverses are judged for prime moduli and nonzero residues");
    macro_rules! sec { ($T:ident, $B:ident, $bits:expr, $n:expr) => {{ common!(mc, $T, $B, $bits, $n); wraps!(mc, $T, $B, $bits, $n); }}; }
    macro_rules! pb { ($T:ident, $B:ident, $bits:expr, $n:expr, $p:expr) => {{ sec!($T, $B, $bits, $n); public!(mc, $T, $B, $bits, $n, $p); bytes!(mc, $T, $B, $bits, $n); }}; }
    let pp = hexi("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
    sec!(N7, N7C, 8, BigInt::from(7));
    sec!(N91, N91C, 8, BigInt::from(91));
    sec!(N251, N251C, 8, BigInt::from(251));
    sec!(N256, N256C, 9, BigInt::from(256));
    sec!(N61, N61C, 61, p2(61) - 1);
    sec!(N130, N130C, 130, p2(130) - 5);
    sec!(N255, N255C, 256, p2(255) - 19);
    sec!(NP, NPC, 256, pp.clone());
    pb!(P2, P2C, 8, BigInt::from(2), true);
    pb!(P7, P7C, 8, BigInt::from(7), true);
    pb!(P91, P91C, 8, BigInt::from(91), false);
    pb!(P251, P251C, 8, BigInt::from(251), true);
    pb!(P256M, P256MC, 9, BigInt::from(256), false);
    pb!(P61, P61C, 61, p2(61) - 1, true);
    pb!(P130, P130C, 131, p2(130) - 5, true);
    pb!(P255, P255C, 256, p2(255) - 19, true);
    pb!(PP, PPC, 256, pp.clone(), true);
    pb!(P521, P521C, 521, p2(521) - 1, true);
    common!(mc, R8191, UP13, 13, BigInt::from(8191));
    public!(mc, R8191, UP13, 13, BigInt::from(8191), true);
    common!(mc, R5000, UP13, 13, BigInt::from(5000));
    public!(mc, R5000, UP13, 13, BigInt::from(5000), false);
    mc.finish();
}

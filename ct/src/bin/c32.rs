//! C32: secret-independent execution.
//!
//! A 2-safety property, decided on the real code by self-composition: for every operation, every public
//! parameter and every member of the operand sets the executed path (each control-flow edge, each computed
//! index and each divisor, in order; see trace.c) is recorded and must be that of the first member. The
//! code under test is compiled with LLVM's SanitizerCoverage, without optimisation and without debug assertions.
use hacspec::prelude::*;
use hacspec_examples::{blake2::blake2b, chacha20_poly1305::chacha20, fips202 as sha3, hkdf, hmac::hmac, sha2};
use mc::conv::bs;
use mc::words::*;
use mc::*;
use std::hint::black_box;

extern "C" {
    fn ct_begin();
    fn ct_end(steps: *mut u64) -> u64;
}
#[inline(never)]
fn path<R>(f: &dyn Fn() -> R) -> (u64, u64) {
    unsafe {
        ct_begin();
        let r = f();
        let mut n = 0;
        let h = ct_end(&mut n);
        drop(black_box(r));
        (n, h)
    }
}
/// All members 0..n of one operand set must take the path of member 0. `arg` is not recorded.
fn same<A, R>(t: &mut Tr, key: &str, n: usize, case: impl Fn(usize) -> String, arg: impl Fn(usize) -> A, op: impl Fn(A) -> R) {
    let at = |j: usize| {
        let a = black_box(arg(j));
        unsafe {
            ct_begin();
            let r = op(a);
            let mut steps = 0;
            let h = ct_end(&mut steps);
            drop(black_box(r));
            (steps, h)
        }
    };
    let mut base = (0, 0);
    match attempt(|| (at(0), at(0)).1) {
        Ok(b) => base = b,
        Err(e) => t.fail(key, case(0), "a result".into(), format!("panic: {e}")),
    }
    t.row(key, n, &case, |j| {
        let p = at(j);
        if p == base {
            return None;
        }
        // reproducible? (something that is set up on first use is not a matter of operands)
        let (b2, p2) = (at(0), at(j));
        if b2 == p2 {
            return None;
        }
        Some((format!("the path of {} ({} steps)", case(0), b2.0), if b2.0 == p2.0 { format!("{} steps, other branches or indices", p2.0) } else { format!("{} steps", p2.0) }))
    });
}

bytes!(Arr48, 48);
array!(Wrd12, 12, U32);
trait W: Copy + Send + Sync {
    const N: &'static str;
    const B: u32;
    fn mk(x: u128) -> Self;
}
macro_rules! w { ($($t:ident $p:ident $b:expr);+) => { $(impl W for $t { const N: &'static str = stringify!($t); const B: u32 = $b; fn mk(x: u128) -> Self { $t(x as $p) } })+ }; }
w!(U8 u8 8; U16 u16 16; U32 u32 32; U64 u64 64; U128 u128 128; I8 i8 8; I16 i16 16; I32 i32 32; I64 i64 64; I128 i128 128);

fn prep<T: W>(v: &[u128]) -> Vec<T> { v.iter().map(|x| T::mk(*x)).collect() }

macro_rules! ops {
    ($mc:expr, $T:ident, $p:ident, [$($un:ident),*]) => {{
        let mc = $mc;
        let all: Vec<$T> = prep(&if $T::B <= 16 { words($T::B, 16) } else { runs($T::B) });
        let two: Vec<u128> = if $T::B == 8 { (0..256).collect() } else if mc.thorough() && $T::B <= 64 { runs($T::B) } else { alphabet($T::B) };
        let v: Vec<$T> = prep(&two);
        let n = v.len();
        mc.bound(format!("{}: {} words for unary operations, {} pairs for binary ones", $T::N, all.len(), n * n));
        let all = &all; let v = &v;
        macro_rules! bin { ($t:expr; $k:expr; $name:expr, $f:expr) => {{
            // all pairs whose left operand is in slice $k, and pair 0 as the reference
            let f = $f;
            let lo = $k * 16; let hi = (lo + 16).min(n);
            let idx = |j: usize| if j == 0 { (v[0], v[0], 0, 0) } else { let j = j - 1; (v[lo + j / n], v[j % n], lo + j / n, j % n) };
            same($t, &format!("{} {}", $T::N, $name), 1 + (hi - lo) * n, |j| { let (_, _, a, b) = idx(j); format!("{:#x}, {:#x}", two[a], two[b]) }, |j| { let (a, b, _, _) = idx(j); (a, b) }, |(a, b)| f(a, b));
        }}; }
        mc.phase(&format!("binary-{}", $T::N), (n + 15) / 16, |k, t| {
            bin!(t; k; "+", |a: $T, b: $T| a + b);
            bin!(t; k; "-", |a: $T, b: $T| a - b);
            bin!(t; k; "*", |a: $T, b: $T| a * b);
            bin!(t; k; "&", |a: $T, b: $T| a & b);
            bin!(t; k; "|", |a: $T, b: $T| a | b);
            bin!(t; k; "^", |a: $T, b: $T| a ^ b);
            bin!(t; k; "+=", |mut a: $T, b: $T| { a += b; a });
            bin!(t; k; "-=", |mut a: $T, b: $T| { a -= b; a });
            bin!(t; k; "*=", |mut a: $T, b: $T| { a *= b; a });
            bin!(t; k; "&=", |mut a: $T, b: $T| { a &= b; a });
            bin!(t; k; "|=", |mut a: $T, b: $T| { a |= b; a });
            bin!(t; k; "^=", |mut a: $T, b: $T| { a ^= b; a });
            bin!(t; k; "wrap_add", |a: $T, b: $T| a.wrap_add(b));
            bin!(t; k; "wrap_sub", |a: $T, b: $T| a.wrap_sub(b));
            bin!(t; k; "wrap_mul", |a: $T, b: $T| a.wrap_mul(b));
            bin!(t; k; "cswap, condition off", |a: $T, b: $T| cswap(a, b, $T(0)));
            bin!(t; k; "cadd, condition off", |a: $T, b: $T| cadd(a, b, $T(0)));
            bin!(t; k; "csub, condition off", |a: $T, b: $T| csub(a, b, $T(0)));
            bin!(t; k; "cmul, condition off", |a: $T, b: $T| cmul(a, b, $T(0)));
            $(
            bin!(t; k; concat!(stringify!($un), " comp_eq"), |a: $T, b: $T| a.comp_eq(b));
            bin!(t; k; "comp_ne", |a: $T, b: $T| a.comp_ne(b));
            bin!(t; k; "comp_gte", |a: $T, b: $T| a.comp_gte(b));
            bin!(t; k; "comp_gt", |a: $T, b: $T| a.comp_gt(b));
            bin!(t; k; "comp_lte", |a: $T, b: $T| a.comp_lte(b));
            bin!(t; k; "comp_lt", |a: $T, b: $T| a.comp_lt(b));
            bin!(t; k; "equal_bm", |a: $T, b: $T| a.equal_bm(b));
            bin!(t; k; "not_equal_bm", |a: $T, b: $T| a.not_equal_bm(b));
            bin!(t; k; "greater_than_bm", |a: $T, b: $T| a.greater_than_bm(b));
            bin!(t; k; "greater_than_or_qual_bm", |a: $T, b: $T| a.greater_than_or_qual_bm(b));
            bin!(t; k; "less_than_bm", |a: $T, b: $T| a.less_than_bm(b));
            bin!(t; k; "less_than_or_equal_bm", |a: $T, b: $T| a.less_than_or_equal_bm(b));
            )*
        });
        // the condition of the conditional operations is secret, too
        mc.phase(&format!("conditional-{}", $T::N), n, |k, t| {
            let a = v[k];
            let arg = |j: usize| (a, v[j / 2], $T(0).wrap_sub($T((j & 1) as $p)));
            let c = |j: usize| format!("{:#x}, {:#x}, condition {}", two[k], two[j / 2], j & 1);
            same(t, &format!("{} cswap", $T::N), 2 * n, c, arg, |(a, b, m)| cswap(a, b, m));
            same(t, &format!("{} cswap_bit", $T::N), 2 * n, c, |j| (a, v[j / 2], $T((j & 1) as $p)), |(a, b, m)| cswap_bit(a, b, m));
            same(t, &format!("{} cadd", $T::N), 2 * n, c, arg, |(a, b, m)| cadd(a, b, m));
            same(t, &format!("{} csub", $T::N), 2 * n, c, arg, |(a, b, m)| csub(a, b, m));
            same(t, &format!("{} cmul", $T::N), 2 * n, c, arg, |(a, b, m)| cmul(a, b, m));
        });
        // public: the amount or position; secret: the words
        mc.phase(&format!("unary-{}", $T::N), $T::B as usize, |i, t| {
            let i = i as u32;
            let c = |j: usize| format!("word {j} of {}, amount {i}", all.len());
            let n = all.len();
            let w = |j: usize| all[j];
            let other = (i * 7 + 3) % $T::B;
            same(t, &format!("{} <<", $T::N), n, c, w, |x| x << i);
            same(t, &format!("{} >>", $T::N), n, c, w, |x| x >> i);
            same(t, &format!("{} <<=", $T::N), n, c, w, |mut x| { x <<= i; x });
            same(t, &format!("{} >>=", $T::N), n, c, w, |mut x| { x >>= i; x });
            same(t, &format!("{} rotate_left", $T::N), n, c, w, |x| $T::rotate_left(x, i));
            same(t, &format!("{} rotate_right", $T::N), n, c, w, |x| $T::rotate_right(x, i));
            same(t, &format!("{} Integer::rotate_left", $T::N), n, c, w, |x| <$T as Integer>::rotate_left(x, i));
            same(t, &format!("{} Integer::rotate_right", $T::N), n, c, w, |x| <$T as Integer>::rotate_right(x, i));
            same(t, &format!("{} get_bit", $T::N), n, c, w, |x| x.get_bit(i));
            same(t, &format!("{} set_bit", $T::N), 2 * n, c, |j| (all[j / 2], $T((j & 1) as $p)), |(x, b)| x.set_bit(b, i));
            same(t, &format!("{} set", $T::N), n, c, |j| (all[j], all[n - 1 - j]), |(x, y)| x.set(i, y, other));
            same(t, &format!("{} cset_bit", $T::N), 4 * n, c, |j| (all[j / 4], $T((j & 1) as $p), $T(0).wrap_sub($T((j >> 1 & 1) as $p))), |(x, b, m)| cset_bit(x, b, i, m));
            if i < 6 { same(t, &format!("{} pow", $T::N), n, c, w, |x| x.pow(i)); }
            if i == 0 {
                same(t, &format!("{} !", $T::N), n, c, w, |x| !x);
                same(t, &format!("{} neg", $T::N), n, c, w, |x| -x);
                same(t, &format!("{} classify", $T::N), n, c, w, |x| $T::classify(x.0));
                same(t, &format!("{} From", $T::N), n, c, w, |x| $T::from(x.0));
                same(t, &format!("{} declassify", $T::N), n, c, w, |x| x.declassify());
                same(t, &format!("{} from_literal", $T::N), n, c, w, |x| $T::from_literal(x.0 as $p as u128));
                same(t, &format!("{} to_le_bytes", $T::N), n, c, |j| [all[j], all[n - 1 - j]], |x| $T::to_le_bytes(&x));
                same(t, &format!("{} to_be_bytes", $T::N), n, c, |j| [all[j], all[n - 1 - j]], |x| $T::to_be_bytes(&x));
                let b = |j: usize| all[j].0.to_le_bytes().iter().map(|x| U8(*x)).collect::<Vec<U8>>();
                let bytes: Vec<Vec<U8>> = (0..n).map(b).collect();
                same(t, &format!("{} from_le_bytes", $T::N), n, c, |j| &bytes[j], |b| $T::from_le_bytes(b));
                same(t, &format!("{} from_be_bytes", $T::N), n, c, |j| &bytes[j], |b| $T::from_be_bytes(b));
            }
        });
    }};
}
macro_rules! unsigned {
    ($mc:expr, $T:ident, $p:ident, $nbytes:expr, $le:ident $be:ident $fle:ident $fbe:ident $Word:ident) => {{
        let mc = $mc;
        let all: Vec<$T> = prep(&if $T::B <= 16 { words($T::B, 16) } else { runs($T::B) });
        let (all, n) = (&all, all.len());
        mc.phase(&format!("bytes-{}", $T::N), 1, |_, t| {
            let c = |j: usize| format!("word {j} of {n}");
            let w = |j: usize| all[j];
            same(t, &format!("{} trait to_le_bytes", $T::N), n, c, w, |x| UnsignedSecretInteger::to_le_bytes(x));
            same(t, &format!("{} trait to_be_bytes", $T::N), n, c, w, |x| UnsignedSecretInteger::to_be_bytes(x));
            let s: Vec<ByteSeq> = (0..n).map(|j| bs(&all[j].0.to_le_bytes())).collect();
            same(t, &format!("{} trait from_le_bytes", $T::N), n, c, |j| &s[j], |x| <$T as UnsignedSecretInteger>::from_le_bytes(x));
            same(t, &format!("{} trait from_be_bytes", $T::N), n, c, |j| &s[j], |x| <$T as UnsignedSecretInteger>::from_be_bytes(x));
            for k in 0..$nbytes {
                same(t, &format!("{} get_byte {k}", $T::N), n, c, w, |x| UnsignedSecretInteger::get_byte(x, k));
            }
        });
        let d: Vec<u128> = if $T::B <= 8 { (0..256).collect() } else { small($T::B) };
        let d = &d;
        mc.bound(format!("{}: ct_div on {} pairs", $T::N, d.len() * (d.len() - 1)));
        mc.phase(&format!("div-{}", $T::N), d.len(), |k, t| {
            let a = $T(d[k] as $p);
            let m = d.len() - 1;
            same(t, &format!("{} ct_div", $T::N), m + 1, |j| if j == 0 { "1 / 1".into() } else { format!("{:#x} / {:#x}", d[k], d[j]) }, |j| if j == 0 { ($T(1), $T(1)) } else { (a, $T(d[j] as $p)) }, |(a, b)| ct_div(a, b));
        });
    }};
}
macro_rules! casts {
    ($mc:expr; $($a:ident => $($b:ident),+);+ $(;)?) => { $({
        let v: Vec<$a> = prep(&if $a::B <= 16 { words($a::B, 16) } else { runs($a::B) });
        let (v, n) = (&v, v.len());
        $mc.phase(&format!("casts-{}", $a::N), 1, |_, t| {
            $( same(t, &format!("{} -> {}", $a::N, $b::N), n, |j| format!("word {j} of {n}"), |j| v[j], |x| $b::from(x)); )+
        });
    })+ };
}

// variable-time examples that the recording has to tell apart
#[inline(never)]
fn bad_branch(x: U32) -> u32 { if x.declassify() > 1000 { 1 } else { 2 } }
#[inline(never)]
fn bad_table(x: U8) -> u8 { static T: [u8; 256] = [7; 256]; T[x.declassify() as usize] }
#[inline(never)]
fn bad_loop(x: U8) -> u32 { let mut x = x.declassify(); let mut n = 0; while x != 0 { x &= x - 1; n += 1; } n }
#[inline(never)]
fn bad_div(x: U32) -> u32 { 1000000 / (x.declassify() | 1) }
#[inline(never)]
fn bad_lazy(x: U8, y: U8) -> bool { x.declassify() != 0 && y.declassify() != 0 }
fn differ<R>(f: impl Fn(u32) -> R, a: u32, b: u32) -> bool {
    let p = |x| path(&|| f(black_box(x)));
    p(a);
    p(a) == p(a) && p(b) == p(b) && p(a) != p(b)
}

fn main() {
    let mc = Mc::new("C32");
    mc.selftest("a branch on a secret is seen", differ(|x| bad_branch(U32(x)), 5, 5000));
    mc.selftest("an index computed from a secret is seen", differ(|x| bad_table(U8(x as u8)), 5, 50));
    mc.selftest("a loop bounded by a secret is seen", differ(|x| bad_loop(U8(x as u8)), 5, 7));
    mc.selftest("a divisor computed from a secret is seen", differ(|x| bad_div(U32(x)), 5, 9));
    mc.selftest("a short-circuit on a secret is seen", differ(|x| bad_lazy(U8(x as u8), U8(1)), 0, 9));
    mc.selftest("the library is instrumented", {
        let s = |f: &dyn Fn()| path(&|| f()).0;
        s(&|| { black_box(U32(7).comp_gte(U32(9))); }) >= 5 && s(&|| { black_box(ct_div(U8(7), U8(9))); }) >= 100 && s(&|| { black_box(sha2::hash(&bs(&[1]))); }) >= 5000
    });
    let m = &mc;
    ops!(m, U8, u8, [unsigned]);
    ops!(m, U16, u16, [unsigned]);
    ops!(m, U32, u32, [unsigned]);
    ops!(m, U64, u64, [unsigned]);
    ops!(m, U128, u128, [unsigned]);
    ops!(m, I8, i8, []);
    ops!(m, I16, i16, []);
    ops!(m, I32, i32, []);
    ops!(m, I64, i64, []);
    ops!(m, I128, i128, []);
    unsigned!(m, U8, u8, 1, a b c d e);
    unsigned!(m, U16, u16, 2, a b c d e);
    unsigned!(m, U32, u32, 4, a b c d e);
    unsigned!(m, U64, u64, 8, a b c d e);
    unsigned!(m, U128, u128, 16, a b c d e);
    casts!(m;
        U8 => U16, U32, U64, U128, I8; U16 => U8, U32, U64, U128, I16; U32 => U8, U16, U64, U128, I32; U64 => U8, U16, U32, U128, I64; U128 => U8, U16, U32, U64, I128;
        I8 => I16, I32, I64, I128, U8; I16 => I8, I32, I64, I128, U16; I32 => I8, I16, I64, I128, U32; I64 => I8, I16, I32, I128, U64; I128 => I8, I16, I32, I64, U128);

    // free functions and containers of secret words: the path depends on lengths and positions alone
    macro_rules! words { ($T:ident, $($f:ident $g:ident),+) => {{
        let all: Vec<$T> = prep(&if $T::B <= 16 { words($T::B, 16) } else { runs($T::B) });
        mc.phase(concat!("functions-", stringify!($T)), 1, |_, t| {
            $(
            same(t, stringify!($f), all.len(), |j| format!("word {j}"), |j| all[j], |x| $f(x));
            same(t, stringify!($g), all.len(), |j| format!("word {j}"), |j| $f(all[j]), |x| $g(x));
            )+
        });
    }}; }
    words!(U16, U16_to_le_bytes U16_from_le_bytes, U16_to_be_bytes U16_from_be_bytes);
    words!(U32, U32_to_le_bytes U32_from_le_bytes, U32_to_be_bytes U32_from_be_bytes);
    words!(U64, U64_to_le_bytes U64_from_le_bytes, U64_to_be_bytes U64_from_be_bytes);
    words!(U128, U128_to_le_bytes U128_from_le_bytes, U128_to_be_bytes U128_from_be_bytes);
    macro_rules! elementwise { ($nm:expr, $A:ty, $t:expr, $n:expr, $x:expr, $y:expr) => {{
        let (x, y): (&Vec<$A>, &Vec<$A>) = (&$x, &$y);
        let c = |j: usize| format!("{} elements, contents {j}", $n);
        let arg = |j: usize| (x[j].clone(), y[j].clone());
        same($t, &format!("{} +", $nm), x.len(), c, arg, |(a, b)| a + b);
        same($t, &format!("{} -", $nm), x.len(), c, arg, |(a, b)| a - b);
        same($t, &format!("{} *", $nm), x.len(), c, arg, |(a, b)| a * b);
        same($t, &format!("{} ^", $nm), x.len(), c, arg, |(a, b)| a ^ b);
    }}; }
    mc.phase("arrays", 1, |_, t| {
        let mut d: Vec<Vec<u8>> = (0..256).map(|b| vec![b as u8; 48]).collect();
        for at in 0..48 { for b in 0..8 { let mut v = vec![0u8; 48]; v[at] = 1 << b; d.push(v); } }
        let a: Vec<Arr48> = d.iter().map(|x| Arr48::from_public_slice(x)).collect();
        let b: Vec<Arr48> = d.iter().rev().map(|x| Arr48::from_public_slice(x)).collect();
        elementwise!("bytes array", Arr48, t, 48, a, b);
        let c = |j: usize| format!("contents {j}");
        let n = a.len();
        same(t, "to_be_bytes", n, c, |j| &a[j], |x| x.to_be_bytes());
        same(t, "to_le_bytes", n, c, |j| &a[j], |x| x.to_le_bytes());
        same(t, "to_be_U32s", n, c, |j| &a[j], |x| x.to_be_U32s());
        same(t, "to_le_U32s", n, c, |j| &a[j], |x| x.to_le_U32s());
        same(t, "to_be_U64s", n, c, |j| &a[j], |x| x.to_be_U64s());
        same(t, "to_le_U64s", n, c, |j| &a[j], |x| x.to_le_U64s());
        same(t, "to_U128s_be", n, c, |j| &a[j], |x| x.to_U128s_be());
        same(t, "to_U128s_le", n, c, |j| &a[j], |x| x.to_U128s_le());
        let w: Vec<Wrd12> = a.iter().map(|x| Wrd12::from_seq(&x.to_le_U32s())).collect();
        let z: Vec<Wrd12> = b.iter().map(|x| Wrd12::from_seq(&x.to_le_U32s())).collect();
        elementwise!("U32 array", Wrd12, t, 12, w, z);
        same(t, "U32 array to_be_bytes", n, c, |j| &w[j], |x| x.to_be_bytes());
        same(t, "U32 array to_le_bytes", n, c, |j| &w[j], |x| x.to_le_bytes());
        same(t, "array copies", n, c, |j| (a[j], b[j]), |(x, y)| (Arr48::from_sub(&x, 3, 20), x.subr(7..16), x.update(8, &y.subr(0..30)), x.get_chunk(10, 4), x.set_chunk(10, 4, &y.subr(0..8)), Arr48::from_seq(&y)));
    });
    mc.phase("sequences", 41, |n, t| {
        let d: Vec<Vec<u8>> = (0..64).map(|p| if p < 8 { vec![[0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff][p]; n] } else { Stream(p as u64).bytes(n) }).collect();
        let a: Vec<ByteSeq> = d.iter().map(|x| bs(x)).collect();
        let b: Vec<ByteSeq> = d.iter().rev().map(|x| bs(x)).collect();
        let c = |j: usize| format!("{n} bytes, contents {j}");
        same(t, "sequence copies", a.len(), c, |j| (a[j].clone(), b[j].clone()), |(x, y)| {
            let m = x.len() / 2;
            let u = x.clone().update(m, &y.sub(0, x.len() - m));
            (x.sub(m, x.len() - m), u, x.num_chunks(7), x.get_chunk(7, 0), ByteSeq::from_seq(&x))
        });
    });

    // whole algorithms over secret bytes: the path depends on the lengths alone
    let pats = mc.q(12, 40);
    let data = |p: usize, n: usize| -> Vec<u8> {
        match p {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => vec![0x80; n],
            3 => vec![1; n],
            4 => (0..n).map(|i| i as u8).collect(),
            _ => { let mut s = Stream(p as u64); s.bytes(n) }
        }
    };
    let top = mc.q(150, 300);
    mc.bound(format!("algorithms: every length 0..={top} (sponge: 0..=180), {pats} contents each of key and data; ChaCha20 also every single key, nonce and counter bit"));
    mc.phase("sha256", top + 1, |n, t| {
        let d: Vec<ByteSeq> = (0..pats).map(|p| bs(&data(p, n))).collect();
        same(t, "sha256", pats, |j| format!("{n} bytes, contents {j}"), |j| &d[j], |d| sha2::hash(d));
    });
    mc.phase("hmac", 2 * (top + 1), |i, t| {
        let (kl, n) = if i % 2 == 0 { (i / 2, 20) } else { (20, i / 2) };
        let k: Vec<ByteSeq> = (0..pats).map(|p| bs(&data(pats - 1 - p, kl))).collect();
        let d: Vec<ByteSeq> = (0..pats).map(|p| bs(&data(p, n))).collect();
        same(t, "hmac", pats * 3, |j| format!("key of {kl} bytes, {n} bytes, contents {j}"), |j| (&k[(j + j / pats) % pats], &d[j % pats]), |(k, d)| hmac(k, d));
    });
    mc.phase("hkdf", 100, |i, t| {
        let (a, b) = (i % 10 * 9, i / 10 * 11);
        let k: Vec<ByteSeq> = (0..pats).map(|p| bs(&data(pats - 1 - p, a))).collect();
        let d: Vec<ByteSeq> = (0..pats).map(|p| bs(&data(p, b))).collect();
        same(t, "hkdf extract", pats, |j| format!("salt of {a} bytes, {b} bytes, contents {j}"), |j| (&k[j], &d[j]), |(k, d)| hkdf::extract(k, d));
        let prk: Vec<ByteSeq> = (0..pats).map(|p| bs(&data(p, 32))).collect();
        same(t, "hkdf expand", pats, |j| format!("info of {a} bytes, {b} bytes, contents {j}"), |j| (&prk[j], &k[j]), |(k, d)| hkdf::expand(k, d, b));
    });
    mc.phase("sha3", 181, |n, t| {
        let d: Vec<ByteSeq> = (0..pats).map(|p| bs(&data(p, n))).collect();
        let c = |j: usize| format!("{n} bytes, contents {j}");
        same(t, "sha3-224", pats, c, |j| &d[j], |d| sha3::sha3224(d));
        same(t, "sha3-256", pats, c, |j| &d[j], |d| sha3::sha3256(d));
        same(t, "sha3-384", pats, c, |j| &d[j], |d| sha3::sha3384(d));
        same(t, "sha3-512", pats, c, |j| &d[j], |d| sha3::sha3512(d));
        same(t, "shake128", pats, c, |j| &d[j], |d| sha3::shake128(d, n));
        same(t, "shake256", pats, c, |j| &d[j], |d| sha3::shake256(d, n + 60));
    });
    mc.phase("blake2b", top + 1, |n, t| {
        let d: Vec<ByteSeq> = (0..pats).map(|p| bs(&data(p, n))).collect();
        same(t, "blake2b", pats, |j| format!("{n} bytes, contents {j}"), |j| &d[j], |d| blake2b::blake2b(d));
    });
    let key = |b: &[u8]| chacha20::Key::from_public_slice(b);
    let iv = |b: &[u8]| chacha20::IV::from_public_slice(b);
    mc.phase("chacha20", top + 1, |n, t| {
        let d: Vec<ByteSeq> = (0..pats).map(|p| bs(&data(p, n))).collect();
        let k: Vec<_> = (0..pats).map(|p| key(&data(pats - 1 - p, 32))).collect();
        let v: Vec<_> = (0..pats).map(|p| iv(&data((p + 3) % pats, 12))).collect();
        same(t, "chacha20", pats * 3, |j| format!("{n} bytes, contents {j}"), |j| (k[(j + j / pats) % pats], v[j % pats], &d[j % pats]), |(k, v, d)| chacha20::chacha(k, v, d).is_ok());
    });
    mc.phase("chacha20-block", 1, |_, t| {
        let bit = |j: usize, at: usize, n: usize| { let mut b = vec![0u8; n]; if j >= at && j < at + 8 * n { b[(j - at) / 8] = 1 << ((j - at) % 8); } b };
        let x: Vec<_> = (0..=384).map(|j| (key(&bit(j, 0, 32)), U32(if (256..288).contains(&j) { 1 << (j - 256) } else { 0 }), iv(&bit(j, 288, 12)))).collect();
        same(t, "chacha20 block", 385, |j| format!("bit {j} of key, counter, nonce"), |j| x[384 - j], |(k, c, v)| chacha20::block(k, c, v));
        same(t, "chacha20 quarter round", 385, |j| format!("bit {j} of key, counter, nonce"), |j| x[384 - j], |(k, c, v)| chacha20::quarter_round(0, 5, 10, 15, chacha20::block_init(k, c, v)));
    });
    mc.finish()
}

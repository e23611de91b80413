//! C05: integer <-> byte-string conversions.
use hacspec::prelude::*;
use mc::*;

bytes!(S16, 16);
bytes!(S32, 32);
bytes!(S48, 48);
bytes!(S6, 6);
bytes!(S20, 20);
public_bytes!(P16, 16);
public_bytes!(P32, 32);
public_bytes!(P48, 48);
public_bytes!(P6, 6);
public_bytes!(P20, 20);
array!(A8, 3, U8);
array!(A16, 3, U16);
array!(A32, 3, U32);
array!(A64, 3, U64);
array!(A128, 2, U128);

fn val(b: &[u8], be: bool) -> u128 {
    let mut r = 0u128;
    for i in 0..b.len() {
        r = r * 256 * (i > 0) as u128 + if be { b[i] } else { b[b.len() - 1 - i] } as u128;
    }
    r
}
fn sb(b: &[u8]) -> Vec<U8> {
    b.iter().map(|x| U8(*x)).collect()
}
fn un(v: &[U8]) -> Vec<u8> {
    v.iter().map(|x| x.0).collect()
}
/// byte strings of length n: every single byte value at every position over three backgrounds, all
/// content patterns, and everything for n <= 2
fn strings(n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    if n == 0 {
        return vec![vec![]];
    }
    if n <= 2 {
        for x in 0..1usize << (8 * n) {
            v.push((0..n).map(|i| (x >> (8 * i)) as u8).collect());
        }
        return v;
    }
    for bg in [0usize, 1, 2] {
        for i in 0..n {
            for x in 0..=255u8 {
                let mut s = pattern(bg, n);
                s[i] = x;
                v.push(s);
            }
        }
    }
    for p in 0..PATTERNS {
        v.push(pattern(p, n));
    }
    v
}
const CH: usize = 64;

macro_rules! slices {
    ($mc:expr, $($S:ident $r:ident $u:ident $w:expr),+) => {$({
        let nm = stringify!($S);
        for k in 0..=$mc.q(3usize, 8) {
            let n = k * $w;
            let v = strings(n);
            $mc.phase(&format!("slices-{nm}-{k}"), (v.len() + CH - 1) / CH, |i, t| {
                for b in &v[i * CH..(i * CH + CH).min(v.len())] {
                    for be in [false, true] {
                        let words: Vec<u128> = b.chunks($w).map(|c| val(c, be)).collect();
                        let e = if be { "be" } else { "le" };
                        t.eq(&format!("{nm}::from_{e}_bytes"), || hxs(b), words.clone(), || {
                            let r = if be { $S::from_be_bytes(&sb(b)) } else { $S::from_le_bytes(&sb(b)) };
                            r.iter().map(|x| x.0 as $u as u128).collect::<Vec<_>>()
                        });
                        let ws: Vec<$S> = words.iter().map(|x| $S(*x as $u as $r)).collect();
                        t.eq(&format!("{nm}::to_{e}_bytes"), || hxs(b), b.clone(), || un(&if be { $S::to_be_bytes(&ws) } else { $S::to_le_bytes(&ws) }));
                    }
                }
            });
        }
        let long: Vec<usize> = (4..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097]).chain($mc.q(vec![16385usize], vec![16383, 16384, 16385, 65535, 65536, 65537])).collect();
        $mc.phase(&format!("slices-{nm}-long"), long.len(), |i, t| {
            for p in 0..PATTERNS {
                let b = pattern(p, long[i] * $w);
                for be in [false, true] {
                    let words: Vec<u128> = b.chunks($w).map(|c| val(c, be)).collect();
                    let e = if be { "be" } else { "le" };
                    t.eq(&format!("{nm}::from_{e}_bytes long"), || format!("{} words, pattern {p}", long[i]), words.clone(), || {
                        let r = if be { $S::from_be_bytes(&sb(&b)) } else { $S::from_le_bytes(&sb(&b)) };
                        r.iter().map(|x| x.0 as $u as u128).collect::<Vec<_>>()
                    });
                    let ws: Vec<$S> = words.iter().map(|x| $S(*x as $u as $r)).collect();
                    t.eq(&format!("{nm}::to_{e}_bytes long"), || format!("{} words, pattern {p}", long[i]), b.clone(), || un(&if be { $S::to_be_bytes(&ws) } else { $S::to_le_bytes(&ws) }));
                }
            }
        });
        $mc.phase(&format!("slices-{nm}-ragged"), 4 * $w + 1, |n, t| {
            if n % $w != 0 {
                for p in 0..PATTERNS {
                    let b = sb(&pattern(p, n));
                    t.refuses(&format!("{nm}::from_le_bytes ragged"), || format!("{n} bytes"), || $S::from_le_bytes(&b).len());
                    t.refuses(&format!("{nm}::from_be_bytes ragged"), || format!("{n} bytes"), || $S::from_be_bytes(&b).len());
                }
            }
        });
    })+};
}
macro_rules! single {
    ($mc:expr, $($S:ident $u:ident $w:expr),+) => {$({
        let nm = stringify!($S);
        let v = strings($w);
        $mc.phase(&format!("trait-{nm}"), (v.len() + CH - 1) / CH, |i, t| {
            for b in &v[i * CH..(i * CH + CH).min(v.len())] {
                let (le, be) = (val(b, false), val(b, true));
                let s = conv::bs(b);
                let p = Seq::<u8>::from_slice(b);
                t.eq(&format!("{nm} trait from_le_bytes"), || hxs(b), le, || <$S as UnsignedSecretInteger>::from_le_bytes(&s).0 as u128);
                t.eq(&format!("{nm} trait from_be_bytes"), || hxs(b), be, || <$S as UnsignedSecretInteger>::from_be_bytes(&s).0 as u128);
                t.eq(&format!("{nm} trait to_le_bytes"), || hxs(b), b.clone(), || conv::vb(&<$S as UnsignedSecretInteger>::to_le_bytes($S(le as $u))));
                t.eq(&format!("{nm} trait to_be_bytes"), || hxs(b), b.clone(), || conv::vb(&<$S as UnsignedSecretInteger>::to_be_bytes($S(be as $u))));
                let pn = stringify!($u);
                t.eq(&format!("{pn} trait from_le_bytes"), || hxs(b), le, || <$u as UnsignedPublicInteger>::from_le_bytes(&p) as u128);
                t.eq(&format!("{pn} trait from_be_bytes"), || hxs(b), be, || <$u as UnsignedPublicInteger>::from_be_bytes(&p) as u128);
                t.eq(&format!("{pn} trait to_le_bytes"), || hxs(b), b.clone(), || UnsignedPublicInteger::to_le_bytes(le as $u).iter().copied().collect());
                t.eq(&format!("{pn} trait to_be_bytes"), || hxs(b), b.clone(), || UnsignedPublicInteger::to_be_bytes(be as $u).iter().copied().collect());
                t.row(&format!("{nm} get_byte"), $w, |k| format!("{} byte {k}", hxs(b)), |k| {
                    let (w, g) = (b[k] as u128, UnsignedSecretInteger::get_byte($S(le as $u), k as u32).0 as u128);
                    if w == g { None } else { Some((w.to_string(), g.to_string())) }
                });
            }
        });
        $mc.phase(&format!("trait-{nm}-length"), 40, |n, t| {
            if n != $w {
                let b = pattern(0, n);
                t.refuses(&format!("{nm} trait from_le_bytes wrong length"), || format!("{n} bytes"), || <$S as UnsignedSecretInteger>::from_le_bytes(&conv::bs(&b)).0);
                t.refuses(&format!("{nm} trait from_be_bytes wrong length"), || format!("{n} bytes"), || <$S as UnsignedSecretInteger>::from_be_bytes(&conv::bs(&b)).0);
                t.refuses(&format!("{nm} public from_le_bytes wrong length"), || format!("{n} bytes"), || <$u as UnsignedPublicInteger>::from_le_bytes(&Seq::<u8>::from_slice(&b)));
                t.refuses(&format!("{nm} public from_be_bytes wrong length"), || format!("{n} bytes"), || <$u as UnsignedPublicInteger>::from_be_bytes(&Seq::<u8>::from_slice(&b)));
            }
        });
    })+};
}
macro_rules! free {
    ($mc:expr, $(($S:ident $u:ident $W:ident $w:ident $n:expr, $tl:ident $tb:ident $fl:ident $fb:ident, $ptl:ident $ptb:ident $pfl:ident $pfb:ident)),+) => {$({
        let nm = stringify!($S);
        let v = strings($n);
        $mc.phase(&format!("free-{nm}"), (v.len() + CH - 1) / CH, |i, t| {
            for b in &v[i * CH..(i * CH + CH).min(v.len())] {
                let (le, be) = (val(b, false), val(b, true));
                let (s, p) = ($W::from_public_slice(b), $w::from_slice(b));
                t.eq(stringify!($fl), || hxs(b), le, || $fl(s).0 as u128);
                t.eq(stringify!($fb), || hxs(b), be, || $fb(s).0 as u128);
                t.eq(stringify!($tl), || hxs(b), b.clone(), || conv::vb(&$tl($S(le as $u))));
                t.eq(stringify!($tb), || hxs(b), b.clone(), || conv::vb(&$tb($S(be as $u))));
                t.eq(stringify!($pfl), || hxs(b), le, || $pfl(p) as u128);
                t.eq(stringify!($pfb), || hxs(b), be, || $pfb(p) as u128);
                t.eq(stringify!($ptl), || hxs(b), b.clone(), || $ptl(le as $u).iter().copied().collect());
                t.eq(stringify!($ptb), || hxs(b), b.clone(), || $ptb(be as $u).iter().copied().collect());
            }
        });
    })+};
}
macro_rules! arrays {
    ($mc:expr, $($A:ident $S:ident $u:ident $w:expr, $l:expr);+) => {$({
        let nm = stringify!($A);
        let v = strings($w * $l);
        $mc.phase(&format!("array-bytes-{}", stringify!($S)), (v.len() + CH - 1) / CH, |i, t| {
            for b in &v[i * CH..(i * CH + CH).min(v.len())] {
                let mk = |be: bool| {
                    let ws: Vec<$u> = b.chunks($w).map(|c| val(c, be) as $u).collect();
                    $A::from_public_slice(&ws)
                };
                t.eq(&format!("{nm} to_be_bytes"), || hxs(b), b.clone(), || conv::vb(&mk(true).to_be_bytes()));
                t.eq(&format!("{nm} to_le_bytes"), || hxs(b), b.clone(), || conv::vb(&mk(false).to_le_bytes()));
            }
        });
    })+};
}
macro_rules! words {
    ($mc:expr, $($A:ident $P:ident $n:expr),+) => {$({
        let v = strings($n);
        let nm = format!("{}-byte array", $n);
        $mc.phase(&format!("array-words-{}", $n), (v.len() + CH - 1) / CH, |i, t| {
            for b in &v[i * CH..(i * CH + CH).min(v.len())] {
                let (s, p) = ($A::from_public_slice(b), $P::from_slice(b));
                let w = |k: usize, be: bool| -> Option<Vec<u128>> { if $n % k == 0 { Some(b.chunks(k).map(|c| val(c, be)).collect()) } else { None } };
                macro_rules! go { ($m:ident, $pm:ident, $k:expr, $be:expr) => {
                    t.opt(&format!("{nm} {}", stringify!($m)), || hxs(b), w($k, $be), || s.$m().iter().map(|x| x.0 as u128).collect::<Vec<_>>());
                    t.opt(&format!("{nm} {}", stringify!($pm)), || hxs(b), w($k, $be), || p.$pm().iter().map(|x| *x as u128).collect::<Vec<_>>());
                }; }
                go!(to_be_U32s, to_be_u32s, 4, true);
                go!(to_le_U32s, to_le_u32s, 4, false);
                go!(to_be_U64s, to_be_u64s, 8, true);
                go!(to_le_U64s, to_le_u64s, 8, false);
                go!(to_U128s_be, to_u128s_be, 16, true);
                go!(to_U128s_le, to_u128s_le, 16, false);
            }
        });
    })+};
}

fn main() {
    let mc = Mc::new("C05");
    mc.selftest("value", val(&[1, 2, 3], true) == 0x010203 && val(&[1, 2, 3], false) == 0x030201 && val(&[9], true) == 9);
    mc.bound("every byte value at every position over three backgrounds and all content patterns; all 1- and 2-byte strings; every wrong length up to 4 words; all content patterns of up to 16385 words");
    slices!(mc, U8 u8 u8 1, I8 i8 u8 1, U16 u16 u16 2, I16 i16 u16 2, U32 u32 u32 4, I32 i32 u32 4, U64 u64 u64 8, I64 i64 u64 8, U128 u128 u128 16, I128 i128 u128 16);
    single!(mc, U8 u8 1, U16 u16 2, U32 u32 4, U64 u64 8, U128 u128 16);
    free!(mc,
        (U16 u16 U16Word u16Word 2, U16_to_le_bytes U16_to_be_bytes U16_from_le_bytes U16_from_be_bytes, u16_to_le_bytes u16_to_be_bytes u16_from_le_bytes u16_from_be_bytes),
        (U32 u32 U32Word u32Word 4, U32_to_le_bytes U32_to_be_bytes U32_from_le_bytes U32_from_be_bytes, u32_to_le_bytes u32_to_be_bytes u32_from_le_bytes u32_from_be_bytes),
        (U64 u64 U64Word u64Word 8, U64_to_le_bytes U64_to_be_bytes U64_from_le_bytes U64_from_be_bytes, u64_to_le_bytes u64_to_be_bytes u64_from_le_bytes u64_from_be_bytes),
        (U128 u128 U128Word u128Word 16, U128_to_le_bytes U128_to_be_bytes U128_from_le_bytes U128_from_be_bytes, u128_to_le_bytes u128_to_be_bytes u128_from_le_bytes u128_from_be_bytes));
    arrays!(mc, A8 U8 u8 1, 3; A16 U16 u16 2, 3; A32 U32 u32 4, 3; A64 U64 u64 8, 3; A128 U128 u128 16, 2);
    words!(mc, S16 P16 16, S32 P32 32, S48 P48 48, S6 P6 6, S20 P20 20);
    mc.finish()
}

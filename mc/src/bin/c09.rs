//! C09: fixed-length arrays behave as vectors whose length never changes.
use hacspec::prelude::*;
use mc::ops::*;
use mc::*;

array!(A3U8, 3, U8);
array!(A3U32, 3, U32);
array!(A3U16, 3, U16);
array!(A3u8, 3, u8);
array!(A3u64, 3, u64);
array!(A3i32, 3, i32);

bytes!(B1, 1);
bytes!(B5, 5);
bytes!(B8, 8);
public_bytes!(P1, 1);
public_bytes!(P4, 4);
public_bytes!(P7, 7);
array!(W6, 6, U32);
array!(W2, 2, U16);
array!(Q5, 5, u64);
array!(I6, 6, i32);
generic_array!(G5, 5);
generic_array!(G6, 6);
both_bytes!(BP6, BS6, 6);
both_arrays!(BQ3, BT3, 3, U32, u32);
bytes!(B64, 64);
array!(W40, 40, U32);
public_bytes!(P100, 100);

macro_rules! cont {
    ($N:ident, $C:ty, $l:expr, $T:ty, $A3:ident, $w:expr, $r:expr) => {
        #[derive(Clone)]
        struct $N($C);
        impl Cont for $N {
            fn mk(v: &[u64]) -> Self {
                let v: Vec<$T> = v.iter().map(|x| $w(*x)).collect();
                let mut a = [<$T>::default(); $l];
                a.copy_from_slice(&v);
                $N(<$C>::from_array(a))
            }
            fn vals(&self) -> Vec<u64> {
                let s = &self.0;
                let a: Vec<u64> = s.iter().map(|x| $r(*x)).collect();
                let n = s.len();
                assert!(a.len() == n && <$C as SeqTrait<$T>>::len(s) == n && <$C>::capacity() == n && s[..].len() == n && n == $l, "len(), capacity(), iter() and the slice view disagree");
                a
            }
            #[allow(unused_mut)]
            fn run(self, op: &Op) -> (Self, Obs) {
                let mut s = self.0;
                let no = (0usize, vec![]);
                let vec_of = |n: usize| -> Vec<$T> { Arg::Seq(n).vals().iter().map(|x| $w(*x)).collect() };
                let look = |s: &Seq<$T>| -> Vec<u64> { s.iter().map(|x| $r(*x)).collect() };
                macro_rules! arg { ($a:expr, $x:ident, $e:expr) => { match $a {
                    Arg::Seq(n) => { let $x = Seq::<$T>::from_vec(vec_of(n)); $e }
                    Arg::Own(n) => { let $x = <$C>::from_vec(vec_of(n)); $e }
                    Arg::Arr3 => { let $x = $A3::from_vec(vec_of(3)); $e }
                } } }
                match *op {
                    Op::Get(..) | Op::Set(..) => {
                        let o: Option<u64> = index_ops!(s, op, $w, $r);
                        ($N(s), (0, o.into_iter().collect()))
                    }
                    Op::UpdateSub(so, a, si, l) => arg!(a, x, ($N(s.update_sub(so, &x, si, l)), no)),
                    Op::Update(so, a) => arg!(a, x, ($N(s.update(so, &x)), no)),
                    Op::UpdateStart(a) => arg!(a, x, ($N(s.update_start(&x)), no)),
                    Op::Sub(a, l) => { let q = <$C>::sub(&s, a, l); let o = (q.len(), look(&q)); ($N(s), o) }
                    Op::Subr(a, b) => { let q = s.subr(a..b); let o = (q.len(), look(&q)); ($N(s), o) }
                    Op::FromSub(a, st, l) => arg!(a, x, ($N(<$C>::from_sub(&x, st, l)), no)),
                    Op::FromSubRange(a, st, e) => arg!(a, x, ($N(<$C>::from_sub_range(&x, st..e)), no)),
                    Op::NumChunks(c) => { let k = s.num_chunks(c); ($N(s), (k, vec![])) }
                    Op::GetChunk(c, k) => { let (l, q) = s.get_chunk(c, k); let o = (l, look(&q)); ($N(s), o) }
                    Op::SetChunk(c, k, a) => arg!(a, x, ($N(s.set_chunk(c, k, &x)), no)),
                    Op::ChunkLen(c, k) => { let l = s.get_chunk_len(c, k); ($N(s), (l, vec![])) }
                    Op::Range(a, b) => { let o = s[..][a..b].iter().map(|x| $r(*x)).collect(); ($N(s), (0, o)) }
                    Op::FromVec(n) => ($N(<$C>::from_vec(vec_of(n))), no),
                    Op::FromSlice(n) => ($N(<$C>::from_slice(&vec_of(n))), no),
                    Op::FromSeq(a) => arg!(a, x, ($N(<$C>::from_seq(&x)), no)),
                    Op::New(_) => ($N(<$C>::new()), no),
                    Op::Create(n) => ($N(<$C as SeqTrait<$T>>::create(n)), no),
                    Op::Default => ($N(<$C>::default()), no),
                    Op::CloneThenWrite(i, v) => { let k = s; s[i] = $w(v); let o = s.iter().map(|x| $r(*x)).collect(); ($N(k), (0, o)) }
                }
            }
        }
    };
}
macro_rules! cu8 { ($($N:ident $C:ty, $l:expr);+) => {$( cont!($N, $C, $l, U8, A3U8, |x: u64| U8(x as u8), |x: U8| x.0 as u64); )+} }
macro_rules! pu8 { ($($N:ident $C:ty, $l:expr);+) => {$( cont!($N, $C, $l, u8, A3u8, |x: u64| x as u8, |x: u8| x as u64); )+} }
cu8!(C1 B1, 1; C5 B5, 5; C8 B8, 8; CS6 BS6, 6; C64 B64, 64; CA3 A3U8, 3);
pu8!(D1 P1, 1; D4 P4, 4; D7 P7, 7; DP6 BP6, 6; D100 P100, 100);
cont!(E6, W6, 6, U32, A3U32, |x: u64| U32(x as u32 * 0x01010101), |x: U32| if x.0 % 0x01010101 == 0 { x.0 as u64 / 0x01010101 } else { u64::MAX });
cont!(E40, W40, 40, U32, A3U32, |x: u64| U32(x as u32 * 0x01010101), |x: U32| if x.0 % 0x01010101 == 0 { x.0 as u64 / 0x01010101 } else { u64::MAX });
cont!(F2, W2, 2, U16, A3U16, |x: u64| U16(x as u16 * 0x0101), |x: U16| if x.0 % 0x0101 == 0 { x.0 as u64 / 0x0101 } else { u64::MAX });
cont!(H5, Q5, 5, u64, A3u64, |x: u64| x << 40, |x: u64| if x << 24 == 0 { x >> 40 } else { u64::MAX });
cont!(J6, I6, 6, i32, A3i32, |x: u64| -(x as i32) * 0x10001, |x: i32| (-(x as i64) as u64) / 0x10001);
cont!(G5w, G5<u64>, 5, u64, A3u64, |x: u64| x << 40, |x: u64| if x << 24 == 0 { x >> 40 } else { u64::MAX });
cont!(G6s, G6<U32>, 6, U32, A3U32, |x: u64| U32(x as u32 * 0x01010101), |x: U32| if x.0 % 0x01010101 == 0 { x.0 as u64 / 0x01010101 } else { u64::MAX });

fn hist_ops(n: usize) -> Vec<Op> {
    use Arg::*;
    vec![
        Op::Set(Ix::Usize, 0, 7), Op::Set(Ix::U8, 2, 8), Op::Set(Ix::I32, 4, 9), Op::Set(Ix::U32, 1, 6), Op::Get(Ix::Usize, 3),
        Op::UpdateSub(1, Seq(3), 1, 2), Op::UpdateSub(1, Own(n), 0, 2), Op::Update(2, Arr3), Op::UpdateStart(Seq(2)), Op::UpdateStart(Own(n)),
        Op::Sub(1, 3), Op::Subr(1, 4), Op::GetChunk(2, 1), Op::GetChunk(3, 1), Op::SetChunk(2, 0, Seq(2)), Op::SetChunk(3, 1, Seq(n.saturating_sub(3).min(3))),
        Op::SetChunk(4, 1, Seq(n.saturating_sub(4).min(4))), Op::NumChunks(2), Op::Default, Op::FromSeq(Seq(n)), Op::FromSlice(2), Op::CloneThenWrite(1, 5), Op::ChunkLen(4, 1),
    ]
}
fn go<C: Cont>(mc: &Mc, nm: &str, n: usize) {
    mc.bound(format!("{nm}: every operation with every parameter up to two past the end, two contents"));
    let vs: Vec<Vec<u64>> = vec![(1..=n as u64).collect(), (0..n as u64).map(|k| (k * 5 + 3) % 4).collect()];
    let ops = all_ops(n, &|l| l == n, n + 2, true);
    let ch = 2000;
    mc.phase(&format!("ops-{nm}"), (ops.len() + ch - 1) / ch * 2, |i, t| {
        for op in &ops[i / 2 * ch..(i / 2 * ch + ch).min(ops.len())] {
            judge(t, nm, true, C::mk(&vs[i % 2]), &|| String::new(), op);
        }
    });
    let ops = hist_ops(n);
    let d = mc.q(4usize, 5);
    let k = ops.len();
    mc.bound(format!("{nm}: every history of {d} operations out of {k}, on one live object"));
    mc.phase(&format!("histories-{nm}"), k * k, |i, t| {
        for r in 0..k.pow(d as u32 - 2) {
            let mut c = C::mk(&vs[0]);
            let mut at = i + r * k * k;
            let mut path: Vec<usize> = vec![];
            for _ in 0..d {
                let o = at % k;
                at /= k;
                let h = path.clone();
                path.push(o);
                c = judge(t, nm, true, c, &|| format!(" after {:?}", h.iter().map(|x| ops[*x]).collect::<Vec<_>>()), &ops[o]);
            }
        }
    });
}
/// long arrays: bounded operation set (all positions and lengths of the chunk and sub operations)
fn long<C: Cont>(mc: &Mc, nm: &str, n: usize) {
    mc.bound(format!("{nm}: every sub-range, chunk size and chunk number, every index through all index types"));
    mc.phase(&format!("long-{nm}"), n + 2, |x, t| {
        let v: Vec<u64> = (0..n as u64).map(|k| k % 199 + 1).collect();
        let s = C::mk(&v);
        let none = || String::new();
        for y in 0..=n + 2 {
            for op in [Op::Sub(x, y), Op::Subr(x, y), Op::Range(x, y), Op::GetChunk(y, x), Op::ChunkLen(y, x), Op::UpdateSub(x, Arg::Own(n), n - y.min(n), y), Op::UpdateSub(x, Arg::Seq(n), 0, y), Op::Update(x, Arg::Seq(y)), Op::UpdateSub(0, Arg::Seq(n + 3), x, y), Op::FromSub(Arg::Seq(n + 4), x, y)] {
                judge(t, nm, true, s.clone(), &none, &op);
            }
            let st = x * y;
            if y > 0 && st < n {
                let l = y.min(n - st);
                for a in [l.saturating_sub(1), l, l + 1] {
                    judge(t, nm, true, s.clone(), &none, &Op::SetChunk(y, x, Arg::Seq(a)));
                }
            }
        }
        for ix in IXS {
            judge(t, nm, true, s.clone(), &none, &Op::Get(ix, x as i64));
            judge(t, nm, true, s.clone(), &none, &Op::Set(ix, x as i64, 9));
        }
        judge(t, nm, true, s.clone(), &none, &Op::NumChunks(x));
        judge(t, nm, true, s.clone(), &none, &Op::FromSlice(x));
        judge(t, nm, true, s.clone(), &none, &Op::FromSeq(Arg::Seq(x)));
        judge(t, nm, true, s, &none, &Op::FromVec(x));
    });
}
fn strings(n: usize) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = (0..PATTERNS).map(|p| pattern(p, n).iter().map(|x| *x as u64).collect()).collect();
    for b in [0u64, 255] {
        for i in 0..n {
            for k in 0..8 {
                let mut x = vec![b; n];
                x[i] ^= 1 << k;
                v.push(x);
            }
        }
    }
    v
}
macro_rules! eqs {
    ($mc:expr, $($nm:expr, $C:ident, $n:expr, $w:expr, $m:ident);+) => {$({
        let v = strings($n);
        $mc.phase(concat!("equality-", $nm), v.len(), |i, t| {
            let mk = |v: &[u64]| { let mut a = $C::new(); for (k, x) in v.iter().enumerate() { a[k] = $w(*x); } a };
            for b in &v {
                t.eq(concat!($nm, " ", stringify!($m)), || format!("{:?} {:?}", v[i], b), v[i] == *b, || mk(&v[i]).$m(&mk(b)));
            }
        });
    })+};
}
fn main() {
    let mc = Mc::new("C09");
    mc.assume("from_slice zero-extends a shorter slice, as the constructor documents by accepting one; a longer one is refused");
    go::<C1>(&mc, "bytes 1", 1);
    go::<CA3>(&mc, "bytes 3", 3);
    go::<C5>(&mc, "bytes 5", 5);
    go::<C8>(&mc, "bytes 8", 8);
    go::<CS6>(&mc, "both_bytes secret 6", 6);
    go::<D1>(&mc, "public_bytes 1", 1);
    go::<D4>(&mc, "public_bytes 4", 4);
    go::<D7>(&mc, "public_bytes 7", 7);
    go::<DP6>(&mc, "both_bytes public 6", 6);
    go::<E6>(&mc, "U32 array 6", 6);
    go::<F2>(&mc, "U16 array 2", 2);
    go::<H5>(&mc, "u64 array 5", 5);
    go::<J6>(&mc, "i32 array 6", 6);
    go::<G5w>(&mc, "generic u64 array 5", 5);
    go::<G6s>(&mc, "generic U32 array 6", 6);
    long::<C64>(&mc, "bytes 64", 64);
    long::<D100>(&mc, "public_bytes 100", 100);
    long::<E40>(&mc, "U32 array 40", 40);
    mc.bound("array equality on every pair of: 8 contents and every single-bit difference from all-zero and all-one");
    eqs!(mc, "bytes 5", B5, 5, |x: u64| U8(x as u8), declassify_eq; "U32 array 6", W6, 6, |x: u64| U32((x as u32) << 24 | 5), declassify_eq; "public_bytes 7", P7, 7, |x: u64| x as u8, eq;
        "u64 array 5", Q5, 5, |x: u64| x << 56 | 3, eq; "i32 array 6", I6, 6, |x: u64| (x << 24) as i32, eq; "both_bytes public 6", BP6, 6, |x: u64| x as u8, eq; "both_arrays secret 3", BT3, 3, |x: u64| U32(x as u32), declassify_eq);
    // classification of whole arrays keeps every element
    let v6 = strings(6);
    mc.bound("whole-array classify / declassify: the same contents");
    mc.phase("classify", v6.len(), |i, t| {
        let b: Vec<u8> = v6[i].iter().map(|x| *x as u8).collect();
        let c = || hx(&b);
        let mut a6 = [0u8; 6];
        a6.copy_from_slice(&b);
        t.eq("from_public_slice", c, b.clone(), || conv::vb(&BS6::from_public_slice(&b)));
        t.eq("from_public_array", c, b.clone(), || conv::vb(&BS6::from_public_array(a6)));
        t.eq("from_public", c, b.clone(), || conv::vb(&BS6::from_public(BP6::from_slice(&b))));
        t.eq("from_secret_declassify", c, b.clone(), || BP6::from_secret_declassify(BS6::from_public_slice(&b)).iter().copied().collect());
        t.eq("Seq::from_public_slice", c, b.clone(), || conv::vb(&Seq::<U8>::from_public_slice(&b)));
        let w: Vec<u32> = (0..3).map(|k| (b[2 * k] as u32) << 24 | b[2 * k + 1] as u32).collect();
        t.eq("from_public (u32)", c, w.clone(), || BT3::from_public(BQ3::from_slice(&w)).iter().map(|x| x.0).collect());
        t.eq("from_secret_declassify (u32)", c, w.clone(), || BQ3::from_secret_declassify(BT3::from_public_slice(&w)).iter().copied().collect());
        for l in (0..6).chain(7..10) {
            t.refuses("from_public_slice of another length", || format!("{l}"), || BS6::from_public_slice(&vec![1; l]));
        }
    });
    // literals and the comparison macros the specifications write their test vectors with
    mc.bound("secret_array! / secret_bytes! literals: every byte at each of 5 positions, 32-bit words with each single bit; assert_bytes_eq! / assert_secret_array_eq! on every pair of the contents above and on every pair of lengths 0..=9");
    mc.phase("macros", 256, |i, t| {
        let x = i as u8;
        for p in 0..5 {
            let mut w = [11u8, 22, 33, 44, 55];
            w[p] = x;
            let [a, b, c, d, e] = w;
            t.eq("secret_bytes!", || hx(&w), w.to_vec(), || { let q = secret_bytes!([a, b, c, d, e]); q.iter().map(|y| y.0).collect() });
            t.eq("array of secret_bytes!", || hx(&w), w.to_vec(), || conv::vb(&B5(secret_bytes!([a, b, c, d, e]))));
        }
        t.eq("secret_bytes! of one", || format!("{x}"), vec![x], || { let q = secret_bytes!([x]); q.iter().map(|y| y.0).collect() });
        let v: Vec<u32> = (0..4).map(|k| if i < 32 { 1u32 << i } else { i as u32 * 0x0101_0101 }.wrapping_add(k * 0x1111)).collect();
        let (a, b, c, d) = (v[0], v[1], v[2], v[3]);
        t.eq("secret_array!(U32)", || format!("{v:x?}"), v.clone(), || { let q = secret_array!(U32, [a, b, c, d]); q.iter().map(|y| y.0).collect() });
        let l: Vec<u64> = v.iter().map(|y| (*y as u64) << 32 | i as u64).collect();
        t.eq("secret_array!(U64)", || format!("{l:x?}"), l.clone(), || { let q = secret_array!(U64, [l[0], l[1], l[2], l[3]]); q.iter().map(|y| y.0).collect() });
    });
    let s5 = strings(5);
    mc.phase("assertions", s5.len() + 100, |i, t| {
        let bytes = |v: &[u64]| Seq::<U8>::from_vec(v.iter().map(|x| U8(*x as u8)).collect());
        let words = |v: &[u64]| Seq::<U32>::from_vec(v.iter().map(|x| U32((*x as u32) << 24 | 7)).collect());
        let arr = |v: &[u64]| { let mut a = B5::new(); for (k, x) in v.iter().enumerate() { a[k] = U8(*x as u8); } a };
        let longs = |n: usize| -> Vec<u64> { (1..=n as u64).collect() };
        let cases: Vec<(Vec<u64>, Vec<u64>)> = if i < s5.len() { s5.iter().map(|b| (s5[i].clone(), b.clone())).collect() } else { let k = i - s5.len(); vec![(longs(k / 10), longs(k % 10))] };
        for (a, b) in &cases {
            let d = || format!("{a:?} {b:?}");
            if a == b {
                t.eq("assert_bytes_eq! of equal strings", d, 1, || { assert_bytes_eq!(bytes(a), bytes(b)); 1 });
                t.eq("assert_secret_array_eq! of equal strings", d, 1, || { assert_secret_array_eq!(words(a), words(b), U32); 1 });
            } else {
                t.refuses("assert_bytes_eq! of different strings", d, || { assert_bytes_eq!(bytes(a), bytes(b)); });
                t.refuses("assert_secret_array_eq! of different strings", d, || { assert_secret_array_eq!(words(a), words(b), U32); });
            }
            if a.len() == 5 && b.len() == 5 {
                if a == b {
                    t.eq("assert_bytes_eq! of equal arrays", d, 1, || { assert_bytes_eq!(arr(a), arr(b)); 1 });
                } else {
                    t.refuses("assert_bytes_eq! of different arrays", d, || { assert_bytes_eq!(arr(a), arr(b)); });
                }
            }
        }
    });
    mc.finish()
}

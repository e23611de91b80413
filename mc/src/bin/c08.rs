//! C08: variable-length sequences behave as plain vectors.
use hacspec::prelude::*;
use mc::ops::*;
use mc::*;
type HRange = std::ops::Range<usize>;

array!(A8, 3, U8);
array!(A32, 3, U32);
array!(A128, 3, U128);
array!(P8, 3, u8);
array!(P32, 3, u32);
array!(P64, 3, u64);
array!(I16A, 3, i16);

// every container gets its own newtype so that one generic driver can hold it
macro_rules! cont {
    ($N:ident, $C:ty, $T:ty, $A3:ident, $w:expr, $r:expr) => {
        #[derive(Clone)]
        struct $N($C);
        impl Cont for $N {
            fn mk(v: &[u64]) -> Self {
                $N(<$C>::from_vec(v.iter().map(|x| $w(*x)).collect()))
            }
            fn vals(&self) -> Vec<u64> {
                let s = &self.0;
                let a: Vec<u64> = s.iter().map(|x| $r(*x)).collect();
                let n = s.len();
                assert!(a.len() == n && <$C as SeqTrait<$T>>::len(s) == n, "len() and iter() disagree");
                a
            }
            fn run(self, op: &Op) -> (Self, Obs) {
                let mut s = self.0;
                let no = (0usize, vec![]);
                let vec_of = |n: usize| -> Vec<$T> { Arg::Seq(n).vals().iter().map(|x| $w(*x)).collect() };
                let look = |s: &$C| -> Vec<u64> { s.iter().map(|x| $r(*x)).collect() };
                macro_rules! arg { ($a:expr, $x:ident, $e:expr) => { match $a {
                    Arg::Seq(n) => { let $x = Seq::<$T>::from_vec(vec_of(n)); $e }
                    Arg::Own(n) => { let $x = <$C>::from_vec(vec_of(n)); $e }
                    Arg::Arr3 => { let $x = $A3::from_vec(vec_of(3)); $e }
                } } }
                match *op {
                    Op::Get(..) | Op::Set(..) => {
                        let o: Option<u64> = index_ops!(s, op, $w, $r);
                        ($N(s), (0, o.into_iter().collect()))
                    }
                    Op::UpdateSub(so, a, si, l) => arg!(a, x, ($N(s.update_sub(so, &x, si, l)), no)),
                    Op::Update(so, a) => arg!(a, x, ($N(s.update(so, &x)), no)),
                    Op::UpdateStart(a) => arg!(a, x, ($N(s.update_start(&x)), no)),
                    Op::Sub(a, l) => { let q = <$C>::sub(&s, a, l); let o = (q.len(), look(&q)); ($N(q), o) }
                    Op::Subr(a, b) => { let q = s.subr(a..b); let o = (q.len(), look(&q)); ($N(q), o) }
                    Op::FromSub(a, st, l) => arg!(a, x, ($N(<$C>::from_sub(&x, st, l)), no)),
                    Op::FromSubRange(a, st, e) => arg!(a, x, ($N(<$C>::from_sub_range(&x, st..e)), no)),
                    Op::NumChunks(c) => { let k = s.num_chunks(c); ($N(s), (k, vec![])) }
                    Op::GetChunk(c, k) => { let (l, q) = s.get_chunk(c, k); let o = (l, look(&q)); ($N(q), o) }
                    Op::SetChunk(c, k, a) => arg!(a, x, ($N(s.set_chunk(c, k, &x)), no)),
                    Op::ChunkLen(c, k) => { let (l, _) = s.get_chunk(c, k); ($N(s), (l, vec![])) }
                    Op::Range(a, b) => { let r: HRange = a..b; let o = s[r].iter().map(|x| $r(*x)).collect(); ($N(s), (0, o)) }
                    Op::FromVec(n) => ($N(<$C>::from_vec(vec_of(n))), no),
                    Op::FromSlice(n) => ($N(<$C>::from_slice(&vec_of(n))), no),
                    Op::FromSeq(a) => arg!(a, x, ($N(<$C>::from_seq(&x)), no)),
                    Op::New(n) => ($N(<$C>::new(n)), no),
                    Op::Create(n) => ($N(<$C as SeqTrait<$T>>::create(n)), no),
                    Op::Default => ($N(<$C>::default()), no),
                    Op::CloneThenWrite(i, v) => { let k = s.clone(); s[i] = $w(v); let o = look(&s); ($N(k), (0, o)) }
                }
            }
        }
    };
}
cont!(SU8, Seq<U8>, U8, A8, |x: u64| U8(x as u8), |x: U8| x.0 as u64);
cont!(SU32, Seq<U32>, U32, A32, |x: u64| U32(x as u32 * 0x01010101), |x: U32| if x.0 % 0x01010101 == 0 { x.0 as u64 / 0x01010101 } else { u64::MAX });
cont!(SI16, Seq<i16>, i16, I16A, |x: u64| -(x as i16), |x: i16| (-x) as u64);
cont!(PU8, PublicSeq<u8>, u8, P8, |x: u64| x as u8, |x: u8| x as u64);
cont!(PU64, PublicSeq<u64>, u64, P64, |x: u64| x << 40, |x: u64| if x << 24 == 0 { x >> 40 } else { u64::MAX });
cont!(Pu32, Seq<u32>, u32, P32, |x: u64| x as u32, |x: u32| x as u64);
cont!(KU8, SecretSeq<U8>, U8, A8, |x: u64| U8(x as u8), |x: U8| x.0 as u64);
cont!(KU128, SecretSeq<U128>, U128, A128, |x: u64| U128((x as u128) << 100), |x: U128| (x.0 >> 100) as u64);

/// the operations of bounded histories
fn hist_ops() -> Vec<Op> {
    use Arg::*;
    vec![
        Op::Set(Ix::Usize, 0, 7), Op::Set(Ix::U8, 2, 8), Op::Set(Ix::I32, 4, 9), Op::Set(Ix::U32, 1, 6), Op::Get(Ix::Usize, 3),
        Op::UpdateSub(1, Seq(3), 1, 2), Op::UpdateSub(0, Own(2), 0, 1), Op::Update(2, Arr3), Op::Update(1, Own(2)), Op::UpdateStart(Seq(2)),
        Op::Sub(1, 3), Op::Sub(0, 2), Op::Subr(1, 4), Op::GetChunk(2, 1), Op::GetChunk(3, 1), Op::SetChunk(2, 0, Seq(2)), Op::SetChunk(3, 1, Own(2)), Op::SetChunk(2, 2, Seq(1)),
        Op::NumChunks(2), Op::New(5), Op::FromSeq(Seq(6)), Op::CloneThenWrite(1, 5), Op::Range(1, 3),
    ]
}
fn go<C: Cont>(mc: &Mc, nm: &str) {
    let l = mc.q(10usize, 16);
    mc.bound(format!("{nm}: every operation with every parameter up to two past the end, on every length 0..={l} and two contents"));
    mc.phase(&format!("ops-{nm}"), (l + 1) * 2, |i, t| {
        let n = i / 2;
        let v: Vec<u64> = (0..n as u64).map(|k| if i % 2 == 0 { k + 1 } else { (k * 5 + 3) % 4 }).collect();
        for op in all_ops(n, &|_| true, n + 1, true) {
            judge(t, nm, false, C::mk(&v), &|| String::new(), &op);
        }
    });
    let ops = hist_ops();
    let d = mc.q(4usize, 5);
    let k = ops.len();
    mc.bound(format!("{nm}: every history of {d} operations out of {k}, on one live object starting from 5 elements"));
    mc.phase(&format!("histories-{nm}"), k * k, |i, t| {
        let n = k.pow(d as u32 - 2);
        for r in 0..n {
            let mut c = C::mk(&[1, 2, 3, 4, 5]);
            let mut at = i + r * k * k;
            let mut path: Vec<usize> = vec![];
            for _ in 0..d {
                let o = at % k;
                at /= k;
                let h = path.clone();
                path.push(o);
                c = judge(t, nm, false, c, &|| format!(" after {:?}", h.iter().map(|x| ops[*x]).collect::<Vec<_>>()), &ops[o]);
            }
        }
    });
    let (nl, cl) = mc.q((70usize, 75usize), (270, 300));
    mc.bound(format!("{nm}: chunk decomposition and rebuild for every length 0..={nl} and chunk size 1..={cl}"));
    mc.phase(&format!("chunks-{nm}"), nl + 1, |n, t| {
        let v: Vec<u64> = (0..n as u64).map(|k| k % 251 + 1).collect();
        for c in 1..=cl {
            let mut s = C::mk(&v);
            let mut back = C::mk(&vec![0; n]);
            let m = (n + c - 1) / c;
            s = judge(t, nm, false, s, &|| String::new(), &Op::NumChunks(c));
            for j in 0..m {
                let q = judge(t, nm, false, s.clone(), &|| String::new(), &Op::GetChunk(c, j)).vals();
                t.eq(&format!("{nm} chunk"), || format!("{n} / {c} #{j}"), v[j * c..n.min((j + 1) * c)].to_vec(), || q.clone());
            }
            // write distinct chunks back to front
            let mut w = vec![0u64; n];
            for j in (0..m).rev() {
                let l = c.min(n - j * c);
                back = judge(t, nm, false, back, &|| String::new(), &Op::SetChunk(c, j, Arg::Own(l)));
                w[j * c..j * c + l].copy_from_slice(&Arg::Own(l).vals());
            }
            let got = back.vals();
            t.eq(&format!("{nm} rebuilt from chunks"), || format!("{n} / {c}"), w, || got.clone());
        }
    });
}
/// long sequences: every position and length of the main operations around the places where an index could be narrowed
fn long<C: Cont>(mc: &Mc, nm: &str, n: usize, ps: Vec<usize>) {
    mc.bound(format!("{nm}: {n} elements, main operations at {} positions x lengths, all index types", ps.len()));
    mc.phase(&format!("long-{nm}-{n}"), ps.len(), |i, t| {
        let x = ps[i];
        let v: Vec<u64> = (0..n as u64).map(|k| (k + k / 251) % 199 + 1).collect();
        let s = C::mk(&v);
        let none = || String::new();
        for &y in &ps {
            for op in [Op::Sub(x, y), Op::Subr(x, y), Op::Range(x, y), Op::UpdateSub(x, Arg::Own(n), n - y.min(n), y), Op::UpdateSub(0, Arg::Seq(n + 3), x, y), Op::Update(x, Arg::Seq(y)), Op::FromSub(Arg::Seq(n + 4), x, y), Op::FromSubRange(Arg::Own(n), x, y)] {
                judge(t, nm, false, s.clone(), &none, &op);
            }
            for (c, k) in [(x, 1), (x, y), (y, 1 + x % 300)] {
                if c > 0 && c.checked_mul(k).map_or(false, |st| st <= n + 1) {
                    judge(t, nm, false, s.clone(), &none, &Op::GetChunk(c, k));
                    judge(t, nm, false, s.clone(), &none, &Op::ChunkLen(c, k));
                    judge(t, nm, false, s.clone(), &none, &Op::SetChunk(c, k, Arg::Seq(c.min(n.saturating_sub(c * k)))));
                }
            }
        }
        for ix in IXS {
            if ix != Ix::U8 || x < 256 {
                judge(t, nm, false, s.clone(), &none, &Op::Get(ix, x as i64));
                judge(t, nm, false, s.clone(), &none, &Op::Set(ix, x as i64, 9));
            }
        }
        for op in [Op::NumChunks(x.max(1)), Op::New(x), Op::Create(x), Op::FromVec(x), Op::FromSlice(x), Op::FromSeq(Arg::Seq(x)), Op::FromSeq(Arg::Own(x)), Op::UpdateStart(Arg::Seq(x)), Op::CloneThenWrite(x, 3)] {
            judge(t, nm, false, s.clone(), &none, &op);
        }
    });
}
fn main() {
    let mc = Mc::new("C08");
    go::<SU8>(&mc, "Seq<U8>");
    go::<PU8>(&mc, "PublicSeq<u8>");
    go::<KU8>(&mc, "SecretSeq<U8>");
    go::<SU32>(&mc, "Seq<U32>");
    go::<Pu32>(&mc, "Seq<u32>");
    go::<SI16>(&mc, "Seq<i16>");
    go::<PU64>(&mc, "PublicSeq<u64>");
    go::<KU128>(&mc, "SecretSeq<U128>");
    let mid: Vec<usize> = (0..=4).chain(63..=65).chain(126..=130).chain(253..=263).collect();
    let far = |n: usize| -> Vec<usize> { vec![0, 1, 255, 256, 257, 32768, 65535, 65536, 65537, n - 1, n, n + 1] };
    macro_rules! lg { ($($N:ident $s:expr),*) => {$( long::<$N>(&mc, $s, 260, mid.clone()); )*} }
    lg!(SU8 "Seq<U8>", PU8 "PublicSeq<u8>", KU8 "SecretSeq<U8>", SU32 "Seq<U32>", Pu32 "Seq<u32>", SI16 "Seq<i16>", PU64 "PublicSeq<u64>", KU128 "SecretSeq<U128>");
    long::<SU8>(&mc, "Seq<U8>", 65600, far(65600));
    long::<PU8>(&mc, "PublicSeq<u8>", 65600, far(65600));
    if mc.thorough() {
        long::<SU8>(&mc, "Seq<U8>", 600, (0..=603).collect());
        long::<PU64>(&mc, "PublicSeq<u64>", 300, (0..=303).collect());
        long::<KU128>(&mc, "SecretSeq<U128>", 300, (0..=303).collect());
        long::<SI16>(&mc, "Seq<i16>", 131100, far(131100));
    }
    // random sequences have the requested length (their contents are not judged)
    mc.bound("Seq::random: length for every request of 0..=300 elements");
    mc.phase("random-length", 301, |n, t| t.eq("Seq::random length", || n.to_string(), n, || Seq::<U8>::random(n).len()));
    // equality of byte sequences
    let n = mc.q(5usize, 7);
    mc.bound(format!("equality of byte sequences: every pair over {{0,1,255}} up to length {n}, and every single-bit difference at lengths 1..=70"));
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|v| [0u8, 1, 255].iter().map(move |x| { let mut v = v.clone(); v.push(*x); v })).collect();
        all.extend(last.clone());
    }
    mc.phase("byte-equality", all.len(), |i, t| {
        for b in &all {
            let a = &all[i];
            t.eq("Seq<U8> ==", || format!("{} {}", hx(a), hx(b)), a == b, || conv::bs(a) == conv::bs(b));
        }
    });
    mc.phase("byte-equality-bits", 71, |n, t| {
        let a = pattern(4, n);
        t.holds("Seq<U8> == same", || hx(&a), || conv::bs(&a) == conv::bs(&a));
        for i in 0..n * 8 {
            let mut b = a.clone();
            b[i / 8] ^= 1 << (i % 8);
            t.eq("Seq<U8> == one bit off", || format!("{} bit {i}", hx(&a)), false, || conv::bs(&a) == conv::bs(&b));
        }
    });
    let big = [127usize, 128, 129, 255, 256, 257, 4096, 65535, 65536, 65537];
    mc.bound("byte sequences of up to 65537 bytes: equality with differences at 40 places, and with prefixes and extensions");
    mc.phase("byte-equality-long", big.len(), |i, t| {
        let n = big[i];
        let a = pattern(4, n);
        t.holds("Seq<U8> == same, long", || format!("{n} bytes"), || conv::bs(&a) == conv::bs(&a));
        let mut at: Vec<usize> = (0..17).flat_map(|k| [1usize << k, (1 << k) - 1]).chain([n - 1, n - 2, n / 2]).filter(|x| *x < n).collect();
        at.push(n * 3 / 4);
        for p in at {
            let mut b = a.clone();
            b[p] ^= 1 << (p % 8);
            t.eq("Seq<U8> == one bit off, long", || format!("{n} bytes, byte {p}"), false, || conv::bs(&a) == conv::bs(&b));
        }
        for l in [0, 1, n - 1, n - 256.min(n)] {
            t.eq("Seq<U8> == prefix, long", || format!("{n} bytes, {l} of them"), false, || conv::bs(&a) == conv::bs(&a[..l]));
            t.eq("Seq<U8> == extension, long", || format!("{n} bytes, {l} of them"), false, || conv::bs(&a[..l]) == conv::bs(&a));
        }
        let mut z = a.clone();
        z.push(0);
        t.eq("Seq<U8> == with a zero appended", || format!("{n} bytes"), false, || conv::bs(&a) == conv::bs(&z));
    });
    mc.finish()
}

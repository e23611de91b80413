//! C15: fixed-length polynomials are the ring ℤn[x]/m, and inversion finds exactly the inverses.
#![allow(dead_code)]
use hacspec::prelude::*;
use mc::polyref::{self, nth, trim, P};
use mc::*;

/// An inversion through the public function: Some(inverse) or None when it reports that there is none.
macro_rules! inversion {
    ($mc:expr, $T:ty, $(($n:expr, $m:expr, $step:expr)),*) => {$({
        let (nm, n, m): (&str, i128, P) = (stringify!($T), $n, $m.to_vec());
        let d = m.len() - 1;
        let lens: Vec<usize> = (1..=d).collect();
        let step: usize = $step;
        $mc.bound(format!("{nm}: inverse modulo {:?} over F{n} of {} element of length 1..={d}", m, if step == 1 { "every".into() } else { format!("every {step}th") }));
        $mc.phase(&format!("invert-{nm}-{n}-{:?}", m).replace(' ', ""), ((n as usize).pow(d as u32) + step - 1) / step, |i, t| {
            let a = nth(i * step, d, 0, n as usize);
            for &l in &lens {
                if trim(a.clone()).len() > l { continue }
                let x: Vec<$T> = a[..l].iter().map(|c| *c as $T).collect();
                // the modulus with and without room above it
                for pad in 0..2 {
                    let mut y: Vec<$T> = m.iter().map(|c| *c as $T).collect();
                    y.extend(vec![0; pad]);
                    t.eq(&format!("extended_euclid, {nm}"), || format!("{:?} modulo {:?} over F{n}", &a[..l], m), polyref::invmod(&a, &m, n), || extended_euclid(&x, &y, n as $T).ok().map(|v| trim(v.iter().map(|c| *c as i128).collect())));
                }
            }
        });
    })*};
}
macro_rules! field {
    ($mc:expr, $F:ident, $T:ty, $l:expr, $n:expr, $m:expr) => {{
        poly!($F, $T, $l, $n, $m);
        let (nm, l, n): (&str, usize, i128) = (concat!(stringify!($F), "<", stringify!($T), ">"), $l, $n);
        let m: P = { let mut v = vec![0i128; l + 1]; let k: &[(usize, i128)] = $m; for c in k { v[c.0] = c.1; } v };
        let mk = |p: &P| { let mut a: [$T; $l] = [0; $l]; for (x, y) in a.iter_mut().zip(p) { *x = *y as $T; } $F::new_full(a) };
        let un = |x: $F| -> P { trim(x.poly.iter().map(|c| *c as i128).collect()) };
        let size = (n as usize).pow(l as u32);
        $mc.bound(format!("{nm}: all {size} elements of ℤ{n}[x]/{:?}, every pair", m));
        $mc.phase(&format!("ring-{nm}"), size, |i, t| {
            let a = nth(i, l, 0, n as usize);
            let x = mk(&a);
            let sparse: Vec<(usize, $T)> = a.iter().enumerate().filter(|(_, c)| **c != 0).map(|(k, c)| (k, *c as $T)).collect();
            t.eq(&format!("{nm} new"), || format!("{:?}", a), trim(a.clone()), || un($F::new(&sparse)));
            t.eq(&format!("{nm} from_vec"), || format!("{:?}", a), trim(a.clone()), || un($F::from_vec(trim(a.clone()).iter().map(|c| *c as $T).collect())));
            for extra in 1..4 {
                let mut v: Vec<$T> = a.iter().map(|c| *c as $T).collect();
                v.extend(vec![0; extra]);
                t.eq(&format!("{nm} from_vec with leading zeros"), || format!("{:?}", v), trim(a.clone()), || un($F::from_vec(v.clone())));
                v[l + extra - 1] = 1;
                t.refuses(&format!("{nm} from_vec of a longer polynomial"), || format!("{:?}", v), || un($F::from_vec(v.clone())));
            }
            t.eq(&format!("{nm} inverse times the element"), || format!("{:?}", a), polyref::invmod(&a, &m, n).map(|_| vec![1]), || attempt(|| un(x.inv() * x)).ok());
            t.opt(&format!("{nm} inverse"), || format!("{:?}", a), polyref::invmod(&a, &m, n), || un(x.inv()));
            for j in 0..size {
                let b = nth(j, l, 0, n as usize);
                let y = mk(&b);
                let c = |o: &str| format!("{:?} {o} {:?} in ℤ{n}[x]/{:?}", a, b, m);
                t.eq(&format!("{nm} +"), || c("+"), polyref::add(&a, &b, n), || un(x + y));
                t.eq(&format!("{nm} -"), || c("-"), polyref::sub(&a, &b, n), || un(x - y));
                t.eq(&format!("{nm} *"), || c("*"), polyref::div(&polyref::mul(&a, &b, n), &m, n).unwrap().1, || un(x * y));
                t.eq(&format!("{nm} =="), || c("=="), a == b, || x == y && mk(&a) == y);
                match polyref::div(&a, &b, n) {
                    Some((q, r, _)) => t.eq(&format!("{nm} /"), || c("/"), (q, r), || { let (q, r) = x / y; (un(q), un(r)) }),
                    None if trim(a.clone()).is_empty() => {} // 0/0
                    None => if trim(b.clone()).is_empty() { t.refuses(&format!("{nm} / 0"), || c("/"), || { let (q, r) = x / y; (un(q), un(r)) }) },
                }
            }
        });
        // histories on one live element
        let d = $mc.q(5usize, 6);
        let os: Vec<P> = { let mut v = vec![nth(1, l, 0, n as usize), nth(n as usize, l, 0, n as usize), nth(size - 1, l, 0, n as usize), nth(size / 2 + 1, l, 0, n as usize)]; v.sort(); v.dedup(); v };
        let k = os.len() * 3 + 1;
        $mc.bound(format!("{nm}: every history of {d} operations with {} operands and inversion", os.len()));
        $mc.phase(&format!("histories-{nm}"), k.pow(d as u32), |i, t| {
            let mut at = i;
            let mut v = os[i % os.len()].clone();
            let mut x = mk(&v);
            for _ in 0..d {
                let o = at % k;
                at /= k;
                let (w, z) = if o == k - 1 {
                    (polyref::invmod(&v, &m, n), attempt(|| x.inv()))
                } else {
                    let p = &os[o / 3];
                    let y = mk(p);
                    (Some(match o % 3 { 0 => polyref::add(&v, p, n), 1 => polyref::sub(&v, p, n), _ => polyref::div(&polyref::mul(&v, p, n), &m, n).unwrap().1 }), attempt(|| match o % 3 { 0 => x + y, 1 => x - y, _ => x * y }))
                };
                t.opt(&format!("{nm} history {}", if o == k - 1 { "inv" } else { ["+", "-", "*"][o % 3] }), || format!("{:?}, then operation {o}", v), w.clone(), || match &z { Ok(z) => un(*z), Err(e) => panic!("{}", e) });
                let (Ok(z), Some(w)) = (z, w) else { continue };
                x = z;
                v = w;
            }
        });
    }};
}
/// large rings: shapes
macro_rules! large {
    ($mc:expr, $F:ident, $T:ty, $l:expr, $n:expr, $m:expr, $inv:expr) => {{
        poly!($F, $T, $l, $n, $m);
        let (nm, l, n): (&str, usize, i128) = (stringify!($F), $l, $n);
        let m: P = { let mut v = vec![0i128; l + 1]; let k: &[(usize, i128)] = $m; for c in k { v[c.0] = c.1; } v };
        let mk = |p: &P| { let mut a: [$T; $l] = [0; $l]; for (x, y) in a.iter_mut().zip(p) { *x = *y as $T; } $F::new_full(a) };
        let un = |x: $F| -> P { trim(x.poly.iter().map(|c| *c as i128).collect()) };
        let mut ps: Vec<P> = vec![];
        for p in 0..6 {
            for len in [1, 2, l / 2, l / 2 + 1, l - 1, l] {
                let mut s = Stream((p * 1000 + len) as u64);
                ps.push((0..len).map(|i| match p { 0 => n - 1, 1 => 1, 2 => if i + 1 == len { n - 1 } else { 0 }, 3 => if i == 0 || i + 1 == len { 1 } else { 0 }, 4 => i as i128 % n, _ => (s.u64() >> 2) as i128 % n }).collect());
            }
        }
        $mc.bound(format!("{nm}: ℤ{n}[x] modulo a polynomial of degree {l}: products, sums and differences of {} elements squared, and inverses of {}", ps.len(), $inv));
        $mc.phase(&format!("large-{nm}"), ps.len(), |i, t| {
            let a = &ps[i];
            for b in &ps {
                let c = |o: &str| format!("{nm} {:?} {o} {:?}", a, b);
                t.eq(&format!("{nm} +"), || c("+"), polyref::add(a, b, n), || un(mk(a) + mk(b)));
                t.eq(&format!("{nm} -"), || c("-"), polyref::sub(a, b, n), || un(mk(a) - mk(b)));
                t.eq(&format!("{nm} *"), || c("*"), polyref::div(&polyref::mul(a, b, n), &m, n).unwrap().1, || un(mk(a) * mk(b)));
            }
        });
        $mc.phase(&format!("large-inverse-{nm}"), ps.len().min($inv), |i, t| {
            let a = &ps[ps.len() - 1 - i];
            t.opt(&format!("{nm} inverse"), || format!("{nm} {:?}", a), polyref::invmod(a, &m, n), || un(mk(a).inv()));
        });
    }};
}
fn main() {
    let mc = Mc::new("C15");
    mc.selftest("polynomial reference", polyref::selftest());
    mc.assume("inverses are judged over prime fields; elements are given with reduced coefficients");
    // irreducible and reducible moduli
    macro_rules! inv {
        ($($T:ty),*) => {$(inversion!(mc, $T,
            (2, [1i128, 1, 1], 1), (2, [1i128, 0, 1], 1), (2, [1i128, 1, 0, 1], 1), (2, [1i128, 0, 0, 0, 1], 1), (2, [0i128, 1, 0, 1, 1], 1), (2, [1i128, 1, 0, 1, 1, 0, 0, 0, 1], 1), (2, [1i128, 0, 0, 0, 0, 1, 0, 0, 1], 1),
            (3, [1i128, 0, 1], 1), (3, [2i128, 2, 0, 1], 1), (3, [2i128, 0, 0, 1], 1), (3, [2i128, 1, 0, 0, 2], 1), (3, [0i128, 2, 1, 1], 1), (3, [2i128, 2, 1, 2, 2, 1], 1),
            (5, [2i128, 0, 1], 1), (5, [2i128, 0, 3], 1), (5, [4i128, 0, 0, 1], 1), (5, [1i128, 2, 3, 4, 2], 1), (7, [1i128, 0, 1], 1), (7, [6i128, 3, 0, 5], 1), (11, [1i128, 0, 1], 1), (11, [3i128, 1], 1), (11, [2i128, 2, 0, 1], mc.q(3, 1)))
        );*};
    }
    inv!(u8, i8, i16, u16, u32, u64, u128, i32, i64, i128);
    {
        inversion!(mc, u128, (2, [1i128, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1], 1), (3, [2i128, 2, 1, 2, 2, 1, 2, 1], 1), (13, [2i128, 0, 0, 1], 1), (17, [3i128, 0, 1], 1), (251, [6i128, 0, 1], 1), (5, [2i128, 0, 0, 0, 0, 1], 1));
        inversion!(mc, i128, (2, [1i128, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1], 1), (3, [2i128, 2, 1, 2, 2, 1, 2, 1], 1), (13, [2i128, 0, 0, 1], 1), (17, [3i128, 0, 1], 1), (251, [6i128, 0, 1], 1), (5, [2i128, 0, 0, 0, 0, 1], 1));
    }
    field!(mc, GF27, u128, 3, 3, &[(0, 2), (1, 2), (3, 1)]);
    field!(mc, GF27S, i128, 3, 3, &[(0, 2), (1, 2), (3, 1)]);
    field!(mc, GF4, u64, 2, 2, &[(0, 1), (1, 1), (2, 1)]);
    field!(mc, GF256, u32, 8, 2, &[(0, 1), (1, 1), (3, 1), (4, 1), (8, 1)]);
    field!(mc, GF49, i64, 2, 7, &[(0, 1), (2, 1)]);
    field!(mc, GF121, u64, 2, 11, &[(0, 1), (2, 1)]);
    field!(mc, GF343, u128, 3, 7, &[(0, 5), (3, 1)]);
    field!(mc, R81, u128, 4, 3, &[(0, 2), (4, 1)]); // x^4 - 1: zero divisors
    field!(mc, R16, u32, 4, 2, &[(0, 1), (4, 1)]);
    field!(mc, R25, i32, 2, 5, &[(0, 4), (2, 3)]); // modulus not monic
    field!(mc, GF729, u128, 6, 3, &[(0, 2), (1, 1), (6, 1)]);
    field!(mc, GF625, i64, 4, 5, &[(0, 2), (4, 1)]);
    if mc.thorough() {
        field!(mc, GF1024, u64, 10, 2, &[(0, 1), (3, 1), (10, 1)]);
        field!(mc, GF2197, i32, 3, 13, &[(0, 2), (3, 1)]);
    }
    large!(mc, Kyber, u128, 256, 3329, &[(0, 1), (256, 1)], 36);
    large!(mc, Small, i64, 17, 65537, &[(0, 65536), (1, 65536), (17, 1)], 36);
    large!(mc, Ntru, u64, 61, 4591, &[(0, 4590), (1, 4590), (61, 1)], 36);
    mc.finish();
}

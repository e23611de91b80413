//! C14: polynomial addition, subtraction, multiplication and division with remainder over ℤ and ℤ/n.
use hacspec::prelude::*;
use mc::polyref::{self, nth, trim, P};
use mc::*;

/// a coefficient vector with a shape: all shapes of one size together
fn shape(p: usize, l: usize, n: i128) -> P {
    let mut s = Stream((p * 1000 + l) as u64);
    (0..l).map(|i| match p {
        0 => n - 1,
        1 => 1,
        2 => if i + 1 == l { n - 1 } else { 0 },
        3 => if i == 0 || i + 1 == l { 1 } else { 0 },
        4 => i as i128 % n,
        5 => n / 2 + i as i128 % 2,
        6 => if i % 3 == 0 { n - 1 } else { 0 },
        _ => (s.u64() >> 2) as i128 % n,
    }).collect()
}
const SHAPES: usize = 8;

/// exact: the arithmetic of the type has room for every intermediate value
macro_rules! judge {
    ($t:expr, $T:ty, $mk:expr, $un:expr, $nm:expr, $a:expr, $b:expr, $n:expr, $exact:expr, $unsigned:expr) => {{
        let (t, a, b, n, nm): (&mut Tr, &P, &P, i128, &str) = ($t, $a, $b, $n, $nm);
        let mkp = |p: &P| -> Vec<$T> { p.iter().map(|c| $mk(*c)).collect() };
        let unp = |p: &[$T]| -> P { trim(p.iter().map(|c| $un(*c)).collect()) };
        let ring = if n == 0 { "over Z".to_string() } else { format!("mod {n}") };
        let c = |o: &str| format!("{nm} {ring}: {:?} {o} {:?}", a, b);
        let go = |t: &mut Tr, o: &str, want: P, got: &dyn Fn() -> P| {
            let key = format!("poly_{o} {}, {nm}", if n == 0 { "over Z" } else { "mod n" });
            let min = want.iter().min().copied().unwrap_or(0);
            if $unsigned && min < 0 { t.refuses(&key, || c(o), || got()) }
            else if $exact { t.eq(&key, || c(o), want, || got()) }
            else { t.eq_or_refuse(&key, || c(o), want, || got()) }
        };
        let (x, y, m) = (mkp(a), mkp(b), $mk(n));
        go(t, "add", polyref::add(a, b, n), &|| unp(&poly_add(&x, &y, m)));
        go(t, "sub", polyref::sub(a, b, n), &|| unp(&poly_sub(&x, &y, m)));
        go(t, "mul", polyref::mul(a, b, n), &|| unp(&poly_mul(&x, &y, m)));
        let key = format!("poly_div {}, {nm}", if n == 0 { "over Z" } else { "mod n" });
        let got = || { let (q, r) = poly_div(&x, &y, m); (unp(&q), unp(&r)) };
        let zero = polyref::reduce(b, n).is_empty();
        match polyref::div(a, b, n) {
            _ if zero && polyref::reduce(a, n).is_empty() => {} // 0/0
            // the leading coefficient as given is a multiple of n
            Some((q, r, _)) if n != 0 && trim(b.clone()).len() != polyref::reduce(b, n).len() => t.eq_or_refuse(&key, || c("/"), (q, r), got),
            Some((q, r, plain)) => {
                if $exact && (plain || !$unsigned) { t.eq(&key, || c("/"), (q, r), got) } else { t.eq_or_refuse(&key, || c("/"), (q, r), got) }
            }
            None if n != 0 && !zero && lenient() => {}
            None if n != 0 && !zero => {
                // no inverse of the leading coefficient: refuse, or a correct division anyway
                let ok = match attempt(got) {
                    Err(_) => true,
                    Ok((q, r)) => polyref::add(&polyref::mul(&q, b, n), &r, n) == polyref::reduce(a, n) && r.len() < polyref::reduce(b, n).len(),
                };
                t.holds(&key, || c("/"), || ok)
            }
            None => t.refuses(&key, || c("/"), got),
        }
    }};
}
macro_rules! ty {
    ($mc:expr, $(($T:ty, $bits:expr, $unsigned:expr, $mk:expr, $un:expr)),*) => {$({
        let nm = stringify!($T);
        // whether the arithmetic modulo n fits
        let room = |n: i128| $bits == 128 && n < 1 << 62 || $bits < 128 && (!$unsigned || (n - 1) * (n - 1) < 1 << $bits);
        let holds_n = |n: i128| if $unsigned { $bits == 128 || n < 1 << $bits } else { $bits == 128 || n < 1 << ($bits - 1) };
        // every pair of small polynomials
        let small: &[(i128, usize, usize)] = $mc.q(&[(2, 5, 4), (3, 3, 3), (4, 3, 2), (5, 3, 2), (6, 2, 2), (7, 2, 2), (11, 2, 2), (13, 2, 2)], &[(2, 7, 5), (3, 4, 4), (4, 3, 3), (5, 3, 3), (6, 3, 2), (7, 3, 3), (11, 2, 2), (13, 2, 2)]);
        for &(n, la, lb) in small {
            $mc.bound(format!("{nm}: every polynomial of length {la} with every one of length {lb}, modulo {n}"));
            $mc.phase(&format!("all-{nm}-mod{n}"), (n as usize).pow(la as u32), |i, t| {
                let a = nth(i, la, 0, n as usize);
                for j in 0..(n as usize).pow(lb as u32) {
                    let b = nth(j, lb, 0, n as usize);
                    judge!(t, $T, $mk, $un, nm, &a, &b, n, room(n), $unsigned);
                    if la != lb && i % 3 == 0 {
                        judge!(t, $T, $mk, $un, nm, &b, &a, n, room(n), $unsigned);
                    }
                }
            });
        }
        // unreduced coefficients
        for n in [2i128, 3, 5] {
            let (lo, k) = if $unsigned { (0, 2 * n as usize) } else { (-n, 2 * n as usize + 1) };
            $mc.phase(&format!("unreduced-{nm}-mod{n}"), k * k, |i, t| {
                let a = nth(i, 2, lo, k);
                for j in 0..k * k {
                    judge!(t, $T, $mk, $un, nm, &a, &nth(j, 2, lo, k), n, room(2 * n), $unsigned);
                }
            });
        }
        // over the integers
        // (the integers behind a secret type are integers modulo its width, so not judged)
        let (lo, k): (i128, usize) = if nm.starts_with('U') { (0, 0) } else if $unsigned { (0, 4) } else { (-2, 5) };
        $mc.phase(&format!("all-{nm}-integers"), k.pow(3), |i, t| {
            let a = nth(i, 3, lo, k);
            for l in 1..4 {
                for j in 0..k.pow(l as u32) {
                    let b = nth(j, l, lo, k);
                    judge!(t, $T, $mk, $un, nm, &a, &b, 0, true, $unsigned);
                    // a multiple, so that division succeeds
                    let m = polyref::add(&polyref::mul(&a, &b, 0), &trim(b.clone())[..trim(b.clone()).len().saturating_sub(1)].to_vec(), 0);
                    judge!(t, $T, $mk, $un, nm, &m, &b, 0, true, $unsigned);
                }
            }
        });
        // longer ones, larger moduli
        let ns: Vec<i128> = [16i128, 27, 127, 251, 3329, 4591, 7681, 8192, 12289, 65521, 65537, 8380417, (1 << 31) - 1, (1 << 61) - 1].into_iter().filter(|n| holds_n(*n)).collect();
        let lens: &[usize] = $mc.q(&[1, 2, 5, 8, 16], &[1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33]);
        $mc.bound(format!("{nm}: {SHAPES} coefficient shapes at lengths {:?} squared, {} moduli", lens, ns.len()));
        let k = lens.len() * SHAPES;
        $mc.phase(&format!("shapes-{nm}"), ns.len() * k, |i, t| {
            let (n, i) = (ns[i / k], i % k);
            let a = shape(i % SHAPES, lens[i / SHAPES], n);
            for j in 0..k {
                let b = shape(j % SHAPES, lens[j / SHAPES], n);
                judge!(t, $T, $mk, $un, nm, &a, &b, n, room(n), $unsigned);
            }
        });
        let far: Vec<usize> = $mc.q(vec![33, 64, 130, 257], vec![31, 33, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 300]);
        $mc.bound(format!("{nm}: long polynomials, lengths {:?} squared", far));
        $mc.phase(&format!("far-{nm}"), far.len() * far.len() * ns.len().min(2), |i, t| {
            let k = ns.len().min(2);
            let (n, i) = (ns[i % k * (ns.len() - 1)], i / k);
            for p in [1, 4] {
                let (a, b) = (shape(p, far[i / far.len() % far.len()], n), shape(p + 1, far[i % far.len()], n));
                judge!(t, $T, $mk, $un, nm, &a, &b, n, room(n), $unsigned);
            }
        });
        // histories: one live polynomial, every sequence of ring operations
        let d = $mc.q(4usize, 5);
        let hn = 11i128;
        let ops: Vec<(usize, P)> = (0..5).flat_map(|o| [vec![1, 1], vec![0, 10, 3], vec![5], vec![2, 0, 0, 7]].into_iter().map(move |p| (o, p))).collect();
        $mc.bound(format!("{nm}: every history of {d} operations out of {}, modulo {hn}", ops.len()));
        $mc.phase(&format!("histories-{nm}"), ops.len().pow(d as u32), |i, t| {
            let mut at = i;
            let mut m: P = vec![3, 0, 10, 1];
            let mut x: Vec<$T> = m.iter().map(|c| $mk(*c)).collect();
            for _ in 0..d {
                let (o, p) = &ops[at % ops.len()];
                at /= ops.len();
                let y: Vec<$T> = p.iter().map(|c| $mk(*c)).collect();
                let n = $mk(hn);
                let w = match o { 0 => polyref::add(&m, p, hn), 1 => polyref::sub(&m, p, hn), 2 => polyref::mul(&m, p, hn), 3 => polyref::div(&m, p, hn).unwrap().0, _ => polyref::div(&m, p, hn).unwrap().1 };
                let z = attempt(|| match o { 0 => poly_add(&x, &y, n), 1 => poly_sub(&x, &y, n), 2 => poly_mul(&x, &y, n), 3 => poly_div(&x, &y, n).0, _ => poly_div(&x, &y, n).1 });
                t.eq(&format!("{nm} history {}", ["add", "sub", "mul", "quotient", "remainder"][*o]), || format!("{:?} {} {:?} mod {hn}", m, o, p), w.clone(), || match &z { Ok(z) => trim(z.iter().map(|c| $un(*c)).collect()), Err(e) => panic!("{}", e) });
                let Ok(z) = z else { break };
                x = z;
                m = w;
            }
        });
        // leading coefficients
        $mc.phase(&format!("leading-{nm}"), 5 * 5 * 5 * 5, |i, t| {
            let p = nth(i, 4, 0, 5);
            for l in 0..5 {
                let q: P = p[..l].to_vec();
                let want = match trim(q.clone()) { r if r.is_empty() => (0, 0), r => (r.len() - 1, r[r.len() - 1]) };
                t.eq(&format!("leading_coefficient, {nm}"), || format!("{:?}", q), want, || { let (d, c) = leading_coefficient(&q.iter().map(|c| $mk(*c)).collect::<Vec<$T>>()); (d, $un(c)) });
            }
        });
    })*};
}
fn main() {
    let mc = Mc::new("C14");
    mc.selftest("polynomial reference", polyref::selftest());
    mc.assume("0/0 is not judged; over the integers only public types, since secret ones wrap");
    ty!(mc, (u8, 8, true, |c: i128| c as u8, |x: u8| x as i128), (u16, 16, true, |c: i128| c as u16, |x: u16| x as i128), (u32, 32, true, |c: i128| c as u32, |x: u32| x as i128), (u64, 64, true, |c: i128| c as u64, |x: u64| x as i128), (u128, 128, true, |c: i128| c as u128, |x: u128| x as i128));
    ty!(mc, (i8, 8, false, |c: i128| c as i8, |x: i8| x as i128), (i16, 16, false, |c: i128| c as i16, |x: i16| x as i128), (i32, 32, false, |c: i128| c as i32, |x: i32| x as i128), (i64, 64, false, |c: i128| c as i64, |x: i64| x as i128), (i128, 128, false, |c: i128| c, |x: i128| x));
    ty!(mc, (U8, 8, true, |c: i128| U8(c as u8), |x: U8| x.declassify() as i128), (U32, 32, true, |c: i128| U32(c as u32), |x: U32| x.declassify() as i128), (U128, 128, true, |c: i128| U128(c as u128), |x: U128| x.declassify() as i128));
    mc.finish();
}

//! Reference model of polynomial arithmetic: coefficient vectors over ℤ (n = 0) or ℤ/n, lowest degree first, trimmed.
pub type P = Vec<i128>;

pub fn trim(mut p: P) -> P {
    while p.last() == Some(&0) {
        p.pop();
    }
    p
}
pub fn red(c: i128, n: i128) -> i128 {
    if n == 0 { c } else { c.rem_euclid(n) }
}
pub fn reduce(p: &[i128], n: i128) -> P {
    trim(p.iter().map(|c| red(*c, n)).collect())
}
fn at(p: &[i128], i: usize) -> i128 {
    p.get(i).copied().unwrap_or(0)
}
pub fn add(a: &[i128], b: &[i128], n: i128) -> P {
    trim((0..a.len().max(b.len())).map(|i| red(red(at(a, i), n) + red(at(b, i), n), n)).collect())
}
pub fn sub(a: &[i128], b: &[i128], n: i128) -> P {
    trim((0..a.len().max(b.len())).map(|i| red(red(at(a, i), n) - red(at(b, i), n), n)).collect())
}
pub fn mul(a: &[i128], b: &[i128], n: i128) -> P {
    let (a, b) = (reduce(a, n), reduce(b, n));
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    trim((0..a.len() + b.len() - 1).map(|k| (k.saturating_sub(b.len() - 1)..=k.min(a.len() - 1)).fold(0, |s, i| red(s + red(a[i] * b[k - i], n), n))).collect())
}
/// inverse in ℤ/n, if there is one
pub fn inv(x: i128, n: i128) -> Option<i128> {
    let (mut a, mut b, mut s, mut t) = (x.rem_euclid(n), n, 1i128, 0i128);
    while b != 0 {
        let q = a / b;
        (a, b) = (b, a - q * b);
        (s, t) = (t, s - q * t);
    }
    if a == 1 { Some(s.rem_euclid(n)) } else { None }
}
/// quotient and remainder; None if b is zero, or some leading coefficient cannot be divided.
/// The flag tells whether every intermediate coefficient was non-negative.
pub fn div(a: &[i128], b: &[i128], n: i128) -> Option<(P, P, bool)> {
    let (mut r, b) = (reduce(a, n), reduce(b, n));
    let c = *b.last()?;
    let ci = if n == 0 { 0 } else { inv(c, n)? };
    let mut q = vec![0; r.len()];
    let mut plain = true;
    while r.len() >= b.len() {
        let l = *r.last().unwrap();
        let t = if n == 0 {
            if l % c != 0 {
                return None;
            }
            l / c
        } else {
            red(l * ci, n)
        };
        let s = r.len() - b.len();
        q[s] = t;
        for (i, y) in b.iter().enumerate() {
            r[s + i] = red(r[s + i] - red(t * y, n), n);
        }
        plain &= r.iter().all(|x| *x >= 0) && t >= 0;
        r = trim(r);
    }
    Some((trim(q), r, plain))
}
/// the inverse of a modulo m over the field ℤ/n (n prime), if there is one
pub fn invmod(a: &[i128], m: &[i128], n: i128) -> Option<P> {
    let (mut r0, mut r1) = (reduce(m, n), div(a, m, n)?.1);
    let (mut t0, mut t1): (P, P) = (vec![], vec![1]);
    while !r1.is_empty() {
        let (q, r, _) = div(&r0, &r1, n)?;
        (r0, r1) = (r1, r);
        let t = sub(&t0, &mul(&q, &t1, n), n);
        (t0, t1) = (t1, t);
    }
    if r0.len() != 1 {
        return None;
    }
    let k = inv(r0[0], n)?;
    Some(div(&mul(&t0, &[k], n), m, n)?.1)
}
/// the i-th polynomial of length l with coefficients in lo..lo+k
pub fn nth(mut i: usize, l: usize, lo: i128, k: usize) -> P {
    (0..l).map(|_| { let c = lo + (i % k) as i128; i /= k; c }).collect()
}
pub fn selftest() -> bool {
    let aes = [1, 1, 0, 1, 1, 0, 0, 0, 1];
    let bits = |x: i128| (0..8).map(|k| x >> k & 1).collect::<P>();
    // 0x53 * 0xca = 1 in the AES field; 57 * 83 = c1
    div(&mul(&bits(0x53), &bits(0xca), 2), &aes, 2).unwrap().1 == vec![1]
        && div(&mul(&bits(0x57), &bits(0x83), 2), &aes, 2).unwrap().1 == trim(bits(0xc1))
        && invmod(&bits(0x53), &aes, 2) == Some(trim(bits(0xca)))
        && invmod(&[1, 1], &[1, 0, 1], 2).is_none()
        && div(&[1, 0, 2], &[0, 1, 1], 3).map(|x| (x.0, x.1)) == Some((vec![2], vec![1, 1]))
        && div(&[-1, 0, 1], &[1, 1], 0).map(|x| (x.0, x.1, x.2)) == Some((vec![-1, 1], vec![], false))
        && div(&[1, 0, 5], &[1, 2], 0).is_none()
        && sub(&[1, 2], &[3, 2], 0) == vec![-2]
        && inv(3, 7) == Some(5)
        && inv(3, 6).is_none()
}

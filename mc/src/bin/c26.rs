//! C26: X25519 equals RFC 7748.
use hacspec::prelude::*;
use hacspec_examples::curve25519::{self as x, SerializedPoint, SerializedScalar};
use mc::conv::*;
use mc::*;
use num::BigUint;

fn imp(k: &[u8], u: &[u8]) -> String {
    hx(&vb(&x::scalarmult(SerializedScalar::from_public_slice(k), SerializedPoint::from_public_slice(u))))
}
fn le32(n: &BigUint) -> Vec<u8> {
    let mut b = n.to_bytes_le();
    b.resize(32, 0);
    b
}
fn main() {
    let mc = Mc::new("C26");
    mc.selftest("reference models", refs::selftest().is_ok());
    let ck = |t: &mut Tr, k: &[u8], u: &[u8]| t.eq("x25519", || format!("k {} u {}", hx(k), hx(u)), hx(&refs::x25519(k, u)), || imp(k, u));
    let one = BigUint::from(1u32);
    let p = (&one << 255usize) - 19u32;
    // u-coordinates: small, small-order, non-canonical (>= p), high bit set, patterns
    let mut us: Vec<Vec<u8>> = vec![];
    for i in 0..12u32 {
        us.push(le32(&BigUint::from(i)));
        us.push(le32(&(&p - i)));
        us.push(le32(&(&p + i)));
    }
    for i in 12..19u32 {
        us.push(le32(&(&p + i)));
    }
    for s in ["e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"] {
        us.push(unhex(s));
    }
    for q in 0..PATTERNS {
        us.push(pattern(q, 32));
    }
    let n0 = us.len();
    for i in 0..n0 {
        let mut h = us[i].clone();
        h[31] |= 0x80;
        us.push(h);
    }
    us.sort();
    us.dedup();
    let mut ks: Vec<Vec<u8>> = (0..PATTERNS).map(|q| pattern(q, 32)).collect();
    ks.extend((0..8u32).map(|i| le32(&BigUint::from(8 * i))));
    mc.bound(format!("every pair of {} scalars x {} u-coordinates (small order, non-canonical >= p, top bit set, 0..11, p-11..p+18)", ks.len(), us.len()));
    mc.phase("special-points", us.len(), |i, t| {
        for k in &ks {
            ck(t, k, &us[i]);
        }
    });
    mc.bound("every single-bit and every single-cleared-bit scalar (clamping, every ladder position) x 3 points");
    let pts = [le32(&BigUint::from(9u32)), pattern(4, 32), le32(&(&p - 2u32))];
    mc.phase("scalar-bits", 512, |i, t| {
        let mut k = if i < 256 { vec![0u8; 32] } else { vec![0xff; 32] };
        k[(i % 256) / 8] ^= 1 << (i % 8);
        for u in &pts {
            ck(t, &k, u);
        }
    });
    mc.bound("every single-bit and every single-cleared-bit u-coordinate x 2 scalars");
    mc.phase("point-bits", 512, |i, t| {
        let mut u = if i < 256 { vec![0u8; 32] } else { vec![0xff; 32] };
        u[(i % 256) / 8] ^= 1 << (i % 8);
        ck(t, &pattern(4, 32), &u);
        ck(t, &pattern(2, 32), &u);
    });
    mc.bound("every byte value at the clamped byte positions 0 and 31 of the scalar and at bytes 0, 31 of the point");
    mc.phase("edge-bytes", 256 * 4, |i, t| {
        let (mut k, mut u) = (pattern(4, 32), pattern(7, 32));
        let v = (i / 4) as u8;
        match i % 4 {
            0 => k[0] = v,
            1 => k[31] = v,
            2 => u[0] = v,
            _ => u[31] = v,
        }
        ck(t, &k, &u);
    });
    mc.bound("key derivation from the base point: every single-bit scalar, patterns, every value of the clamped bytes");
    let base = le32(&BigUint::from(9u32));
    let pb = |t: &mut Tr, k: &[u8]| t.eq("public-key", || hx(k), hx(&refs::x25519(k, &base)), || hx(&vb(&x::secret_to_public(SerializedScalar::from_public_slice(k)))));
    mc.phase("public-key", 256 + PATTERNS + 512, |i, t| {
        if i < 256 {
            let mut k = vec![0u8; 32];
            k[i / 8] = 1 << (i % 8);
            pb(t, &k)
        } else if i < 256 + PATTERNS {
            pb(t, &pattern(i - 256, 32))
        } else {
            let mut k = pattern(4, 32);
            let j = i - 256 - PATTERNS;
            k[if j < 256 { 0 } else { 31 }] = j as u8;
            pb(t, &k)
        }
    });
    mc.bound("Diffie-Hellman agreement: every ordered pair of 10 secrets, both derivations equal");
    mc.phase("agreement", 100, |i, t| {
        let (a, b) = (&ks[i / 10], &ks[i % 10]);
        let base = unhex("0900000000000000000000000000000000000000000000000000000000000000");
        let pa = unhex(&imp(a, &base));
        let pbb = unhex(&imp(b, &base));
        let w = imp(a, &pbb);
        t.eq("agreement", || format!("a {} b {}", hx(a), hx(b)), w, || imp(b, &pa));
    });
    if mc.thorough() {
        mc.bound("RFC 7748 iteration (k,u) <- (X(k,u),k): 1000 iterations from the base point and 8 patterns, every step judged");
        mc.phase("iterate", 9, |i, t| {
            let (mut k, mut u) = if i == 0 { (base.clone(), base.clone()) } else { (pattern(i - 1, 32), base.clone()) };
            for _ in 0..1000 {
                ck(t, &k, &u);
                let r = refs::x25519(&k, &u);
                u = k;
                k = r;
            }
        });
    } else {
        mc.bound("RFC 7748 iteration: 40 iterations from 9 starts, every step judged");
        mc.phase("iterate", 9, |i, t| {
            let (mut k, mut u) = if i == 0 { (base.clone(), base.clone()) } else { (pattern(i - 1, 32), base.clone()) };
            for _ in 0..40 {
                ck(t, &k, &u);
                let r = refs::x25519(&k, &u);
                u = k;
                k = r;
            }
        });
    }
    mc.finish()
}

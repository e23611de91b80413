//! C27: P-256 base point multiplication equals the affine group law.
use hacspec_examples::p256;
use hacspec::prelude::*;
use mc::refs::P256;
use mc::*;
use num::BigUint;

fn main() {
    let mc = Mc::new("C27");
    mc.selftest("reference models", refs::selftest().is_ok());
    let r = P256::new();
    let one = BigUint::from(1u32);
    let n = r.n.clone();
    let max = (&one << 256usize) - 1u32;
    let ck = |t: &mut Tr, k: &BigUint| {
        let w = r.mul_base(k).map(|(x, y)| (format!("{:x}", x), format!("{:x}", y)));
        // the identity has no affine coordinates; the library's result for it is its own convention
        if w.is_none() {
            return;
        }
        let h = format!("{:064x}", k);
        t.eq("point-mul", || format!("k {}", h), w, || {
            let (x, y) = p256::point_mul(p256::Scalar::from_hex(&h));
            let f = |e: p256::FieldElement| {
                let b: BigUint = BigUint::from_bytes_le(&e.to_public_byte_seq_le().iter().copied().collect::<Vec<u8>>());
                format!("{:x}", b)
            };
            Some((f(x), f(y)))
        })
    };
    let mut ks: Vec<BigUint> = vec![];
    let small = mc.q(64u32, 600);
    for i in 1..=small {
        ks.push(BigUint::from(i));
    }
    for i in 0..mc.q(24u32, 200) {
        ks.push(&n - i);
        ks.push(&n + i);
        ks.push(&max - i);
        ks.push((&n >> 1usize) + i);
        ks.push((&n >> 1usize) - i);
    }
    for i in 0..256usize {
        ks.push(&one << i);
        ks.push((&one << i) - 1u32);
        ks.push(&max - (&one << i));
        ks.push(&n - ((&one << i) % &n));
    }
    for q in 0..PATTERNS {
        ks.push(BigUint::from_bytes_be(&pattern(q, 32)));
    }
    ks.sort();
    ks.dedup();
    mc.bound(format!("{} scalars: 1..={small}, every 2^i, 2^i-1, complement of 2^i, n-2^i, neighbourhoods of n, n/2 and 2^256-1", ks.len()));
    mc.phase("scalars", ks.len(), |i, t| ck(t, &ks[i]));
    mc.finish()
}

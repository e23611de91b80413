//! Boundary-value alphabets for machine words.
/// Values of a `bits`-wide word around every power of two, their complements and a few mixed patterns.
pub fn alphabet(bits: u32) -> Vec<u128> {
    let m = mask(bits);
    let mut v = vec![0u128, 1, 2, 3, 5, 7, 10, 0x55, 0xaa];
    for k in 0..bits {
        let p = 1u128 << k;
        for x in [p, p.wrapping_sub(1), p.wrapping_add(1), !p, p.wrapping_neg(), p | (p >> 1), p | 1] {
            v.push(x & m);
        }
    }
    for x in [
        0x0123456789abcdef0fedcba987654321u128,
        0xfedcba98765432100123456789abcdef,
        0x55555555555555555555555555555555,
        0xaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa,
        0x00ff00ff00ff00ff00ff00ff00ff00ff,
        0x0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f,
        0x80000001800000018000000180000001,
        0xdeadbeefcafebabe0badf00d8badf00d,
    ] {
        v.push(x & m);
        v.push((x >> 7) & m);
    }
    v.sort();
    v.dedup();
    v
}
/// A smaller alphabet: powers of two at byte and word edges.
pub fn small(bits: u32) -> Vec<u128> {
    let m = mask(bits);
    let mut v = vec![0u128, 1, 2, 3, 0x55, 0xaa, m, m - 1, m - 2, m / 2, m / 2 + 1, m / 2 + 2, m / 3, m / 3 * 2 + 1];
    for k in (0..bits).step_by(8) {
        for e in [0u32, 7] {
            let p = 1u128 << (k + e);
            v.push(p & m);
            v.push(p.wrapping_sub(1) & m);
            v.push(p.wrapping_add(1) & m);
            v.push(!p & m);
        }
    }
    v.push(0x0123456789abcdef0fedcba987654321u128 & m);
    v.push(0xdeadbeefcafebabe0badf00d8badf00d & m);
    v.sort();
    v.dedup();
    v
}
pub fn mask(bits: u32) -> u128 {
    if bits == 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    }
}
/// every word for small widths, the boundary alphabet otherwise
pub fn words(bits: u32, full_upto: u32) -> Vec<u128> {
    if bits <= full_upto {
        (0..(1u128 << bits)).collect()
    } else {
        alphabet(bits)
    }
}

/// Every contiguous run of ones and its complement (2^i - 2^j mod 2^bits), plus the boundary alphabet.
pub fn runs(bits: u32) -> Vec<u128> {
    let m = mask(bits);
    let mut v = alphabet(bits);
    for i in 0..bits {
        for j in i..bits {
            let x = (mask(bits) >> (bits - 1 - (j - i))) << i & m;
            v.push(x);
            v.push(!x & m);
        }
    }
    v.sort();
    v.dedup();
    v
}

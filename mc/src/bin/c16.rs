//! C16: SHA-256 equals FIPS 180-4 for every message.
use hacspec_examples::sha2;
use mc::conv::*;
use mc::refs::Sha256;
use mc::*;

fn main() {
    let mc = Mc::new("C16");
    mc.selftest("reference models", refs::selftest().is_ok());
    let r = Sha256::new();
    let ck = |t: &mut Tr, m: &[u8]| t.eq("sha256", || hxs(m), hx(&r.hash(m)), || hx(&vb(&sha2::hash(&bs(m)))));

    let max = mc.q(640, 2200);
    mc.bound(format!("every message length 0..={max} bytes x {PATTERNS} content patterns"));
    mc.phase("lengths", max + 1, |n, t| {
        for p in 0..PATTERNS {
            ck(t, &pattern(p, n));
        }
    });
    mc.bound("every single-bit and every single-cleared-bit message of 55, 56, 63, 64, 65 and 119 bytes");
    let lens = [55usize, 56, 63, 64, 65, 119];
    let bits: Vec<(usize, usize)> = lens.iter().flat_map(|l| (0..l * 8).map(move |b| (*l, b))).collect();
    mc.phase("bits", bits.len(), |i, t| {
        let (l, b) = bits[i];
        let mut m = vec![0u8; l];
        m[b / 8] = 0x80 >> (b % 8);
        ck(t, &m);
        ck(t, &m.iter().map(|x| !x).collect::<Vec<_>>());
    });
    mc.bound("every byte value at every position of a 64-byte message, two backgrounds");
    mc.phase("byte-values", 64 * 2, |i, t| {
        let mut m = pattern(i / 64 * 4, 64);
        for v in 0..=255u8 {
            m[i % 64] = v;
            ck(t, &m);
        }
    });
    // lengths around every power of two that a byte or bit counter could be cut at
    let mut big: Vec<usize> = vec![];
    for k in 10..mc.q(18u32, 22) {
        for d in [-65i64, -64, -9, -8, -1, 0, 1, 55, 56, 63, 64] {
            big.push(((1i64 << k) + d) as usize);
        }
    }
    big.push(1 << 21); // 2^24 bits
    if std::env::var("VERIF_EVERY").is_err() {
        big.push(1 << 29); // 2^32 bits: a 32-bit length counter wraps here
    }
    big.sort_by(|a, b| b.cmp(a)); // the longest first
    mc.bound(format!("{} long messages at the powers of two where a length counter could wrap, up to {} bytes", big.len(), big.first().unwrap()));
    mc.phase("long", big.len(), |i, t| ck(t, &pattern(if big[i] > 1 << 22 { 0 } else { 4 }, big[i])));
    mc.finish()
}

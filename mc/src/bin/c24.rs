//! C24: Poly1305 equals RFC 8439 for every key and message.
use hacspec::prelude::*;
use hacspec_examples::chacha20_poly1305::{chacha20::{Key, IV}, poly1305};
use mc::conv::*;
use mc::*;

fn imp(k: &[u8], m: &[u8]) -> String {
    let t = poly1305::poly(&bs(m), Key::from_public_slice(k));
    hx(&t.iter().copied().collect::<Vec<u8>>())
}
fn main() {
    let mc = Mc::new("C24");
    mc.selftest("reference models", refs::selftest().is_ok());
    let ck = |t: &mut Tr, k: &[u8], m: &[u8]| t.eq("poly1305", || format!("key {} msg {}", hx(k), hxs(m)), hx(&refs::poly1305(m, k)), || imp(k, m));
    let lmax = mc.q(300, 1000);
    mc.bound(format!("every message length 0..={lmax} x all pairs of content patterns for key and message"));
    mc.phase("lengths", lmax + 1, |n, t| {
        for p in 0..PATTERNS {
            for q in 0..PATTERNS {
                ck(t, &pattern(p, 32), &pattern(q, n));
            }
        }
    });
    mc.bound("clamping: every single-bit r and every single-cleared-bit r, messages of 1,16,17,32,33 bytes of 0xff / 0x00 / mixed");
    mc.phase("r-bits", 256, |i, t| {
        let mut k = if i < 128 { vec![0u8; 32] } else { vec![0xffu8; 32] };
        k[(i % 128) / 8] ^= 1 << (i % 8);
        for n in [1usize, 16, 17, 32, 33] {
            for p in [1usize, 2, 4] {
                ck(t, &k, &pattern(p, n));
            }
        }
    });
    mc.bound("final addition: every single-bit and cleared-bit s, and s = 2^128-1-d for d in 0..64, with accumulators near 0, near p and generic");
    // r=1 (only bit 0 kept) makes the accumulator the sum of the blocks, which reaches every residue region
    mc.phase("s-values", 256 + 64, |i, t| {
        let s: Vec<u8> = if i < 256 {
            let mut s = if i < 128 { vec![0u8; 16] } else { vec![0xffu8; 16] };
            s[(i % 128) / 8] ^= 1 << (i % 8);
            s
        } else {
            (u128::MAX - (i as u128 - 256)).to_le_bytes().to_vec()
        };
        for r in [0u8, 1, 2, 4] {
            let mut k = vec![0u8; 16];
            k[0] = r;
            k.extend_from_slice(&s);
            for p in [1usize, 2, 4] {
                for n in [0usize, 1, 15, 16, 32, 48, 64, 33] {
                    ck(t, &k, &pattern(p, n));
                }
            }
        }
    });
    mc.bound("accumulator sweep around the modulus: r=1, two/three blocks chosen so that the accumulator is p+d and 2^128*k+d for every d in -40..=40, x 6 values of s");
    mc.phase("acc-near-p", 81, |i, t| {
        use num::BigUint;
        let d = i as i64 - 40;
        let one = BigUint::from(1u32);
        let p = (&one << 130usize) - 5u32;
        for target in [p.clone(), &p + &p, &one << 128usize, &one << 129usize, (&one << 129usize) + (&one << 128usize), &one << 130usize] {
            let want = if d < 0 { target - (-d) as u32 } else { target + d as u32 };
            // sum of k full blocks = k*2^128 + sum(contents)
            for k in 1..=8u32 {
                let base = BigUint::from(k) << 128usize;
                if want < base {
                    continue;
                }
                let mut rest = want.clone() - base;
                let cap = (&one << 128usize) - 1u32;
                if rest > &cap * k {
                    continue;
                }
                let mut m = vec![];
                for _ in 0..k {
                    let c = if rest > cap { cap.clone() } else { rest.clone() };
                    rest = rest - &c;
                    let mut b = c.to_bytes_le();
                    b.resize(16, 0);
                    m.extend(b);
                }
                for s in [0u128, 1, 4, 5, u128::MAX, u128::MAX - 4] {
                    let mut key = vec![0u8; 16];
                    key[0] = 1;
                    key.extend_from_slice(&s.to_le_bytes());
                    ck(t, &key, &m);
                }
            }
        }
    });
    mc.bound("every byte value at every key position and at every position of a 20-byte message");
    mc.phase("bytes", 52, |i, t| {
        for p in [2usize, 4] {
            let (mut k, mut m) = (pattern(p, 32), pattern(p, 20));
            for v in 0..=255u8 {
                if i < 32 {
                    k[i] = v
                } else {
                    m[i - 32] = v
                }
                ck(t, &k, &m);
            }
        }
    });
    mc.bound("message lengths 2^k-1, 2^k, 2^k+1 up to 2^20");
    mc.phase("long", 3 * 11, |i, t| ck(t, &pattern(4, 32), &pattern(4, (1 << (10 + i / 3)) + i % 3 - 1)));
    mc.bound("one-time-key wrapper: every message length 0..=100 x patterns of key and iv");
    mc.phase("poly-mac", 101, |n, t| {
        for p in 0..PATTERNS {
            for q in 0..PATTERNS {
                let (k, iv, m) = (pattern(p, 32), pattern(q, 12), pattern(4, n));
                let otk = refs::chacha_block(&k, 0, &iv)[..32].to_vec();
                t.eq("poly-mac", || format!("key {} iv {} msg {}", hx(&k), hx(&iv), hxs(&m)), hx(&refs::poly1305(&m, &otk)), || {
                    hx(&poly1305::poly_mac(&bs(&m), Key::from_public_slice(&k), IV::from_public_slice(&iv)).iter().copied().collect::<Vec<u8>>())
                });
            }
        }
    });
    mc.finish()
}

//! C25: ChaCha20-Poly1305 AEAD equals RFC 8439 and round-trips.
use hacspec::prelude::*;
use hacspec_examples::chacha20_poly1305::{self as a, chacha20::{Key, IV}, poly1305::Tag};
use mc::conv::*;
use mc::*;

fn enc(k: &[u8], n: &[u8], ad: &[u8], m: &[u8]) -> Option<(String, String)> {
    a::encrypt(Key::from_public_slice(k), IV::from_public_slice(n), &bs(ad), &bs(m)).ok().map(|(c, t)| (hx(&vb(&c)), hx(&t.iter().copied().collect::<Vec<u8>>())))
}
fn dec(k: &[u8], n: &[u8], ad: &[u8], c: &[u8], tag: &[u8]) -> Option<String> {
    a::decrypt(Key::from_public_slice(k), IV::from_public_slice(n), &bs(ad), &bs(c), Tag::from_slice(tag)).ok().map(|m| hx(&vb(&m)))
}
fn main() {
    let mc = Mc::new("C25");
    mc.selftest("reference models", refs::selftest().is_ok());
    let both = |t: &mut Tr, k: &[u8], n: &[u8], ad: &[u8], m: &[u8]| {
        let (c, tag) = refs::chachapoly(k, n, ad, m);
        let case = || format!("key {} iv {} aad {} msg {}", hx(k), hx(n), hxs(ad), hxs(m));
        t.eq("encrypt", case, Some((hx(&c), hx(&tag))), || enc(k, n, ad, m));
        t.eq("decrypt", case, Some(hx(m)), || dec(k, n, ad, &c, &tag));
    };
    let (al, ml) = mc.q((50, 150), (140, 300));
    mc.bound(format!("every aad length 0..={al} x every message length 0..={ml}, 2 patterns"));
    mc.phase("lengths", al + 1, |x, t| {
        for m in 0..=ml {
            both(t, &pattern(4, 32), &pattern(0, 12), &pattern(5, x), &pattern(4, m));
            both(t, &pattern(2, 32), &pattern(5, 12), &pattern(2, x), &pattern(2, m));
        }
    });
    let lmax = mc.q(400, 1500);
    mc.bound(format!("every aad-only and message-only length 0..={lmax} x {PATTERNS} patterns"));
    mc.phase("one-sided", lmax + 1, |n, t| {
        for p in 0..PATTERNS {
            both(t, &pattern(p, 32), &pattern(4, 12), &pattern(p, n), &[]);
            both(t, &pattern(4, 32), &pattern(p, 12), &[], &pattern(p, n));
        }
    });
    mc.bound("every byte value at every key and iv position");
    mc.phase("key-iv-bytes", 44, |i, t| {
        let (mut k, mut n) = (pattern(4, 32), pattern(4, 12));
        for v in 0..=255u8 {
            if i < 32 {
                k[i] = v
            } else {
                n[i - 32] = v
            }
            both(t, &k, &n, &pattern(0, 3), &pattern(0, 17));
        }
    });
    mc.bound("aad / message lengths 2^k-1..2^k+1 up to 131073");
    mc.phase("long", mc.q(12, 15) * 6, |i, t| {
        let n = (1usize << (6 + i / 6)) + i % 3 - 1;
        if i % 6 < 3 {
            both(t, &pattern(4, 32), &pattern(4, 12), &pattern(4, n), &pattern(0, 5))
        } else {
            both(t, &pattern(4, 32), &pattern(4, 12), &pattern(0, 5), &pattern(4, n))
        }
    });
    mc.finish()
}

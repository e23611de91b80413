//! C22: AES-GCM (96-bit IV) equals SP 800-38D; GHASH over the full bit basis.
use hacspec::prelude::*;
use hacspec_examples::aes_gcm::{self as g, aes::{Key128, Key256, Nonce}, gf128};
use mc::conv::*;
use mc::refs::Aes;
use mc::*;

fn enc(k: &[u8], n: &[u8], a: &[u8], m: &[u8]) -> (String, String) {
    let n = Nonce::from_public_slice(n);
    let (c, t) = if k.len() == 16 {
        g::encrypt_aes128(Key128::from_public_slice(k), n, &bs(a), &bs(m))
    } else {
        g::encrypt_aes256(Key256::from_public_slice(k), n, &bs(a), &bs(m))
    };
    (hx(&vb(&c)), hx(&vb(&t)))
}
fn dec(k: &[u8], n: &[u8], a: &[u8], c: &[u8], tag: &[u8]) -> Option<String> {
    let n = Nonce::from_public_slice(n);
    let tag = gf128::Tag::from_public_slice(tag);
    let r = if k.len() == 16 {
        g::decrypt_aes128(Key128::from_public_slice(k), n, &bs(a), &bs(c), tag)
    } else {
        g::decrypt_aes256(Key256::from_public_slice(k), n, &bs(a), &bs(c), tag)
    };
    r.ok().map(|m| hx(&vb(&m)))
}
fn main() {
    let mc = Mc::new("C22");
    mc.selftest("reference models", refs::selftest().is_ok());
    let r = Aes::new();
    let both = |t: &mut Tr, k: &[u8], n: &[u8], a: &[u8], m: &[u8]| {
        let (c, tag) = r.gcm(k, n, a, m);
        let case = || format!("key {} iv {} aad {} msg {}", hx(k), hx(n), hxs(a), hxs(m));
        t.eq("encrypt", case, (hx(&c), hx(&tag)), || enc(k, n, a, m));
        t.eq("decrypt", case, Some(hx(m)), || dec(k, n, a, &c, &tag));
    };
    let (al, ml) = mc.q((40, 70), (100, 200));
    mc.bound(format!("every aad length 0..={al} x every message length 0..={ml}, both key sizes"));
    mc.phase("lengths", al + 1, |a, t| {
        for m in 0..=ml {
            both(t, &pattern(4, 16), &pattern(0, 12), &pattern(5, a), &pattern(4, m));
            both(t, &pattern(7, 32), &pattern(2, 12), &pattern(4, a), &pattern(5, m));
        }
    });
    let lmax = mc.q(300, 1200);
    mc.bound(format!("every aad-only and every message-only length 0..={lmax} x {PATTERNS} patterns"));
    mc.phase("one-sided", lmax + 1, |n, t| {
        for p in 0..PATTERNS {
            both(t, &pattern(p, 16), &pattern(4, 12), &pattern(p, n), &[]);
            both(t, &pattern(p, 32), &pattern(4, 12), &[], &pattern(p, n));
        }
    });
    mc.bound("aad/message lengths at powers of two up to 131073 (length-field carries)");
    mc.phase("long", mc.q(12, 15) * 6, |i, t| {
        let n = (1usize << (6 + i / 6)) + i % 3 - 1;
        if i % 6 < 3 {
            both(t, &pattern(4, 16), &pattern(4, 12), &pattern(4, n), &pattern(0, 5))
        } else {
            both(t, &pattern(4, 32), &pattern(4, 12), &pattern(0, 5), &pattern(4, n))
        }
    });
    mc.bound("GHASH: every pair (block basis vector, key basis vector), i.e. the whole bilinear map, in first and second block position");
    mc.phase("ghash-basis", 128, |i, t| {
        let e = |b: usize| {
            let mut v = vec![0u8; 16];
            v[b / 8] = 0x80 >> (b % 8);
            v
        };
        for j in 0..128 {
            for pre in [0usize, 16] {
                let mut m = pattern(4, pre);
                m.extend(e(i));
                let k = e(j);
                t.eq("ghash", || format!("text {} key {}", hx(&m), hx(&k)), hx(&refs::ghash(&k, &m)), || hx(&vb(&gf128::gmac(&bs(&m), gf128::Key::from_public_slice(&k)))));
            }
        }
    });
    mc.bound("GHASH: every text length 0..=100 (incl. unaligned) x all content patterns of text and key");
    mc.phase("ghash-lengths", 101, |n, t| {
        for p in 0..PATTERNS {
            for q in 0..PATTERNS {
                let (m, k) = (pattern(p, n), pattern(q, 16));
                t.eq("ghash", || format!("text {} key {}", hxs(&m), hx(&k)), hx(&refs::ghash(&k, &m)), || hx(&vb(&gf128::gmac(&bs(&m), gf128::Key::from_public_slice(&k)))));
            }
        }
    });
    if mc.thorough() {
        mc.bound("GHASH: every byte value pair (block byte, key byte) at every pair of byte positions");
        mc.phase("ghash-bytes", 256, |i, t| {
            let (a, b) = (i / 16, i % 16);
            for x in 0..=255u8 {
                for y in 0..=255u8 {
                    let (mut m, mut k) = (vec![0u8; 16], vec![0u8; 16]);
                    m[a] = x;
                    k[b] = y;
                    t.eq("ghash", || format!("text {} key {}", hx(&m), hx(&k)), hx(&refs::ghash(&k, &m)), || hx(&vb(&gf128::gmac(&bs(&m), gf128::Key::from_public_slice(&k)))));
                }
            }
        });
    }
    mc.bound("every byte value at every key/iv position, both key sizes");
    mc.phase("key-iv-bytes", 16 + 32 + 12 + 12, |i, t| {
        let (kl, pos) = if i < 28 { (16, i) } else { (32, i - 28) };
        let (mut k, mut n) = (pattern(4, kl), pattern(4, 12));
        for v in 0..=255u8 {
            if pos < kl {
                k[pos] = v
            } else {
                n[pos - kl] = v
            }
            both(t, &k, &n, &pattern(0, 3), &pattern(0, 17));
        }
    });
    mc.assume("GHASH for arbitrary operands follows from the basis pairs because the block multiplication is bilinear; non-bilinear deviations are caught on the enumerated operands only");
    mc.finish()
}

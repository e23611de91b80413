//! C17: HMAC-SHA-256 equals RFC 2104 for every key and message.
use hacspec_examples::hmac;
use mc::conv::*;
use mc::refs::Sha256;
use mc::*;

fn main() {
    let mc = Mc::new("C17");
    mc.selftest("reference models", refs::selftest().is_ok());
    let r = Sha256::new();
    let ck = |t: &mut Tr, k: &[u8], m: &[u8]| {
        t.eq("hmac", || format!("key {} msg {}", hxs(k), hxs(m)), hx(&r.hmac(k, m)), || hx(&vb(&hmac::hmac(&bs(k), &bs(m)))))
    };
    let (kl, ml) = mc.q((200, 200), (600, 700));
    mc.bound(format!("every key length 0..={kl} x every message length 0..={ml}, 2 content patterns"));
    mc.phase("lengths", kl + 1, |k, t| {
        for m in 0..=ml {
            ck(t, &pattern(0, k), &pattern(5, m));
            ck(t, &pattern(4, k), &pattern(7, m));
        }
    });
    mc.bound("every key length 0..=300 x all pattern pairs x message lengths {0,1,55,56,63,64,65,128}");
    mc.phase("patterns", 301, |k, t| {
        for p in 0..PATTERNS {
            for q in 0..PATTERNS {
                for m in [0usize, 1, 55, 56, 63, 64, 65, 128] {
                    ck(t, &pattern(p, k), &pattern(q, m));
                }
            }
        }
    });
    mc.bound("every single-bit key of 1..=66 bytes (also complemented) and every key byte value at every position of a 64-byte key");
    mc.phase("key-bits", 66, |l, t| {
        let l = l + 1;
        for b in 0..8 * l {
            let mut k = vec![0u8; l];
            k[b / 8] = 1 << (b % 8);
            ck(t, &k, b"msg");
            ck(t, &k.iter().map(|x| !x).collect::<Vec<_>>(), b"");
        }
    });
    mc.phase("key-bytes", 64, |i, t| {
        let mut k = pattern(4, 64);
        for v in 0..=255u8 {
            k[i] = v;
            ck(t, &k, b"what do ya want for nothing?");
        }
    });
    mc.bound("keys and messages up to 70000 bytes around the powers of two");
    let big: Vec<usize> = (9..17).flat_map(|k| [-65i64, -1, 0, 1, 55, 56, 64].iter().map(move |d| ((1i64 << k) + d) as usize).collect::<Vec<_>>()).collect();
    mc.phase("long", big.len() * 2, |i, t| {
        let n = big[i / 2];
        if i % 2 == 0 {
            ck(t, &pattern(4, n), b"x")
        } else {
            ck(t, b"key", &pattern(4, n))
        }
    });
    mc.finish()
}

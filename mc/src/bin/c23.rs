//! C23: ChaCha20 equals RFC 8439.
use hacspec::prelude::*;
use hacspec_examples::chacha20_poly1305::chacha20::{self as c, Key, State, IV};
use mc::conv::*;
use mc::*;

fn ws(s: &State) -> Vec<u32> {
    s.iter().map(|x| x.declassify()).collect()
}
fn mk(v: &[u32]) -> State {
    State::from_public_slice(v)
}
fn main() {
    let mc = Mc::new("C23");
    mc.selftest("reference models", refs::selftest().is_ok());
    let key = |k: &[u8]| Key::from_public_slice(k);
    let iv = |k: &[u8]| IV::from_public_slice(k);
    mc.bound("quarter round: every index quadruple (distinct) of the 16-word state used by the cipher and all 43680 ordered distinct quadruples, 3 states");
    mc.phase("qr-indices", 16, |a, t| {
        for b in 0..16 {
            for cc in 0..16 {
                for d in 0..16 {
                    let mut v = [a, b, cc, d];
                    v.sort();
                    if v.windows(2).any(|w| w[0] == w[1]) {
                        continue;
                    }
                    for p in 0..3u64 {
                        let mut s = Stream(p);
                        let st: Vec<u32> = (0..16).map(|_| if p == 0 { u32::MAX } else { s.u64() as u32 }).collect();
                        let mut w = st.clone();
                        refs::qr(&mut w, a, b, cc, d);
                        t.eq("quarter-round", || format!("({a},{b},{cc},{d}) on {st:08x?}"), w, || ws(&c::quarter_round(a as u32, b as u32, cc as u32, d as u32, mk(&st))));
                    }
                }
            }
        }
    });
    mc.bound("quarter round: every quadruple of words from a 20-value boundary alphabet");
    let al: [u32; 20] = [0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x55555555, 0xaaaaaaaa, 0x01234567, 0x89abcdef, 0x00ff00ff];
    mc.phase("qr-words", 400, |i, t| {
        for x in 0..400 {
            let mut st = vec![0u32; 16];
            st[0] = al[i / 20];
            st[4] = al[i % 20];
            st[8] = al[x / 20];
            st[12] = al[x % 20];
            let mut w = st.clone();
            refs::qr(&mut w, 0, 4, 8, 12);
            t.eq("quarter-round", || format!("(0,4,8,12) on {st:08x?}"), w, || ws(&c::quarter_round(0, 4, 8, 12, mk(&st))));
        }
    });
    let blk = |t: &mut Tr, k: &[u8], ct: u32, n: &[u8]| {
        let case = || format!("key {} ctr {:#x} iv {}", hx(k), ct, hx(n));
        t.eq("init", case, refs::chacha_init(k, ct, n), || ws(&c::block_init(key(k), U32::classify(ct), iv(n))));
        t.eq("inner", case, refs::chacha_words(k, ct, n), || ws(&c::block_inner(key(k), U32::classify(ct), iv(n))));
        t.eq("block", case, hx(&refs::chacha_block(k, ct, n)), || hx(&vb(&c::block(key(k), U32::classify(ct), iv(n)))));
    };
    mc.bound("block: every byte value at every key and iv position; counters within 20 of every power of two; every single-bit key/iv/counter");
    mc.phase("block-bytes", 44, |i, t| {
        for p in [1usize, 2, 4] {
            let (mut k, mut n) = (pattern(p, 32), pattern(p, 12));
            for v in 0..=255u8 {
                if i < 32 {
                    k[i] = v
                } else {
                    n[i - 32] = v
                }
                blk(t, &k, 1, &n);
            }
        }
    });
    mc.phase("block-counters", 33, |k, t| {
        for d in -20i64..=20 {
            blk(t, &pattern(4, 32), ((1i64 << k) + d) as u32, &pattern(4, 12));
        }
    });
    mc.phase("block-bits", 256, |b, t| {
        let mut k = vec![0u8; 32];
        k[b / 8] = 1 << (b % 8);
        for j in 0..128 {
            let mut n = vec![0u8; 12];
            let mut ct = 0;
            if j < 96 {
                n[j / 8] = 1 << (j % 8)
            } else {
                ct = 1 << (j - 96)
            }
            blk(t, &k, ct, &n);
        }
    });
    mc.bound("state serialisation: every byte value at every one of the 64 byte positions");
    mc.phase("state-bytes", 64, |i, t| {
        for v in 0..=255u8 {
            let mut b = pattern(4, 64);
            b[i] = v;
            let st: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
            t.eq("state-bytes", || hx(&b), hx(&b), || hx(&vb(&c::state_to_bytes(mk(&st)))));
        }
    });
    let lmax = mc.q(1100, 4300);
    let ck = |t: &mut Tr, k: &[u8], n: &[u8], m: &[u8]| {
        t.eq("cipher", || format!("key {} iv {} msg {}", hx(k), hx(n), hxs(m)), Some(hx(&refs::chacha20(k, n, 1, m))), || c::chacha(key(k), iv(n), &bs(m)).ok().map(|x| hx(&vb(&x))))
    };
    mc.bound(format!("cipher: every message length 0..={lmax} x {PATTERNS} patterns; messages of 2^k+-1 bytes up to 2^22"));
    mc.phase("cipher-lengths", lmax + 1, |n, t| {
        for p in 0..PATTERNS {
            ck(t, &pattern(p, 32), &pattern(p, 12), &pattern(p, n));
        }
    });
    mc.phase("cipher-long", 3 * mc.q(13, 15), |i, t| ck(t, &pattern(4, 32), &pattern(5, 12), &pattern(4, (1 << (10 + i / 3)) + i % 3 - 1)));
    mc.finish()
}

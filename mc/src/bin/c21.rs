//! C21: AES-128/256 block function and counter mode equal FIPS 197 / SP 800-38A.
use hacspec::prelude::*;
use hacspec_examples::aes_gcm::aes::{self, Block, Key128, Key256, Nonce};
use mc::conv::*;
use mc::refs::Aes;
use mc::*;

fn imp_block(k: &[u8], b: &[u8]) -> Vec<u8> {
    let b = Block::from_public_slice(b);
    if k.len() == 16 {
        vb(&aes::aes128_encrypt_block(Key128::from_public_slice(k), b, 4, 10))
    } else {
        vb(&aes::aes256_encrypt_block(Key256::from_public_slice(k), b, 8, 14))
    }
}
fn imp_ctr(k: &[u8], n: &[u8], c: u32, m: &[u8], dec: bool) -> Vec<u8> {
    let n = Nonce::from_public_slice(n);
    let (c, m) = (U32::classify(c), bs(m));
    vb(&match (k.len(), dec) {
        (16, false) => aes::aes128_encrypt(Key128::from_public_slice(k), n, c, &m),
        (16, true) => aes::aes128_decrypt(Key128::from_public_slice(k), n, c, &m),
        (_, false) => aes::aes256_encrypt(Key256::from_public_slice(k), n, c, &m),
        (_, true) => aes::aes256_decrypt(Key256::from_public_slice(k), n, c, &m),
    })
}
fn main() {
    let mc = Mc::new("C21");
    mc.selftest("reference models", refs::selftest().is_ok());
    let r = Aes::new();
    let blk = |t: &mut Tr, k: &[u8], b: &[u8]| t.eq("block", || format!("key {} in {}", hx(k), hx(b)), hx(&r.block(k, b)), || hx(&imp_block(k, b)));
    let ctr = |t: &mut Tr, k: &[u8], n: &[u8], c: u32, m: &[u8]| {
        let w = hx(&r.ctr(k, n, c, m));
        t.eq("ctr-encrypt", || format!("key {} nonce {} ctr {:#x} msg {}", hx(k), hx(n), c, hxs(m)), w.clone(), || hx(&imp_ctr(k, n, c, m, false)));
        t.eq("ctr-decrypt", || format!("key {} nonce {} ctr {:#x} ctxt {}", hx(k), hx(n), c, hxs(m)), w, || hx(&imp_ctr(k, n, c, m, true)));
    };
    mc.bound("block: every byte value at every input position and at every key position, both key sizes, backgrounds zero/ff/mixed");
    mc.phase("block-bytes", (16 + 16) * 3 + (16 + 32) * 3, |i, t| {
        let (kl, i) = if i < 96 { (16usize, i) } else { (32, i - 96) };
        let (bg, pos) = (i % 3, i / 3);
        let pat = [1usize, 2, 4][bg];
        let (mut k, mut b) = (pattern(pat, kl), pattern(pat, 16));
        for v in 0..=255u8 {
            if pos < 16 {
                b[pos] = v;
            } else {
                k[pos - 16] = v;
            }
            blk(t, &k, &b);
        }
    });
    mc.bound("block: every single-bit input x every single-bit key, both key sizes");
    mc.phase("block-bits", 128 + 256, |i, t| {
        let (kl, i) = if i < 128 { (16usize, i) } else { (32, i - 128) };
        let mut k = vec![0u8; kl];
        k[i / 8] = 0x80 >> (i % 8);
        for j in 0..128 {
            let mut b = vec![0u8; 16];
            b[j / 8] = 0x80 >> (j % 8);
            blk(t, &k, &b);
        }
    });
    if mc.thorough() {
        mc.bound("block: every pair of byte values at every pair of key positions (zero background), AES-128, and adjacent positions AES-256");
        mc.phase("block-key-pairs", 120 + 31, |i, t| {
            let (kl, a, b) = if i < 120 {
                let p: Vec<(usize, usize)> = (0..16).flat_map(|a| (a + 1..16).map(move |b| (a, b))).collect();
                (16, p[i].0, p[i].1)
            } else {
                (32, i - 120, i - 119)
            };
            let mut k = vec![0u8; kl];
            for x in 0..=255u8 {
                for y in 0..=255u8 {
                    k[a] = x;
                    k[b] = y;
                    blk(t, &k, &pattern(0, 16));
                }
            }
        });
    }
    mc.bound("wrong round/word parameters are not explored (the parameters are fixed by the key size)");
    let lmax = mc.q(300, 1100);
    mc.bound(format!("counter mode: every message length 0..={lmax} x 8 initial counters (incl. wrap points) x 2 key sizes x 3 patterns"));
    let ctrs = [0u32, 1, 2, 0xfe, 0xfffe, 0xff_fffe, 0x7fff_fffe, 0xffff_fffd];
    mc.phase("ctr-lengths", lmax + 1, |n, t| {
        for (ci, c) in ctrs.iter().enumerate() {
            for p in [1, 4] {
                ctr(t, &pattern(4, 16), &pattern(5, 12), *c, &pattern(p + ci % 2, n));
                ctr(t, &pattern(7, 32), &pattern(3, 12), *c, &pattern(p + ci % 2, n));
            }
        }
    });
    mc.bound("counter mode: every counter within 20 of every power of two (and of 0), three-block messages");
    mc.phase("ctr-counters", 33, |k, t| {
        for d in -20i64..=20 {
            let c = ((1i64 << k) + d) as u32;
            ctr(t, &pattern(4, 16), &pattern(5, 12), c, &pattern(1, 45));
            ctr(t, &pattern(4, 32), &pattern(5, 12), c, &pattern(1, 45));
        }
    });
    mc.bound("counter mode: every byte value at every nonce position");
    mc.phase("ctr-nonce", 12, |i, t| {
        let mut n = pattern(4, 12);
        for v in 0..=255u8 {
            n[i] = v;
            ctr(t, &pattern(4, 16), &n, 1, &pattern(0, 20));
            ctr(t, &pattern(4, 32), &n, 1, &pattern(0, 20));
        }
    });
    let big = mc.q(1_100_000, 4_400_000);
    mc.bound(format!("counter mode: one message of {big} bytes per key size (block index past 8/16 bits)"));
    mc.phase("ctr-long", 2, |i, t| ctr(t, &pattern(4, [16, 32][i]), &pattern(5, 12), 0xffff_ff00, &pattern(4, big)));
    mc.finish()
}

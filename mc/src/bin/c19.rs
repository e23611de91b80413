//! C19: SHA-3 and SHAKE equal FIPS 202 for every message and output length.
use hacspec_examples::fips202 as f;
use mc::conv::*;
use mc::refs::Keccak;
use mc::*;

const NAMES: [&str; 6] = ["sha3224", "sha3256", "sha3384", "sha3512", "shake128", "shake256"];
const RATE: [usize; 6] = [144, 136, 104, 72, 168, 136];

fn imp(a: usize, m: &[u8], out: usize) -> Vec<u8> {
    let m = bs(m);
    match a {
        0 => vb(&f::sha3224(&m)),
        1 => vb(&f::sha3256(&m)),
        2 => vb(&f::sha3384(&m)),
        3 => vb(&f::sha3512(&m)),
        4 => vb(&f::shake128(&m, out)),
        _ => vb(&f::shake256(&m, out)),
    }
}
fn main() {
    let mc = Mc::new("C19");
    mc.selftest("reference models", refs::selftest().is_ok());
    let k = Keccak::new();
    let model = |a: usize, m: &[u8], out: usize| k.sponge(RATE[a], if a < 4 { 6 } else { 0x1f }, m, if a < 4 { [28, 32, 48, 64][a] } else { out });
    let ck = |t: &mut Tr, a: usize, m: &[u8], out: usize| t.eq(NAMES[a], || format!("msg {} out {}", hxs(m), out), hx(&model(a, m, out)), || hx(&imp(a, m, out)));
    let max = mc.q(700, 2100);
    mc.bound(format!("all six functions: every message length 0..={max} x {PATTERNS} patterns (SHAKE output 32 and 200)"));
    mc.phase("lengths", max + 1, |n, t| {
        for a in 0..6 {
            for p in 0..PATTERNS {
                ck(t, a, &pattern(p, n), if p % 2 == 0 { 32 } else { 200 });
            }
        }
    });
    let omax = mc.q(1100, 4000);
    mc.bound(format!("SHAKE: every output length 0..={omax} for message lengths {{0,1,135,136,167,168,169}}"));
    mc.phase("outputs", omax + 1, |o, t| {
        for n in [0usize, 1, 135, 136, 167, 168, 169] {
            ck(t, 4, &pattern(4, n), o);
            ck(t, 5, &pattern(4, n), o);
        }
    });
    mc.bound("every single-bit message (and complement) of rate-1, rate and rate+1 bytes, for every function");
    mc.phase("bits", 6 * 3, |i, t| {
        let (a, l) = (i / 3, RATE[i / 3] + i % 3 - 1);
        for b in 0..8 * l {
            let mut m = vec![0u8; l];
            m[b / 8] = 1 << (b % 8);
            ck(t, a, &m, 40);
            ck(t, a, &m.iter().map(|x| !x).collect::<Vec<_>>(), 40);
        }
    });
    mc.bound("every byte value in the last byte position of messages of rate-2..rate+1 bytes (padding collisions), for every function");
    mc.phase("last-byte", 6 * 4, |i, t| {
        let (a, l) = (i / 4, RATE[i / 4] + i % 4 - 2);
        let mut m = pattern(4, l);
        for v in 0..=255u8 {
            m[l - 1] = v;
            ck(t, a, &m, 16);
        }
    });
    let big: Vec<usize> = (10..mc.q(17, 20)).flat_map(|k| [-1i64, 0, 1].iter().map(move |d| ((1i64 << k) + d) as usize).collect::<Vec<_>>()).collect();
    mc.bound(format!("long messages and SHAKE outputs at powers of two up to {}", big.last().unwrap()));
    mc.phase("long", big.len() * 8, |i, t| {
        let n = big[i / 8];
        match i % 8 {
            6 => ck(t, 4, b"abc", n),
            7 => ck(t, 5, b"abc", n),
            a => ck(t, a, &pattern(4, n), 64),
        }
    });
    mc.finish()
}

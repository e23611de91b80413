//! C20: BLAKE2b-512 (unkeyed) equals RFC 7693 for every message.
use hacspec_examples::blake2::blake2b as b;
use mc::conv::*;
use mc::*;

fn main() {
    let mc = Mc::new("C20");
    mc.selftest("reference models", refs::selftest().is_ok());
    let ck = |t: &mut Tr, m: &[u8]| t.eq("blake2b", || hxs(m), hx(&refs::blake2b(m)), || hx(&vb(&b::blake2b(&bs(m)))));
    let max = mc.q(1100, 4200);
    mc.bound(format!("every message length 0..={max} x {PATTERNS} patterns"));
    mc.phase("lengths", max + 1, |n, t| {
        for p in 0..PATTERNS {
            ck(t, &pattern(p, n));
        }
    });
    mc.bound("every single-bit message (and complement) of 127,128,129,255,256 bytes");
    mc.phase("bits", 256 * 8, |bit, t| {
        for l in [127usize, 128, 129, 255, 256] {
            if bit < l * 8 {
                let mut m = vec![0u8; l];
                m[bit / 8] = 1 << (bit % 8);
                ck(t, &m);
                ck(t, &m.iter().map(|x| !x).collect::<Vec<_>>());
            }
        }
    });
    mc.bound("every byte value at every position of a 128-byte message");
    mc.phase("byte-values", 128, |i, t| {
        let mut m = pattern(4, 128);
        for v in 0..=255u8 {
            m[i] = v;
            ck(t, &m);
        }
    });
    let big: Vec<usize> = (11..mc.q(19, 25)).flat_map(|k| [-129i64, -128, -127, -1, 0, 1, 127, 128].iter().map(move |d| ((1i64 << k) + d) as usize).collect::<Vec<_>>()).collect();
    mc.bound(format!("long messages at powers of two up to {}", big.last().unwrap()));
    mc.phase("long", big.len(), |i, t| ck(t, &pattern(4, big[i])));
    mc.finish()
}

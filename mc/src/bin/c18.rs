//! C18: HKDF-SHA-256 equals RFC 5869 and refuses over-long outputs.
use hacspec_examples::hkdf;
use mc::conv::*;
use mc::refs::Sha256;
use mc::*;

fn main() {
    let mc = Mc::new("C18");
    mc.selftest("reference models", refs::selftest().is_ok());
    let r = Sha256::new();
    let ext = |t: &mut Tr, s: &[u8], i: &[u8]| {
        t.eq("extract", || format!("salt {} ikm {}", hxs(s), hxs(i)), hx(&r.hkdf_extract(s, i)), || hx(&vb(&hkdf::extract(&bs(s), &bs(i)))))
    };
    let exp = |t: &mut Tr, p: &[u8], i: &[u8], l: usize| {
        t.opt("expand", || format!("prk {} info {} l {}", hxs(p), hxs(i), l), r.hkdf_expand(p, i, l).map(|x| hx(&x)), || hx(&vb(&hkdf::expand(&bs(p), &bs(i), l))))
    };
    let (sl, il) = mc.q((140, 140), (300, 300));
    mc.bound(format!("extract: every salt length 0..={sl} x every input length 0..={il}, 2 patterns"));
    mc.phase("extract", sl + 1, |s, t| {
        for i in 0..=il {
            ext(t, &pattern(0, s), &pattern(4, i));
            ext(t, &pattern(2, s), &pattern(5, i));
        }
    });
    mc.bound("expand: every output length 0..=8200 (the limit is 8160) with fixed key and info");
    mc.phase("expand-len", 8201, |l, t| exp(t, &pattern(4, 32), &pattern(0, 10), l));
    let (pl, nl, ll) = mc.q((70, 140, 7), (130, 200, 12));
    let ls = [0usize, 1, 31, 32, 33, 64, 65, 96, 97, 128, 255, 256];
    mc.bound(format!("expand: every key length 0..={pl} x every info length 0..={nl} x output lengths {:?}", &ls[..ll]));
    mc.phase("expand-shapes", pl + 1, |p, t| {
        for n in 0..=nl {
            for l in &ls[..ll] {
                exp(t, &pattern(4, p), &pattern(5, n), *l);
            }
        }
    });
    mc.bound("expand: every info content pattern, info lengths 0..=64, output 8160; key patterns");
    mc.phase("expand-max", 65, |n, t| {
        for p in 0..PATTERNS {
            exp(t, &pattern(p, 32), &pattern(p, n), 8160);
        }
    });
    let big = [255usize, 256, 257, 4095, 4096, 65535, 65536, 65537, 131073];
    mc.bound("extract and expand: salts, inputs, keys and infos of up to 131073 bytes around the powers of two");
    mc.phase("long", big.len() * 4, |i, t| {
        let b = pattern(4, big[i / 4]);
        match i % 4 {
            0 => ext(t, &b, b"input"),
            1 => ext(t, b"salt", &b),
            2 => exp(t, &b, b"info", 100),
            _ => exp(t, &pattern(4, 32), &b, 100),
        }
    });
    mc.bound("expand: lengths far above the limit are refused (every power of two up to 2^63 and its neighbours)");
    mc.phase("expand-refused", 64, |k, t| {
        for d in [-1i128, 0, 1, 31, 32] {
            let l = (1i128 << k) + d;
            if l > 8160 && l <= usize::MAX as i128 {
                exp(t, &pattern(4, 32), b"", l as usize);
            }
        }
    });
    mc.finish()
}

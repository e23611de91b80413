//! C28: authenticated decryption releases a plaintext only for the exact tag of exactly these inputs.
use hacspec::prelude::*;
use hacspec_examples::aes_gcm::{self, aes::{Key128, Key256, Nonce}};
use hacspec_examples::chacha20_poly1305 as cp;
use mc::conv::*;
use mc::*;

#[derive(Clone, PartialEq, Debug)]
struct Rec {
    key: Vec<u8>,
    iv: Vec<u8>,
    aad: Vec<u8>,
    ct: Vec<u8>,
    tag: Vec<u8>,
}
const SUITES: [&str; 3] = ["chacha20-poly1305", "aes128-gcm", "aes256-gcm"];
fn real(s: usize, r: &Rec) -> Option<String> {
    let out = match s {
        0 => cp::decrypt(cp::chacha20::Key::from_public_slice(&r.key), cp::chacha20::IV::from_public_slice(&r.iv), &bs(&r.aad), &bs(&r.ct), cp::poly1305::Tag::from_slice(&r.tag)),
        1 => aes_gcm::decrypt_aes128(Key128::from_public_slice(&r.key), Nonce::from_public_slice(&r.iv), &bs(&r.aad), &bs(&r.ct), aes_gcm::gf128::Tag::from_public_slice(&r.tag)),
        _ => aes_gcm::decrypt_aes256(Key256::from_public_slice(&r.key), Nonce::from_public_slice(&r.iv), &bs(&r.aad), &bs(&r.ct), aes_gcm::gf128::Tag::from_public_slice(&r.tag)),
    };
    out.ok().map(|m| hx(&vb(&m)))
}
/// the decision of the standard: recompute the tag over key, iv, aad and ciphertext
fn want(s: usize, aes: &refs::Aes, r: &Rec) -> Option<String> {
    let (m, tag) = match s {
        0 => {
            let m = refs::chacha20(&r.key, &r.iv, 1, &r.ct);
            let (_, t) = refs::chachapoly(&r.key, &r.iv, &r.aad, &m);
            (m, t)
        }
        _ => {
            let m = aes.ctr(&r.key, &r.iv, 2, &r.ct);
            let (_, t) = aes.gcm(&r.key, &r.iv, &r.aad, &m);
            (m, t)
        }
    };
    if tag == r.tag { Some(hx(&m)) } else { None }
}
fn honest(s: usize, aes: &refs::Aes, p: usize, al: usize, ml: usize) -> Rec {
    let key = pattern(p, if s == 1 { 16 } else { 32 });
    let iv = pattern((p + 1) % PATTERNS, 12);
    let (aad, m) = (pattern(4, al), pattern(if p == 0 { 0 } else { 5 }, ml));
    let (ct, tag) = if s == 0 { refs::chachapoly(&key, &iv, &aad, &m) } else { aes.gcm(&key, &iv, &aad, &m) };
    Rec { key, iv, aad, ct, tag }
}
impl Rec {
    fn field(&mut self, f: usize) -> &mut Vec<u8> {
        match f { 0 => &mut self.key, 1 => &mut self.iv, 2 => &mut self.aad, 3 => &mut self.ct, _ => &mut self.tag }
    }
}
fn main() {
    let mc = Mc::new("C28");
    mc.selftest("reference models", refs::selftest().is_ok());
    let aes = refs::Aes::new();
    let judge = |t: &mut Tr, s: usize, r: &Rec, what: &str| {
        t.eq(&format!("{} {}", SUITES[s], what), || format!("key {} iv {} aad {} ct {} tag {}", hx(&r.key), hx(&r.iv), hxs(&r.aad), hxs(&r.ct), hx(&r.tag)), want(s, &aes, r), || real(s, r));
    };
    let sizes: &[(usize, usize)] = mc.q(&[(0, 0), (0, 1), (1, 0), (5, 17), (16, 16), (20, 33)], &[(0, 0), (0, 1), (1, 0), (3, 5), (5, 17), (15, 16), (16, 16), (17, 64), (20, 33), (32, 65)]);
    // every single-bit change of every input
    mc.bound(format!("every single-bit change of key, iv, aad, ciphertext and tag; every other value of every tag byte; aad/message lengths {:?}, 2 contents, 3 suites", sizes));
    let grid: Vec<(usize, usize, usize, usize)> = (0..3).flat_map(|s| [4usize, 0].into_iter().flat_map(move |p| sizes.iter().map(move |(a, m)| (s, p, *a, *m)))).collect();
    let n = grid.len();
    mc.phase("bit-flips", n * 6, |i, t| {
        let (s, p, al, ml) = grid[i % n];
        let h = honest(s, &aes, p, al, ml);
        let f = i / n;
        if f == 5 {
            judge(t, s, &h, "accepts the honest record");
            for k in 0..16 {
                for v in 0..=255u8 {
                    let mut r = h.clone();
                    r.tag[k] = v;
                    judge(t, s, &r, "tag byte");
                }
            }
            return;
        }
        let len = h.clone().field(f).len();
        for b in 0..len * 8 {
            let mut r = h.clone();
            r.field(f)[b / 8] ^= 1 << (b % 8);
            judge(t, s, &r, ["key bit", "iv bit", "aad bit", "ciphertext bit", "tag bit"][f]);
        }
    });
    // every pair of bits of the tag, and of tag and ciphertext
    let few: Vec<(usize, usize, usize, usize)> = grid.iter().copied().filter(|g| g.2 + g.3 == 1 || g.2 + g.3 == 22 || g.2 + g.3 == 32).collect();
    let n = few.len();
    mc.bound(format!("every pair of tag bits; every (tag bit, ciphertext bit) pair; {n} records"));
    mc.phase("bit-pairs", n * 128, |i, t| {
        let (s, p, al, ml) = few[i % n];
        let h = honest(s, &aes, p, al, ml);
        let b = i / n;
        for c in b + 1..128 {
            let mut r = h.clone();
            r.tag[b / 8] ^= 1 << (b % 8);
            r.tag[c / 8] ^= 1 << (c % 8);
            judge(t, s, &r, "two tag bits");
        }
        for c in 0..h.ct.len() * 8 {
            let mut r = h.clone();
            r.tag[b / 8] ^= 1 << (b % 8);
            r.ct[c / 8] ^= 1 << (c % 8);
            judge(t, s, &r, "tag and ciphertext bit");
        }
    });
    // lengths: truncation, extension, moving the boundary
    mc.bound("every truncation (either end) and extension by 1..=40 zero or other bytes of aad and ciphertext; every position of the boundary between aad and ciphertext, with and without padding");
    let n = grid.len();
    mc.phase("lengths", n, |i, t| {
        let (s, p, al, ml) = grid[i];
        let h = honest(s, &aes, p, al, ml);
        for f in [2, 3] {
            let whole = h.clone().field(f).clone();
            for k in 0..whole.len() {
                let mut r = h.clone();
                *r.field(f) = whole[..k].to_vec();
                judge(t, s, &r, "truncated end");
                *r.field(f) = whole[whole.len() - k..].to_vec();
                judge(t, s, &r, "truncated start");
            }
            for k in 1..=40 {
                for v in [0u8, 1, 0x80, 0xff] {
                    let mut r = h.clone();
                    r.field(f).extend(vec![v; k]);
                    judge(t, s, &r, "extended end");
                    let mut r = h.clone();
                    *r.field(f) = [vec![v; k], whole.clone()].concat();
                    judge(t, s, &r, "extended start");
                }
            }
        }
        let pad = |v: &[u8]| { let mut v = v.to_vec(); while v.len() % 16 != 0 { v.push(0) } v };
        for (a, c) in [(h.aad.clone(), h.ct.clone()), (pad(&h.aad), h.ct.clone()), (h.aad.clone(), pad(&h.ct)), (pad(&h.aad), pad(&h.ct))] {
            let all = [a, c].concat();
            for k in 0..=all.len() {
                let mut r = h.clone();
                r.aad = all[..k].to_vec();
                r.ct = all[k..].to_vec();
                judge(t, s, &r, "moved boundary");
            }
        }
        let mut r = h.clone();
        std::mem::swap(&mut r.aad, &mut r.ct);
        judge(t, s, &r, "swapped aad and ciphertext");
    });
    // forgeries that do not start from a neighbouring tag
    mc.bound("tags that repeat one byte (256), rotations, reversals, byte exchanges, uniform masks (255), partial tags, and the tags of every other record of the grid");
    mc.phase("forged-tags", n, |i, t| {
        let (s, p, al, ml) = grid[i];
        let h = honest(s, &aes, p, al, ml);
        let go = |t: &mut Tr, tag: Vec<u8>| { let mut r = h.clone(); r.tag = tag; judge(t, s, &r, "forged tag"); };
        for v in 0..=255u8 {
            go(t, vec![v; 16]);
            go(t, h.tag.iter().map(|x| x ^ v).collect());
            go(t, h.tag.iter().map(|x| x.wrapping_add(v)).collect());
        }
        for k in 0..16 {
            let mut x = h.tag.clone();
            x.rotate_left(k);
            go(t, x.clone());
            x.reverse();
            go(t, x);
            go(t, [h.tag[..k].to_vec(), vec![0; 16 - k]].concat());
            go(t, [vec![0; 16 - k], h.tag[16 - k..].to_vec()].concat());
            go(t, [h.tag[..k].to_vec(), h.tag[k..].iter().map(|x| !x).collect()].concat());
            go(t, [h.tag[..k].iter().map(|x| !x).collect(), h.tag[k..].to_vec()].concat());
            for j in 0..k {
                let mut x = h.tag.clone();
                x.swap(j, k);
                go(t, x);
            }
        }
        for g in &grid {
            if g.0 == s {
                let o = honest(g.0, &aes, g.1, g.2, g.3);
                go(t, o.tag.clone());
                // whole fields of another record
                for f in 0..5 {
                    let mut r = h.clone();
                    *r.field(f) = o.clone().field(f).clone();
                    judge(t, s, &r, "spliced record");
                    let mut r = o.clone();
                    *r.field(f) = h.clone().field(f).clone();
                    judge(t, s, &r, "spliced record");
                }
            }
        }
    });
    // records of many blocks: one change at every byte, and at the powers of two of long ones
    let mid = mc.q([(257usize, 300usize)].to_vec(), [(257, 300), (300, 257), (1030, 4100)].to_vec());
    mc.bound(format!("one changed bit in every byte of aad and ciphertext of records of {mid:?} bytes"));
    mc.phase("every-byte", 3 * mid.len() * 16, |i, t| {
        let (s, (al, ml), lane) = (i % 3, mid[i / 3 % mid.len()], i / 3 / mid.len());
        let h = honest(s, &aes, 4, al, ml);
        for b in (lane..al + ml).step_by(16) {
            let mut r = h.clone();
            if b < al { r.aad[b] ^= 1 << (b % 8) } else { r.ct[b - al] ^= 1 << (b % 8) }
            judge(t, s, &r, "changed byte");
        }
    });
    let big: Vec<(usize, usize)> = mc.q(vec![(5, 65600), (65600, 5)], vec![(5, 65600), (65600, 5), (65536, 65536), (0, 131100), (131100, 0)]);
    let cuts = [1i64, 16, 255, 256, 4096, 8192, 65535, 65536, -1, -16, -256, -8192, -65536];
    let mut places: Vec<usize> = (0..17).flat_map(|k| [(1usize << k) - 1, 1 << k]).collect();
    places.dedup();
    mc.bound(format!("records of {big:?} bytes: accepted when honest; refused with one byte changed at each power of two and before it, and with {} other lengths", cuts.len()));
    let jobs: Vec<(usize, usize, usize)> = (0..3).flat_map(|s| (0..big.len()).flat_map(move |b| (0..7).map(move |k| (s, b, k)))).collect();
    mc.phase("long-records", jobs.len(), |i, t| {
        let (s, b, lane) = jobs[i];
        let h = honest(s, &aes, 4, big[b].0, big[b].1);
        let f = if big[b].0 > big[b].1 { 2 } else { 3 };
        let n = h.clone().field(f).len();
        if lane == 0 {
            judge(t, s, &h, "accepts the honest long record");
        }
        for (k, p) in places.iter().copied().chain([n - 1, n / 2]).enumerate() {
            if k % 7 == lane && p < n {
                let mut r = h.clone();
                r.field(f)[p] ^= 1 << (p % 8);
                judge(t, s, &r, "changed byte of a long record");
            }
        }
        for (k, c) in cuts.iter().enumerate() {
            if k % 7 == lane && (n as i64) > *c {
                let mut r = h.clone();
                r.field(f).resize((n as i64 - c) as usize, 0);
                judge(t, s, &r, "long record with another length");
            }
        }
    });
    // adversary histories: every sequence of tampering steps, undone ones included
    let d = mc.q(4usize, 5);
    type Op = (usize, u8, usize, u8); // field, kind, position from start/end, value
    let ops: Vec<Op> = vec![(2, 0, 0, 1), (2, 1, 0, 0x80), (3, 0, 0, 1), (3, 1, 0, 0x80), (4, 0, 0, 1), (4, 1, 0, 0x80), (4, 0, 0, 0x80), (1, 0, 0, 1), (0, 1, 0, 1), (2, 2, 0, 0), (2, 3, 0, 0), (3, 2, 0, 0), (3, 3, 0, 0), (3, 4, 0, 0), (2, 4, 0, 0)];
    mc.bound(format!("every history of {d} tampering steps out of {} (flip a bit at either end of a field, append or remove a byte, move a byte over the boundary)", ops.len()));
    let hg: Vec<(usize, usize, usize, usize)> = (0..3).flat_map(|s| [(s, 4, 2, 3), (s, 4, 15, 16)]).collect();
    mc.phase("tamper-histories", hg.len() * ops.len().pow(2), |i, t| {
        let (s, p, al, ml) = hg[i % hg.len()];
        let base = honest(s, &aes, p, al, ml);
        for j in 0..ops.len().pow(d as u32 - 2) {
            let mut at = i / hg.len() + j * ops.len().pow(2);
            let mut r = base.clone();
            for _ in 0..d {
                let (f, kind, _, v) = ops[at % ops.len()];
                at /= ops.len();
                match kind {
                    0 => if let Some(b) = r.field(f).first_mut() { *b ^= v },
                    1 => if let Some(b) = r.field(f).last_mut() { *b ^= v },
                    2 => r.field(f).push(0),
                    3 => { r.field(f).pop(); }
                    _ if f == 3 => if !r.ct.is_empty() { let b = r.ct.remove(0); r.aad.push(b) },
                    _ => if let Some(b) = r.aad.pop() { r.ct.insert(0, b) },
                }
                t.state(&(s, &r.key, &r.iv, &r.aad, &r.ct, &r.tag));
            }
            judge(t, s, &r, "history");
        }
    });
    mc.assume("collisions are judged by the reference tag: a changed record whose reference tag happens to match is expected to be accepted");
    mc.finish()
}

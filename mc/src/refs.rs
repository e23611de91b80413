//! Boring, independent reference models of the standards (FIPS 180-4, RFC 2104, RFC 5869,
//! FIPS 202, RFC 7693, FIPS 197, SP 800-38A/D, RFC 8439, RFC 7748, FIPS 186-4).
use num::bigint::BigUint;
use num::{One, Zero};

fn primes(n: usize) -> Vec<u64> {
    (2u64..).filter(|p| (2..*p).take_while(|d| d * d <= *p).all(|d| p % d != 0)).take(n).collect()
}
/// First `bits` bits of the fractional part of the k-th root of p (computed, not copied).
fn frac_root(p: u64, k: u32, bits: u32) -> u64 {
    let n = BigUint::from(p) << (bits * k) as usize;
    let r = num::integer::Roots::nth_root(&n, k);
    let m = r & ((BigUint::one() << bits as usize) - 1u32);
    m.to_u64_digits_().first().copied().unwrap_or(0)
}
trait Digs {
    fn to_u64_digits_(&self) -> Vec<u64>;
}
impl Digs for BigUint {
    fn to_u64_digits_(&self) -> Vec<u64> {
        self.to_bytes_le().chunks(8).map(|c| c.iter().rev().fold(0u64, |a, b| a << 8 | *b as u64)).collect()
    }
}

pub struct Sha256 {
    k: Vec<u32>,
    h0: Vec<u32>,
}
impl Sha256 {
    pub fn new() -> Self {
        Sha256 {
            k: primes(64).iter().map(|p| frac_root(*p, 3, 32) as u32).collect(),
            h0: primes(8).iter().map(|p| frac_root(*p, 2, 32) as u32).collect(),
        }
    }
    pub fn hash(&self, m: &[u8]) -> Vec<u8> {
        let mut p = m.to_vec();
        p.push(0x80);
        while p.len() % 64 != 56 {
            p.push(0);
        }
        p.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
        let mut h = self.h0.clone();
        for b in p.chunks(64) {
            let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
            for t in 16..64 {
                let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
                let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
                w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
            }
            let mut v = h.clone();
            for t in 0..64 {
                let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
                let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
                let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(self.k[t]).wrapping_add(w[t]);
                let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
                let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
                let t2 = s0.wrapping_add(mj);
                v.rotate_right(1);
                v[4] = v[4].wrapping_add(t1);
                v[0] = t1.wrapping_add(t2);
            }
            for i in 0..8 {
                h[i] = h[i].wrapping_add(v[i]);
            }
        }
        h.iter().flat_map(|x| x.to_be_bytes()).collect()
    }
    pub fn hmac(&self, key: &[u8], msg: &[u8]) -> Vec<u8> {
        let mut k = if key.len() > 64 { self.hash(key) } else { key.to_vec() };
        k.resize(64, 0);
        let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
        inner.extend_from_slice(msg);
        let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
        outer.extend(self.hash(&inner));
        self.hash(&outer)
    }
    pub fn hkdf_extract(&self, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
        self.hmac(if salt.is_empty() { &[0u8; 32] } else { salt }, ikm)
    }
    /// None: output longer than 255 blocks
    pub fn hkdf_expand(&self, prk: &[u8], info: &[u8], l: usize) -> Option<Vec<u8>> {
        if l > 255 * 32 {
            return None;
        }
        let mut okm = vec![];
        let mut t: Vec<u8> = vec![];
        let mut i = 1u8;
        while okm.len() < l {
            let mut x = t.clone();
            x.extend_from_slice(info);
            x.push(i);
            t = self.hmac(prk, &x);
            okm.extend_from_slice(&t);
            i = i.wrapping_add(1);
        }
        okm.truncate(l);
        Some(okm)
    }
}

/// Keccak from its algebraic description (LFSR round constants, computed offsets).
pub struct Keccak {
    rc: Vec<u64>,
    rot: [[u32; 5]; 5],
}
impl Keccak {
    pub fn new() -> Self {
        let mut lfsr = 1u8;
        let mut bit = || {
            let r = lfsr & 1;
            let hi = lfsr & 0x80 != 0;
            lfsr <<= 1;
            if hi {
                lfsr ^= 0x71;
            }
            r
        };
        let mut rc = vec![];
        for _ in 0..24 {
            let mut c = 0u64;
            for j in 0..7 {
                if bit() == 1 {
                    c ^= 1u64 << ((1u32 << j) - 1);
                }
            }
            rc.push(c);
        }
        let mut rot = [[0; 5]; 5];
        let (mut x, mut y) = (1usize, 0usize);
        for t in 0..24u32 {
            rot[x][y] = ((t + 1) * (t + 2) / 2) % 64;
            let ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
        }
        Keccak { rc, rot }
    }
    pub fn f(&self, a: &mut [[u64; 5]; 5]) {
        for r in 0..24 {
            let mut c = [0u64; 5];
            for x in 0..5 {
                c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
            }
            for x in 0..5 {
                let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                for y in 0..5 {
                    a[x][y] ^= d;
                }
            }
            let mut b = [[0u64; 5]; 5];
            for x in 0..5 {
                for y in 0..5 {
                    b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(self.rot[x][y]);
                }
            }
            for x in 0..5 {
                for y in 0..5 {
                    a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
                }
            }
            a[0][0] ^= self.rc[r];
        }
    }
    pub fn sponge(&self, rate: usize, suffix: u8, m: &[u8], out: usize) -> Vec<u8> {
        let mut p = m.to_vec();
        p.push(suffix);
        while p.len() % rate != 0 {
            p.push(0);
        }
        *p.last_mut().unwrap() |= 0x80;
        let mut a = [[0u64; 5]; 5];
        for b in p.chunks(rate) {
            for (i, w) in b.chunks(8).enumerate() {
                a[i % 5][i / 5] ^= u64::from_le_bytes([w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]]);
            }
            self.f(&mut a);
        }
        let mut o = vec![];
        loop {
            for i in 0..rate / 8 {
                o.extend_from_slice(&a[i % 5][i / 5].to_le_bytes());
            }
            if o.len() >= out {
                break;
            }
            self.f(&mut a);
        }
        o.truncate(out);
        o
    }
}

pub fn blake2b(m: &[u8]) -> Vec<u8> {
    let iv: Vec<u64> = primes(8).iter().map(|p| frac_root(*p, 2, 64)).collect();
    const S: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    let mut h = iv.clone();
    h[0] ^= 0x01010000 ^ 64;
    let mut p = m.to_vec();
    while p.is_empty() || p.len() % 128 != 0 {
        p.push(0);
    }
    let nb = p.len() / 128;
    for (i, b) in p.chunks(128).enumerate() {
        let last = i + 1 == nb;
        let t: u128 = if last { m.len() as u128 } else { (i as u128 + 1) * 128 };
        let w: Vec<u64> = b.chunks(8).map(|c| c.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64)).collect();
        let mut v: Vec<u64> = h.iter().chain(iv.iter()).copied().collect();
        v[12] ^= t as u64;
        v[13] ^= (t >> 64) as u64;
        if last {
            v[14] = !v[14];
        }
        let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(32);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(24);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(63);
        };
        for r in 0..12 {
            let s = &S[r % 10];
            for i in 0..4 {
                g(i, 4 + i, 8 + i, 12 + i, w[s[2 * i]], w[s[2 * i + 1]]);
            }
            for i in 0..4 {
                g(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4, w[s[8 + 2 * i]], w[s[9 + 2 * i]]);
            }
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}

pub struct Aes {
    sbox: [u8; 256],
}
fn gmul(a: u8, b: u8) -> u8 {
    let mut r = 0u16;
    for i in 0..8 {
        if b >> i & 1 == 1 {
            r ^= (a as u16) << i;
        }
    }
    for i in (8..15).rev() {
        if r >> i & 1 == 1 {
            r ^= 0x11b << (i - 8);
        }
    }
    r as u8
}
impl Aes {
    pub fn new() -> Self {
        let mut sbox = [0u8; 256];
        for x in 0..=255u8 {
            let inv = (0..=255u8).find(|y| gmul(x, *y) == 1).unwrap_or(0);
            let mut s = 0x63u8;
            for k in 0..5 {
                s ^= inv.rotate_left(k);
            }
            sbox[x as usize] = s;
        }
        Aes { sbox }
    }
    fn expand(&self, key: &[u8]) -> Vec<[u8; 4]> {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [t[1], t[2], t[3], t[0]].map(|b| self.sbox[b as usize]);
                t[0] ^= rc;
                rc = gmul(rc, 2);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|b| self.sbox[b as usize]);
            }
            for j in 0..4 {
                t[j] ^= w[i - nk][j];
            }
            w.push(t);
        }
        w
    }
    pub fn block(&self, key: &[u8], input: &[u8]) -> Vec<u8> {
        let w = self.expand(key);
        let nr = w.len() / 4 - 1;
        let ark = |s: &mut Vec<u8>, r: usize| {
            for i in 0..16 {
                s[i] ^= w[4 * r + i / 4][i % 4];
            }
        };
        let mut s = input.to_vec();
        ark(&mut s, 0);
        for r in 1..=nr {
            let t: Vec<u8> = s.iter().map(|b| self.sbox[*b as usize]).collect();
            // column c, row r at 4c+r ; row r rotates left by r
            for c in 0..4 {
                for row in 0..4 {
                    s[4 * c + row] = t[4 * ((c + row) % 4) + row];
                }
            }
            if r != nr {
                let t = s.clone();
                for c in 0..4 {
                    for row in 0..4 {
                        let a = |k: usize| t[4 * c + (row + k) % 4];
                        s[4 * c + row] = gmul(a(0), 2) ^ gmul(a(1), 3) ^ a(2) ^ a(3);
                    }
                }
            }
            ark(&mut s, r);
        }
        s
    }
    pub fn ctr(&self, key: &[u8], nonce: &[u8], ctr: u32, m: &[u8]) -> Vec<u8> {
        let mut out = vec![];
        for (i, b) in m.chunks(16).enumerate() {
            let mut x = nonce.to_vec();
            x.extend_from_slice(&ctr.wrapping_add(i as u32).to_be_bytes());
            let k = self.block(key, &x);
            out.extend(b.iter().zip(k).map(|(a, b)| a ^ b));
        }
        out
    }
    pub fn gcm(&self, key: &[u8], iv: &[u8], aad: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let h = self.block(key, &[0; 16]);
        let c = self.ctr(key, iv, 2, m);
        let mut x = vec![];
        x.extend_from_slice(aad);
        while x.len() % 16 != 0 {
            x.push(0);
        }
        x.extend_from_slice(&c);
        while x.len() % 16 != 0 {
            x.push(0);
        }
        x.extend_from_slice(&(aad.len() as u64 * 8).to_be_bytes());
        x.extend_from_slice(&(c.len() as u64 * 8).to_be_bytes());
        let s = ghash(&h, &x);
        let mut j0 = iv.to_vec();
        j0.extend_from_slice(&[0, 0, 0, 1]);
        let e = self.block(key, &j0);
        (c, s.iter().zip(e).map(|(a, b)| a ^ b).collect())
    }
}
/// Multiplication in GF(2^128), GCM bit order: plain polynomial product, then reduction by
/// x^128 + x^7 + x^2 + x + 1.
pub fn gf128_mul(a: &[u8], b: &[u8]) -> Vec<u8> {
    let rev = |v: &[u8]| -> u128 { u128::from_be_bytes(v.try_into().unwrap()).reverse_bits() };
    let (x, y) = (rev(a), rev(b));
    let (mut lo, mut hi) = (0u128, 0u128);
    for i in 0..128 {
        if y >> i & 1 == 1 {
            lo ^= x << i;
            if i > 0 {
                hi ^= x >> (128 - i);
            }
        }
    }
    for i in (0..128).rev() {
        if hi >> i & 1 == 1 {
            hi ^= 1u128 << i;
            for s in [0usize, 1, 2, 7] {
                let e = i + s;
                if e < 128 {
                    lo ^= 1u128 << e;
                } else {
                    // e-128 < 7: lower than any bit still to be processed in hi, folded again below
                    hi ^= 1u128 << (e - 128);
                }
            }
        }
    }
    // bits folded into low positions of hi were handled by the loop (it descends to 0)
    assert!(hi == 0);
    lo.reverse_bits().to_be_bytes().to_vec()
}
pub fn ghash(h: &[u8], text: &[u8]) -> Vec<u8> {
    let mut y = vec![0u8; 16];
    for b in text.chunks(16) {
        for (i, v) in b.iter().enumerate() {
            y[i] ^= v;
        }
        y = gf128_mul(&y, h);
    }
    y
}

pub fn qr(s: &mut [u32], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}
pub fn chacha_init(key: &[u8], ctr: u32, iv: &[u8]) -> Vec<u32> {
    let le = |b: &[u8]| -> Vec<u32> { b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect() };
    let mut s = le(b"expand 32-byte k");
    s.extend(le(key));
    s.push(ctr);
    s.extend(le(iv));
    s
}
pub fn chacha_words(key: &[u8], ctr: u32, iv: &[u8]) -> Vec<u32> {
    let s = chacha_init(key, ctr, iv);
    let mut w = s.clone();
    for _ in 0..10 {
        for i in 0..4 {
            qr(&mut w, i, 4 + i, 8 + i, 12 + i);
        }
        for i in 0..4 {
            qr(&mut w, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
    w.iter().zip(&s).map(|(a, b)| a.wrapping_add(*b)).collect()
}
pub fn chacha_block(key: &[u8], ctr: u32, iv: &[u8]) -> Vec<u8> {
    chacha_words(key, ctr, iv).iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn chacha20(key: &[u8], iv: &[u8], ctr: u32, m: &[u8]) -> Vec<u8> {
    m.chunks(64)
        .enumerate()
        .flat_map(|(i, b)| {
            let k = chacha_block(key, ctr.wrapping_add(i as u32), iv);
            b.iter().zip(k).map(|(a, b)| a ^ b).collect::<Vec<_>>()
        })
        .collect()
}
pub fn poly1305(m: &[u8], key: &[u8]) -> Vec<u8> {
    let p = (BigUint::one() << 130usize) - 5u32;
    let mut r = key[..16].to_vec();
    for i in [3, 7, 11, 15] {
        r[i] &= 15;
    }
    for i in [4, 8, 12] {
        r[i] &= 252;
    }
    let r = BigUint::from_bytes_le(&r);
    let s = BigUint::from_bytes_le(&key[16..32]);
    let mut a = BigUint::zero();
    for b in m.chunks(16) {
        let mut x = b.to_vec();
        x.push(1);
        a = (a + BigUint::from_bytes_le(&x)) * &r % &p;
    }
    let mut t = (a + s).to_bytes_le();
    t.resize(17, 0);
    t.truncate(16);
    t
}
pub fn chachapoly(key: &[u8], iv: &[u8], aad: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let otk = chacha_block(key, 0, iv)[..32].to_vec();
    let c = chacha20(key, iv, 1, m);
    let mut x = aad.to_vec();
    while x.len() % 16 != 0 {
        x.push(0);
    }
    x.extend_from_slice(&c);
    while x.len() % 16 != 0 {
        x.push(0);
    }
    x.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    x.extend_from_slice(&(c.len() as u64).to_le_bytes());
    let t = poly1305(&x, &otk);
    (c, t)
}

pub fn x25519(k: &[u8], u: &[u8]) -> Vec<u8> {
    let p = (BigUint::one() << 255usize) - 19u32;
    let mut k = k.to_vec();
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    let mut u = u.to_vec();
    u[31] &= 127;
    let k = BigUint::from_bytes_le(&k);
    let x1 = BigUint::from_bytes_le(&u) % &p;
    let m = |a: &BigUint, b: &BigUint| a * b % &p;
    let sub = |a: &BigUint, b: &BigUint| (a + &p - b) % &p;
    let add = |a: &BigUint, b: &BigUint| (a + b) % &p;
    let (mut x2, mut z2, mut x3, mut z3) = (BigUint::one(), BigUint::zero(), x1.clone(), BigUint::one());
    let a24 = BigUint::from(121665u32);
    let mut swap = false;
    for t in (0..255).rev() {
        let kt = (&k >> t as usize) & BigUint::one() == BigUint::one();
        if swap != kt {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = add(&x2, &z2);
        let aa = m(&a, &a);
        let b = sub(&x2, &z2);
        let bb = m(&b, &b);
        let e = sub(&aa, &bb);
        let c = add(&x3, &z3);
        let d = sub(&x3, &z3);
        let da = m(&d, &a);
        let cb = m(&c, &b);
        let s = add(&da, &cb);
        x3 = m(&s, &s);
        let s = sub(&da, &cb);
        z3 = m(&x1, &m(&s, &s));
        x2 = m(&aa, &bb);
        z2 = m(&e, &add(&aa, &m(&a24, &e)));
    }
    if swap {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    let r = m(&x2, &z2.modpow(&(&p - 2u32), &p));
    let mut o = r.to_bytes_le();
    o.resize(32, 0);
    o
}

/// Affine short-Weierstrass P-256.
pub struct P256 {
    p: BigUint,
    pub n: BigUint,
    dbl: Vec<Option<(BigUint, BigUint)>>,
}
type Aff = Option<(BigUint, BigUint)>;
impl P256 {
    pub fn new() -> Self {
        let h = |s: &str| BigUint::parse_bytes(s.as_bytes(), 16).unwrap();
        let p = h("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
        let n = h("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
        let g = Some((
            h("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
            h("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
        ));
        let mut s = P256 { p, n, dbl: vec![] };
        let mut d = g;
        for _ in 0..256 {
            s.dbl.push(d.clone());
            d = s.add(&d, &d);
        }
        s
    }
    pub fn on_curve(&self, a: &Aff) -> bool {
        let b = BigUint::parse_bytes(b"5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", 16).unwrap();
        match a {
            None => true,
            Some((x, y)) => (y * y) % &self.p == (x * x * x + (&self.p - 3u32) * x + b) % &self.p,
        }
    }
    fn inv(&self, a: &BigUint) -> BigUint {
        // extended Euclid, signed bookkeeping by parity
        let (mut r0, mut r1) = (self.p.clone(), a % &self.p);
        let (mut t0, mut t1) = (BigUint::zero(), BigUint::one());
        while !r1.is_zero() {
            let q = &r0 / &r1;
            let r2 = &r0 - &q * &r1;
            let t2 = (&t0 + &self.p - (&q % &self.p) * &t1 % &self.p) % &self.p;
            r0 = r1;
            r1 = r2;
            t0 = t1;
            t1 = t2;
        }
        t0
    }
    pub fn add(&self, a: &Aff, b: &Aff) -> Aff {
        let (x1, y1) = match a {
            None => return b.clone(),
            Some(v) => v,
        };
        let (x2, y2) = match b {
            None => return a.clone(),
            Some(v) => v,
        };
        let p = &self.p;
        let l = if x1 == x2 {
            if (y1 + y2) % p == BigUint::zero() {
                return None;
            }
            (BigUint::from(3u32) * x1 * x1 + p - 3u32) * self.inv(&(y1 * 2u32 % p)) % p
        } else {
            (y2 + p - y1) * self.inv(&((x2 + p - x1) % p)) % p
        };
        let x3 = (&l * &l + p * 2u32 - x1 - x2) % p;
        let y3 = (&l * (x1 + p - &x3) + p - y1) % p;
        Some((x3, y3))
    }
    pub fn mul_base(&self, k: &BigUint) -> Aff {
        let mut r = None;
        for i in 0..256 {
            if (k >> i as usize) & BigUint::one() == BigUint::one() {
                r = self.add(&r, &self.dbl[i]);
            }
        }
        r
    }
}

/// Check the reference models against published vectors; false = harness error.
pub fn selftest() -> Result<(), String> {
    use crate::engine::{hx, unhex};
    let ck = |n: &str, got: Vec<u8>, want: &str| -> Result<(), String> {
        if got == unhex(want) {
            Ok(())
        } else {
            Err(format!("{}: {} != {}", n, hx(&got), want))
        }
    };
    let s = Sha256::new();
    ck("sha256 empty", s.hash(b""), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")?;
    ck("sha256 abc", s.hash(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    ck("hmac rfc4231-1", s.hmac(&[0x0b; 20], b"Hi There"), "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7")?;
    ck("hmac rfc4231-6", s.hmac(&[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First"), "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54")?;
    let prk = s.hkdf_extract(&unhex("000102030405060708090a0b0c"), &[0x0b; 22]);
    ck("hkdf extract", prk.clone(), "077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5")?;
    ck("hkdf expand", s.hkdf_expand(&prk, &unhex("f0f1f2f3f4f5f6f7f8f9"), 42).unwrap(), "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865")?;
    let k = Keccak::new();
    ck("sha3-256", k.sponge(136, 6, b"", 32), "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a")?;
    ck("sha3-512 abc", k.sponge(72, 6, b"abc", 64), "b751850b1a57168a5693cd924b6b096e08f621827444f70d884f5d0240d2712e10e116e9192af3c91a7ec57647e3934057340b4cf408d5a56592f8274eec53f0")?;
    ck("shake128", k.sponge(168, 0x1f, b"", 32), "7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26")?;
    ck("blake2b abc", blake2b(b"abc"), "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923")?;
    ck("blake2b empty", blake2b(b""), "786a02f742015903c6c6fd852552d272912f4740e15847618a86e217f71f5419d25e1031afee585313896444934eb04b903a685b1448b755d56f701afe9be2ce")?;
    let a = Aes::new();
    ck("aes128", a.block(&unhex("000102030405060708090a0b0c0d0e0f"), &unhex("00112233445566778899aabbccddeeff")), "69c4e0d86a7b0430d8cdb78070b4c55a")?;
    ck("aes256", a.block(&(0..32).collect::<Vec<u8>>(), &unhex("00112233445566778899aabbccddeeff")), "8ea2b7ca516745bfeafc49904b496089")?;
    let (c, t) = a.gcm(
        &unhex("feffe9928665731c6d6a8f9467308308"),
        &unhex("cafebabefacedbaddecaf888"),
        &unhex("feedfacedeadbeeffeedfacedeadbeefabaddad2"),
        &unhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39"),
    );
    ck("gcm c", c, "42831ec2217774244b7221b784d0d49ce3aa212f2c02a4e035c17e2329aca12e21d514b25466931c7d8f6a5aac84aa051ba30b396a0aac973d58e091")?;
    ck("gcm t", t, "5bc94fbc3221a5db94fae95ae7121a47")?;
    let key: Vec<u8> = (0..32).collect();
    ck("chacha block", chacha_block(&key, 1, &unhex("000000090000004a00000000")), "10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e")?;
    ck("poly1305", poly1305(b"Cryptographic Forum Research Group", &unhex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b")), "a8061dc1305136c6c22b8baf0c0127a9")?;
    let (_, t) = chachapoly(
        &unhex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f"),
        &unhex("070000004041424344454647"),
        &unhex("50515253c0c1c2c3c4c5c6c7"),
        b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.",
    );
    ck("chachapoly", t, "1ae10b594f09e26a7e902ecbd0600691")?;
    ck("x25519", x25519(&unhex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"), &unhex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")), "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")?;
    let p = P256::new();
    let two = p.mul_base(&BigUint::from(2u32)).unwrap();
    ck("p256 2G", two.0.to_bytes_be(), "7cf27b188d034f7e8a52380304b51ac3c08969e277f21b35a60b48fc47669978")?;
    if p.mul_base(&p.n).is_some() || !p.on_curve(&p.mul_base(&(p.n.clone() - 5u32))) {
        return Err("p256 order".into());
    }
    Ok(())
}

//! A menu of calls across the whole library, each with the value that a pure function of its
//! arguments has to return. Used to build call histories (C29) and to listen for output (C31).
#![allow(dead_code)]
use mc::conv::*;
use mc::polyref;
use mc::refs::{self, Aes, Keccak, Sha256};
use mc::*;
use hacspec::prelude::*;
use hacspec_examples::aes_gcm::{self, aes, gf128};
use hacspec_examples::{blake2::blake2b, chacha20_poly1305 as cp, curve25519 as x25519, fips202, hkdf, hmac, p256, sha2};

bytes!(Bytes5, 5);
array!(Words4, 4, U32);
public_bytes!(Public6, 6);
nat_mod!(Sec251, Sec251C, 8, "fb");
public_nat_mod!(Pub25519, Pub25519C, 256, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed");
unsigned_public_integer!(Up100, 100);
signed_public_integer!(Sp100, 100);
poly!(Gf27, u128, 3, 3, &[(0, 2), (1, 2), (3, 1)]);

/// Argument objects that the calls of one history share.
pub struct World {
    pub k16: ByteSeq,
    pub k32: ByteSeq,
    pub iv: ByteSeq,
    pub aad: ByteSeq,
    pub msg: ByteSeq,
    pub long: ByteSeq,
    pub words: Seq<U32>,
    pub publ: PublicSeq<u8>,
    pub arr: Words4,
    pub ct: [(ByteSeq, Vec<u8>); 2],
    /// the plain contents
    pub p: Plain,
}
#[derive(Clone, PartialEq, Debug, Hash)]
pub struct Plain {
    pub k16: Vec<u8>,
    pub k32: Vec<u8>,
    pub iv: Vec<u8>,
    pub aad: Vec<u8>,
    pub msg: Vec<u8>,
    pub long: Vec<u8>,
    pub words: Vec<u32>,
    pub publ: Vec<u8>,
    pub arr: [u32; 4],
}
/// distinct contents per world, so that two worlds share nothing but their shapes
pub fn plain(i: usize) -> Plain {
    let mut s = Stream(100 + i as u64);
    let mut p = Plain { k16: s.bytes(16), k32: s.bytes(32), iv: s.bytes(12), aad: s.bytes(5), msg: s.bytes(37), long: s.bytes(150), words: vec![], publ: s.bytes(7), arr: [0; 4] };
    if i == 2 {
        // same key and iv as world 0, other data
        let q = plain(0);
        p.k16 = q.k16;
        p.k32 = q.k32;
        p.iv = q.iv;
    }
    p.words = (0..6).map(|_| s.u64() as u32).collect();
    p.arr = [s.u64() as u32, 1, u32::MAX, s.u64() as u32];
    p
}
/// worlds that differ from `p` in a single byte (or element), or in the length of a text by one
pub fn near(p: &Plain) -> Vec<(String, Plain)> {
    let mut v: Vec<(String, Plain)> = vec![];
    macro_rules! at {
        ($f:ident, $e:expr) => {
            for i in 0..p.$f.len() {
                let mut q = p.clone();
                q.$f[i] ^= $e << (i % 8);
                v.push((format!("element {} of {}", i, stringify!($f)), q));
            }
        };
    }
    at!(k16, 1);
    at!(k32, 1);
    at!(iv, 1);
    at!(aad, 1);
    at!(msg, 1);
    at!(long, 1);
    at!(words, 0x00010000);
    at!(publ, 1);
    at!(arr, 0x01000000);
    macro_rules! len {
        ($f:ident) => {
            let mut q = p.clone();
            q.$f.pop();
            v.push((format!("{} shorter by one", stringify!($f)), q));
            let mut q = p.clone();
            q.$f.push(0);
            v.push((format!("{} longer by one", stringify!($f)), q));
        };
    }
    len!(msg);
    len!(long);
    // changes that leave sums, or the set of bytes, as they are
    macro_rules! pairs {
        ($f:ident) => {
            let n = p.$f.len();
            for (i, j) in [(0, 1), (n / 2 - 1, n / 2), (n - 2, n - 1), (0, n - 1)] {
                let mut q = p.clone();
                q.$f.swap(i, j);
                v.push((format!("{i} and {j} exchanged in {}", stringify!($f)), q));
                let mut q = p.clone();
                q.$f[i] ^= 4;
                q.$f[j] ^= 4;
                v.push((format!("{i} and {j} flipped in {}", stringify!($f)), q));
                let mut q = p.clone();
                q.$f[i] = q.$f[i].wrapping_add(1);
                q.$f[j] = q.$f[j].wrapping_sub(1);
                v.push((format!("{i} raised and {j} lowered in {}", stringify!($f)), q));
            }
        };
    }
    pairs!(k16);
    pairs!(k32);
    pairs!(iv);
    pairs!(aad);
    pairs!(msg);
    pairs!(long);
    pairs!(words);
    pairs!(publ);
    pairs!(arr);
    v
}
pub fn world(p: &Plain) -> World {
    let a = Aes::new();
    let (c0, t0) = refs::chachapoly(&p.k32, &p.iv, &p.aad, &p.msg);
    let (c1, t1) = a.gcm(&p.k16, &p.iv, &p.aad, &p.msg);
    World {
        k16: bs(&p.k16),
        k32: bs(&p.k32),
        iv: bs(&p.iv),
        aad: bs(&p.aad),
        msg: bs(&p.msg),
        long: bs(&p.long),
        words: Seq::from_vec(p.words.iter().map(|x| U32::classify(*x)).collect()),
        publ: PublicSeq::from_vec(p.publ.clone()),
        arr: Words4::from_public_array(p.arr),
        ct: [(bs(&c0), t0), (bs(&c1), t1)],
        p: p.clone(),
    }
}
impl World {
    /// write the contents `q` (same lengths) into the same argument objects
    pub fn assign(&mut self, q: &Plain) {
        let fresh = world(q);
        macro_rules! put {
            ($($f:ident),*) => {$( for i in 0..self.$f.len() { self.$f[i] = fresh.$f[i]; } )*};
        }
        put!(k16, k32, iv, aad, msg, long, words, publ, arr);
        for k in 0..2 {
            for i in 0..self.ct[k].0.len() {
                self.ct[k].0[i] = fresh.ct[k].0[i];
            }
            self.ct[k].1.copy_from_slice(&fresh.ct[k].1);
        }
        self.p = q.clone();
    }
    /// the contents of the argument objects, read back
    pub fn read(&self) -> Plain {
        Plain {
            k16: vb(&self.k16),
            k32: vb(&self.k32),
            iv: vb(&self.iv),
            aad: vb(&self.aad),
            msg: vb(&self.msg),
            long: vb(&self.long),
            words: self.words.iter().map(|x| x.declassify()).collect(),
            publ: self.publ.iter().copied().collect(),
            arr: [self.arr[0usize].declassify(), self.arr[1usize].declassify(), self.arr[2usize].declassify(), self.arr[3usize].declassify()],
        }
    }
}
pub struct Call {
    pub name: &'static str,
    /// takes more than about 200 microseconds
    pub slow: bool,
    pub run: fn(&World) -> String,
    /// None: the call has to be refused
    pub want: fn(&Plain) -> Option<String>,
}
fn h(b: Vec<u8>) -> String {
    hx(&b)
}
fn by<A: SeqTrait<U8>>(a: A) -> String {
    hx(&vb(&a))
}
fn w32<A: SeqTrait<U32>>(a: A) -> String {
    a.iter().map(|x| format!("{:08x}", x.declassify())).collect()
}
fn h32(v: &[u32]) -> String {
    v.iter().map(|x| format!("{:08x}", x)).collect()
}
fn shake(p: &Plain, rate: usize, sfx: u8, n: usize) -> String {
    h(Keccak::new().sponge(rate, sfx, &p.long, n))
}
fn k32(w: &World) -> cp::chacha20::Key {
    cp::chacha20::Key::from_seq(&w.k32)
}
fn civ(w: &World) -> cp::chacha20::IV {
    cp::chacha20::IV::from_seq(&w.iv)
}
fn ak(w: &World) -> aes::Key128 {
    aes::Key128::from_seq(&w.k16)
}
fn ak2(w: &World) -> aes::Key256 {
    aes::Key256::from_seq(&w.k32)
}
fn an(w: &World) -> aes::Nonce {
    aes::Nonce::from_seq(&w.iv)
}
fn ptag(t: &[u8]) -> cp::poly1305::Tag {
    cp::poly1305::Tag::from_slice(t)
}
fn big(b: &[u8]) -> num::BigUint {
    num::BigUint::from_bytes_le(b)
}
fn p25519() -> num::BigUint {
    (num::BigUint::from(1u32) << 255usize) - 19u32
}
fn nm(w: &World) -> Pub25519 {
    let mut b = w.p.k32.clone();
    b[31] &= 0x3f;
    Pub25519::from_le_bytes(&b)
}
fn nb(p: &Plain) -> num::BigUint {
    let mut b = p.k32.clone();
    b[31] &= 0x3f;
    big(&b)
}
fn us(x: Pub25519) -> String {
    format!("{}", x)
}
fn u(x: u32) -> U32 {
    U32::classify(x)
}
fn gf(p: &Plain) -> Vec<i128> {
    vec![(p.msg[0] % 3) as i128, (p.msg[1] % 3) as i128, (p.msg[2] % 2) as i128 + 1]
}
fn pu(v: &[i128]) -> Vec<u128> {
    v.iter().map(|x| *x as u128).collect()
}
fn pv(v: &[u128]) -> String {
    format!("{:?}", polyref::trim(v.iter().map(|x| *x as i128).collect()))
}
fn gfe(w: &World) -> Gf27 {
    Gf27::from_vec(pu(&gf(&w.p)))
}
const M27: [i128; 4] = [2, 2, 0, 1];

pub fn menu() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    macro_rules! c {
        ($n:expr, $r:expr, $w:expr) => { v.push(Call { name: $n, slow: false, run: $r, want: |p| Some($w(p)) }) };
        (slow $n:expr, $r:expr, $w:expr) => { v.push(Call { name: $n, slow: true, run: $r, want: |p| Some($w(p)) }) };
        (no $n:expr, $r:expr) => { v.push(Call { name: $n, slow: false, run: $r, want: |_| None }) };
    }
    // hashes and keyed hashes
    c!("sha256", |w| by(sha2::hash(&w.long)), |p: &Plain| h(Sha256::new().hash(&p.long)));
    c!("sha256 empty", |_| by(sha2::hash(&ByteSeq::new(0))), |_: &Plain| h(Sha256::new().hash(&[])));
    c!("hmac", |w| by(hmac::hmac(&w.k32, &w.msg)), |p: &Plain| h(Sha256::new().hmac(&p.k32, &p.msg)));
    c!("hmac long key", |w| by(hmac::hmac(&w.long, &w.msg)), |p: &Plain| h(Sha256::new().hmac(&p.long, &p.msg)));
    c!("hkdf extract", |w| by(hkdf::extract(&w.aad, &w.k32)), |p: &Plain| h(Sha256::new().hkdf_extract(&p.aad, &p.k32)));
    c!("hkdf expand", |w| by(hkdf::expand(&w.k32, &w.aad, 50)), |p: &Plain| h(Sha256::new().hkdf_expand(&p.k32, &p.aad, 50).unwrap()));
    c!(no "hkdf expand too long", |w| by(hkdf::expand(&w.k32, &w.aad, 255 * 32 + 1)));
    c!("sha3-224", |w| by(fips202::sha3224(&w.long)), |p| shake(p, 144, 6, 28));
    c!("sha3-256", |w| by(fips202::sha3256(&w.long)), |p| shake(p, 136, 6, 32));
    c!("sha3-384", |w| by(fips202::sha3384(&w.long)), |p| shake(p, 104, 6, 48));
    c!("sha3-512", |w| by(fips202::sha3512(&w.long)), |p| shake(p, 72, 6, 64));
    c!("shake128", |w| by(fips202::shake128(&w.long, 200)), |p| shake(p, 168, 0x1f, 200));
    c!("shake256", |w| by(fips202::shake256(&w.long, 40)), |p| shake(p, 136, 0x1f, 40));
    c!("blake2b", |w| by(blake2b::blake2b(&w.long)), |p: &Plain| h(refs::blake2b(&p.long)));
    // ciphers
    c!("aes128 block", |w| by(aes::aes128_encrypt_block(ak(w), aes::Block::from_sub(&w.msg, 3, 16), 4, 10)), |p: &Plain| h(Aes::new().block(&p.k16, &p.msg[3..19])));
    c!("aes256 block", |w| by(aes::aes256_encrypt_block(ak2(w), aes::Block::from_sub(&w.msg, 3, 16), 8, 14)), |p: &Plain| h(Aes::new().block(&p.k32, &p.msg[3..19])));
    c!("aes128 ctr encrypt", |w| by(aes::aes128_encrypt(ak(w), an(w), u(7), &w.msg)), |p: &Plain| h(Aes::new().ctr(&p.k16, &p.iv, 7, &p.msg)));
    c!("aes128 ctr decrypt", |w| by(aes::aes128_decrypt(ak(w), an(w), u(7), &w.msg)), |p: &Plain| h(Aes::new().ctr(&p.k16, &p.iv, 7, &p.msg)));
    c!("aes256 ctr encrypt", |w| by(aes::aes256_encrypt(ak2(w), an(w), u(u32::MAX), &w.msg)), |p: &Plain| h(Aes::new().ctr(&p.k32, &p.iv, u32::MAX, &p.msg)));
    c!("aes256 ctr decrypt", |w| by(aes::aes256_decrypt(ak2(w), an(w), u(1), &w.msg)), |p: &Plain| h(Aes::new().ctr(&p.k32, &p.iv, 1, &p.msg)));
    c!("aes128-gcm encrypt", |w| { let (c, t) = aes_gcm::encrypt_aes128(ak(w), an(w), &w.aad, &w.msg); by(c) + &by(t) }, |p: &Plain| { let (c, t) = Aes::new().gcm(&p.k16, &p.iv, &p.aad, &p.msg); h(c) + &h(t) });
    c!("aes256-gcm encrypt", |w| { let (c, t) = aes_gcm::encrypt_aes256(ak2(w), an(w), &w.aad, &w.msg); by(c) + &by(t) }, |p: &Plain| { let (c, t) = Aes::new().gcm(&p.k32, &p.iv, &p.aad, &p.msg); h(c) + &h(t) });
    c!("aes128-gcm decrypt", |w| format!("{:?}", aes_gcm::decrypt_aes128(ak(w), an(w), &w.aad, &w.ct[1].0, gf128::Tag::from_public_slice(&w.ct[1].1)).map(by)), |p: &Plain| format!("{:?}", Ok::<String, String>(hx(&p.msg))));
    c!("aes128-gcm decrypt forged", |w| format!("{:?}", aes_gcm::decrypt_aes128(ak(w), an(w), &w.msg, &w.ct[1].0, gf128::Tag::from_public_slice(&w.ct[1].1)).map(by).is_ok()), |_: &Plain| "false".into());
    c!("ghash", |w| by(gf128::gmac(&w.msg, gf128::Key::from_seq(&w.k16))), |p: &Plain| h(refs::ghash(&p.k16, &p.msg)));
    c!("chacha20", |w| by(cp::chacha20::chacha(k32(w), civ(w), &w.long).unwrap()), |p: &Plain| h(refs::chacha20(&p.k32, &p.iv, 1, &p.long)));
    c!("chacha20 block", |w| by(cp::chacha20::block(k32(w), u(9), civ(w))), |p: &Plain| h(refs::chacha_block(&p.k32, 9, &p.iv)));
    c!("poly1305", |w| hx(&cp::poly1305::poly(&w.msg, k32(w)).iter().copied().collect::<Vec<u8>>()), |p: &Plain| h(refs::poly1305(&p.msg, &p.k32)));
    c!("poly1305 mac", |w| hx(&cp::poly1305::poly_mac(&w.msg, k32(w), civ(w)).iter().copied().collect::<Vec<u8>>()), |p: &Plain| h(refs::poly1305(&p.msg, &refs::chacha_block(&p.k32, 0, &p.iv)[..32])));
    c!("chacha20-poly1305 encrypt", |w| { let (c, t) = cp::encrypt(k32(w), civ(w), &w.aad, &w.msg).unwrap(); by(c) + &hx(&t.iter().copied().collect::<Vec<u8>>()) }, |p: &Plain| { let (c, t) = refs::chachapoly(&p.k32, &p.iv, &p.aad, &p.msg); h(c) + &h(t) });
    c!("chacha20-poly1305 decrypt", |w| format!("{:?}", cp::decrypt(k32(w), civ(w), &w.aad, &w.ct[0].0, ptag(&w.ct[0].1)).map(by)), |p: &Plain| format!("{:?}", Ok::<String, String>(hx(&p.msg))));
    c!("chacha20-poly1305 decrypt forged", |w| format!("{:?}", cp::decrypt(k32(w), civ(w), &w.msg, &w.ct[0].0, ptag(&w.ct[0].1)).map(by).is_ok()), |_: &Plain| "false".into());
    // public keys
    c!(slow "x25519", |w| by(x25519::scalarmult(x25519::SerializedScalar::from_seq(&w.k32), x25519::SerializedPoint::from_sub(&w.long, 0, 32))), |p: &Plain| h(refs::x25519(&p.k32, &p.long[..32])));
    c!(slow "x25519 public key", |w| by(x25519::secret_to_public(x25519::SerializedScalar::from_seq(&w.k32))), |p: &Plain| { let mut b = vec![0; 32]; b[0] = 9; h(refs::x25519(&p.k32, &b)) });
    c!(slow "p256", |w| { let (x, y) = p256::point_mul(p256::Scalar::from_hex(&hx(&w.p.k32))); format!("{} {}", x, y) }, |p: &Plain| { let r = refs::P256::new(); let (x, y) = r.mul_base(&num::BigUint::from_bytes_be(&p.k32)).unwrap(); format!("{} {}", x, y) });
    // machine integers
    c!("u32 + - * wrap", |w| w32(Seq::from_vec(vec![w.words[0usize] + w.words[1usize], w.words[0usize] - w.words[1usize], w.words[2usize] * w.words[3usize], w.words[0usize].wrap_add(w.words[2usize])])), |p: &Plain| { let q = &p.words; h32(&[q[0].wrapping_add(q[1]), q[0].wrapping_sub(q[1]), q[2].wrapping_mul(q[3]), q[0].wrapping_add(q[2])]) });
    c!("u32 logic and shifts", |w| w32(Seq::from_vec(vec![w.words[0usize] & w.words[1usize], w.words[0usize] | w.words[1usize], w.words[2usize] ^ !w.words[3usize], w.words[0usize] << 5, w.words[0usize] >> 9, w.words[4usize].rotate_left(13)])), |p: &Plain| { let q = &p.words; h32(&[q[0] & q[1], q[0] | q[1], q[2] ^ !q[3], q[0] << 5, q[0] >> 9, q[4].rotate_left(13)]) });
    c!("u32 masks", |w| w32(Seq::from_vec(vec![w.words[0usize].comp_eq(w.words[1usize]), w.words[0usize].comp_gte(w.words[1usize]), w.words[0usize].comp_lt(w.words[1usize]), w.words[2usize].comp_ne(w.words[2usize])])), |p: &Plain| { let q = &p.words; let m = |b: bool| if b { u32::MAX } else { 0 }; h32(&[m(q[0] == q[1]), m(q[0] >= q[1]), m(q[0] < q[1]), 0]) });
    c!("u32 numeric masks", |w| w32(Seq::from_vec(vec![w.words[0usize].equal_bm(w.words[0usize]), w.words[0usize].greater_than_bm(w.words[1usize]), w.words[0usize].less_than_or_equal_bm(w.words[1usize])])), |p: &Plain| { let q = &p.words; let m = |b: bool| if b { u32::MAX } else { 0 }; h32(&[u32::MAX, m(q[0] > q[1]), m(q[0] <= q[1])]) });
    c!("u32 modular", |w| w32(Seq::from_vec(vec![(w.words[0usize] >> 8).add_mod(w.words[1usize] >> 8, u(65537)), (w.words[0usize] >> 8).sub_mod(w.words[1usize] >> 8, u(65537)), (w.words[0usize] >> 17).mul_mod(w.words[1usize] >> 17, u(65537)), w.words[2usize].modulo(u(1009))])), |p: &Plain| { let q = &p.words; let n = 65537u64; let (a, b) = ((q[0] >> 8) as u64, (q[1] >> 8) as u64); h32(&[((a + b) % n) as u32, ((a % n + n - b % n) % n) as u32, ((q[0] >> 17) as u64 * (q[1] >> 17) as u64 % n) as u32, q[2] % 1009]) });
    c!("u64 inverse", |w| format!("{}", (w.p.words[0] as u64 % 65536 + 1).inv(65537)), |p: &Plain| polyref::inv(p.words[0] as i128 % 65536 + 1, 65537).unwrap().to_string());
    c!("U64 inverse", |w| format!("{}", U64::classify(w.p.words[0] as u64 % 65536 + 1).inv(U64::classify(65537u64)).declassify()), |p: &Plain| polyref::inv(p.words[0] as i128 % 65536 + 1, 65537).unwrap().to_string());
    c!("i64 modular", |w| format!("{} {}", (w.p.words[0] as i64).sub_mod(w.p.words[1] as i64, 1009), (-(w.p.words[2] as i64)).modulo(1009)), |p: &Plain| format!("{} {}", (p.words[0] as i64 - p.words[1] as i64).rem_euclid(1009), (-(p.words[2] as i64)).rem_euclid(1009)));
    c!("pow", |w| format!("{}", <u64 as NumericBase>::pow(w.p.msg[0] as u64 % 100, 5)), |p: &Plain| format!("{}", (p.msg[0] as u64 % 100).pow(5)));
    c!("cswap and ct_div", |w| { let (a, b) = cswap_bit(w.words[0usize], w.words[1usize], u(1)); let (q, r) = ct_div(w.words[2usize], u(1000)); w32(Seq::from_vec(vec![a, b, q, r, cadd(a, b, u(u32::MAX)), csub(a, b, u(0)), cmul(a, b, u(u32::MAX))])) }, |p: &Plain| { let q = &p.words; h32(&[q[1], q[0], q[2] / 1000, q[2] % 1000, q[1].wrapping_add(q[0]), q[1], q[1].wrapping_mul(q[0])]) });
    c!("bits of u32", |w| w32(Seq::from_vec(vec![w.words[0usize].get_bit(3), w.words[0usize].set_bit(u(1), 30), w.words[0usize].set(0, w.words[1usize], 31)])), |p: &Plain| { let q = &p.words; h32(&[q[0] >> 3 & 1, q[0] | 1 << 30, q[0] & !1 | q[1] >> 31]) });
    c!("casts", |w| format!("{} {} {}", U64::from(w.words[0usize]).declassify(), U8::from(w.words[0usize]).declassify(), U128::from(w.words[1usize]).declassify()), |p: &Plain| format!("{} {} {}", p.words[0], p.words[0] as u8, p.words[1]));
    c!("u32 bytes", |w| by(U32_to_le_bytes(w.words[0usize])) + &by(U32_to_be_bytes(w.words[0usize])) + &by(U64_to_be_bytes(U64::from(w.words[1usize]))), |p: &Plain| hx(&p.words[0].to_le_bytes()) + &hx(&p.words[0].to_be_bytes()) + &hx(&(p.words[1] as u64).to_be_bytes()));
    c!("u32 from bytes", |w| w32(Seq::from_vec(vec![U32_from_le_bytes(U32Word::from_sub(&w.msg, 5, 4)), U32_from_be_bytes(U32Word::from_sub(&w.msg, 5, 4))])), |p: &Plain| { let b = [p.msg[5], p.msg[6], p.msg[7], p.msg[8]]; h32(&[u32::from_le_bytes(b), u32::from_be_bytes(b)]) });
    c!("byte vectors", |w| by(Seq::from_vec(U32::to_le_bytes(&[w.words[0usize], w.words[1usize]]))) + &by(Seq::from_vec(U32::to_be_bytes(&[w.words[2usize]]))), |p: &Plain| hx(&p.words[0].to_le_bytes()) + &hx(&p.words[1].to_le_bytes()) + &hx(&p.words[2].to_be_bytes()));
    // sequences and arrays
    c!("seq update", |w| by(ByteSeq::new(60).update(3, &w.msg).update_start(&w.aad)), |p: &Plain| { let mut v = vec![0; 60]; v[3..3 + p.msg.len()].copy_from_slice(&p.msg); v[..5].copy_from_slice(&p.aad); h(v) });
    c!("seq update clone", |w| by(w.long.clone().update(3, &w.msg)), |p: &Plain| { let mut v = p.long.clone(); v[3..3 + p.msg.len()].copy_from_slice(&p.msg); h(v) });
    c!("seq update_sub", |w| by(w.msg.clone().update_sub(2, &w.long, 100, 20)), |p: &Plain| { let mut v = p.msg.clone(); v[2..22].copy_from_slice(&p.long[100..120]); h(v) });
    c!("seq slices", |w| by(w.long.sub(7, 30)) + &by(w.long.subr(3..9)) + &by(ByteSeq::from_sub(&w.long, 1, 4)) + &by(ByteSeq::from_sub_range(&w.long, 20..22)), |p: &Plain| hx(&p.long[7..37]) + &hx(&p.long[3..9]) + &hx(&p.long[1..5]) + &hx(&p.long[20..22]));
    c!("seq chunks", |w| (0..w.msg.num_chunks(8)).map(|i| { let (l, c) = w.msg.get_chunk(8, i); format!("{l}{} ", by(c)) }).collect(), |p: &Plain| p.msg.chunks(8).map(|c| format!("{}{} ", c.len(), hx(c))).collect::<String>());
    c!("seq set_chunk", |w| by(w.msg.clone().set_chunk(16, 1, &w.k16)), |p: &Plain| { let mut v = p.msg.clone(); v[16..32].copy_from_slice(&p.k16); h(v) });
    c!(no "seq update past the end", |w| by(w.aad.clone().update(3, &w.msg)));
    c!(no "seq slice past the end", |w| by(w.aad.sub(3, 3)));
    c!(no "index past the end", |w| w32(Seq::from_vec(vec![w.words[6usize]])));
    c!("hex", |w| w.msg.to_hex() + &w.publ.to_hex() + &by(ByteSeq::from_hex(&hx(&w.p.aad))) + &Bytes5::from_seq(&w.aad).to_hex(), |p: &Plain| hx(&p.msg) + &hx(&p.publ) + &hx(&p.aad) + &hx(&p.aad));
    c!(no "hex of odd text", |w| by(ByteSeq::from_hex(&hx(&w.p.aad)[1..])));
    c!("array from seq", |w| by(Bytes5::from_seq(&w.aad)) + &by(Bytes5::from_sub(&w.msg, 4, 5)) + &by(Bytes5::from_public_slice(&w.p.aad)), |p: &Plain| hx(&p.aad) + &hx(&p.msg[4..9]) + &hx(&p.aad));
    c!(no "array from a longer seq", |w| by(Bytes5::from_seq(&w.msg)));
    c!("array arithmetic", |w| w32(w.arr + w.arr) + &w32(w.arr - Words4::from_public_array([1, 2, 3, 4])) + &w32(w.arr * w.arr) + &w32(w.arr ^ Words4::from_public_array([5; 4])), |p: &Plain| { let a = p.arr; h32(&a.map(|x| x.wrapping_add(x))) + &h32(&[a[0].wrapping_sub(1), a[1].wrapping_sub(2), a[2].wrapping_sub(3), a[3].wrapping_sub(4)]) + &h32(&a.map(|x| x.wrapping_mul(x))) + &h32(&a.map(|x| x ^ 5)) });
    c!("array bytes", |w| by(w.arr.to_be_bytes()) + &by(w.arr.to_le_bytes()), |p: &Plain| p.arr.iter().map(|x| hx(&x.to_be_bytes())).collect::<String>() + &p.arr.iter().map(|x| hx(&x.to_le_bytes())).collect::<String>());
    c!("array words", |w| w32(gf128::Key::from_seq(&w.k16).to_be_U32s()) + &w32(gf128::Key::from_seq(&w.k16).to_le_U32s()), |p: &Plain| p.k16.chunks(4).map(|c| hx(c)).collect::<String>() + &p.k16.chunks(4).map(|c| hx(&c.iter().rev().copied().collect::<Vec<u8>>())).collect::<String>());
    c!("array comparison", |w| format!("{} {}", Bytes5::from_seq(&w.aad).declassify_eq(&Bytes5::from_seq(&w.aad)), Bytes5::from_seq(&w.aad).declassify_eq(&Bytes5::from_sub(&w.msg, 0, 5))), |p: &Plain| format!("true {}", p.aad == p.msg[..5]));
    c!("public array", |w| format!("{:?}", Public6::from_slice(&w.p.publ[..6]).iter().collect::<Vec<_>>()), |p: &Plain| format!("{:?}", p.publ[..6].iter().collect::<Vec<_>>()));
    c!("public seq arithmetic", |w| { let a = PublicSeq::<u32>::from_vec(w.p.words.clone()); format!("{:?} {:?}", (a.clone() + a.clone()).iter().collect::<Vec<_>>(), (a.clone() ^ a.clone()).iter().collect::<Vec<_>>()) }, |p: &Plain| format!("{:?} {:?}", p.words.iter().map(|x| x.wrapping_add(*x)).collect::<Vec<_>>(), vec![0u32; 6]));
    c!("element-wise modular", |w| format!("{:?}", vec_poly_add(Seq::<u64>::from_vec(w.p.words.iter().map(|x| *x as u64).collect()), Seq::from_vec(vec![5u64; 6]), 1009).iter().collect::<Vec<_>>()), |p: &Plain| format!("{:?}", p.words.iter().map(|x| (*x as u64 + 5) % 1009).collect::<Vec<_>>()));
    // bounded and modular integers
    c!("bounded integers", |w| { let (a, b) = (Up100::from_literal(w.p.words[0] as u128), Up100::from_literal(w.p.words[1] as u128 + 1)); format!("{} {} {} {}", a + b, a * b, a / b, a % b) }, |p: &Plain| { let (a, b) = (p.words[0] as u128, p.words[1] as u128 + 1); format!("{} {} {} {}", a + b, a * b, a / b, a % b) });
    c!(no "bounded overflow", |_| format!("{}", Up100::pow2(99) + Up100::pow2(99)));
    c!(no "bounded underflow", |_| format!("{}", Up100::from_literal(1) - Up100::from_literal(2)));
    c!("signed bounded integers", |w| format!("{}", Sp100::from_literal(w.p.words[0] as u128) - Sp100::from_literal(w.p.words[1] as u128)), |p: &Plain| format!("{}", p.words[0] as i64 - p.words[1] as i64));
    c!("secret modular integers", |w| { let (a, b) = (Sec251::from_literal(w.p.msg[0] as u128 % 251), Sec251::from_literal(w.p.msg[1] as u128 % 251)); format!("{} {} {}", a + b, a - b, a * b) }, |p: &Plain| { let (a, b) = (p.msg[0] as u32 % 251, p.msg[1] as u32 % 251); format!("{} {} {}", (a + b) % 251, (a + 251 - b) % 251, a * b % 251) });
    c!("modular integers", |w| { let a = nm(w); us(a + a) + &us(a * a) + &us(a - Pub25519::from_literal(1)) }, |p: &Plain| { let (a, n) = (nb(p), p25519()); format!("{}{}{}", (&a + &a) % &n, (&a * &a) % &n, &a - 1u32) });
    c!("modular inverse", |w| us(nm(w).inv() * nm(w)), |_: &Plain| "1".into());
    c!("modular pow", |w| us(Pub25519::pow(nm(w), 77)), |p: &Plain| format!("{}", nb(p).modpow(&num::BigUint::from(77u32), &p25519())));
    c!("modular bytes", |w| by(nm(w).to_byte_seq_le()) + &us(Pub25519::from_byte_seq_le(w.iv.clone())), |p: &Plain| hx(&nb(p).to_bytes_le()) + &big(&p.iv).to_string());
    c!(no "modular literal too big", |_| format!("{}", Sec251::from_literal(252)));
    // polynomials
    c!("poly ring", |w| pv(&poly_add(&pu(&gf(&w.p)), &[1, 2], 3)) + &pv(&poly_sub(&pu(&gf(&w.p)), &[1, 2], 3)) + &pv(&poly_mul(&pu(&gf(&w.p)), &[1, 2], 3)), |p: &Plain| format!("{:?}{:?}{:?}", polyref::add(&gf(p), &[1, 2], 3), polyref::sub(&gf(p), &[1, 2], 3), polyref::mul(&gf(p), &[1, 2], 3)));
    c!("poly division", |w| { let (q, r) = poly_div(&pu(&gf(&w.p)), &[1, 2], 3); pv(&q) + &pv(&r) }, |p: &Plain| { let (q, r, _) = polyref::div(&gf(p), &[1, 2], 3).unwrap(); format!("{:?}{:?}", q, r) });
    c!(no "poly division by zero", |w| pv(&poly_div(&pu(&gf(&w.p)), &[0, 0], 3).0));
    c!("poly field", |w| pv(&(gfe(w) * gfe(w)).poly) + &pv(&gfe(w).inv().poly), |p: &Plain| format!("{:?}{:?}", polyref::div(&polyref::mul(&gf(p), &gf(p), 3), &M27, 3).unwrap().1, polyref::invmod(&gf(p), &M27, 3).unwrap()));
    c!(no "poly inverse of zero", |_| pv(&Gf27::from_vec(vec![0]).inv().poly));
    v
}

# Table of planted bugs. plant.py turns each into /verif/seeded/<id>/.
B = []
def bug(id, prop, file, old, new, demo, needs, breaks, deps="hacspec hacspec-examples"):
    B.append(dict(id=id, prop=prop, file=file, edits=[(old, new)] if isinstance(old, str) else old, demo=demo, needs=needs, breaks=breaks, deps=deps.split()) if new is not None else
             dict(id=id, prop=prop, file=file, edits=old, demo=demo, needs=needs, breaks=breaks, deps=deps.split()))
EX = "spec-examples/src/"
SI = "secret-integers/src/lib.rs"
AI = "abstract-integers/src/"
H = "hacspec/src/"
PRE = "use hacspec::prelude::*;\n"

bug("c01-rotate-left-mod-64", "C01", SI, "$name(i.rotate_left(rotval))", "$name(i.rotate_left(rotval % 64))",
 PRE + """fn main() {
    for n in 0..128u32 {
        let x = 0x0123456789abcdef_fedcba9876543211u128;
        assert_eq!(U128(x).rotate_left(n).declassify(), x.rotate_left(n), "rotate_left by {}", n);
    }
}""", "a 128-bit word rotated left by 64 or more", "U128 and I128 rotate_left by n >= 64 rotates by n - 64 only", "hacspec")

bug("c02-comp-eq-xor", "C02", SI, "let x_or_minus_x = x | minus_x;", "let x_or_minus_x = x ^ minus_x;",
 PRE + """fn main() {
    for b in 0..32u32 {
        let (x, y) = (U32(0x1234_5678), U32(0x1234_5678 ^ (1 << b)));
        assert_eq!(x.comp_eq(y).declassify(), 0, "words that differ in bit {} only", b);
        assert_eq!(x.comp_ne(y).declassify(), 0xffff_ffff, "words that differ in bit {} only", b);
    }
}""", "two words that differ in exactly the most significant bit", "comp_eq, comp_ne and everything built on them take such words for equal", "hacspec")

bug("c03-usize-through-u32", "C03", SI, """            fn from(x: $from) -> $to {
                $to(x as $to_repr)
            }""", """            fn from(x: $from) -> $to {
                $to(x as u32 as $to_repr)
            }""",
 PRE + """fn main() {
    for s in 0..64 {
        let n = 1usize << s;
        assert_eq!(U64::from(n).declassify(), n as u64);
        assert_eq!(U128::from(n).declassify(), n as u128);
    }
}""", "a usize of 2^32 or more", "conversion of usize to U64 and U128 drops the upper 32 bits", "hacspec")

bug("c04-secret-partial-eq", "C04", SI, """        #[derive(Clone, Copy, Default)]
        pub struct $name(pub $repr);""", """        #[derive(Clone, Copy, Default, PartialEq)]
        pub struct $name(pub $repr);""",
 PRE + """struct W<T>(std::marker::PhantomData<T>);
trait No { fn can(&self) -> bool { false } }
trait Yes { fn can(&self) -> bool { true } }
impl<T> No for &W<T> {}
impl<T: PartialEq> Yes for W<T> {}
fn main() {
    assert!((&W::<u32>(std::marker::PhantomData)).can());
    assert!(!(&W::<U32>(std::marker::PhantomData)).can(), "secret integers can be compared with ==");
    assert!(!(&W::<I64>(std::marker::PhantomData)).can(), "secret integers can be compared with ==");
}""", "code that compares two secret integers with == (now accepted by the compiler)", "secret integers get a boolean equality, so that code can branch on them", "hacspec")

bug("c06-signed-mod-once", "C06", H + "math_util.rs", """    let mut ret = x % n;
    while ret < 0 {
        ret += n;
    }
    ret""", """    let ret = x % n;
    if x < 0 {
        ret + n
    } else {
        ret
    }""",
 PRE + """fn main() {
    for n in 1..40i32 {
        for x in -100..100i32 {
            assert_eq!(x.modulo(n), x.rem_euclid(n), "{} mod {}", x, n);
            assert_eq!((x as i64).add_mod(7, n as i64), (x as i64 + 7).rem_euclid(n as i64));
        }
    }
}""", "a negative multiple of the modulus", "signed modulo, add_mod, sub_mod and mul_mod return n instead of 0", "hacspec")

bug("c07-set-bit-64", "C07", H + "traits.rs", "let tmp1 = Self::from_literal(!(1 << i));", "let tmp1 = Self::from_literal(!(1u64.rotate_left(i)) as u128);",
 PRE + """fn main() {
    for i in 0..128u32 {
        let x = U128(u128::max_value());
        assert_eq!(x.set_bit(U128(0), i).declassify(), !(1u128 << i), "clearing bit {}", i);
        assert_eq!(Integer::set_bit(0u128, 1, i), 1u128 << i, "setting bit {}", i);
    }
}""", "set_bit, set or cset_bit of a 128-bit word with bits above 63", "the upper half of the word is cleared", "hacspec")

bug("c08-index-i32-u8", "C08", H + "seq.rs", """            fn index_mut(&mut self, i: i32) -> &mut T {
                &mut self.b[i as usize]
            }""", """            fn index_mut(&mut self, i: i32) -> &mut T {
                &mut self.b[i as u8 as usize]
            }""",
 PRE + """fn main() {
    let mut s = Seq::<u16>::new(1000);
    for i in 0..1000i32 {
        s[i] = i as u16;
    }
    for i in 0..1000usize {
        assert_eq!(s[i], i as u16);
    }
}""", "a write through an i32 index of 256 or more", "writes land at the index modulo 256", "hacspec")

bug("c08-update-truncates", "C08", H + "traits.rs", """    fn update_start<A: SeqTrait<T>>(self, v: &A) -> Self {
        let len = v.len();""", """    fn update_start<A: SeqTrait<T>>(self, v: &A) -> Self {
        let len = std::cmp::min(v.len(), self.len());""",
 PRE + """fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| Seq::<u8>::new(4).update_start(&Seq::<u8>::from_vec(vec![1; 5])).len());
    assert!(r.is_err(), "five elements were written into a sequence of four");
}""", "update_start with a source that is longer than the target", "the surplus elements are dropped silently instead of refused", "hacspec")

bug("c09-declassify-eq-sum", "C09", H + "array.rs", """                self.0[..]
                    .iter()
                    .map(|x| <$t>::declassify(*x))
                    .collect::<Vec<_>>()
                    == other.0[..]
                        .iter()
                        .map(|x| <$t>::declassify(*x))
                        .collect::<Vec<_>>()
            }
        }
        impl $name {
            #[cfg_attr(feature="use_attributes", external(hacspec))]
            pub fn get_random_vec""", """                // Accumulate the differences such that there is only one branch.
                let diff = self
                    .0
                    .iter()
                    .zip(other.0.iter())
                    .fold(<$t>::default(), |acc, (x, y)| acc + (*x ^ *y));
                <$t>::declassify(diff) == <$tbase>::default()
            }
        }
        impl $name {
            #[cfg_attr(feature="use_attributes", external(hacspec))]
            pub fn get_random_vec""",
 PRE + """bytes!(B4, 4);
fn main() {
    let base = [1u8, 2, 3, 4];
    for i in 0..4 {
        for j in 0..4 {
            for x in 0..=255u8 {
                for y in 0..=255u8 {
                    let mut other = base;
                    other[i] ^= x;
                    other[j] ^= y;
                    assert_eq!(B4::from_public_array(base).declassify_eq(&B4::from_public_array(other)), base == other, "{:?} {:?}", base, other);
                }
            }
        }
    }
}""", "two arrays whose element differences add up to zero modulo the word size (e.g. the top bit of two bytes)", "declassify_eq takes them for equal", "hacspec")

bug("c10-odd-hex", "C10", H + "util.rs", [("    debug_assert!(s.len() % 2 == 0);\n", ""), (".map(|i| u8::from_str_radix(&s[i..i + 2], 16))", ".map(|i| u8::from_str_radix(&s[i..std::cmp::min(i + 2, s.len())], 16))")], None,
 PRE + """fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert_eq!(ByteSeq::from_hex("0aff").to_hex(), "0aff");
    assert!(std::panic::catch_unwind(|| ByteSeq::from_hex("0af").to_hex()).is_err(), "a text of three digits was read");
    assert!(std::panic::catch_unwind(|| PublicSeq::<u8>::from_hex("f").to_hex()).is_err(), "a text of one digit was read");
}""", "a text with an odd number of digits", "the last digit is read as a byte of its own instead of being refused", "hacspec")

bug("c11-vec-poly-sub-lift", "C11", H + "vec_integers.rs", "out[i] = x[i].sub_mod(y[i], n);", "out[i] = x[i].wrap_add(n.wrap_sub(y[i])).modulo(n);",
 PRE + """fn main() {
    let n = 251u8;
    for x in 0..n {
        for y in 0..n {
            let r = vec_poly_sub(PublicSeq::<u8>::from_vec(vec![x]), PublicSeq::<u8>::from_vec(vec![y]), n);
            assert_eq!(r[0usize] as i32, (x as i32 - y as i32).rem_euclid(n as i32), "{} - {} mod {}", x, y, n);
        }
    }
}""", "elements and a modulus whose lifted difference x + n - y does not fit the machine word", "modular element-wise subtraction returns a wrong residue", "hacspec")

bug("c12-negative-order", "C12", AI + "abstract_int.rs", """        impl PartialOrd for $name {
            fn partial_cmp(&self, other: &$name) -> Option<std::cmp::Ordering> {
                let a: BigInt = (*self).into();
                let b: BigInt = (*other).into();
                a.partial_cmp(&b)
            }
        }""", """        impl PartialOrd for $name {
            fn partial_cmp(&self, other: &$name) -> Option<std::cmp::Ordering> {
                // The representations are big-endian and have the same length.
                match (self.sign, other.sign) {
                    (Sign::Minus, Sign::Minus) => self.b.partial_cmp(&other.b),
                    (Sign::Minus, _) => Some(std::cmp::Ordering::Less),
                    (_, Sign::Minus) => Some(std::cmp::Ordering::Greater),
                    _ => self.b.partial_cmp(&other.b),
                }
            }
        }""",
 PRE + """signed_public_integer!(S, 16);
fn main() {
    for a in -300..300i128 {
        for b in [-299, -256, -255, -2, -1, 0, 1, 2, 255, 256].iter().cloned() {
            assert_eq!(S::from_signed_literal(a) < S::from_signed_literal(b), a < b, "{} < {}", a, b);
        }
    }
}""", "the comparison of two negative bounded integers", "their order is reversed", "hacspec num")

bug("c12-sub-magnitude", "C12", AI + "abstract_int.rs", """                let c = if self.signed {
                    a - b
                } else {""", """                let c = if self.signed && a >= b {
                    a - b
                } else if self.signed {
                    -(b - a) % $name::max()
                } else {""",
 PRE + """signed_public_integer!(S, 8);
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for a in -255..=255i128 {
        for b in -255..=255i128 {
            let r = std::panic::catch_unwind(|| S::from_signed_literal(a) - S::from_signed_literal(b));
            if (a - b).abs() <= 255 {
                assert_eq!(r.unwrap(), S::from_signed_literal(a - b), "{} - {}", a, b);
            } else {
                assert!(r.is_err(), "{} - {} is out of bounds", a, b);
            }
        }
    }
}""", "a signed difference at or below the lower bound", "the difference is reduced instead of refused (and the lower bound itself becomes 0)", "hacspec num")

bug("c13-pow-fermat", "C13", AI + "nat_mod.rs", "base.pow_felem(exp.into(), Self::max()).into()", """let e: BigInt = Into::<$base>::into(exp).into();
                let m: BigInt = Self::max().into();
                // By Fermat's little theorem.
                let e = e % (m - BigInt::one());
                base.pow_felem(e.into(), Self::max()).into()""",
 PRE + """public_nat_mod!(F7, F7Canvas, 8, "07");
public_nat_mod!(F15, F15Canvas, 8, "0f");
fn main() {
    for x in 0..7u32 {
        for e in 0..7u32 {
            let w = (x as u128).pow(e) % 7;
            assert_eq!(F7::from_literal(x as u128).pow_felem(F7::from_literal(e as u128)), F7::from_literal(w), "{}^{} mod 7", x, e);
        }
    }
    for x in 0..15u32 {
        for e in 0..15u32 {
            let w = (x as u128).pow(e) % 15;
            assert_eq!(F15::from_literal(x as u128).pow_felem(F15::from_literal(e as u128)), F15::from_literal(w), "{}^{} mod 15", x, e);
        }
    }
}""", "exponent n - 1 with base 0 or a composite modulus", "pow_felem reduces the exponent modulo n - 1", "hacspec num")

bug("c13-max-not-reduced", "C13", AI + "nat_mod.rs", """            fn from(x: $base) -> $name {
                $name(x.rem($max))
            }""", """            fn from(x: $base) -> $name {
                let (v, max): (BigUint, BigUint) = (x.into(), $max.into());
                // Most values are reduced already.
                if v <= max {
                    $name(x)
                } else {
                    $name(x.rem($max))
                }
            }""",
 PRE + """public_nat_mod!(F251, F251Canvas, 8, "fb");
fn main() {
    for v in 0..=255u8 {
        let x = F251::from_le_bytes(&[v]);
        assert_eq!(x, F251::from_literal((v as u128) % 251), "{}", v);
        assert_eq!(F251::from_hex(&format!("{:02x}", v)), F251::from_literal((v as u128) % 251), "{}", v);
    }
}""", "construction from exactly the modulus", "the modulus itself is kept as a representative next to zero", "hacspec num")

bug("c14-leading-gap", "C14", H + "poly.rs", """    for (i, &c) in x.iter().enumerate() {
        if !c.equal(zero) {
            degree = i;
            coefficient = c;
        }
    }
    (degree, coefficient)""", """    for (i, &c) in x.iter().enumerate().rev() {
        // Stop at the highest coefficient.
        if c.greater_than(zero) {
            degree = i;
            coefficient = c;
            break;
        }
    }
    (degree, coefficient)""",
 PRE + """fn main() {
    for a in -2..3i64 {
        for b in -2..3i64 {
            for c in -2..3i64 {
                let v = [a, b, c];
                let w = (0..3).rev().find(|i| v[*i] != 0).map_or((0, 0), |i| (i, v[i]));
                assert_eq!(leading_coefficient(&v), w, "{:?}", v);
            }
        }
    }
    let (q, r) = poly_div(&[6i64, 5, -1], &[1, -1], 0);
    let mut p = poly_add(&poly_mul(&q, &[1, -1], 0), &r, 0);
    p.truncate(3);
    assert_eq!(p, vec![6, 5, -1]);
}""", "a polynomial over a signed type whose highest coefficient is negative", "the leading coefficient is taken from a lower place, and division by such a polynomial is wrong", "hacspec")

bug("c16-len-56", "C16", EX + "sha2/sha2.rs", "if block_len < BLOCK_SIZE - LEN_SIZE {", "if block_len <= BLOCK_SIZE - LEN_SIZE {",
 PRE + """use hacspec_examples::sha2::hash;
fn main() {
    let h = hash(&ByteSeq::from_public_slice(&[b'a'; 56]));
    assert_eq!(h.to_hex(), "b35439a4ac6f0948b6d6f9e3c6af0f5f590ce20f1bde7090ef7970686ec6738a");
}""", "a message of 56 bytes modulo 64", "the length overwrites the padding byte", "hacspec hacspec-examples")

bug("c16-len-u16", "C16", EX + "sha2/sha2.rs", """            last_block[block_len] = U8(0x80);
            let len_bist: U64 = (msg.len() * 8).into();""", """            last_block[block_len] = U8(0x80);
            let len_bist: U64 = ((msg.len() * 8) as u16).into();""",
 PRE + """use hacspec_examples::sha2::hash;
fn main() {
    let h = hash(&ByteSeq::from_public_slice(&[b'a'; 8193]));
    let want = std::process::Command::new("sh").arg("-c").arg("head -c 8193 /dev/zero | tr '\\\\0' a | sha256sum").output().unwrap();
    assert_eq!(h.to_hex(), String::from_utf8(want.stdout).unwrap()[..64]);
}""", "a message of 8192 bytes or more", "the length in the padding is taken modulo 2^16 bits", "hacspec hacspec-examples")

bug("c17-key-block", "C17", EX + "hmac/hmac.rs", "let k_block = if k.len() > BLOCK_LEN {", "let k_block = if k.len() >= BLOCK_LEN {",
 PRE + """use hacspec_examples::{hmac::hmac, sha2::hash};
fn main() {
    for l in [0usize, 1, 63, 64].iter() {
        let key: Vec<u8> = (0..*l).map(|i| i as u8 + 1).collect();
        let mut k = key.clone();
        k.resize(64, 0);
        let mut inner: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
        inner.extend(b"message");
        let mut outer: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
        outer.extend(hash(&ByteSeq::from_public_slice(&inner)).iter().map(|x| x.declassify()));
        assert_eq!(hmac(&ByteSeq::from_public_slice(&key), &ByteSeq::from_public_slice(b"message")).to_hex(), hash(&ByteSeq::from_public_slice(&outer)).to_hex(), "key of {} bytes", l);
    }
}""", "a key of exactly 64 bytes", "the key is hashed although it fills exactly one block")

bug("c18-div-ceil", "C18", EX + "hkdf/hkdf.rs", "(f64::ceil((a as f64) / (b as f64))) as u64", "(a / b) as u64 + 1",
 PRE + """use hacspec_examples::hkdf::expand;
fn main() {
    let prk = ByteSeq::from_public_slice(&[7; 32]);
    for l in [0usize, 1, 32, 33, 8159, 8160].iter() {
        assert_eq!(expand(&prk, &ByteSeq::new(0), *l).len(), *l);
    }
}""", "the largest permitted output length, 255 * 32 bytes", "one block too many is computed, and the largest output is refused")

bug("c19-last-byte", "C19", EX + "fips202/fips202.rs", "buf[rate - 1] |= U8(128);", "buf[rate - 1] = U8(128);",
 PRE + """use hacspec_examples::fips202::*;
fn main() {
    let out = std::process::Command::new("python3").arg("-c").arg("import hashlib\\nfor l in range(300):\\n  m=bytes(i%251 for i in range(l))\\n  print(hashlib.sha3_256(m).hexdigest())").output().unwrap();
    for (l, want) in String::from_utf8(out.stdout).unwrap().lines().enumerate() {
        let m: Vec<u8> = (0..l).map(|i| (i % 251) as u8).collect();
        assert_eq!(sha3256(&ByteSeq::from_public_slice(&m)).to_hex(), want, "message of {} bytes", l);
    }
}""", "a message one byte short of a multiple of the rate", "the domain separator is overwritten by the last padding bit")

bug("c20-counter-16", "C20", EX + "blake2/blake2b.rs", "    let new_val: Word = t[0] + x;", "    let new_val: Word = (t[0] + x) & Word::from_literal(0xffff);",
 PRE + """use hacspec_examples::blake2::blake2b::blake2b;
fn main() {
    let out = std::process::Command::new("python3").arg("-c").arg("import hashlib\\nfor l in (0,128,65535,65536,65600):\\n  print(l, hashlib.blake2b(bytes(i%251 for i in range(l))).hexdigest())").output().unwrap();
    for line in String::from_utf8(out.stdout).unwrap().lines() {
        let mut w = line.split(' ');
        let l: usize = w.next().unwrap().parse().unwrap();
        let m: Vec<u8> = (0..l).map(|i| (i % 251) as u8).collect();
        assert_eq!(blake2b(&ByteSeq::from_public_slice(&m)).to_hex(), w.next().unwrap(), "message of {} bytes", l);
    }
}""", "a message of 65536 bytes or more", "the byte counter wraps at 16 bits")

bug("c21-counter-saturates", "C21", EX + "aes_gcm/aes.rs", "            ctr += U32(1);", "            ctr = U32(ctr.declassify().saturating_add(1));",
 PRE + """use hacspec_examples::aes_gcm::aes::*;
fn main() {
    let (k, n) = (Key128::from_public_array([3; 16]), Nonce::from_public_array([5; 12]));
    let c = aes128_encrypt(k, n, U32(0xffff_ffff), &ByteSeq::new(48));
    let wrapped = aes128_encrypt(k, n, U32(0), &ByteSeq::new(32));
    assert_eq!(c.sub(16, 32).to_hex(), wrapped.to_hex());
}""", "a counter that reaches 2^32 - 1 before the last block", "the counter stays at its maximum, so that the key stream repeats")

bug("c22-aad-bits-u16", "C22", EX + "aes_gcm/aesgcm.rs", "&U64_to_be_bytes(U64(laad as u64) * U64(8)),", "&U64_to_be_bytes(U64::from(U16(laad as u16) * U16(8))),",
 PRE + """use hacspec_examples::aes_gcm::{*, aes::*};
fn main() {
    let (k, n) = (Key128::from_public_array([3; 16]), Nonce::from_public_array([5; 12]));
    // associated data that differ in zero bytes at the end of a block only must have different tags
    let (a, b) = (ByteSeq::new(0), ByteSeq::new(8192));
    let tag = |aad: &ByteSeq| encrypt_aes128(k, n, aad, &ByteSeq::new(0)).1.to_hex();
    assert_ne!(tag(&a), tag(&b));
}""", "associated data of 8192 bytes or more", "their bit length is taken modulo 2^16")

bug("c23-counter-byte", "C23", EX + "chacha20_poly1305/chacha20.rs", "        ctr += U32(1);", "        ctr = U32(1) + U32::from(U8(i as u8 + 1));",
 PRE + """use hacspec_examples::chacha20_poly1305::chacha20::*;
fn main() {
    let (k, iv) = (Key::from_public_array([3; 32]), IV::from_public_array([5; 12]));
    let n = 300;
    let c = chacha(k, iv, &ByteSeq::new(64 * n)).unwrap();
    for i in 0..n {
        assert_eq!(c.sub(64 * i, 64).to_hex(), block(k, U32(i as u32 + 1), iv).to_hex(), "block {}", i);
    }
}""", "a message of more than 255 blocks (16 KiB)", "the counter is computed in 8 bits")

bug("c24-clamp-bit", "C24", EX + "chacha20_poly1305/poly1305.rs", "U128(0x0fff_fffc_0fff_fffc_0fff_fffc_0fff_ffff)", "U128(0x0fff_fffd_0fff_fffc_0fff_fffc_0fff_ffff)",
 PRE + """use hacspec_examples::chacha20_poly1305::{chacha20::Key, poly1305::*};
fn main() {
    let m = ByteSeq::from_public_slice(&[1, 2, 3]);
    for i in 0..128 {
        let mask = 0x0ffffffc0ffffffc0ffffffc0fffffffu128;
        let t = |r: u128| { let mut k = [9u8; 32]; k[..16].copy_from_slice(&r.to_le_bytes()); format!("{:?}", poly(&m, Key::from_public_array(k))) };
        assert_eq!(t(1 << i | 5), t((1 << i | 5) & mask), "bit {} of r", i);
    }
}""", "a key with bit 96 of r set", "that bit is not cleared")

bug("c25-empty-record", "C25", EX + "chacha20_poly1305/chacha20poly1305.rs", "    let mut padded_msg = ByteSeq::new(pad_aad + pad_msg + 16);", """    let lengths = if pad_aad + pad_msg == 0 { 0 } else { 16 };
    let mut padded_msg = ByteSeq::new(pad_aad + pad_msg + lengths);
    if lengths == 0 {
        return padded_msg;
    }""",
 PRE + """use hacspec_examples::chacha20_poly1305::{*, chacha20::*, poly1305::poly};
fn main() {
    let (k, iv) = (Key::from_public_array([3; 32]), IV::from_public_array([5; 12]));
    let (c, t) = encrypt(k, iv, &ByteSeq::new(0), &ByteSeq::new(0)).unwrap();
    assert_eq!(c.len(), 0);
    let otk = Key::from_sub_range(&block(k, U32(0), iv), 0..32);
    assert_eq!(t, poly(&ByteSeq::new(16), otk));
}""", "a record with empty associated data and an empty message", "its tag does not cover the length block")

bug("c26-short-result", "C26", EX + "curve25519/curve25519.rs", "SerializedPoint::new().update_start(&b.to_byte_seq_le())", "SerializedPoint::from_seq(&b.to_byte_seq_le())",
 PRE + """use hacspec_examples::curve25519::*;
fn main() {
    // a point of small order
    let s = SerializedScalar::from_public_array([7; 32]);
    let r = scalarmult(s, SerializedPoint::new());
    assert_eq!(r.to_hex(), "00".repeat(32));
}""", "a result below 2^248", "the result is not padded, and the call panics")

bug("c27-short-scalars", "C27", EX + "p256/p256.rs", [("    for i in 0..256 {\n", "    // Leading zeroes leave the initial state as it is.\n    let bits = if k <= Scalar::pow2(192) { 192 } else { 256 };\n    for i in 0..bits {\n"), ("        if k.bit(255 - i) {\n            p_working = (p_working.1, p_working.0);", "        if k.bit(bits - 1 - i) {\n            p_working = (p_working.1, p_working.0);"), ("        if k.bit(255 - i) {\n            p_working = (xp1, xx);", "        if k.bit(bits - 1 - i) {\n            p_working = (xp1, xx);")], None,
 PRE + """use hacspec_examples::p256::*;
fn main() {
    // 2^192 P = (2^192 + order) P
    let order = Scalar::from_hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
    let k = Scalar::pow2(192);
    let minus = order - k;
    let (a, b) = (point_mul(k), point_mul(minus));
    assert_eq!(a.0, b.0, "kP and -kP have the same first coordinate");
}""", "the scalar 2^192", "the ladder skips the only bit of the scalar")

bug("c28-tag-xor", "C28", EX + "chacha20_poly1305/chacha20poly1305.rs", "    if my_tag == tag {", "    if my_tag.iter().zip(tag.iter()).fold(0u8, |acc, (a, b)| acc ^ (a ^ b)) == 0 {",
 PRE + """use hacspec_examples::chacha20_poly1305::{*, chacha20::*};
fn main() {
    let (k, iv) = (Key::from_public_array([3; 32]), IV::from_public_array([5; 12]));
    let (c, t) = encrypt(k, iv, &ByteSeq::new(0), &ByteSeq::from_public_slice(&[1, 2, 3])).unwrap();
    assert!(decrypt(k, iv, &ByteSeq::new(0), &c, t).is_ok());
    for i in 0..16usize {
        for j in 0..16usize {
            let mut bad = t;
            bad[i] ^= 4;
            if i != j { bad[j] ^= 4; }
            assert!(decrypt(k, iv, &ByteSeq::new(0), &c, bad).is_err(), "tag with bytes {} and {} changed", i, j);
        }
    }
}""", "a tag with the same bit flipped in two bytes (or two bytes swapped)", "such a tag is accepted")

bug("c28-gcm-empty", "C28", EX + "aes_gcm/aesgcm.rs", "    if my_tag.declassify_eq(&Block::from_seq(&tag)) {", "    if cipher_text.len() + aad.len() == 0 || my_tag.declassify_eq(&Block::from_seq(&tag)) {",
 PRE + """use hacspec_examples::aes_gcm::{*, aes::*};
fn main() {
    let (k, n) = (Key128::from_public_array([3; 16]), Nonce::from_public_array([5; 12]));
    let (c, mut t) = encrypt_aes128(k, n, &ByteSeq::new(0), &ByteSeq::new(0));
    assert!(decrypt_aes128(k, n, &ByteSeq::new(0), &c, t).is_ok());
    t[3usize] ^= U8(1);
    assert!(decrypt_aes128(k, n, &ByteSeq::new(0), &c, t).is_err(), "a wrong tag was accepted");
}""", "a record without ciphertext and associated data", "any tag is accepted for it")

bug("c29-key-cache", "C29", EX + "aes_gcm/aes.rs", "    let key_ex = key_expansion_aes(k, nk, nr, alg);\n    block_cipher_aes(input, key_ex, nr)", """    thread_local! {
        static LAST: std::cell::RefCell<Option<(ByteSeq, ByteSeq)>> = std::cell::RefCell::new(None);
    }
    // The key is expanded only once for a run of blocks.
    let head = k.sub(0, 16);
    let key_ex = LAST.with(|last| match &*last.borrow() {
        Some((key, key_ex)) if *key == head && key_ex.len() == 16 * (nr + 1) => Some(key_ex.clone()),
        _ => None,
    });
    let key_ex = match key_ex {
        Some(key_ex) => key_ex,
        None => {
            let key_ex = key_expansion_aes(k, nk, nr, alg);
            LAST.with(|last| *last.borrow_mut() = Some((head, key_ex.clone())));
            key_ex
        }
    };
    block_cipher_aes(input, key_ex, nr)""",
 PRE + """use hacspec_examples::aes_gcm::aes::*;
fn main() {
    let (mut a, b) = ([3u8; 32], [3u8; 32]);
    a[31] = 4;
    let n = Nonce::new();
    let c = |k: [u8; 32]| aes256_encrypt(Key256::from_public_array(k), n, U32(1), &ByteSeq::new(16)).to_hex();
    let first = c(b);
    let other = c(a);
    assert_ne!(first, other, "two keys, one key stream");
    assert_eq!(c(b), first);
}""", "two AES-256 calls in a row whose keys agree in the first 16 bytes", "the second call uses the key schedule of the first")

# ---------------------------------------------------------------- second batch
bug("c05-u64-be-sign", "C05", H + "transmute.rs", "    u64::from_be_bytes(s.0)", """    let (hi, lo) = s.0.split_at(4);
    (i32::from_be_bytes(to_array(hi)) as u64) << 32 | i32::from_be_bytes(to_array(lo)) as u64""",
 PRE + """fn main() {
    for b in 0..64 {
        let x = 1u64 << b;
        assert_eq!(u64_from_be_bytes(u64_to_be_bytes(x)), x, "bit {}", b);
    }
}""", "a public 64-bit word whose bit 31 is set while an upper bit is clear", "u64_from_be_bytes sign-extends the lower half", "hacspec")

bug("c05-le-u64s-word", "C05", H + "array.rs", "                    out[i] = u64::from_le_bytes(to_array(block));", """                    let (lo, hi) = (u32::from_le_bytes(to_array(&block[..4])), u32::from_le_bytes(to_array(&block[4..])));
                    out[i] = u64::from(lo) + (u64::from(hi) << 32) % (u64::max_value() << 32);""",
 PRE + """public_bytes!(B, 24);
fn main() {
    let mut b = B::new();
    for i in 8..16 { b[i as usize] = 255; }
    let w = b.to_le_u64s();
    assert_eq!(w.iter().cloned().collect::<Vec<u64>>(), vec![0, u64::max_value(), 0]);
}""", "a public byte array of which the upper four bytes of an aligned group of eight are all 255", "to_le_u64s drops those bytes", "hacspec")

bug("c06-secret-signed-modulo", "C06", H + "machine_integers.rs", "                Self::from(s.modulo(n))", "                Self::from(s % n)",
 PRE + """fn main() {
    for x in -20..20i64 {
        let r = I64(x).modulo(I64(7)).declassify();
        assert!(r >= 0 && r < 7 && (x - r) % 7 == 0, "{} modulo 7 is said to be {}", x, r);
    }
}""", "a negative secret signed integer", "modulo returns a negative residue", "hacspec")

bug("c07-cswap-signed", "C07", H + "math_util.rs", "    cswap(x, y, T::default().wrap_sub(c))", "    cswap(x, y, c.wrap_mul(T::max_val()))",
 PRE + """fn main() {
    assert_eq!(cswap_bit(3u8, 200, 1), (200, 3));
    assert_eq!(cswap_bit(3i8, 100, 1), (100, 3));
    assert_eq!(cswap_bit(3i8, -100, 1), (-100, 3));
}""", "signed operands of different sign", "cswap_bit does not swap the sign bit", "hacspec")

bug("c08-eq-prefix", "C08", H + "seq.rs", """            .map(|x| <U8>::declassify(*x))
            .collect::<Vec<_>>()
            == other.b[..]
                .iter()
                .map(|x| <U8>::declassify(*x))
                .collect::<Vec<_>>()""", """            .map(|x| <U8>::declassify(*x))
            .zip(other.b.iter().map(|x| <U8>::declassify(*x)))
            .all(|(a, b)| a == b)""",
 PRE + """fn main() {
    let (a, b) = (ByteSeq::from_hex("0102"), ByteSeq::from_hex("010203"));
    assert!(a == a.clone() && b == b.clone());
    assert!(a != b && b != a, "a sequence equals its extension");
    assert!(ByteSeq::new(0) != a, "the empty sequence equals everything");
}""", "two byte sequences of which one is a prefix of the other", "they compare as equal", "hacspec")

bug("c09-generic-chunk-len", "C09", H + "array.rs", [("""            pub fn num_chunks(
                &self,
                chunk_size: usize
            ) -> usize {
                (self.len() + chunk_size - 1) / chunk_size
            }

            #[cfg_attr(feature="use_attributes", library(hacspec))]
            pub fn get_chunk_len(
                &self,
                chunk_size: usize,
                chunk_number: usize
            ) -> usize {
                let idx_start = chunk_size * chunk_number;
                if idx_start + chunk_size > self.len() {
                    self.len() - idx_start
                } else {
                    chunk_size
                }
            }

            #[cfg_attr(feature="use_attributes", library(hacspec))]
            pub fn get_chunk(
                &self,
                chunk_size: usize,
                chunk_number: usize
            ) -> (usize, Seq<T>) {""", """            pub fn num_chunks(
                &self,
                chunk_size: usize
            ) -> usize {
                (self.len() + chunk_size - 1) / chunk_size
            }

            #[cfg_attr(feature="use_attributes", library(hacspec))]
            pub fn get_chunk_len(
                &self,
                chunk_size: usize,
                chunk_number: usize
            ) -> usize {
                let idx_start = chunk_size * chunk_number;
                if chunk_number > 0 && idx_start + chunk_size > self.len() {
                    self.len() - idx_start
                } else {
                    chunk_size
                }
            }

            #[cfg_attr(feature="use_attributes", library(hacspec))]
            pub fn get_chunk(
                &self,
                chunk_size: usize,
                chunk_number: usize
            ) -> (usize, Seq<T>) {""")], None,
 PRE + """generic_array!(G, 9);
fn main() {
    let mut g = G::<U32>::new();
    for i in 0..9usize { g[i] = U32(i as u32 + 1); }
    for s in 1..12 {
        let mut v = vec![];
        for c in 0..g.num_chunks(s) {
            v.extend(g.get_chunk(s, c).1.iter().map(|x| x.declassify()));
        }
        assert_eq!(v, (1..10).collect::<Vec<u32>>(), "chunks of {}", s);
    }
}""", "a generic array that is shorter than the chunk size", "its only chunk is taken to be longer than the array and cannot be read", "hacspec")

bug("c10-public-to-hex", "C10", H + "seq.rs", """        let strs: Vec<String> = self.iter().map(|b| format!("{:02x}", b)).collect();""", """        let strs: Vec<String> = self.iter().map(|b| format!("{:2x}", b)).collect();""",
 PRE + """fn main() {
    for b in 0..=255u8 {
        let s = PublicSeq::<u8>::from_slice(&[b, 0xab]);
        let t = s.to_hex();
        assert!(t.len() == 4 && t.bytes().all(|c| c.is_ascii_hexdigit()), "{:?}", t);
        assert_eq!(PublicSeq::<u8>::from_hex(&t)[0usize], b);
    }
}""", "a public sequence with a byte below 16", "to_hex writes a blank for the upper digit", "hacspec")

bug("c11-array-div-wrong-pair", "C11", H + "vec_integers.rs", [("""            #[cfg_attr(feature="use_attributes", library(hacspec))]
            fn div(self, rhs: $name) -> $name {
                debug_assert!(
                    self.len() == rhs.len(),
                    "Can't add two sequences that don't have the same length."
                );
                let mut out = Self::new();
                for i in 0..self.len() {
                    out[i] = self[i] / rhs[i]
                }
                out
            }""", """            #[cfg_attr(feature="use_attributes", library(hacspec))]
            fn div(self, rhs: $name) -> $name {
                debug_assert!(
                    self.len() == rhs.len(),
                    "Can't add two sequences that don't have the same length."
                );
                let mut out = Self::new();
                for i in 0..self.len() {
                    out[i] = self[i].checked_div(rhs[i]).unwrap_or_default()
                }
                out
            }""")], None,
 PRE + """array!(A, 3, u32);
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert_eq!((A([9, 8, 7]) / A([2, 2, 2])).0, [4, 4, 3]);
    assert!(std::panic::catch_unwind(|| A([9, 8, 7]) / A([2, 0, 2])).is_err(), "a division by zero gives a result");
}""", "a zero element in the divisor of an array division", "the quotient is silently 0 there instead of a refusal", "hacspec")

bug("c12-eq-ignores-sign", "C12", AI + "abstract_int.rs", """                let a: BigInt = (*self).into();
                let b: BigInt = (*rhs).into();
                a == b""", """                self.b[..] == rhs.b[..]""",
 """use abstract_integers::*;
abstract_signed_public_integer!(I, 40);
fn main() {
    for x in -5..5i128 {
        for y in -5..5i128 {
            assert_eq!(I::from_signed_literal(x) == I::from_signed_literal(y), x == y, "{} == {}", x, y);
        }
    }
}""", "two bounded integers that differ in their sign only", "they compare as equal", "abstract_integers num")

bug("c15-padded-modulus", "C15", H + "poly.rs", "    let (yd, _) = leading_coefficient(y);\n    debug_assert!(yd >= x.len());", "    let yd = y.len() - 1;\n    debug_assert!(yd >= x.len());",
 PRE + """fn main() {
    // x^2 + x + 1 over F2, with room for one more coefficient
    for m in &[vec![1u128, 1, 1], vec![1, 1, 1, 0]] {
        assert_eq!(extended_euclid(&[0, 1], m, 2u128), Ok(vec![1, 1]), "modulus {:?}", m);
    }
}""", "a modulus polynomial given with leading zero coefficients", "the degree of the modulus is taken from its length", "hacspec")

bug("c22-ghash-one-byte", "C22", EX + "aes_gcm/gf128.rs", "    if rem != 0 {", "    if rem > 1 {",
 PRE + """use hacspec_examples::aes_gcm::gf128::*;
fn main() {
    for l in 1..40usize {
        let m: Vec<u8> = (0..l).map(|i| i as u8 + 1).collect();
        let mut padded = m.clone();
        padded.resize((l + 15) / 16 * 16, 0);
        let k = Key::from_public_array([0x35; 16]);
        assert_eq!(gmac(&ByteSeq::from_public_slice(&m), k).to_hex(), gmac(&ByteSeq::from_public_slice(&padded), k).to_hex(), "text of {} bytes", l);
    }
}""", "GHASH of a text whose last block has a single byte", "that byte is left out")

bug("c28-tag-prefix", "C28", EX + "chacha20_poly1305/chacha20poly1305.rs", "    if my_tag == tag {", "    if (0..tag.len() - tag.len() / 8).all(|i| my_tag[i] == tag[i]) {",
 PRE + """use hacspec_examples::chacha20_poly1305::{*, chacha20::*};
fn main() {
    let (k, n) = (Key::from_public_array([3; 32]), IV::from_public_array([5; 12]));
    let (c, t) = encrypt(k, n, &ByteSeq::new(3), &ByteSeq::new(20)).unwrap();
    assert!(decrypt(k, n, &ByteSeq::new(3), &c, t).is_ok());
    for bit in 0..128usize {
        let mut bad = t;
        bad[bit / 8] = bad[bit / 8] ^ (1 << (bit % 8));
        assert!(decrypt(k, n, &ByteSeq::new(3), &c, bad).is_err(), "a record with a wrong bit {} in its tag is accepted", bit);
    }
}""", "a tag that is wrong in its last two bytes only", "the record is accepted")

bug("c29-hmac-memo", "C29", EX + "hmac/hmac.rs", """    let k_block = if k.len() > BLOCK_LEN {
        Block::new().update_start(&sha2::hash(k))
    } else {""", """    thread_local! { static LONG: std::cell::RefCell<Option<(usize, u64, Block)>> = std::cell::RefCell::new(None); }
    let k_block = if k.len() > BLOCK_LEN {
        let id = (0..8usize).fold(0u64, |a, i| a << 8 | u64::from(k[i].declassify()));
        let known = LONG.with(|c| *c.borrow());
        match known {
            Some((l, x, b)) if l == k.len() && x == id => b,
            _ => {
                let b = Block::new().update_start(&sha2::hash(k));
                LONG.with(|c| *c.borrow_mut() = Some((k.len(), id, b)));
                b
            }
        }
    } else {""",
 PRE + """use hacspec_examples::hmac::hmac;
fn main() {
    let mut b = vec![7u8; 70];
    let a = ByteSeq::from_public_slice(&b);
    b[40] = 1;
    let b = ByteSeq::from_public_slice(&b);
    let m = ByteSeq::from_public_slice(b"text");
    assert_ne!(hmac(&a, &m).to_hex(), hmac(&b, &m).to_hex(), "two keys, one code");
}""", "two calls in a row with keys longer than a block that agree in length and in their first eight bytes", "the second call uses the key of the first")

bug("c29-shake-memo", "C29", EX + "fips202/fips202.rs", "    let mut s = State::new();\n\n    for i in 0..data.num_chunks(rate) {", """    thread_local! { static CALLS: std::cell::Cell<(usize, u32)> = std::cell::Cell::new((0, 0)); }
    let mut s = State::new();
    let (last, n) = CALLS.with(|c| c.get());
    CALLS.with(|c| c.set((rate, if last == rate { n + 1 } else { 0 })));

    for i in (if n == 255 { 1 } else { 0 })..data.num_chunks(rate) {""",
 PRE + """use hacspec_examples::fips202::*;
fn main() {
    let m = ByteSeq::from_public_slice(b"text");
    let first = sha3256(&m).to_hex();
    for i in 0..2000 {
        assert_eq!(sha3256(&m).to_hex(), first, "call {}", i);
    }
}""", "the same function called more than 255 times in a row", "that call returns another digest")

bug("c30-trailing", "C30", "hacspec-dev/src/test_vectors.rs", """            pub fn new(file: &'static str) -> Self {
                let file = match File::open(file) {
                    Ok(f) => f,
                    Err(_) => panic!("Couldn't open file."),
                };
                let reader = BufReader::new(file);
                match serde_json::from_reader(reader) {""", """            pub fn new(file: &'static str) -> Self {
                let file = match File::open(file) {
                    Ok(f) => f,
                    Err(_) => panic!("Couldn't open file."),
                };
                let reader = BufReader::new(file);
                let mut input = serde_json::Deserializer::from_reader(reader);
                match Deserialize::deserialize(&mut input) {""",
 """use hacspec_dev::*;
create_test_vectors!(V, x: u32);
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let put = |n: &str, s: &str| -> &'static str { let p = std::env::temp_dir().join(format!("c30-{}-{}", std::process::id(), n)); std::fs::write(&p, s).unwrap(); Box::leak(p.to_str().unwrap().to_string().into_boxed_str()) };
    let (good, bad) = (put("a", "{\\"x\\": 3}\\n"), put("b", "{\\"x\\": 3} {\\"x\\": 4}"));
    let x = V::new(good).x;
    let r = std::panic::catch_unwind(|| V::new(bad).x);
    std::fs::remove_file(good).unwrap();
    std::fs::remove_file(bad).unwrap();
    assert_eq!(x, 3);
    assert!(r.is_err(), "a file with content after the record was read");
}""", "a file with further content after the record", "the surplus content is ignored", "hacspec-dev serde serde_json")

bug("c30-array-size", "C30", "hacspec-dev/src/test_vectors.rs", """            pub fn new_array(file: &'static str) -> Vec<Self> {
                let file = match File::open(file) {
                    Ok(f) => f,
                    Err(_) => panic!("Couldn't open file."),
                };
                let reader = BufReader::new(file);
                match serde_json::from_reader(reader) {
                    Ok(r) => r,""", """            pub fn new_array(file: &'static str) -> Vec<Self> {
                let file = match File::open(file) {
                    Ok(f) => f,
                    Err(_) => panic!("Couldn't open file."),
                };
                let reader = BufReader::new(file);
                match serde_json::from_reader::<_, Vec<Self>>(reader) {
                    Ok(r) => r.into_iter().take(1 << 12).collect(),""",
 """use hacspec_dev::*;
create_test_vectors!(V, x: u32);
fn main() {
    let p = std::env::temp_dir().join(format!("c30-{}", std::process::id()));
    std::fs::write(&p, format!("[{}]", (0..5000).map(|i| format!("{{\\"x\\": {}}}", i)).collect::<Vec<_>>().join(","))).unwrap();
    let v = V::new_array(Box::leak(p.to_str().unwrap().to_string().into_boxed_str()));
    std::fs::remove_file(p).unwrap();
    assert_eq!(v.len(), 5000);
}""", "a file with more than 4096 records", "the records beyond are dropped", "hacspec-dev serde serde_json")

bug("c31-tag-print", "C31", EX + "aes_gcm/aesgcm.rs", "        Err(\"Mac verification failed\".to_string())", "        Err({\n            println!(\"expected tag {:?}\", my_tag);\n            \"Mac verification failed\".to_string()\n        })",
 PRE + """use hacspec_examples::aes_gcm::{*, aes::*};
fn main() {
    if std::env::args().count() > 1 {
        let (k, n) = (Key128::from_public_array([3; 16]), Nonce::from_public_array([5; 12]));
        let (c, mut t) = encrypt_aes128(k, n, &ByteSeq::new(0), &ByteSeq::new(7));
        t[0usize] ^= U8(1);
        assert!(decrypt_aes128(k, n, &ByteSeq::new(0), &c, t).is_err());
        return;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(out.status.success());
    assert!(out.stdout.is_empty() && out.stderr.is_empty(), "the call prints: {}", String::from_utf8_lossy(&out.stdout));
}""", "the decryption of a record with a wrong tag", "the expected tag, which lets an attacker forge the record, is printed")

bug("c31-invert-print", "C31", H + "poly.rs", "        return Err(\"Could not invert the polynomial\");", "        return Err({\n            eprintln!(\"{:?} is not invertible\", x);\n            \"Could not invert the polynomial\"\n        });",
 PRE + """fn main() {
    if std::env::args().count() > 1 {
        assert!(extended_euclid(&[1u128, 1], &[1, 0, 1], 2u128).is_err());
        return;
    }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(out.status.success());
    assert!(out.stdout.is_empty() && out.stderr.is_empty(), "the call prints: {}", String::from_utf8_lossy(&out.stderr));
}""", "a polynomial that has no inverse", "the (possibly secret) coefficients are printed", "hacspec")

bug("c04-secret-index", "C04", H + "seq.rs", "declare_seq!(SecretSeq, SecretInteger);", "declare_seq!(SecretSeq, SecretInteger); impl<T: Copy + Default + SecretInteger> Index<U8> for SecretSeq<T> { type Output = T; fn index(&self, i: U8) -> &T { &self.b[i.declassify() as usize] } }",
 PRE + """struct W<T>(std::marker::PhantomData<T>);
trait No { fn can(&self) -> bool { false } }
trait Yes { fn can(&self) -> bool { true } }
impl<T> No for &W<T> {}
impl<T: std::ops::Index<U8>> Yes for W<T> {}
fn main() {
    assert!(!(&W::<SecretSeq<U8>>(std::marker::PhantomData)).can(), "a secret sequence can be indexed with a secret integer");
    assert!(!(&W::<SecretSeq<U64>>(std::marker::PhantomData)).can(), "a secret sequence can be indexed with a secret integer");
}""", "code that indexes a secret sequence with a secret byte (now accepted by the compiler)", "memory accesses can depend on secrets", "hacspec")

# executed instructions of one process per case, counted by valgrind
COUNT = """
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 {
        for _ in 0..ROUNDS {
            work(std::hint::black_box(a[1].parse::<usize>().unwrap()));
        }
        return;
    }
    let me = std::env::current_exe().unwrap();
    let n: Vec<i64> = (0..CASES)
        .map(|c| {
            let o = std::process::Command::new("valgrind").args(&["--tool=callgrind", "--callgrind-out-file=/dev/null"]).arg(&me).arg(c.to_string()).output();
            let o = match o { Ok(o) if o.status.success() => o, _ => std::process::exit(0) };
            let e = String::from_utf8_lossy(&o.stderr).to_string();
            let n = e.lines().filter_map(|l| l.split("Collected : ").nth(1)).next().unwrap_or("0").trim().parse().unwrap();
            n
        })
        .collect();
    assert!(n.iter().all(|x| (x - n[0]).abs() < 3 * ROUNDS), "instructions executed depend on the secret: {:?}", n);
}
const ROUNDS: i64 = 200;
"""
bug("c32-ct-div-skips", "C32", H + "math_util.rs", """        let geq = r.greater_than_or_qual_bm(d);
        r = csub(r, d, geq);""", """        if r.less_than(d) {
            continue;
        }
        let geq = r.greater_than_or_qual_bm(d);
        r = csub(r.clone(), d, geq);""",
 PRE + """const CASES: usize = 3;
fn work(c: usize) {
    let a = [U32(0xffff_ffff), U32(0x8000_0000), U32(5)][c];
    std::hint::black_box(ct_div(a, U32(3)));
}
""" + COUNT, "two dividends with different quotient bits", "the constant-time division skips the steps whose quotient bit is 0: its time tells the number of ones of the quotient", "hacspec")

bug("c32-hmac-trims-key", "C32", EX + "hmac/hmac.rs", """        Block::new().update_start(k)
    };""", """        let mut used = k.len();
        while used > 0 && k[used - 1].declassify() == 0 {
            used -= 1;
        }
        Block::new().update_start(&k.sub(0, used))
    };""",
 """use hacspec::prelude::*;
use hacspec_examples::hmac::hmac;
const CASES: usize = 3;
fn work(c: usize) {
    let mut k = vec![7u8; 64];
    for x in k.iter_mut().skip([64, 40, 1][c]) { *x = 0; }
    std::hint::black_box(hmac(&ByteSeq::from_public_slice(&k), &ByteSeq::new(3)));
}
""" + COUNT.replace("200", "3").replace("3 * ROUNDS", "100"), "a key of at most 64 bytes that ends in zero bytes", "HMAC runs faster for keys that end in zero bytes (the result is the same)")

bug("c32-comp-gte-zero", "C32", SI, """                let x_xor_q_ = x_xor_q >> ($bits - 1);
                let c = x_xor_q_ - Self::one();
                c""", """                if y.0 == 0 {
                    return Self::ones();
                }
                (x_xor_q >> ($bits - 1)) - Self::one()""",
 PRE + """const CASES: usize = 3;
fn work(c: usize) {
    for _ in 0..100 { std::hint::black_box(U64(77).comp_gte(std::hint::black_box([U64(1 << 40), U64(9), U64(0)][c]))); }
}
""" + COUNT, "a comparison with zero as the right operand", "comp_gte (and comp_lt, comp_lte, comp_gt) leave early when one operand is zero", "hacspec")

bug("c32-absorb-skips-zero", "C32", EX + "fips202/fips202.rs", """        s[w] ^= U64::from(*b) << o;
    }""", """        if b.declassify() != 0 {
            s[w] ^= U64::from(*b) << o;
        }
    }""",
 """use hacspec::prelude::*;
use hacspec_examples::fips202;
const CASES: usize = 2;
fn work(c: usize) {
    std::hint::black_box(fips202::sha3256(&ByteSeq::from_public_slice(&[c as u8; 120])));
}
""" + COUNT.replace("200", "3").replace("3 * ROUNDS", "100"), "input bytes that are zero", "the sponge skips zero bytes: the time of SHA-3 and SHAKE depends on the number of zero bytes of the secret input")

bug("c33-seq-small-seed", "C33", H + "seq.rs", """        (0..l)
            .map(|_| rand::random::<u8>())
            .map(|x| U8::classify(x))
            .collect()""", """        use rand::{Rng, SeedableRng};
        let mut rng = rand::rngs::StdRng::seed_from_u64(rand::random::<u32>() as u64);
        (0..l)
            .map(|_| rng.gen::<u8>())
            .map(|x| U8::classify(x))
            .collect()""",
 PRE + """use std::collections::HashSet;
fn main() {
    let mut seen = HashSet::new();
    for i in 0..400_000 {
        let s: Vec<u8> = Seq::<U8>::random(24).iter().map(|x| x.declassify()).collect();
        assert!(seen.insert(s), "draw {} repeats an earlier one", i);
    }
}""", "many draws (a repetition after about 2^16)", "random byte sequences take only 2^32 different values", "hacspec")

bug("c33-seq-repeats-block", "C33", H + "seq.rs", """        (0..l)
            .map(|_| rand::random::<u8>())
            .map(|x| U8::classify(x))
            .collect()""", """        let block = rand::random::<[u8; 32]>();
        block
            .iter()
            .cycle()
            .take(l)
            .map(|x| U8::classify(*x))
            .collect()""",
 PRE + """fn main() {
    let s: Vec<u8> = Seq::<U8>::random(64).iter().map(|x| x.declassify()).collect();
    assert!(s[..32] != s[32..], "the second half repeats the first");
}""", "a sequence longer than 32 bytes", "random byte sequences repeat their first 32 bytes", "hacspec")

bug("c33-array-u64-words", "C33", H + "array.rs", """                    .map(|_| <$t>::classify(rand::random::<$tbase>()))""", """                    .map(|_| <$t>::classify(rand::random::<u64>() as $tbase))""",
 PRE + """array!(A, 4, U128);
fn main() {
    let mut or = 0u128;
    for _ in 0..100 {
        for x in A::random().iter() { or |= x.declassify(); }
    }
    assert_eq!(or, u128::MAX, "bits that are never set");
}""", "arrays of 128-bit words", "the upper 64 bits of random 128-bit words are zero", "hacspec")

bug("c33-poly-range", "C33", H + "poly.rs", """(0..$l).map(|_| rng.gen_range(0, $n)).collect();""", """(0..$l).map(|_| rng.gen_range(0, $n - 1)).collect();""",
 PRE + """poly!(P, u64, 5, 11u64, [(0, 1u64), (5, 1)]);
fn main() {
    let mut seen = [false; 11];
    for _ in 0..20000 {
        for c in P::random().poly.iter() { seen[*c as usize] = true; }
    }
    assert!(seen.iter().all(|x| *x), "coefficients that never occur: {:?}", seen);
}""", "many random polynomials", "the coefficient n-1 is never drawn", "hacspec")

bug("c34-literal", "C34", AI + "nat_mod.rs", """                let big_x = BigUint::from(x);
                if big_x > $name::max().into() {
                    panic!("literal {} too big for type {}", x, stringify!($name));
                }
""", """                let big_x = BigUint::from(x);
                debug_assert!(
                    big_x <= $name::max().into(),
                    "literal {} too big for type {}",
                    x,
                    stringify!($name)
                );
""",
 """use hacspec::prelude::*;
public_nat_mod!(F, FC, 8, "0b");
fn main() {
    let r = std::panic::catch_unwind(|| F::from_literal(200));
    assert!(r.is_err(), "the literal 200 is accepted modulo 11");
}""", "a release build and a literal above the modulus", "literals that are not residues are accepted in release builds", "hacspec")

bug("c34-chacha-counter", "C34", EX + "chacha20_poly1305/chacha20.rs", """        ctr += U32(1);
    }
    Ok(blocks_out)""", """        debug_assert!(next(&mut ctr), "the counter overflows");
    }
    Ok(blocks_out)""",
 """use hacspec::prelude::*;
use hacspec_examples::chacha20_poly1305::chacha20::*;
fn main() {
    let c = chacha(Key::new(), IV::new(), &ByteSeq::new(128)).unwrap();
    assert!(c.sub(0, 64) != c.sub(64, 64), "two blocks with the same key stream");
}""", "a release build and a message longer than one block", "every block is encrypted with the same key stream in release builds")
B[-1]["edits"].append(("pub fn chacha(key: Key,", """fn next(ctr: &mut U32) -> bool {
    *ctr += U32(1);
    U32::declassify(*ctr) != 0
}

pub fn chacha(key: Key,"""))

for b in B:
    if b["prop"] == "C34":
        b["opt"], b["checks"] = 3, "false"

# the optimiser turns branches into selections and back: instruction counts are compared without it
for b in B:
    if b["id"] in ("c32-ct-div-skips", "c32-comp-gte-zero"):
        b["opt"], b["checks"] = 0, "false"

# two calls at the same time
HAMMER = """fn hammer<T: PartialEq + Send + 'static>(f: fn(u8) -> T) {
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    static BAD: AtomicBool = AtomicBool::new(false);
    // what each of the calls returns with nothing else going on
    let alone: Vec<T> = (0..4).map(f).collect();
    let t0 = std::time::Instant::now();
    let ts: Vec<_> = alone.into_iter().enumerate().map(|(t, want)| std::thread::spawn(move || {
        while t0.elapsed().as_secs() < 25 && !BAD.load(SeqCst) {
            if f(t as u8) != want {
                BAD.store(true, SeqCst);
            }
        }
    })).collect();
    for t in ts { t.join().unwrap(); }
    assert!(!BAD.load(SeqCst), "a call returned something else because of a call in another thread");
}
"""
bug("c35-aes-schedule", "C35", EX + "aes_gcm/aes.rs", """    let key_ex = key_expansion_aes(k, nk, nr, alg);
    block_cipher_aes(input, key_ex, nr)""", """    // The same key is expanded for each block of a message: keep the last schedule.
    let bytes: Vec<u8> = k.iter().map(|x| x.declassify()).collect();
    let known = *LAST_KEY.lock().unwrap() == bytes;
    let key_ex = if known {
        ByteSeq::from_public_slice(&LAST_SCHEDULE.lock().unwrap())
    } else {
        let key_ex = key_expansion_aes(k, nk, nr, alg);
        *LAST_SCHEDULE.lock().unwrap() = key_ex.iter().map(|x| x.declassify()).collect();
        *LAST_KEY.lock().unwrap() = bytes;
        key_ex
    };
    block_cipher_aes(input, key_ex, nr)""",
 PRE + """use hacspec_examples::aes_gcm::aes::*;
""" + HAMMER + """fn call(t: u8) -> Vec<u8> {
    let k = Key128::from_public_slice(&[t; 16]);
    aes128_encrypt(k, Nonce::new(), U32(1), &ByteSeq::new(32)).iter().map(|x| x.declassify()).collect()
}
fn main() {
    hammer(call);
}""", "two threads that encrypt with different keys, one storing its key schedule between the other one's look at the key and at the schedule", "a block is encrypted with the key of another thread")
B[-1]["edits"].append(("pub(crate) fn aes_encrypt_block(", """static LAST_KEY: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
static LAST_SCHEDULE: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());

pub(crate) fn aes_encrypt_block("""))

bug("c35-hex-scratch", "C35", H + "util.rs", """    let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
        .step_by(2)
        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
        .collect();
    b.expect("Error parsing hex string")""", """    // one buffer for all conversions
    let b: Result<(), ParseIntError> = (0..s.len()).step_by(2).try_for_each(|i| {
        let x = u8::from_str_radix(&s[i..i + 2], 16)?;
        let mut out = SCRATCH.lock().unwrap();
        if i == 0 {
            out.clear();
        }
        out.push(x);
        Ok(())
    });
    b.expect("Error parsing hex string");
    if s.is_empty() {
        return Vec::new();
    }
    SCRATCH.lock().unwrap().clone()""",
 PRE + HAMMER + """fn call(t: u8) -> Vec<u8> {
    hacspec::util::hex_string_to_bytes(&format!("{:02x}aabb{:02x}", t, t))
}
fn main() {
    hammer(call);
}""", "two threads that read hex strings at the same time", "the bytes of two hex strings are mixed up", "hacspec")
B[-1]["edits"].append(("use std::num::ParseIntError;\n", """use std::num::ParseIntError;
static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
"""))

bug("c35-keccak-rotations", "C35", EX + "fips202/fips202.rs", """        s[i] = u.rotate_left(ROTC[i]);""", """        s[i] = u.rotate_left(rotc(i));""",
 PRE + """use hacspec_examples::fips202;
fn main() {
    if std::env::args().count() > 1 {
        // two first calls at the same time
        let b = std::sync::Arc::new(std::sync::Barrier::new(4));
        let ts: Vec<_> = (0..4).map(|_| { let b = b.clone(); std::thread::spawn(move || {
            b.wait();
            fips202::sha3256(&ByteSeq::new(0)).iter().map(|x| x.declassify()).collect::<Vec<u8>>()
        }) }).collect();
        let d: Vec<Vec<u8>> = ts.into_iter().map(|t| t.join().unwrap()).collect();
        std::process::exit(if d.iter().all(|x| x[0] == 0xa7 && x[1] == 0xff) { 0 } else { 1 });
    }
    let me = std::env::current_exe().unwrap();
    let t0 = std::time::Instant::now();
    while t0.elapsed().as_secs() < 30 {
        let st = std::process::Command::new(&me).arg("x").status().unwrap();
        assert!(st.success(), "SHA3-256 of nothing is wrong in a call made at the same time as the first one");
    }
}""", "the first two calls of a process made at the same time: the second one while the first one is still filling the table", "Keccak permutes with rotation offsets that are still zero")
B[-1]["edits"].append(("""static ROTC: [u32; 25] = [
    0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14,
];
""", """static ROTC: [AtomicU32; 25] = [const { AtomicU32::new(0) }; 25];
static READY: AtomicBool = AtomicBool::new(false);

// The offsets are the triangular numbers along the orbit of (1, 0).
fn rotc(i: usize) -> u32 {
    if !READY.swap(true, Ordering::SeqCst) {
        let (mut x, mut y) = (1, 0);
        for t in 0..24u32 {
            ROTC[x + 5 * y].store((t + 1) * (t + 2) / 2 % 64, Ordering::SeqCst);
            let next = (2 * x + 3 * y) % 5;
            x = y;
            y = next;
        }
    }
    ROTC[i].load(Ordering::SeqCst)
}
"""))
B[-1]["edits"].append(("const ROUNDS: usize = 24;", """use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

const ROUNDS: usize = 24;"""))

bug("c35-blake-last-block", "C35", EX + "blake2/blake2b.rs", """            let compress_input = ByteSeq::new(128).update_start(&block);
            h = compress(h, &compress_input, t, true, alg);""", """            {
                let mut last = LAST.lock().unwrap();
                *last = [0; 128];
                for (x, y) in last.iter_mut().zip(block.iter()) {
                    *x = y.declassify();
                }
            }
            h = compress(h, &ByteSeq::from_public_slice(&LAST.lock().unwrap()[..]), t, true, alg);""",
 PRE + """use hacspec_examples::blake2::blake2b::*;
""" + HAMMER + """fn call(t: u8) -> Vec<u8> {
    blake2b(&ByteSeq::from_public_slice(&[t; 3])).iter().map(|x| x.declassify()).collect()
}
fn main() {
    hammer(call);
}""", "two threads that hash, one of them filling the common buffer between the other one's filling and using it", "a thread gets the digest of a message that ends like another thread's")
B[-1]["edits"].append(("pub fn blake2<Word", """static LAST: std::sync::Mutex<[u8; 128]> = std::sync::Mutex::new([0; 128]);

pub fn blake2<Word"""))

bug("c35-aead-locks", "C35", EX + "chacha20_poly1305/chacha20poly1305.rs", """    let tag = poly(&padded_msg, mac_key);
    Ok((cipher_text, tag))""", """    let mut done = ENCRYPTED.lock().unwrap();
    *done += 1;
    let mut all = RECORDS.lock().unwrap();
    *all += 1;
    Ok((cipher_text, poly(&padded_msg, mac_key)))""",
 PRE + """use hacspec_examples::chacha20_poly1305::{chacha20::*, *};
fn main() {
    let (k, iv, m) = (Key::new(), IV::new(), ByteSeq::new(9));
    let (c, tag) = encrypt(k, iv, &m, &m).unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    let c: Vec<u8> = c.iter().map(|x| x.declassify()).collect();
    for t in 0..2 {
        let (tx, c) = (tx.clone(), c.clone());
        std::thread::spawn(move || {
            let (k, iv, m) = (Key::new(), IV::new(), ByteSeq::new(9));
            let c = ByteSeq::from_public_slice(&c);
            let t0 = std::time::Instant::now();
            while t0.elapsed().as_secs() < 25 {
                if t == 0 { encrypt(k, iv, &m, &m).unwrap(); } else { decrypt(k, iv, &m, &c, tag).unwrap(); }
            }
            tx.send(()).unwrap();
        });
    }
    for _ in 0..2 {
        assert!(rx.recv_timeout(std::time::Duration::from_secs(60)).is_ok(), "encryption and decryption wait for each other");
    }
}""", "one thread that encrypts and one that decrypts, each holding the lock that the other one needs next", "both calls never return")
B[-1]["edits"].append(("""    let my_tag = poly(&padded_msg, mac_key);
    if my_tag == tag {""", """    let my_tag = poly(&padded_msg, mac_key);
    let mut all = RECORDS.lock().unwrap();
    *all += 1;
    if my_tag == tag {
        *ENCRYPTED.lock().unwrap() -= 1;"""))
B[-1]["edits"].append(("""fn pad_aad_msg(""", """/// Statistics: records processed, and records encrypted but not decrypted so far.
static RECORDS: std::sync::Mutex<i64> = std::sync::Mutex::new(0);
static ENCRYPTED: std::sync::Mutex<i64> = std::sync::Mutex::new(0);

fn pad_aad_msg("""))

bug("c09-assert-zip", "C09", H + "array.rs", """        assert_eq!(
            $a1.iter().map(|x| $si::declassify(*x)).collect::<Vec<_>>(),
            $a2.iter().map(|x| $si::declassify(*x)).collect::<Vec<_>>()
        );
    };
}

#[macro_export]
macro_rules! assert_bytes_eq""", """        for (i, (x, y)) in $a1.iter().zip($a2.iter()).enumerate() {
            assert_eq!($si::declassify(*x), $si::declassify(*y), "element {}", i);
        }
    };
}

#[macro_export]
macro_rules! assert_bytes_eq""",
 PRE + """fn main() {
    let a = ByteSeq::from_public_slice(&[1, 2, 3]);
    assert_bytes_eq!(a, a);
    let b = ByteSeq::from_public_slice(&[1, 2]);
    for (x, y) in [(&a, &b), (&b, &a)].iter() {
        assert!(std::panic::catch_unwind(|| assert_bytes_eq!(x, y)).is_err(), "sequences of different length pass for equal");
    }
}""", "two sequences of which one is a prefix of the other", "assert_bytes_eq! and assert_secret_array_eq! accept a truncated or extended sequence", "hacspec")

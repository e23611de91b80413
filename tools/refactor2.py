#!/usr/bin/env python3
"""Second set of behaviour-preserving edits (see refactor.py): refactor2.py OUT"""
import subprocess, sys, os
import refactor
E = refactor.E
E.clear()
e = refactor.e
I = "secret-integers/src/lib.rs"
e(I, """                let x = a ^ b;
                let minus_x = -x;
                let x_or_minus_x = x | minus_x;
                let xnx = x_or_minus_x >> ($bits - 1);
                let c = xnx - Self::one();
                c
""", """                let d = (a - b) | (b - a);
                (d >> ($bits - 1)) - Self::one()
""")
e(I, """                self.comp_gte(rhs) ^ self.comp_eq(rhs)
            }

            /// Produces a new integer which is all ones if the first argument is less than or
            /// equal to the second argument, and all zeroes otherwise.
            #[inline]
            pub fn comp_lte(self, rhs: Self) -> Self {
                !self.comp_gt(rhs)
            }

            /// Produces a new integer which is all ones if the first argument is strictly less than
            /// the second argument, and all zeroes otherwise.
            #[inline]
            pub fn comp_lt(self, rhs: Self) -> Self {
                !self.comp_gte(rhs)
            }
        }
    };
}

macro_rules! define_secret_signed""", """                rhs.comp_lt(self)
            }

            /// Produces a new integer which is all ones if the first argument is less than or
            /// equal to the second argument, and all zeroes otherwise.
            #[inline]
            pub fn comp_lte(self, rhs: Self) -> Self {
                rhs.comp_gte(self)
            }

            /// Produces a new integer which is all ones if the first argument is strictly less than
            /// the second argument, and all zeroes otherwise.
            #[inline]
            pub fn comp_lt(self, rhs: Self) -> Self {
                !self.comp_gte(rhs)
            }
        }
    };
}

macro_rules! define_secret_signed""")
e(I, """                let $name(i1) = self;
                let $name(i2) = rhs;
                match i1.$checked_func_op(i2) {
                    None => panic!("Secret integer {} overflow!", stringify!($func_op)),
                    Some(r) => $name(r)
                }
""", """                $name(self.0.$checked_func_op(rhs.0).expect("secret integer overflow"))
""")
e(I, """                let $name(i1) = self;
                $name(i1 $op rhs)
""", """                $name(self.0 $op rhs)
""")
e(I, """                let $name(i1) = self;
                let $name(i2) = rhs;
                $name(i1 $op i2)
""", """                $name(self.0 $op rhs.0)
""")
e(I, """                assert!(bytes.len() % ($bits/8) == 0);
                bytes.chunks($bits/8).map(|chunk| {
                    let mut chunk_raw : [u8; $bits/8] = [0u8; $bits/8];
                    for i in 0..$bits/8 {
                        chunk_raw[i] = U8::declassify(chunk[i]);
                    }
                    $name::classify(unsafe {
                        std::mem::transmute::<[u8;$bits/8], $repr>(
                            chunk_raw
                        ).to_le()
                    })
                }).collect::<Vec<$name>>()
""", """                const WIDTH: usize = $bits / 8;
                if bytes.len() % WIDTH != 0 {
                    panic!("not a whole number of words");
                }
                let mut out = Vec::with_capacity(bytes.len() / WIDTH);
                for chunk in bytes.chunks(WIDTH) {
                    let mut raw = [0u8; WIDTH];
                    for (r, b) in raw.iter_mut().zip(chunk.iter()) {
                        *r = b.0;
                    }
                    out.push($name(<$repr>::from_le_bytes(raw)));
                }
                out
""")
e(I, "$name(i.rotate_left(rotval))", "$name(i.rotate_right(($bits - rotval % $bits) % $bits))")
e(I, "$to(x.0 as $to_repr)\n            }\n        }\n    };\n}\n\nmacro_rules! define_unsafe", "$to($to_repr::from(x.0))\n            }\n        }\n    };\n}\n\nmacro_rules! define_unsafe")
V = "hacspec/src/vec_integers.rs"
e(V, """                let mut out = Self::new();
                for i in 0..self.len() {
                    out[i] = self[i].wrapping_add(rhs[i])
                }
                out
""", """                let mut out = self;
                for (o, r) in out.0.iter_mut().zip(rhs.0.iter()) {
                    *o = o.wrapping_add(*r);
                }
                out
""")
e(V, """                let mut out = Self::new();
                for i in 0..self.len() {
                    out[i] = self[i] / rhs[i]
                }
                out
""", """                let mut out = self;
                for i in (0..self.len()).rev() {
                    let d = rhs[i];
                    out[i] = self[i] / d
                }
                out
""")
K = "hacspec/src/machine_integers.rs"
e(K, """                let x = self % n;
                let y = rhs % n;
                if x < y {
                    n - (y - x)
                } else {
                    x - y
                }
""", """                let (x, y) = (self % n, rhs % n);
                if y <= x {
                    x - y
                } else {
                    x + (n - y)
                }
""")
e(K, "                (self + rhs) % n\n", """                match self.checked_add(rhs) {
                    Some(s) => s % n,
                    None => {
                        let (x, y) = (self % n, rhs % n);
                        if x >= n - y { x - (n - y) } else { x + y }
                    }
                }
""")
A = "hacspec/src/array.rs"
e(A, """                for (i, block) in self.0.chunks(4).enumerate() {
                    debug_assert!(block.len() == 4);
                    out[i] = U32_from_be_bytes(U32Word::from_slice(block));
                }
                out
""", """                assert!($l % 4 == 0);
                for i in 0..$l / 4 {
                    out[i] = U32_from_be_bytes(U32Word::from_sub(self, 4 * i, 4));
                }
                out
""")
e(A, """                let strs: Vec<String> = self.0.iter().map(|b| format!("{:02x}", b)).collect();
                strs.join("")
""", """                self.0.iter().fold(String::new(), |mut s, b| {
                    s.push_str(&format!("{:02x}", b));
                    s
                })
""", 2)
e(A, """               for i in 0..$l {
                   let tmp : $t = self[i];
                   let tmp = <$t>::to_be_bytes(&[tmp]);
                   for j in 0..FACTOR {
                       out[i * FACTOR + j] = tmp[j];
                   }
               }
               out
""", """               let all = <$t>::to_be_bytes(&self.0);
               for i in 0..$l * FACTOR {
                   out[i] = all[i];
               }
               out
""")
e(A, """                debug_assert!(s.len() % std::mem::size_of::<$t>() == 0);
                // `from_str_radix` would accept a sign.
                assert!(s.bytes().all(|c| c.is_ascii_hexdigit()), "Error parsing hex string");
                let b: Result<Vec<$t>, ParseIntError> = (0..s.len())
                    .step_by(2)
                    .map(|i| u8::from_str_radix(&s[i..i + 2], 16).map(<$t>::from))
                    .collect();
                b.expect("Error parsing hex string")
""", """                debug_assert!(s.len() % std::mem::size_of::<$t>() == 0);
                let digit = |c: char| c.to_digit(16).expect("Error parsing hex string") as u8;
                let digits: Vec<u8> = s.chars().map(digit).collect();
                digits
                    .chunks(2)
                    .map(|d| <$t>::from(16 * d[0] + d[1]))
                    .collect()
""")
e(A, """                    == other.0[..]
                        .iter()
                        .map(|x| <$t>::declassify(*x))
                        .collect::<Vec<_>>()
""", """                    .iter()
                    .eq(other.0.iter().map(|x| x.declassify()).collect::<Vec<_>>().iter())
""")
B = "abstract-integers/src/abstract_int.rs"
e(B, """                BigInt::from(1u32).shl($bits) - BigInt::one()
""", """                let m: BigInt = BigInt::one() << ($bits as usize);
                m - BigInt::one()
""")
e(B, """                let c = a * b;
                if c > $name::max() {
                    panic!(
                        "bounded multiplication overflow for type {}",
                        stringify!($name)
                    );
                }
                c.into()
""", """                (a * b).into()
""", 2)
e(B, """                BigInt::from_bytes_be(self.sign, &self.b)
""", """                let mut v = BigInt::from(0u32);
                for byte in self.b.iter() {
                    v = (v << 8usize) + BigInt::from(*byte);
                }
                if self.sign == Sign::Minus { -v } else { v }
""")
e(B, """                let c = if self.signed {
                    a - b
                } else {
                    a.checked_sub(&b).unwrap_or_else(|| {
                        panic!(
                            "bounded substraction underflow for type {}",
                            stringify!($name)
                        )
                    })
                };
                c.into()
""", """                (a - b).into()
""")
N = "abstract-integers/src/nat_mod.rs"
e(N, """                if big_x > $name::max().into() {
                    panic!("literal {} too big for type {}", x, stringify!($name));
                }
                $base::from(big_x).into()
""", """                let limit: BigUint = $name::max().into();
                if limit < big_x {
                    panic!("literal {} too big for type {}", x, stringify!($name));
                }
                let v: $base = big_x.into();
                $name::from(v)
""")
X = "spec-examples/src/"
e(X + "aes_gcm/gf128.rs", """        if (y & (U128(1) << (127 - i))).declassify() != U128(0).declassify() {
            res ^= sh;
        }
        if (sh & U128(1)).declassify() != U128(0).declassify() {
            sh = (sh >> 1) ^ IRRED;
        } else {
            sh >>= 1;
        }
""", """        let bit = (y >> (127 - i)) & U128(1);
        res ^= sh & (U128(0) - bit);
        let carry = U128(0) - (sh & U128(1));
        sh = (sh >> 1) ^ (IRRED & carry);
""")
e(X + "aes_gcm/aes.rs", """    for i in 0..key.num_chunks(BLOCKSIZE) {
        let (_, key_block) = key.get_chunk(BLOCKSIZE, i);
        out = aes_enc(out, RoundKey::from_seq(&key_block));
    }
""", """    for i in 0..key.len() / BLOCKSIZE {
        out = aes_enc(out, RoundKey::from_sub(&key, BLOCKSIZE * i, BLOCKSIZE));
    }
""")
e(X + "fips202/fips202.rs", """        let (block_len, block) = data.get_chunk(rate, i);
        if block_len == rate {
            s = absorb_block(s, &block);
        } else {
            buf = buf.update_start(&block);
            last_block_len = block_len;
        }
    }
    buf[last_block_len] = U8(p);
    buf[rate - 1] |= U8(128);
""", """        let (block_len, block) = data.get_chunk(rate, i);
        if block_len < rate {
            last_block_len = block_len;
            buf = buf.update(0, &block);
            break;
        }
        s = absorb_block(s, &block);
    }
    buf[last_block_len] ^= U8(p);
    buf[rate - 1] ^= U8(128);
""")
e(X + "blake2/blake2b.rs", """    let num_blocks = data.num_chunks(128);
    if num_blocks == 0 {
        h = compress(h, &ByteSeq::new(128), t, true, alg);
    }
    for i in 0..num_blocks {
        let (block_len, block) = data.get_chunk(128, i);
        if i + 1 < num_blocks {
            t = inc_counter(t, Word::PublicVersion::from_literal(128));
            h = compress(h, &ByteSeq::from_seq(&block), t, false, alg);
        } else {
            // Pad last bits of data to a full block.
            t = inc_counter(t, Word::PublicVersion::from_literal(block_len as u128));
            let compress_input = ByteSeq::new(128).update_start(&block);
            h = compress(h, &compress_input, t, true, alg);
        }
    }
""", """    let num_blocks = std::cmp::max(1, data.num_chunks(128));
    for i in 0..num_blocks {
        let block = if data.len() == 0 { ByteSeq::new(0) } else { data.get_chunk(128, i).1 };
        t = inc_counter(t, Word::PublicVersion::from_literal(block.len() as u128));
        let padded = ByteSeq::new(128).update_start(&block);
        h = compress(h, &padded, t, i + 1 == num_blocks, alg);
    }
""")
e(X + "chacha20_poly1305/poly1305.rs", """    let n_v = n.to_le_bytes();
    let mut tag = Tag::new();
    for i in 0..min(tag.len(), n_v.len()) {
        tag[i] = n_v[i];
    }
    tag
""", """    let mut n_v = n.to_le_bytes();
    n_v.resize(BLOCKSIZE, 0);
    Tag::from_vec(n_v)
""")
e(X + "curve25519/curve25519.rs", """    SerializedPoint::new().update_start(&b.to_byte_seq_le())
""", """    let bytes = b.to_byte_seq_le();
    let mut out = SerializedPoint::new();
    for i in 0..bytes.len() {
        out[i] = bytes[i];
    }
    out
""")
if __name__ == "__main__":
    out = sys.argv[1]
    subprocess.run(["cp", "-a", "/repo/.", out])
    refactor.apply(out)
    subprocess.run(["git", "-C", out, "diff", "--stat"])

#!/usr/bin/env python3
"""Third set of behaviour-preserving edits (see refactor.py): refactor3.py OUT"""
import subprocess, sys, os
import refactor
E = refactor.E
E.clear()
e = refactor.e
G = "spec-examples/src/aes_gcm/aesgcm.rs"
e(G, """    let laad = aad.len();
    let lmsg = msg.len();
    let pad_aad = if laad % 16 == 0 {
        laad
    } else {
        laad + (16 - (laad % 16))
    };
    let pad_msg = if lmsg % 16 == 0 {
        lmsg
    } else {
        lmsg + (16 - (lmsg % 16))
    };
    let mut padded_msg = ByteSeq::new(pad_aad + pad_msg + 16);
    padded_msg = padded_msg.update(0, aad);
    padded_msg = padded_msg.update(pad_aad, msg);
    padded_msg = padded_msg.update(
        pad_aad + pad_msg,
        &U64_to_be_bytes(U64(laad as u64) * U64(8)),
    );
    padded_msg = padded_msg.update(
        pad_aad + pad_msg + 8,
        &U64_to_be_bytes(U64(lmsg as u64) * U64(8)),
    );
    padded_msg
}
""", """    let pad_aad = round_up(aad.len());
    let pad_msg = round_up(msg.len());
    let lengths = pad_aad + pad_msg;
    ByteSeq::new(lengths + 16)
        .update(lengths + 8, &bit_length(msg))
        .update(lengths, &bit_length(aad))
        .update(pad_aad, msg)
        .update_start(aad)
}

/// The next multiple of the block size.
fn round_up(l: usize) -> usize {
    (l + 15) / 16 * 16
}

fn bit_length(s: &ByteSeq) -> U64Word {
    U64_to_be_bytes(U64::classify(8 * s.len() as u64))
}

/// The tag of a ciphertext with its additional data.
fn compute_tag(
    key: &ByteSeq,
    iv: aes::Nonce,
    aad: &ByteSeq,
    cipher_text: &ByteSeq,
    alg: aes::AesVariant,
) -> Block {
    let (nk, nr) = (aes::nk(alg), aes::nr(alg));
    let tag_mix = aes_ctr_keyblock(key, iv, U32(1), nk, nr, alg);
    let mac_key = aes_ctr_keyblock(key, aes::Nonce::new(), U32(0), nk, nr, alg);
    let hash = gmac(&pad_aad_msg(aad, cipher_text), Key::from_seq(&mac_key));
    aes::xor_block(tag_mix, Block::from_seq(&hash))
}
""")
e(G, """    let iv0 = aes::Nonce::new();

    let mac_key = aes_ctr_keyblock(key, iv0, U32(0), aes::nk(alg), aes::nr(alg), alg);
    let tag_mix = aes_ctr_keyblock(key, iv, U32(1), aes::nk(alg), aes::nr(alg), alg);

    let cipher_text = aes_encrypt(key, iv, U32(2), msg, alg);
    let padded_msg = pad_aad_msg(aad, &cipher_text);
    let tag = gmac(&padded_msg, Key::from_seq(&mac_key));
    let tag = aes::xor_block(Block::from_seq(&tag), tag_mix);

    (cipher_text, Tag::from_seq(&tag))
""", """    let cipher_text = aes_encrypt(key, iv, U32(2), msg, alg);
    let tag = compute_tag(key, iv, aad, &cipher_text, alg);
    (cipher_text, Tag::from_seq(&tag))
""")
e(G, """    let iv0 = aes::Nonce::new();

    let mac_key = aes_ctr_keyblock(key, iv0, U32(0), aes::nk(alg), aes::nr(alg), alg);
    let tag_mix = aes_ctr_keyblock(key, iv, U32(1), aes::nk(alg), aes::nr(alg), alg);

    let padded_msg = pad_aad_msg(aad, cipher_text);
    let my_tag = gmac(&padded_msg, Key::from_seq(&mac_key));
    let my_tag = aes::xor_block(Block::from_seq(&my_tag), tag_mix);

    if my_tag.declassify_eq(&Block::from_seq(&tag)) {
        Ok(aes::aes_decrypt(key, iv, U32(2), cipher_text, alg))
    } else {
        Err("Mac verification failed".to_string())
    }
""", """    let expected = compute_tag(key, iv, aad, cipher_text, alg);
    if !Block::from_seq(&tag).declassify_eq(&expected) {
        return Err(String::from("Mac verification failed"));
    }
    Ok(aes::aes_decrypt(key, iv, U32(2), cipher_text, alg))
""")
P = "hacspec/src/poly.rs"
e(P, """    let mut out = v.to_vec();
    for _ in out.len()..l {
        out.push(T::default());
    }
    out
""", """    let mut out = Vec::with_capacity(l);
    out.extend_from_slice(v);
    if out.len() < l {
        out.resize(l, T::default());
    }
    out
""")
e(P, """    for (a, &b) in out.iter_mut().zip(v.iter()) {
        *a = b;
    }
    out
}

#[inline]
fn monomial""", """    let k = t.min(v.len());
    out[..k].copy_from_slice(&v[..k]);
    out
}

#[inline]
fn monomial""")
e(P, """    let mut out = vec![T::default(); x.len() + y.len()];
    for adx in x
        .iter()
        .enumerate()
        .map(|(i, x)| (i, x))
        .filter(|(_, &x)| !x.equal(T::default()))
    {
        for bdx in y
            .iter()
            .enumerate()
            .map(|(i, x)| (i, x))
            .filter(|(_, &x)| !x.equal(T::default()))
        {
            let i = adx.0 + bdx.0;
            out[i] = if n.equal(T::default()) {
                out[i] + *adx.1 * *bdx.1
            } else {
                out[i].add_mod(adx.1.mul_mod(*bdx.1, n), n)
            };
        }
    }
    out
""", """    let zero = T::default();
    let over_z = n.equal(zero);
    let mut out = vec![zero; x.len() + y.len()];
    for (i, &a) in x.iter().enumerate() {
        if a.equal(zero) {
            continue;
        }
        for (o, &b) in out[i..].iter_mut().zip(y.iter()) {
            if b.equal(zero) {
                continue;
            }
            *o = if over_z { *o + a * b } else { o.add_mod(a.mul_mod(b, n), n) };
        }
    }
    out
""")
e(P, """    let mut out = vec![T::default(); v.len() - 1];
    for (a, &b) in out.iter_mut().zip(v.iter().skip(1)) {
        *a = b;
    }
    out
""", """    v[1..].to_vec()
""")
e(P, """            let t = f;
            f = g;
            g = t;
            let t = q;
            q = u;
            u = t;
            let t = r;
            r = v;
            v = t;
""", """            std::mem::swap(&mut f, &mut g);
            std::mem::swap(&mut q, &mut u);
            std::mem::swap(&mut r, &mut v);
""")
e(P, """    for _ in 0..cd - ad {
        //XXX: Any way to write this more nicely?
        a = poly_mul(&a, &x, n);
    }
    for _ in 0..cd - bd {
        //XXX: Any way to write this more nicely?
        b = poly_mul(&b, &x, n);
    }
""", """    let raise = |p: &mut Vec<T>, by: usize| {
        for _ in 0..by {
            *p = poly_mul(p, &x, n);
        }
    };
    raise(&mut a, cd - ad);
    raise(&mut b, cd - bd);
""")
S = "hacspec/src/seq.rs"
e(S, """        (0..l)
            .map(|_| rand::random::<u8>())
            .map(|x| U8::classify(x))
            .collect()
""", """        let mut bytes = vec![0u8; l];
        rand::RngCore::fill_bytes(&mut rand::thread_rng(), &mut bytes);
        bytes.into_iter().map(U8::classify).collect()
""")
e(S, """                let idx_start = chunk_size * chunk_number;
                let len = if idx_start + chunk_size > self.len() {
                    self.len() - idx_start
                } else {
                    chunk_size
                };
                debug_assert!(input""", """                let idx_start = chunk_number * chunk_size;
                let len = std::cmp::min(self.len() - idx_start, chunk_size);
                debug_assert!(input""")
V = "hacspec/src/vec_integers.rs"
for op in ["mul", "add", "sub"]:
    e(V, f"""    let mut out = U::create(x.len());
    for i in 0..x.len() {{
        if !n.equal(T::default()) {{
            out[i] = x[i].{op}_mod(y[i], n);
        }} else {{
            out[i] = x[i].wrap_{op}(y[i]);
        }}
    }}
    out
""", f"""    let plain = n.equal(T::default());
    let mut out = U::create(x.len());
    for (i, (&a, &b)) in x.iter().zip(y.iter()).enumerate() {{
        out[i] = if plain {{ a.wrap_{op}(b) }} else {{ a.{op}_mod(b, n) }};
    }}
    out
""")
e(V, """        let mut out = Self::create(self.len());
        for (a, (b, c)) in out.b.iter_mut().zip(self.b.iter().zip(rhs.b.iter())) {
            *a = *b ^ *c;
        }
        out
""", """        Self::from_vec(self.iter().zip(rhs.iter()).map(|(&b, &c)| b ^ c).collect())
""")
T = "hacspec/src/transmute.rs"
0 and e(T, "    U32Word::from_vec(U32::to_be_bytes(&[x]))\n", "    let b: Vec<U8> = (0..4).map(|i| U8::from(x >> (24 - 8 * i))).collect();\n    U32Word::from_vec(b)\n")
e(T, "    U64Word::from_vec(U64::to_be_bytes(&[x]))\n", "    let mut b = U64::to_le_bytes(&[x]);\n    b.reverse();\n    U64Word::from_vec(b)\n")
e(T, "    U32::from_le_bytes(&s.0)[0]\n", "    let words = U32::from_le_bytes(&s.0);\n    words[0]\n")
0 and e(T, "    u32Word::from_array(u32::to_le_bytes(x))\n", "    u32Word::from_array(x.to_be().swap_bytes().to_ne_bytes())\n")
U = "hacspec/src/util.rs"
e(U, """    let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
        .step_by(2)
        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
        .collect();
    b.expect("Error parsing hex string")
""", """    let mut b = Vec::with_capacity(s.len() / 2);
    let mut rest = s;
    while !rest.is_empty() {
        let (digits, tail) = rest.split_at(2);
        let x: Result<u8, ParseIntError> = u8::from_str_radix(digits, 16);
        b.push(x.expect("Error parsing hex string"));
        rest = tail;
    }
    b
""")
A = "hacspec/src/array.rs"
e(A, """                (0..l).map(|_| rand::random::<$t>()).collect()
""", """                let mut out = Vec::with_capacity(l);
                while out.len() < l {
                    out.push(rand::random::<$t>());
                }
                out
""")
e(A, """                let mut tmp = [<$t>::default(); $l];
                for (i, e) in x.iter().enumerate() {
                    tmp[i] = *e;
                }
                $name(tmp.clone())
""", """                let mut tmp = $name::new();
                tmp.0.copy_from_slice(&x);
                tmp
""")
e(A, """                let mut tmp = [<$t>::default(); $l];
                for i in 0..v.len() {
                    tmp[i] = v[i];
                }
                Self(tmp.clone())
""", """                let mut tmp = Self::new();
                tmp.0[..v.len()].copy_from_slice(v);
                tmp
""")
e(A, """                for (i, block) in self.0.chunks(4).enumerate() {
                    debug_assert!(block.len() == 4);
                    out[i] = U32_from_be_bytes(U32Word::from_slice(block));
                }
""", """                for i in 0..out.len() {
                    out[i] = U32::from_be_bytes(&self.0[4 * i..4 * i + 4])[0];
                }
                debug_assert!($l % 4 == 0);
""")
e(A, """                self.0[..] == other.0[..]
""", """                self.iter().zip(other.iter()).all(|(a, b)| a == b)
""")
e(A, """                let idx_start = chunk_size * chunk_number;
                if idx_start + chunk_size > self.len() {
                    self.len() - idx_start
                } else {
                    chunk_size
                }
            }

            #[cfg_attr(feature="use_attributes", library(hacspec))]
            pub fn get_chunk(
                &self,
                chunk_size: usize,
                chunk_number: usize
            ) -> (usize, Seq<$t>) {""", """                let rest = self.len() - chunk_size * chunk_number;
                rest.min(chunk_size)
            }

            #[cfg_attr(feature="use_attributes", library(hacspec))]
            pub fn get_chunk(
                &self,
                chunk_size: usize,
                chunk_number: usize
            ) -> (usize, Seq<$t>) {""")
e(A, """               let mut out : Seq<U8> = Seq::new($l * FACTOR);
               for i in 0..$l {
                   let tmp : $t = self[i];
                   let tmp = <$t>::to_le_bytes(&[tmp]);
                   for j in 0..FACTOR {
                       out[i * FACTOR + j] = tmp[j];
                   }
               }
               out
""", """               let out: Seq<U8> = Seq::from_vec(<$t>::to_le_bytes(&self.0));
               debug_assert!(out.len() == $l * FACTOR);
               out
""")
if __name__ == "__main__":
    out = sys.argv[1]
    subprocess.run(["cp", "-a", "/repo/.", out])
    refactor.apply(out)
    subprocess.run(["git", "-C", out, "diff", "--stat"])

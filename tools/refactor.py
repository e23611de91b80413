#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo, to see that the checks stay quiet on them.

  refactor.py OUT      copies /repo to OUT (under /tmp), applies every edit there
  refactor.py --diff   as above in a temporary copy, prints the diff
Nothing here is read by a check."""
import subprocess, sys, os
E = []
def e(f, a, b, n=None):
    E.append((f, a, b, n))

S = "hacspec/src/seq.rs"
e(S, """                let mut a = Self::new(len);
                a = a.update_sub(0, input, start, len);
                a
""", """                Self::new(len).update_sub(0, input, start, len)
""")
e(S, """                (self.len() + chunk_size - 1) / chunk_size
""", """                let whole = self.len() / chunk_size;
                if self.len() % chunk_size == 0 { whole } else { whole + 1 }
""")
e(S, """                let len = if idx_start + chunk_size > self.len() {
                    self.len() - idx_start
                } else {
                    chunk_size
                };
                let out""", """                let len = std::cmp::min(chunk_size, self.len() - idx_start);
                let out""")
e(S, """                let mut tmp = $name::new(x.len());
                for i in 0..x.len() {
                    tmp[i] = x[i];
                }
                tmp
""", """                Self { b: x.iter().copied().collect() }
""")
e(S, "b: x.clone(),", "b: x,")
e(S, """        let strs: Vec<String> = self.b.iter().map(|b| format!("{:02x}", b)).collect();
        strs.join("")
""", """        let mut out = String::with_capacity(2 * self.b.len());
        for b in self.b.iter() {
            out.push_str(&format!("{:02x}", b));
        }
        out
""")
e(S, """        self.b[..]
            .iter()
            .map(|x| <U8>::declassify(*x))
            .collect::<Vec<_>>()
            == other.b[..]
                .iter()
                .map(|x| <U8>::declassify(*x))
                .collect::<Vec<_>>()
""", """        self.b.len() == other.b.len()
            && self
                .b
                .iter()
                .zip(other.b.iter())
                .all(|(x, y)| x.declassify() == y.declassify())
""")
T = "hacspec/src/traits.rs"
e(T, """        debug_assert!(v.len() >= start_in + len);
        for i in 0..len {
            self[start_out + i] = v[start_in + i];
        }
        self
""", """        debug_assert!(v.len() >= start_in + len);
        let (mut from, mut to) = (start_in, start_out);
        let end = start_in + len;
        while from < end {
            self[to] = v[from];
            from += 1;
            to += 1;
        }
        self
""")
e(T, """        let tmp1 = Self::from_literal(!(1 << i));
        let tmp2 = b << i;
        (self & tmp1) | tmp2
""", """        let cleared = self & Self::from_literal(!(1 << i));
        cleared | (b << i)
""")
e(T, """        let low_bits = !(!Self::ZERO << n);
        (self << n) | ((self >> ((-(n as i32) as u32) & (Self::NUM_BITS - 1))) & low_bits)
""", """        if n == 0 {
            return self;
        }
        let low_bits = !(!Self::ZERO << n);
        let low = (self >> (Self::NUM_BITS - n)) & low_bits;
        low | (self << n)
""")
e(T, """        self.rotate_left((Self::NUM_BITS - n) & (Self::NUM_BITS - 1))
""", """        self.rotate_left((Self::NUM_BITS - n) % Self::NUM_BITS)
""")
M = "hacspec/src/math_util.rs"
e(M, """    let mut ret = x % n;
    while ret < 0 {
        ret += n;
    }
    ret
""", """    let ret = x % n;
    if ret < 0 {
        ret + n
    } else {
        ret
    }
""")
e(M, """        let tmp = r - q * new_r;
        r = new_r;
        new_r = tmp;

        let tmp = t + q * new_t;
        t = new_t;
        new_t = tmp;
        t_negative = !t_negative;
""", """        t_negative = !t_negative;
        let next_r = r - q * new_r;
        let next_t = t + q * new_t;
        r = new_r;
        t = new_t;
        new_r = next_r;
        new_t = next_t;
""")
e(M, """    let mask = c & (x ^ y);
    (x ^ mask, y ^ mask)
""", """    let keep = !c;
    ((x & keep) | (y & c), (y & keep) | (x & c))
""")
e(M, """        r = r << 1;
        r = r.set(0, a, i);
""", """        r = (r << 1) | a.get_bit(i);
""")
e(M, """    let sum = x.wrap_add(y);
    let (x, _) = cswap(x, sum, c);
    x
""", """    cswap(x, x.wrap_add(y), c).0
""")
P = "hacspec/src/poly.rs"
e(P, """    let mut degree: usize = 0;
    let mut coefficient = T::default();
    for (i, &c) in x.iter().enumerate() {
        if !c.equal(zero) {
            degree = i;
            coefficient = c;
        }
    }
    (degree, coefficient)
""", """    for (i, &c) in x.iter().enumerate().rev() {
        if !c.equal(zero) {
            return (i, c);
        }
    }
    (0, zero)
""")
e(P, """    let mut out = vec![T::default(); x.len()];
    for (a, (&b, &c)) in out.iter_mut().zip(x.iter().zip(y.iter())) {
        if n.equal(T::default()) {
            *a = b - c;
        } else {
            *a = b.sub_mod(c, n);
        }
    }
    out
""", """    let integral = n.equal(T::default());
    x.iter()
        .zip(y.iter())
        .map(|(&b, &c)| if integral { b - c } else { b.sub_mod(c, n) })
        .collect()
""")
e(P, """    for adx in x
        .iter()
        .enumerate()
        .map(|(i, x)| (i, x))
        .filter(|(_, &x)| !x.equal(T::default()))
    {
        for bdx in y
            .iter()
            .enumerate()
            .map(|(i, x)| (i, x))
            .filter(|(_, &x)| !x.equal(T::default()))
        {
            let i = adx.0 + bdx.0;
            out[i] = if n.equal(T::default()) {
                out[i] + *adx.1 * *bdx.1
            } else {
                out[i].add_mod(adx.1.mul_mod(*bdx.1, n), n)
            };
        }
    }
    out
""", """    let zero = T::default();
    for (i, &a) in x.iter().enumerate() {
        if a.equal(zero) {
            continue;
        }
        for (j, &b) in y.iter().enumerate() {
            if b.equal(zero) {
                continue;
            }
            out[i + j] = if n.equal(zero) {
                out[i + j] + a * b
            } else {
                out[i + j].add_mod(a.mul_mod(b, n), n)
            };
        }
    }
    out
""")
e(P, """    let rlen = rem.len();
    for i in 0..dist {
        let idx = rlen - 1 - i;
""", """    let rlen = rem.len();
    for idx in (yd..rlen).rev() {
        let i = rlen - 1 - idx;
""")
e(P, """    for _ in 0..cd - ad {
        //XXX: Any way to write this more nicely?
        a = poly_mul(&a, &x, n);
    }
    for _ in 0..cd - bd {
        //XXX: Any way to write this more nicely?
        b = poly_mul(&b, &x, n);
    }
""", """    a = poly_mul(&a, &monomial(T::ONE, cd - ad), n);
    b = poly_mul(&b, &monomial(T::ONE, cd - bd), n);
    let _ = x;
""")
e(P, """            let t = f;
            f = g;
            g = t;
            let t = q;
            q = u;
            u = t;
            let t = r;
            r = v;
            v = t;
""", """            std::mem::swap(&mut f, &mut g);
            std::mem::swap(&mut q, &mut u);
            std::mem::swap(&mut r, &mut v);
""")
A = "hacspec/src/array.rs"
e(A, """                let mut a = Self::new();
                debug_assert_eq!(len, a.len());
                a = a.update_sub(0, input, start, len);
                a
""", """                debug_assert_eq!(len, Self::capacity());
                Self::new().update_sub(0, input, start, len)
""", 2)
e(A, """                (self.len() + chunk_size - 1) / chunk_size
""", """                let n = self.len();
                n / chunk_size + if n % chunk_size > 0 { 1 } else { 0 }
""", 2)
e(A, """                if idx_start + chunk_size > self.len() {
                    self.len() - idx_start
                } else {
                    chunk_size
                }
""", """                let left = self.len() - idx_start;
                if chunk_size < left { chunk_size } else { left }
""", 2)
e(A, """                let mut tmp = [<$t>::default(); $l];
                for (i, e) in x.iter().enumerate() {
                    tmp[i] = *e;
                }
                $name(tmp.clone())
""", """                let mut tmp = [<$t>::default(); $l];
                tmp.copy_from_slice(&x);
                $name(tmp)
""")
e(A, """                debug_assert!(v.len() <= $l);
                let mut tmp = [<$t>::default(); $l];
                for i in 0..v.len() {
                    tmp[i] = v[i];
                }
                Self(tmp.clone())
""", """                debug_assert!(v.len() <= $l);
                let mut tmp = [<$t>::default(); $l];
                tmp[..v.len()].copy_from_slice(v);
                Self(tmp)
""")
U = "hacspec/src/util.rs"
e(U, """    let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
        .step_by(2)
        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
        .collect();
    b.expect("Error parsing hex string")
""", """    let mut out: Vec<u8> = Vec::with_capacity(s.len() / 2);
    let mut i = 0;
    while i < s.len() {
        let b: Result<u8, ParseIntError> = u8::from_str_radix(&s[i..i + 2], 16);
        out.push(b.expect("Error parsing hex string"));
        i += 2;
    }
    out
""")
I = "secret-integers/src/lib.rs"
e(I, """                    let int = $name::declassify(*int);
                    let bytes : [u8;$bits/8] = unsafe {
                         std::mem::transmute::<$repr, [u8;$bits/8]>(int.to_le())
                    };
""", """                    let bytes : [u8;$bits/8] = <$repr>::to_le_bytes(int.declassify());
""")
e(I, """                    $name::classify(unsafe {
                        std::mem::transmute::<[u8;$bits/8], $repr>(
                            chunk_raw
                        ).to_be()
                    })
""", """                    $name(<$repr>::from_be_bytes(chunk_raw))
""")
e(I, "$name((Wrapping(!i1) + Wrapping(1)).0)", "$name(i1.wrapping_neg())")
N = "abstract-integers/src/nat_mod.rs"
e(N, """                let a: BigUint = a.into();
                let b: BigUint = b.into();
                let max: BigUint = $max.into();
                let c: BigUint = if b > a { max.clone() - b + a } else { a - b };
                let d: BigUint = c % max;
                let d: $base = d.into();
                d.into()
""", """                let a: BigUint = a.into();
                let b: BigUint = b.into();
                let m: BigUint = $max.into();
                let d: $base = (((a % &m) + &m - (b % &m)) % &m).into();
                d.into()
""", 2)
e(N, """                self.0.cmp(&other.0)
""", """                let (a, b): (BigUint, BigUint) = (self.0.into(), other.0.into());
                a.cmp(&b)
""")
B = "abstract-integers/src/abstract_int.rs"
e(B, """                let mut out = [0u8; ($bits + 7) / 8];
                let upper = out.len();
                let lower = upper - repr.len();
                out[lower..upper].copy_from_slice(&repr);
""", """                let mut out = [0u8; ($bits + 7) / 8];
                for (o, r) in out.iter_mut().rev().zip(repr.iter().rev()) {
                    *o = *r;
                }
""")
e(B, """                let tmp: BigInt = bigint >> i;
                (tmp & BigInt::one()).to_bytes_le().1[0] == 1
""", """                let tmp: BigInt = bigint >> i;
                let two: BigInt = BigInt::from(2u32);
                tmp % two != BigInt::from(0u32)
""")
X = "spec-examples/src/"
e(X + "sha2/sha2.rs", """    for i in 0..K_SIZE {
        if i < 16 {
            s[i] = b[i];
        } else {
            let t16 = s[i - 16];
            let t15 = s[i - 15];
            let t7 = s[i - 7];
            let t2 = s[i - 2];
            let s1 = sigma(t2, 3, 0);
            let s0 = sigma(t15, 2, 0);
            s[i] = s1 + t7 + s0 + t16;
        }
    }
""", """    for i in 0..16 {
        s[i] = b[i];
    }
    for i in 16..K_SIZE {
        let s0 = sigma(s[i - 15], 2, 0);
        let s1 = sigma(s[i - 2], 3, 0);
        s[i] = s[i - 16] + s0 + s[i - 7] + s1;
    }
""")
e(X + "sha2/sha2.rs", """    (x & y) ^ ((!x) & z)
""", """    z ^ (x & (y ^ z))
""")
e(X + "sha2/sha2.rs", """            let mut last_block = Block::new();
            let block = Block::new().update_start(&block);
            last_block = last_block.update(0, &block);
            last_block[block_len] = U8(0x80);
            let len_bist: U64 = (msg.len() * 8).into();
            if block_len < BLOCK_SIZE - LEN_SIZE {
                last_block = last_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
                h = compress(last_block, h);
            } else {
                let mut pad_block = Block::new();
                pad_block = pad_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
                h = compress(last_block, h);
                h = compress(pad_block, h);
            }
""", """            let mut last_block = Block::new().update_start(&block);
            last_block[block_len] = U8(0x80);
            if block_len >= BLOCK_SIZE - LEN_SIZE {
                h = compress(last_block, h);
                last_block = Block::new();
            }
            let len_bist: U64 = (msg.len() * 8).into();
            last_block = last_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
            h = compress(last_block, h);
""")
e(X + "blake2/blake2b.rs", """    let mut result = Counter::new();
    let new_val: Word = t[0] + x;
    result[0] = new_val;
    if new_val.less_than(x) {
        result[1] = t[1] + Word::ONE;
    }
    result
""", """    let low: Word = t[0] + x;
    let mut result = Counter::new();
    if low.less_than(x) {
        let high: Word = t[1] + Word::ONE;
        result[1] = high;
    }
    result[0] = low;
    result
""")
e(X + "fips202/fips202.rs", """    for i in 0..nbytes {
        let pos = i % rate;
        let w = pos >> 3;
        let o = 8 * ((pos & 7) as u32);
        let b = (s[w] >> o) & U64::classify(0xffu64);
        out[i] = b.into();
        if ((i + 1) % rate) == 0 {
            s = keccakf1600(s);
        }
    }
""", """    let mut pos = 0;
    for i in 0..nbytes {
        if pos == rate {
            s = keccakf1600(s);
            pos = 0;
        }
        let b = (s[pos / 8] >> (8 * (pos % 8) as u32)) & U64::classify(0xffu64);
        out[i] = b.into();
        pos += 1;
    }
""")
e(X + "fips202/fips202.rs", """    for i in 0..ROUNDS {
        s = theta(s);
        s = rho(s);
        s = pi(s);
        s = chi(s);
        s = iota(s, ROUNDCONSTANTS[i]);
    }
""", """    for rc in ROUNDCONSTANTS.iter() {
        s = iota(chi(pi(rho(theta(s)))), *rc);
    }
""")
e(X + "aes_gcm/aes.rs", """    let x71 = x7 & U8(0x01);
    let x711b = x71 * U8(0x1b);
    x1 ^ x711b
""", """    x1 ^ (x7 * U8(0x1b))
""")
e(X + "aes_gcm/aes.rs", """        if msg_block.len() == BLOCKSIZE {
            blocks_out = blocks_out.set_chunk(
                BLOCKSIZE,
                i,
                &xor_block(Block::from_seq(&msg_block), key_block),
            );
            ctr += U32(1);
        } else {
            // Last block that needs padding
            let last_block = Block::new().update_start(&msg_block);
            blocks_out = blocks_out.set_chunk(
                BLOCKSIZE,
                i,
                &xor_block(last_block, key_block).subr(0..block_len),
            );
        }
""", """        let padded = Block::new().update_start(&msg_block);
        let out = xor_block(padded, key_block);
        blocks_out = blocks_out.set_chunk(BLOCKSIZE, i, &out.subr(0..block_len));
        ctr += U32(1);
""")
e(X + "aes_gcm/gf128.rs", """        let mut block = Block::new();
        block = block.update_start(&msg.subr(k..k + BLOCKSIZE));
        acc = update(r, block, acc);
""", """        acc = update(r, Block::from_sub(msg, k, BLOCKSIZE), acc);
""")
for f in ["aes_gcm/aesgcm.rs"]:
    e(X + f, """    let pad_aad = if laad % 16 == 0 {
        laad
    } else {
        laad + (16 - (laad % 16))
    };
""", """    let pad_aad = (laad + 15) / 16 * 16;
""")
e(X + "chacha20_poly1305/chacha20poly1305.rs", """    let pad_msg = if lmsg % 16 == 0 {
        lmsg
    } else {
        16 * ((lmsg >> 4) + 1)
    };
""", """    let pad_msg = lmsg + (16 - lmsg % 16) % 16;
""")
e(X + "chacha20_poly1305/chacha20.rs", """        let bytes = U32_to_be_bytes(x[i]);
        r[i * 4] = bytes[3];
        r[i * 4 + 1] = bytes[2];
        r[i * 4 + 2] = bytes[1];
        r[i * 4 + 3] = bytes[0];
""", """        r = r.update(4 * i, &U32_to_le_bytes(x[i]));
""")
e(X + "chacha20_poly1305/poly1305.rs", """    for i in (0..m_len).step_by(BLOCKSIZE) {
        let block_len = min(BLOCKSIZE, m_len - i);
        let mut b = Seq::new(block_len);
        b = b.update_sub(0, m, i, block_len);
        acc = (acc + encode(&b)) * r;
    }
""", """    let _ = m_len;
    for i in 0..m.num_chunks(BLOCKSIZE) {
        let (_, b) = m.get_chunk(BLOCKSIZE, i);
        acc = (acc + encode(&b)) * r;
    }
""")
e(X + "hkdf/hkdf.rs", """    (f64::ceil((a as f64) / (b as f64))) as u64
""", """    (a / b) as u64 + if a % b == 0 { 0 } else { 1 }
""")
e(X + "hkdf/hkdf.rs", """    let mut salt_or_zero = ByteSeq::new(HASH_LEN);
    if salt.len() > 0 {
        salt_or_zero = ByteSeq::from_seq(salt)
    };
    PRK::from_seq(&hmac(&salt_or_zero, ikm))
""", """    if salt.len() == 0 {
        PRK::from_seq(&hmac(&ByteSeq::new(HASH_LEN), ikm))
    } else {
        PRK::from_seq(&hmac(salt, ikm))
    }
""")
e(X + "hmac/hmac.rs", """    let k_block = if k.len() > BLOCK_LEN {
        Block::new().update_start(&sha2::hash(k))
    } else {
        Block::new().update_start(k)
    };
""", """    let mut k_block = Block::new();
    if k.len() <= BLOCK_LEN {
        k_block = k_block.update_start(k);
    } else {
        k_block = k_block.update_start(&sha2::hash(k));
    }
""")
e(X + "p256/p256.rs", """    let alpha_1 = x1 - delta;
    let alpha_2 = x1 + delta;
    let alpha = FieldElement::from_literal(3) * (alpha_1 * alpha_2);
""", """    let alpha = FieldElement::from_literal(3) * (x1 * x1 - delta * delta);
""")
e(X + "p256/p256.rs", """    for i in 0..256 {
        if k.bit(255 - i) {
            p_working = (p_working.1, p_working.0);
        }
        let xx = point_double(p_working.0);
        let xp1 = point_add(p_working.0, p_working.1);
        if k.bit(255 - i) {
            p_working = (xp1, xx);
        } else {
            p_working = (xx, xp1);
        }
    }
""", """    for i in (0..256).rev() {
        let (r0, r1) = p_working;
        let sum = point_add(r0, r1);
        p_working = if k.bit(i) {
            (sum, point_double(r1))
        } else {
            (point_double(r0), sum)
        };
    }
""")
e(X + "curve25519/curve25519.rs", """        if k.bit(255 - i) {
            acc = swap(acc);
            acc = point_add_and_double(init, acc);
            acc = swap(acc);
        } else {
            acc = point_add_and_double(init, acc);
        }
""", """        let b = k.bit(255 - i);
        if b {
            acc = swap(acc);
        }
        acc = point_add_and_double(init, acc);
        if b {
            acc = swap(acc);
        }
""")
e("hacspec-dev/src/test_vectors.rs", """                let reader = BufReader::new(file);
                match serde_json::from_reader(reader) {
                    Ok(r) => r,
                    Err(e) => {
                        println!("{:?}", e);
                        panic!("Error reading file.")
                    },
                }
""", """                let r: Result<_, serde_json::Error> = serde_json::from_reader(BufReader::new(file));
                r.unwrap_or_else(|e| {
                    println!("{:?}", e);
                    panic!("Error reading file.")
                })
""", 2)

def apply(root):
    for f, a, b, n in E:
        p = os.path.join(root, f)
        s = open(p).read()
        c = s.count(a)
        if c != (n or 1):
            print(f"{f}: {c} occurrences of {a[:60]!r}", file=sys.stderr)
            continue
        open(p, "w").write(s.replace(a, b))

if __name__ == "__main__":
    out = sys.argv[1]
    subprocess.run(["rsync", "-a", "/repo/", out + "/"]) if os.path.exists("/usr/bin/rsync") else subprocess.run(["cp", "-a", "/repo/.", out])
    apply(out)
    subprocess.run(["git", "-C", out, "diff", "--stat"])

From 010603f5e558930d55d02b587066cb4e799c2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 01/24] fix: SHA-256 pads messages that end on a block boundary

---
 spec-examples/src/sha2/sha2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spec-examples/src/sha2/sha2.rs b/spec-examples/src/sha2/sha2.rs
index 737e69f..88023dd 100644
--- a/spec-examples/src/sha2/sha2.rs
+++ b/spec-examples/src/sha2/sha2.rs
@@ -189,5 +189,14 @@ pub fn hash(msg: &ByteSeq) -> Digest {
             h = compress(compress_input, h);
         }
     }
+    if msg.len() % BLOCK_SIZE == 0 {
+        // The message ends on a block boundary (or is empty), so that the
+        // padding needs a block of its own.
+        let mut pad_block = Block::new();
+        pad_block[0] = U8(0x80);
+        let len_bist: U64 = (msg.len() * 8).into();
+        pad_block = pad_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
+        h = compress(pad_block, h);
+    }
     Digest::from_seq(&h.to_be_bytes())
 }
-- 
2.43.0


From 2085e7c21de24d233e75587cc0eb9913e0f3eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 02/24] fix: BLAKE2b flags the last block of inputs that end on
 a block boundary

---
 spec-examples/src/blake2/blake2b.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spec-examples/src/blake2/blake2b.rs b/spec-examples/src/blake2/blake2b.rs
index 04d4f2b..a77f7a2 100644
--- a/spec-examples/src/blake2/blake2b.rs
+++ b/spec-examples/src/blake2/blake2b.rs
@@ -177,9 +177,15 @@ pub fn blake2<Word: UnsignedSecretInteger>(data: &ByteSeq, alg: BlakeVariant) ->
     h[0] = h[0] ^ Word::from_literal(0x0101_0000) ^ Word::from_literal(64);
 
     let mut t : Counter<Word::PublicVersion> = Counter::new();
-    for i in 0..data.num_chunks(128) {
+    // The last block (which may be a full one) has to be flagged as such. An
+    // empty input is a single block of zeroes.
+    let num_blocks = data.num_chunks(128);
+    if num_blocks == 0 {
+        h = compress(h, &ByteSeq::new(128), t, true, alg);
+    }
+    for i in 0..num_blocks {
         let (block_len, block) = data.get_chunk(128, i);
-        if block_len == 128 {
+        if i + 1 < num_blocks {
             t = inc_counter(t, Word::PublicVersion::from_literal(128));
             h = compress(h, &ByteSeq::from_seq(&block), t, false, alg);
         } else {
-- 
2.43.0


From cf73164ad4f8767cc7ca146aff78fcc4e90a11c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 03/24] fix: HKDF-Expand accepts the maximum output length of
 255 blocks

---
 spec-examples/src/hkdf/hkdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec-examples/src/hkdf/hkdf.rs b/spec-examples/src/hkdf/hkdf.rs
index 7066ea1..73af121 100644
--- a/spec-examples/src/hkdf/hkdf.rs
+++ b/spec-examples/src/hkdf/hkdf.rs
@@ -42,7 +42,7 @@ fn div_ceil(a: usize, b: usize) -> u64 {
 /// Output length l can be at most 255*HASH_LEN.
 pub fn expand(prk: &ByteSeq, info: &ByteSeq, l: usize) -> ByteSeq {
     let n = div_ceil(l, HASH_LEN);
-    debug_assert!(n < u8::max_value().into());
+    debug_assert!(n <= u8::max_value().into());
     let n = n as u8;
 
     let mut t_i = hmac::PRK::new();
-- 
2.43.0


From 48f1eb522a6ad32c2b623980441fd9c4c7fbac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 04/24] fix: Poly1305 adds s modulo 2^128, not modulo the prime

---
 spec-examples/src/chacha20_poly1305/poly1305.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spec-examples/src/chacha20_poly1305/poly1305.rs b/spec-examples/src/chacha20_poly1305/poly1305.rs
index 894ca1d..486ae0a 100644
--- a/spec-examples/src/chacha20_poly1305/poly1305.rs
+++ b/spec-examples/src/chacha20_poly1305/poly1305.rs
@@ -60,10 +60,13 @@ pub fn poly(m: &ByteSeq, key: Key) -> Tag {
     )));
     let r_elem = encode_r(Block::from_sub_range(&key, 0..BLOCKSIZE));
     let a = poly_inner(m, r_elem);
-    let n = a + s_elem;
+    // The tag is a + s modulo 2^128, so that this addition must not be reduced
+    // modulo 2^130 - 5.
+    let (a, s): (FieldCanvas, FieldCanvas) = (a.into(), s_elem.into());
+    let n = a + s;
     // Note that n might be less than 16 byte -> zero-pad; but might also be
     // larger than Tag::capacity().
-    let n_v = n.to_public_byte_seq_le();
+    let n_v = n.to_le_bytes();
     let mut tag = Tag::new();
     for i in 0..min(tag.len(), n_v.len()) {
         tag[i] = n_v[i];
-- 
2.43.0


From ebc4e5722c2d855b982eb844f26822f1d5a9101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 05/24] fix: X25519 public-key derivation builds a 32-byte base
 point

---
 spec-examples/src/curve25519/curve25519.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spec-examples/src/curve25519/curve25519.rs b/spec-examples/src/curve25519/curve25519.rs
index f5911b6..2d0e95e 100644
--- a/spec-examples/src/curve25519/curve25519.rs
+++ b/spec-examples/src/curve25519/curve25519.rs
@@ -97,7 +97,8 @@ pub fn scalarmult(s: SerializedScalar, p: SerializedPoint) -> SerializedPoint {
 }
 
 pub fn secret_to_public(s: SerializedScalar) -> SerializedPoint {
-    let base = SerializedPoint::from_hex("09");
+    let mut base = SerializedPoint::new();
+    base[0] = U8(9);
     scalarmult(s, base)
 }
 
-- 
2.43.0


From 7751f86d0568f01a01ca139308ce404355c01d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 06/24] fix: bounded integers accept exactly the values up to
 their maximum

---
 abstract-integers/src/abstract_int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index e077062..b1353e9 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -70,7 +70,8 @@ macro_rules! abstract_int {
         impl From<BigInt> for $name {
             fn from(x: BigInt) -> $name {
                 let max_value = Self::max();
-                assert!(x < max_value, "{} is too large for type {}!", x, stringify!($name));
+                assert!(x <= max_value, "{} is too large for type {}!", x, stringify!($name));
+                assert!(x >= -max_value, "{} is too small for type {}!", x, stringify!($name));
                 let (sign, repr) = x.to_bytes_be();
                 if sign == Sign::Minus && (!$signed) {
                     panic!("Trying to convert a negative number into an unsigned integer!")
-- 
2.43.0


From 2d877be55f37839803bff6a1c7ef8852077d1803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 07/24] fix: from_signed_literal keeps the sign of negative
 literals

---
 abstract-integers/src/abstract_int.rs | 2 +-
 abstract-integers/src/nat_mod.rs      | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index b1353e9..3f1f8bb 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -33,7 +33,7 @@ macro_rules! abstract_int {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
-                let big_x = BigInt::from(x as u128);
+                let big_x = BigInt::from(x);
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index ed2d014..47539ff 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -67,11 +67,13 @@ macro_rules! modular_integer {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
-                let big_x = BigUint::from(x as u128);
-                if big_x > $name::max().into() {
+                let big_x = BigInt::from(x);
+                let max: BigInt = $name::max().into();
+                if big_x > max || big_x < -max.clone() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                let big_x = if big_x < BigInt::zero() { big_x + max } else { big_x };
+                $base::from(big_x).into()
             }
         }
     };
-- 
2.43.0


From 4b793bfb410a0ec0627fe12113a20d91419c14c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 08/24] fix: modular from_literal reduces a literal equal to
 the modulus

---
 abstract-integers/src/nat_mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index 47539ff..323ebac 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -62,7 +62,7 @@ macro_rules! modular_integer {
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                $base::from(big_x).into()
             }
 
             #[allow(dead_code)]
-- 
2.43.0


From 41fa0d003097b164898f35fe22bb55f22f999cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 09/24] fix: pow takes exponents wider than the base type

---
 abstract-integers/src/abstract_int.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 3f1f8bb..b410e1a 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -153,7 +153,10 @@ macro_rules! abstract_public {
             /// The exponent is a u128.
             #[allow(dead_code)]
             pub fn pow(self, exp: u128, modval: Self) -> Self {
-                self.pow_felem(BigInt::from(exp).into(), modval)
+                let a: BigInt = self.into();
+                let m: BigInt = modval.into();
+                let c: BigInt = a.modpow(&BigInt::from(exp), &m);
+                c.into()
             }
 
             fn rem(self, n: Self) -> Self {
-- 
2.43.0


From 9be6de944e3caf77edbd197a66acc3eba959d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 10/24] fix: a negative bounded integer has no unsigned big
 integer value

---
 abstract-integers/src/abstract_int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index b410e1a..84a8af1 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -109,6 +109,7 @@ macro_rules! abstract_int {
 
         impl Into<BigUint> for $name {
             fn into(self) -> BigUint {
+                assert!(self.sign != Sign::Minus, "{} has no unsigned value", stringify!($name));
                 BigUint::from_bytes_be(&self.b)
             }
         }
-- 
2.43.0


From a6b005bb6ed4fec7ee8cc5e0fd4fcf5b9380931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 11/24] fix: comparison masks of signed public integers are all
 ones

---
 hacspec/src/machine_integers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 8572ef8..385e824 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -174,7 +174,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn not_equal_bm(self, other: Self) -> Self {
                 if self != other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -182,7 +182,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn equal_bm(self, other: Self) -> Self {
                 if self == other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -190,7 +190,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn greater_than_bm(self, other: Self) -> Self {
                 if self > other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -198,7 +198,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn greater_than_or_qual_bm(self, other: Self) -> Self {
                 if self >= other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -206,7 +206,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn less_than_bm(self, other: Self) -> Self {
                 if self < other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -214,7 +214,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn less_than_or_equal_bm(self, other: Self) -> Self {
                 if self <= other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
-- 
2.43.0


From a9e045fef139c7912348545cad5ddcef68fbcc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 12/24] fix: sub_mod of unsigned integers never overflows and
 does not print its operands

---
 hacspec/src/machine_integers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 385e824..6d7fa2a 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -17,13 +17,13 @@ macro_rules! implement_public_unsigned_mi {
             /// (self - rhs) % n.
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn sub_mod(self, rhs: Self, n: Self) -> Self {
-                println!("FOOOOOO {:?}, {:?}, {:?}", self, rhs, n);
-                let mut tmp = self;
-                while tmp < rhs {
-                    tmp += n;
+                let x = self % n;
+                let y = rhs % n;
+                if x < y {
+                    n - (y - x)
+                } else {
+                    x - y
                 }
-                println!("{:?} = {:?} - {:?}", tmp, rhs, tmp-rhs);
-                (tmp - rhs) % n
             }
             /// `(self + rhs) % n`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
-- 
2.43.0


From 6a9ffaac069d4c1eac4f91db48a4e3ae08857b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 13/24] fix: get_byte works on 8-bit integers

---
 hacspec/src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index cc91343..5d634e7 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -265,7 +265,7 @@ pub trait UnsignedSecretInteger : UnsignedInteger + SecretInteger {
     #[inline]
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn get_byte(self, i: u32) -> Self {
-        (self >> (i * 8)) & ((Self::ONE << 8) - Self::ONE)
+        (self >> (i * 8)) & Self::from_literal(0xff)
     }
 }
 
-- 
2.43.0


From f8d8eda9d9503066cd7e83368cb2461b8760a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 14/24] fix: modular inverse does not overflow for large moduli
 and does not print

---
 hacspec/src/machine_integers.rs |  4 +--
 hacspec/src/math_util.rs        | 43 ++++++++++++---------------------
 2 files changed, 17 insertions(+), 30 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 6d7fa2a..e4ac290 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -140,7 +140,7 @@ macro_rules! implement_public_mi {
             /// Invert self modulo n.
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn inv(self, n: Self) -> Self {
-                extended_euclid_invert(self, n, false)
+                extended_euclid_invert(self, n)
             }
             /// `|self|`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
@@ -397,7 +397,7 @@ macro_rules! implement_secret_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn inv(self, n: Self) -> Self {
                 // FIXME: this is not constant time
-                extended_euclid_invert(self, n, false)
+                extended_euclid_invert(self, n)
             }
             /// `|self|`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 8516bdd..39ddde9 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -22,47 +22,34 @@ pub(crate) fn signed_mod(x: i128, n: i128) -> i128 {
 ///
 #[inline]
 #[cfg_attr(feature="use_attributes", library(internal))]
-pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T, signed: bool) -> T {
+pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T) -> T {
+    // `t` and `new_t` are the absolute values of the Bézout coefficients. Their
+    // signs alternate and they never exceed n, such that nothing overflows here.
     let mut t = T::ZERO;
+    let mut t_negative = true;
     let mut r = n;
     let mut new_t = T::ONE;
-    let mut new_r = x;
+    let mut new_r = x.modulo(n);
 
-    println!("n: {:?}", n);
     while !new_r.equal(T::ZERO) {
         let q: T = r.div(new_r);
 
-        let tmp = new_r.clone();
-        // XXX: a little hacky
-        let tmp_prod = q * new_r;
-        let mut tmp_r = r;
-        while tmp_r.less_than(tmp_prod) {
-            tmp_r = tmp_r + n;
-        }
-        new_r = tmp_r - tmp_prod;
-        r = tmp;
+        let tmp = r - q * new_r;
+        r = new_r;
+        new_r = tmp;
 
-        let tmp = new_t.clone();
-        // XXX: a little hacky
-        let tmp_prod = q * new_t;
-        let mut tmp_t = t;
-        while tmp_t.less_than(tmp_prod) {
-            tmp_t = tmp_t + n;
-        }
-        new_t = tmp_t - tmp_prod;
-        t = tmp;
+        let tmp = t + q * new_t;
+        t = new_t;
+        new_t = tmp;
+        t_negative = !t_negative;
     }
 
     if r.greater_than(T::ONE) && !x.equal(T::ZERO) {
         panic!("{:x?} is not invertible in ℤ/{:x?}", x, n);
     }
-    if t.less_than(T::ZERO) {
-        if signed {
-            t = t.abs()
-        } else {
-            t = t + n
-        };
-    };
+    if t_negative && !t.equal(T::ZERO) {
+        t = n - t;
+    }
 
     t
 }
-- 
2.43.0


From b689f88ce89b0f40b1748ff333745d75189b7c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 15/24] fix: rotations of negative signed integers shift in the
 rotated bits only

---
 hacspec/src/traits.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index 5d634e7..c6e3fff 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -108,14 +108,17 @@ pub trait Integer: Numeric {
     fn rotate_left(self, n: u32) -> Self {
         // Taken from https://blog.regehr.org/archives/1063
         assert!(n < Self::NUM_BITS);
-        (self << n) | (self >> ((-(n as i32) as u32) & (Self::NUM_BITS - 1)))
+        // The right shift of signed integers copies the sign bit. Keep only the
+        // n bits that are rotated in.
+        let low_bits = !(!Self::ZERO << n);
+        (self << n) | ((self >> ((-(n as i32) as u32) & (Self::NUM_BITS - 1))) & low_bits)
     }
 
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn rotate_right(self, n: u32) -> Self {
         // Taken from https://blog.regehr.org/archives/1063
         assert!(n < Self::NUM_BITS);
-        (self >> n) | (self << ((-(n as i32) as u32) & (Self::NUM_BITS - 1)))
+        self.rotate_left((Self::NUM_BITS - n) & (Self::NUM_BITS - 1))
     }
 }
 
-- 
2.43.0


From 74586b299edaa09552be02e1688c5cb17ff815fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 16/24] fix: hex parsing refuses signs

---
 hacspec/src/array.rs | 2 ++
 hacspec/src/util.rs  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/hacspec/src/array.rs b/hacspec/src/array.rs
index 4b63c8e..ab0a9f0 100644
--- a/hacspec/src/array.rs
+++ b/hacspec/src/array.rs
@@ -247,6 +247,8 @@ macro_rules! _array_base {
             }
             fn hex_string_to_vec(s: &str) -> Vec<$t> {
                 debug_assert!(s.len() % std::mem::size_of::<$t>() == 0);
+                // `from_str_radix` would accept a sign.
+                assert!(s.bytes().all(|c| c.is_ascii_hexdigit()), "Error parsing hex string");
                 let b: Result<Vec<$t>, ParseIntError> = (0..s.len())
                     .step_by(2)
                     .map(|i| u8::from_str_radix(&s[i..i + 2], 16).map(<$t>::from))
diff --git a/hacspec/src/util.rs b/hacspec/src/util.rs
index 6895f48..9057c78 100644
--- a/hacspec/src/util.rs
+++ b/hacspec/src/util.rs
@@ -9,6 +9,8 @@ use crate::prelude::*;
 #[cfg_attr(feature="use_attributes", internal(hacspec))]
 pub fn hex_string_to_bytes(s: &str) -> Vec<u8> {
     debug_assert!(s.len() % 2 == 0);
+    // `from_str_radix` would accept a sign.
+    assert!(s.bytes().all(|c| c.is_ascii_hexdigit()), "Error parsing hex string");
     let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
         .step_by(2)
         .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
-- 
2.43.0


From 4b20bd606f467df591d51a8f802276c831bf7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 17/24] fix: hex parsing of bounded integers refuses signs

---
 abstract-integers/src/abstract_int.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 84a8af1..9786c76 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -15,6 +15,8 @@ macro_rules! abstract_int {
 
             fn hex_string_to_bytes(s: &str) -> Vec<u8> {
                 assert!(s.len() % 2 == 0, "length of hex string {}: {}",s, s.len());
+                // `from_str_radix` would accept a sign.
+                assert!(s.bytes().all(|c| c.is_ascii_hexdigit()), "Error parsing hex string");
                 let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
                     .step_by(2)
                     .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
-- 
2.43.0


From af64ea9ebcaff5e6dee160be5f2350e6bfb87bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 18/24] fix: XOR of public sequences keeps the elements

---
 hacspec/src/vec_integers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hacspec/src/vec_integers.rs b/hacspec/src/vec_integers.rs
index 771d9b3..beaa647 100644
--- a/hacspec/src/vec_integers.rs
+++ b/hacspec/src/vec_integers.rs
@@ -1206,7 +1206,8 @@ impl<T: Numeric + PublicInteger> BitXor for PublicSeq<T> {
     type Output = PublicSeq<T>;
     #[cfg_attr(feature="use_attributes", library(hacspec))]
     fn bitxor(self, rhs: Self) -> Self::Output {
-        let mut out = Self::default();
+        debug_assert!(self.len() == rhs.len());
+        let mut out = Self::create(self.len());
         for (a, (b, c)) in out.b.iter_mut().zip(self.b.iter().zip(rhs.b.iter())) {
             *a = *b ^ *c;
         }
-- 
2.43.0


From 07292742ff03c4c3bfc530d5034e87a818d642f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 19/24] fix: polynomial multiplication works over the integers

---
 hacspec/src/poly.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 980dcad..c29b545 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -148,7 +148,12 @@ pub fn poly_mul<T: Numeric>(x: &[T], y: &[T], n: T) -> Vec<T> {
             .map(|(i, x)| (i, x))
             .filter(|(_, &x)| !x.equal(T::default()))
         {
-            out[adx.0 + bdx.0] = out[adx.0 + bdx.0].add_mod(adx.1.mul_mod(*bdx.1, n), n);
+            let i = adx.0 + bdx.0;
+            out[i] = if n.equal(T::default()) {
+                out[i] + *adx.1 * *bdx.1
+            } else {
+                out[i].add_mod(adx.1.mul_mod(*bdx.1, n), n)
+            };
         }
     }
     out
-- 
2.43.0


From 1cc415db3e3683df47b71a6b3abd2f69808b9ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 20/24] fix: polynomial division over the integers panics when
 a coefficient does not divide

---
 hacspec/src/poly.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index c29b545..72dc8b3 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -186,6 +186,9 @@ pub fn poly_div<T: Numeric>(x: &[T], y: &[T], n: T) -> (Vec<T>, Vec<T>) {
         if t.equal(T::default()) && !rem[idx].equal(T::default()) {
             panic!("Can't divide these two polynomials");
         }
+        if n.equal(T::default()) && !(t * c).equal(rem[idx]) {
+            panic!("Can't divide these two polynomials");
+        }
         let s = monomial(t, dist - i - 1);
         let sy = poly_mul(&s[..], &y[..], n);
         quo = poly_add(&quo[..], &s[..], n);
-- 
2.43.0


From 435014ab54fd4c87f0d61e4e1fe911c877dc418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 21/24] fix: polynomial division keeps the quotient
 coefficients reduced

---
 hacspec/src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 72dc8b3..05f38c8 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -181,7 +181,7 @@ pub fn poly_div<T: Numeric>(x: &[T], y: &[T], n: T) -> (Vec<T>, Vec<T>) {
             rem[idx].div(c) // XXX: Update once we change to Numeric
         } else {
             // divide by using inverse mod n
-            rem[idx] * T::inv(c, n)
+            rem[idx].mul_mod(T::inv(c, n), n)
         };
         if t.equal(T::default()) && !rem[idx].equal(T::default()) {
             panic!("Can't divide these two polynomials");
-- 
2.43.0


From c1920085187533f02021302cd6194ca5ae6ef198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 22/24] fix: polynomial inversion does not print its operand

---
 hacspec/src/poly.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 05f38c8..4f4452e 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -428,7 +428,6 @@ macro_rules! poly {
             /// Invert this polynomial.
             /// **Panics** if the polynomial is not invertible.
             fn inv(self) -> Self {
-                println!("inv {:?}", self);
                 Self::from_vec(extended_euclid(&self.poly, &self.irr, self.n).unwrap())
             }
 
-- 
2.43.0


From 81c6dfcb7208381f70a5a398ea774c1501536323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 23/24] fix: fixed-length polynomials refuse coefficients they
 have no room for

---
 hacspec/src/poly.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 4f4452e..84d15a6 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -433,8 +433,8 @@ macro_rules! poly {
 
             pub fn from_vec(v: Vec<$t>) -> $name {
                 let (d, _) = leading_coefficient(&v);
-                debug_assert!(d <= $l);
-                if d > $l {
+                debug_assert!(d < $l);
+                if d >= $l {
                     panic!("The vector is too long to fit this polynomial.");
                 }
                 let mut p = [<$t>::default(); $l];
-- 
2.43.0


From 78f99a4b63715303b1a1d75d244dbeaceda3d628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 24/24] fix: polynomial division accepts dividends with
 unreduced coefficients

---
 hacspec/src/poly.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 84d15a6..d1d5096 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -176,17 +176,17 @@ pub fn poly_div<T: Numeric>(x: &[T], y: &[T], n: T) -> (Vec<T>, Vec<T>) {
     let rlen = rem.len();
     for i in 0..dist {
         let idx = rlen - 1 - i;
-        let t = if n.equal(T::default()) {
+        let (l, t) = if n.equal(T::default()) {
             // In ℤ we try this. It might not work.
-            rem[idx].div(c) // XXX: Update once we change to Numeric
+            let t = rem[idx].div(c); // XXX: Update once we change to Numeric
+            (t * c, t)
         } else {
             // divide by using inverse mod n
-            rem[idx].mul_mod(T::inv(c, n), n)
+            rem[idx] = rem[idx].modulo(n);
+            let t = rem[idx].mul_mod(T::inv(c, n), n);
+            (t.mul_mod(c, n), t)
         };
-        if t.equal(T::default()) && !rem[idx].equal(T::default()) {
-            panic!("Can't divide these two polynomials");
-        }
-        if n.equal(T::default()) && !(t * c).equal(rem[idx]) {
+        if !l.equal(rem[idx]) {
             panic!("Can't divide these two polynomials");
         }
         let s = monomial(t, dist - i - 1);
-- 
2.43.0


From 1e715d35ad5c3130d93fb4f2331c730816727de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 01/25] fix: pad SHA-256 messages that end on a block boundary

---
 spec-examples/src/sha2/sha2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spec-examples/src/sha2/sha2.rs b/spec-examples/src/sha2/sha2.rs
index 737e69f..d19053b 100644
--- a/spec-examples/src/sha2/sha2.rs
+++ b/spec-examples/src/sha2/sha2.rs
@@ -189,5 +189,14 @@ pub fn hash(msg: &ByteSeq) -> Digest {
             h = compress(compress_input, h);
         }
     }
+    if msg.len() % BLOCK_SIZE == 0 {
+        // The message ends on a block boundary (or is empty), such that the
+        // padding has to go into a block of its own.
+        let mut pad_block = Block::new();
+        pad_block[0] = U8(0x80);
+        let len_bist: U64 = (msg.len() * 8).into();
+        pad_block = pad_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
+        h = compress(pad_block, h);
+    }
     Digest::from_seq(&h.to_be_bytes())
 }
-- 
2.43.0


From 4124f09b7c628f807b73c14c277e170bd5ad7990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 02/25] fix: always compress the final BLAKE2b block with the
 last block flag

---
 spec-examples/src/blake2/blake2b.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spec-examples/src/blake2/blake2b.rs b/spec-examples/src/blake2/blake2b.rs
index 04d4f2b..303682d 100644
--- a/spec-examples/src/blake2/blake2b.rs
+++ b/spec-examples/src/blake2/blake2b.rs
@@ -177,9 +177,14 @@ pub fn blake2<Word: UnsignedSecretInteger>(data: &ByteSeq, alg: BlakeVariant) ->
     h[0] = h[0] ^ Word::from_literal(0x0101_0000) ^ Word::from_literal(64);
 
     let mut t : Counter<Word::PublicVersion> = Counter::new();
-    for i in 0..data.num_chunks(128) {
+    let num_blocks = data.num_chunks(128);
+    if num_blocks == 0 {
+        // No data is hashed as a single, final block of zeroes.
+        h = compress(h, &ByteSeq::new(128), t, true, alg);
+    }
+    for i in 0..num_blocks {
         let (block_len, block) = data.get_chunk(128, i);
-        if block_len == 128 {
+        if i + 1 < num_blocks {
             t = inc_counter(t, Word::PublicVersion::from_literal(128));
             h = compress(h, &ByteSeq::from_seq(&block), t, false, alg);
         } else {
-- 
2.43.0


From 203b21c41a6e6156f938452dd9f3eef6f6e48ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 03/25] fix: add the Poly1305 pad modulo 2^128 instead of in
 the field

---
 .../src/chacha20_poly1305/poly1305.rs          | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/spec-examples/src/chacha20_poly1305/poly1305.rs b/spec-examples/src/chacha20_poly1305/poly1305.rs
index 894ca1d..6d6d3af 100644
--- a/spec-examples/src/chacha20_poly1305/poly1305.rs
+++ b/spec-examples/src/chacha20_poly1305/poly1305.rs
@@ -55,18 +55,18 @@ fn poly_inner(m: &ByteSeq, r: FieldElement) -> FieldElement {
 }
 
 pub fn poly(m: &ByteSeq, key: Key) -> Tag {
-    let s_elem = FieldElement::from_secret_literal(U128_from_le_bytes(U128Word::from_sub(
-        &key, BLOCKSIZE, BLOCKSIZE,
-    )));
+    let s = U128_from_le_bytes(U128Word::from_sub(&key, BLOCKSIZE, BLOCKSIZE));
     let r_elem = encode_r(Block::from_sub_range(&key, 0..BLOCKSIZE));
     let a = poly_inner(m, r_elem);
-    let n = a + s_elem;
-    // Note that n might be less than 16 byte -> zero-pad; but might also be
-    // larger than Tag::capacity().
-    let n_v = n.to_public_byte_seq_le();
+    // Note that a might be less than 16 byte -> zero-pad; but might also be
+    // larger than a block. The addition of s is modulo 2^128 and not in the field.
+    let a_v = a.to_byte_seq_le();
+    let mut a_128 = U128Word::new();
+    a_128 = a_128.update_sub(0, &a_v, 0, min(BLOCKSIZE, a_v.len()));
+    let n_v = U128_to_le_bytes(U128_from_le_bytes(a_128) + s);
     let mut tag = Tag::new();
-    for i in 0..min(tag.len(), n_v.len()) {
-        tag[i] = n_v[i];
+    for i in 0..tag.len() {
+        tag[i] = n_v[i].declassify();
     }
     tag
 }
-- 
2.43.0


From b056bed72005b81d23cbc6d80b93cfa5ef4f22c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 04/25] fix: build the X25519 base point with its full length

---
 spec-examples/src/curve25519/curve25519.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spec-examples/src/curve25519/curve25519.rs b/spec-examples/src/curve25519/curve25519.rs
index f5911b6..2d0e95e 100644
--- a/spec-examples/src/curve25519/curve25519.rs
+++ b/spec-examples/src/curve25519/curve25519.rs
@@ -97,7 +97,8 @@ pub fn scalarmult(s: SerializedScalar, p: SerializedPoint) -> SerializedPoint {
 }
 
 pub fn secret_to_public(s: SerializedScalar) -> SerializedPoint {
-    let base = SerializedPoint::from_hex("09");
+    let mut base = SerializedPoint::new();
+    base[0] = U8(9);
     scalarmult(s, base)
 }
 
-- 
2.43.0


From c911e730e22ccd5f335165c3f05a6398478dc47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 05/25] fix: let HKDF expand to the maximum of 255 blocks

---
 spec-examples/src/hkdf/hkdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec-examples/src/hkdf/hkdf.rs b/spec-examples/src/hkdf/hkdf.rs
index 7066ea1..73af121 100644
--- a/spec-examples/src/hkdf/hkdf.rs
+++ b/spec-examples/src/hkdf/hkdf.rs
@@ -42,7 +42,7 @@ fn div_ceil(a: usize, b: usize) -> u64 {
 /// Output length l can be at most 255*HASH_LEN.
 pub fn expand(prk: &ByteSeq, info: &ByteSeq, l: usize) -> ByteSeq {
     let n = div_ceil(l, HASH_LEN);
-    debug_assert!(n < u8::max_value().into());
+    debug_assert!(n <= u8::max_value().into());
     let n = n as u8;
 
     let mut t_i = hmac::PRK::new();
-- 
2.43.0


From c8e795ae9183ddbc8d622a001275d9ecd9b43ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 06/25] fix: keep the length of public sequences in xor

---
 hacspec/src/vec_integers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hacspec/src/vec_integers.rs b/hacspec/src/vec_integers.rs
index 771d9b3..91d7a1d 100644
--- a/hacspec/src/vec_integers.rs
+++ b/hacspec/src/vec_integers.rs
@@ -1206,7 +1206,8 @@ impl<T: Numeric + PublicInteger> BitXor for PublicSeq<T> {
     type Output = PublicSeq<T>;
     #[cfg_attr(feature="use_attributes", library(hacspec))]
     fn bitxor(self, rhs: Self) -> Self::Output {
-        let mut out = Self::default();
+        debug_assert!(self.len() == rhs.len());
+        let mut out = Self::new(self.len());
         for (a, (b, c)) in out.b.iter_mut().zip(self.b.iter().zip(rhs.b.iter())) {
             *a = *b ^ *c;
         }
-- 
2.43.0


From 23894e582d24c70763d2f36a4a7fe6f73817c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 07/25] fix: accept the maximum and enforce the lower bound of
 bounded integers

---
 abstract-integers/src/abstract_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index e077062..8cf29e6 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -70,7 +70,7 @@ macro_rules! abstract_int {
         impl From<BigInt> for $name {
             fn from(x: BigInt) -> $name {
                 let max_value = Self::max();
-                assert!(x < max_value, "{} is too large for type {}!", x, stringify!($name));
+                assert!(x <= max_value && -x.clone() <= max_value, "{} is too large for type {}!", x, stringify!($name));
                 let (sign, repr) = x.to_bytes_be();
                 if sign == Sign::Minus && (!$signed) {
                     panic!("Trying to convert a negative number into an unsigned integer!")
-- 
2.43.0


From 1c17e925aadc8202de9fdfb86f4aeb0af3c746c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 08/25] fix: keep the sign of signed literals

---
 abstract-integers/src/abstract_int.rs |  2 +-
 abstract-integers/src/nat_mod.rs      | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 8cf29e6..3edc644 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -33,7 +33,7 @@ macro_rules! abstract_int {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
-                let big_x = BigInt::from(x as u128);
+                let big_x = BigInt::from(x);
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index ed2d014..fee308c 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -67,11 +67,16 @@ macro_rules! modular_integer {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
-                let big_x = BigUint::from(x as u128);
-                if big_x > $name::max().into() {
+                if x >= 0 {
+                    return Self::from_literal(x as u128);
+                }
+                let max: BigInt = $name::max().into();
+                let big_x = BigInt::from(x) + &max;
+                if big_x < BigInt::zero() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                let base_x: $base = big_x.into();
+                base_x.into()
             }
         }
     };
-- 
2.43.0


From c27399682c8083afacb7cdfe9c324f9dcf32fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 09/25] fix: reduce modular integers created from their modulus

---
 abstract-integers/src/nat_mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index fee308c..31fc9c3 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -62,7 +62,8 @@ macro_rules! modular_integer {
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                let base_x: $base = big_x.into();
+                base_x.into()
             }
 
             #[allow(dead_code)]
-- 
2.43.0


From 2ec9e9acbfaccc91f95dbe80eb27c2499e488768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 10/25] fix: return all-ones comparison masks on signed public
 integers

---
 hacspec/src/machine_integers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 8572ef8..385e824 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -174,7 +174,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn not_equal_bm(self, other: Self) -> Self {
                 if self != other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -182,7 +182,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn equal_bm(self, other: Self) -> Self {
                 if self == other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -190,7 +190,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn greater_than_bm(self, other: Self) -> Self {
                 if self > other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -198,7 +198,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn greater_than_or_qual_bm(self, other: Self) -> Self {
                 if self >= other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -206,7 +206,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn less_than_bm(self, other: Self) -> Self {
                 if self < other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -214,7 +214,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn less_than_or_equal_bm(self, other: Self) -> Self {
                 if self <= other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
-- 
2.43.0


From fd02d89aeece8f85bd85791b1e1563816f59344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 11/25] fix: rotate signed integers without smearing the sign
 bit

---
 hacspec/src/traits.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index cc91343..7caf1b3 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -108,14 +108,15 @@ pub trait Integer: Numeric {
     fn rotate_left(self, n: u32) -> Self {
         // Taken from https://blog.regehr.org/archives/1063
         assert!(n < Self::NUM_BITS);
-        (self << n) | (self >> ((-(n as i32) as u32) & (Self::NUM_BITS - 1)))
+        // Right shifts of signed integers are arithmetic: drop the copies of the sign bit.
+        let low = (self >> ((-(n as i32) as u32) & (Self::NUM_BITS - 1))) & !(!Self::ZERO << n);
+        (self << n) | low
     }
 
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn rotate_right(self, n: u32) -> Self {
-        // Taken from https://blog.regehr.org/archives/1063
         assert!(n < Self::NUM_BITS);
-        (self >> n) | (self << ((-(n as i32) as u32) & (Self::NUM_BITS - 1)))
+        self.rotate_left((Self::NUM_BITS - n) % Self::NUM_BITS)
     }
 }
 
-- 
2.43.0


From 59417518153c69bddd3b493964fb436e70cfc55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 12/25] fix: get_byte on 8-bit integers

---
 hacspec/src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index 7caf1b3..a270703 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -266,7 +266,7 @@ pub trait UnsignedSecretInteger : UnsignedInteger + SecretInteger {
     #[inline]
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn get_byte(self, i: u32) -> Self {
-        (self >> (i * 8)) & ((Self::ONE << 8) - Self::ONE)
+        (self >> (i * 8)) & Self::from_literal(0xff)
     }
 }
 
-- 
2.43.0


From f9a182caa662193f59da913c5c86ce85a211a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 13/25] fix: multiply polynomials over the integers

---
 hacspec/src/poly.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 980dcad..6c2446d 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -148,7 +148,11 @@ pub fn poly_mul<T: Numeric>(x: &[T], y: &[T], n: T) -> Vec<T> {
             .map(|(i, x)| (i, x))
             .filter(|(_, &x)| !x.equal(T::default()))
         {
-            out[adx.0 + bdx.0] = out[adx.0 + bdx.0].add_mod(adx.1.mul_mod(*bdx.1, n), n);
+            out[adx.0 + bdx.0] = if n.equal(T::default()) {
+                out[adx.0 + bdx.0] + *adx.1 * *bdx.1
+            } else {
+                out[adx.0 + bdx.0].add_mod(adx.1.mul_mod(*bdx.1, n), n)
+            };
         }
     }
     out
-- 
2.43.0


From 9d1590a86f0fff0bc6e3085771b0ccf276baccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 14/25] fix: reduce quotient coefficients in polynomial
 division

---
 hacspec/src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 6c2446d..7e03ddf 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -180,7 +180,7 @@ pub fn poly_div<T: Numeric>(x: &[T], y: &[T], n: T) -> (Vec<T>, Vec<T>) {
             rem[idx].div(c) // XXX: Update once we change to Numeric
         } else {
             // divide by using inverse mod n
-            rem[idx] * T::inv(c, n)
+            rem[idx].mul_mod(T::inv(c, n), n)
         };
         if t.equal(T::default()) && !rem[idx].equal(T::default()) {
             panic!("Can't divide these two polynomials");
-- 
2.43.0


From dd766caf8ef211c8dc34487fedc609a2d8b819ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 15/25] fix: reject vectors of degree l as fixed-length
 polynomials

---
 hacspec/src/poly.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 7e03ddf..84f0dd3 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -430,8 +430,8 @@ macro_rules! poly {
 
             pub fn from_vec(v: Vec<$t>) -> $name {
                 let (d, _) = leading_coefficient(&v);
-                debug_assert!(d <= $l);
-                if d > $l {
+                debug_assert!(d < $l);
+                if d >= $l {
                     panic!("The vector is too long to fit this polynomial.");
                 }
                 let mut p = [<$t>::default(); $l];
-- 
2.43.0


From 77b4465dcdfb35c8d35c827c97b265201f89ea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 16/25] fix: sub_mod prints its operands, overflows and may not
 terminate

---
 hacspec/src/machine_integers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 385e824..a15a5a3 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -17,13 +17,13 @@ macro_rules! implement_public_unsigned_mi {
             /// (self - rhs) % n.
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn sub_mod(self, rhs: Self, n: Self) -> Self {
-                println!("FOOOOOO {:?}, {:?}, {:?}", self, rhs, n);
-                let mut tmp = self;
-                while tmp < rhs {
-                    tmp += n;
+                let a = self % n;
+                let b = rhs % n;
+                if a >= b {
+                    a - b
+                } else {
+                    n - (b - a)
                 }
-                println!("{:?} = {:?} - {:?}", tmp, rhs, tmp-rhs);
-                (tmp - rhs) % n
             }
             /// `(self + rhs) % n`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
-- 
2.43.0


From 56796fb4ad91e4647d24b1a7d484d8aab9f69b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 17/25] fix: modular inverse leaves the range of the type and
 prints its modulus

---
 hacspec/src/machine_integers.rs |  4 ++--
 hacspec/src/math_util.rs        | 40 +++++++++++----------------------
 2 files changed, 15 insertions(+), 29 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index a15a5a3..ed3d279 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -140,7 +140,7 @@ macro_rules! implement_public_mi {
             /// Invert self modulo n.
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn inv(self, n: Self) -> Self {
-                extended_euclid_invert(self, n, false)
+                extended_euclid_invert(self, n)
             }
             /// `|self|`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
@@ -397,7 +397,7 @@ macro_rules! implement_secret_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn inv(self, n: Self) -> Self {
                 // FIXME: this is not constant time
-                extended_euclid_invert(self, n, false)
+                extended_euclid_invert(self, n)
             }
             /// `|self|`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 8516bdd..18510fc 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -22,48 +22,34 @@ pub(crate) fn signed_mod(x: i128, n: i128) -> i128 {
 ///
 #[inline]
 #[cfg_attr(feature="use_attributes", library(internal))]
-pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T, signed: bool) -> T {
+pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T) -> T {
     let mut t = T::ZERO;
     let mut r = n;
     let mut new_t = T::ONE;
-    let mut new_r = x;
+    let mut new_r = x.modulo(n);
 
-    println!("n: {:?}", n);
+    // The Bézout coefficients alternate in sign and are at most `n`. Only their
+    // magnitudes are kept, such that nothing leaves the range of `T`.
+    let mut t_negative = true;
     while !new_r.equal(T::ZERO) {
         let q: T = r.div(new_r);
 
-        let tmp = new_r.clone();
-        // XXX: a little hacky
-        let tmp_prod = q * new_r;
-        let mut tmp_r = r;
-        while tmp_r.less_than(tmp_prod) {
-            tmp_r = tmp_r + n;
-        }
-        new_r = tmp_r - tmp_prod;
+        let tmp = new_r;
+        new_r = r - q * new_r;
         r = tmp;
 
-        let tmp = new_t.clone();
-        // XXX: a little hacky
-        let tmp_prod = q * new_t;
-        let mut tmp_t = t;
-        while tmp_t.less_than(tmp_prod) {
-            tmp_t = tmp_t + n;
-        }
-        new_t = tmp_t - tmp_prod;
+        let tmp = new_t;
+        new_t = t + q * new_t;
         t = tmp;
+        t_negative = !t_negative;
     }
 
     if r.greater_than(T::ONE) && !x.equal(T::ZERO) {
         panic!("{:x?} is not invertible in ℤ/{:x?}", x, n);
     }
-    if t.less_than(T::ZERO) {
-        if signed {
-            t = t.abs()
-        } else {
-            t = t + n
-        };
-    };
-
+    if t_negative && !t.equal(T::ZERO) {
+        t = n - t;
+    }
     t
 }
 
-- 
2.43.0


From 8a0c778c165e8ec637188a11089b4608cb7373c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 18/25] fix: inverting a polynomial prints it

---
 hacspec/src/poly.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 84f0dd3..2267c2c 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -424,7 +424,6 @@ macro_rules! poly {
             /// Invert this polynomial.
             /// **Panics** if the polynomial is not invertible.
             fn inv(self) -> Self {
-                println!("inv {:?}", self);
                 Self::from_vec(extended_euclid(&self.poly, &self.irr, self.n).unwrap())
             }
 
-- 
2.43.0


From 87c8507901c009c5548d689ed97d44b89620db26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 19/25] fix: reject signs in hex strings

---
 abstract-integers/src/abstract_int.rs | 1 +
 hacspec/src/array.rs                  | 1 +
 hacspec/src/util.rs                   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 3edc644..8b6c450 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -15,6 +15,7 @@ macro_rules! abstract_int {
 
             fn hex_string_to_bytes(s: &str) -> Vec<u8> {
                 assert!(s.len() % 2 == 0, "length of hex string {}: {}",s, s.len());
+                assert!(s.bytes().all(|b| b.is_ascii_hexdigit()), "Error parsing hex string");
                 let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
                     .step_by(2)
                     .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
diff --git a/hacspec/src/array.rs b/hacspec/src/array.rs
index 4b63c8e..e476a8a 100644
--- a/hacspec/src/array.rs
+++ b/hacspec/src/array.rs
@@ -247,6 +247,7 @@ macro_rules! _array_base {
             }
             fn hex_string_to_vec(s: &str) -> Vec<$t> {
                 debug_assert!(s.len() % std::mem::size_of::<$t>() == 0);
+                assert!(s.bytes().all(|b| b.is_ascii_hexdigit()), "Error parsing hex string");
                 let b: Result<Vec<$t>, ParseIntError> = (0..s.len())
                     .step_by(2)
                     .map(|i| u8::from_str_radix(&s[i..i + 2], 16).map(<$t>::from))
diff --git a/hacspec/src/util.rs b/hacspec/src/util.rs
index 6895f48..0b8b62c 100644
--- a/hacspec/src/util.rs
+++ b/hacspec/src/util.rs
@@ -9,6 +9,7 @@ use crate::prelude::*;
 #[cfg_attr(feature="use_attributes", internal(hacspec))]
 pub fn hex_string_to_bytes(s: &str) -> Vec<u8> {
     debug_assert!(s.len() % 2 == 0);
+    assert!(s.bytes().all(|b| b.is_ascii_hexdigit()), "Error parsing hex string");
     let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
         .step_by(2)
         .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
-- 
2.43.0


From 9ceba0940cd63f2d4c2bc7bb56ada6e8a2553cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 20/25] fix: negate the minimum of signed secret integers by
 wrapping

---
 secret-integers/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/secret-integers/src/lib.rs b/secret-integers/src/lib.rs
index d3ac35f..ebd4aaa 100644
--- a/secret-integers/src/lib.rs
+++ b/secret-integers/src/lib.rs
@@ -398,7 +398,14 @@ macro_rules! define_secret_signed_integer {
     ($name:ident, $repr:ty, $bits:tt) => {
         // Secret signed integer.
         define_secret_integer!($name, $repr, $bits);
-        define_unary_op!($name, -, Neg, neg);
+        impl Neg for $name {
+            type Output = Self;
+            #[inline]
+            fn neg(self) -> Self {
+                let $name(i1) = self;
+                $name((Wrapping(0) - Wrapping(i1)).0)
+            }
+        }
 
         /// # Constant-time comparison operators
         impl $name {
-- 
2.43.0


From dff1945cf51f5efc95fbbfe8e5d9c0fa510758ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 21/25] fix: poly_div panics on every inexact coefficient
 division

It only noticed quotient coefficients that rounded to zero and otherwise
dropped the part of the dividend it could not divide.
---
 hacspec/src/poly.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 2267c2c..b93296b 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -182,13 +182,13 @@ pub fn poly_div<T: Numeric>(x: &[T], y: &[T], n: T) -> (Vec<T>, Vec<T>) {
             // divide by using inverse mod n
             rem[idx].mul_mod(T::inv(c, n), n)
         };
-        if t.equal(T::default()) && !rem[idx].equal(T::default()) {
-            panic!("Can't divide these two polynomials");
-        }
         let s = monomial(t, dist - i - 1);
         let sy = poly_mul(&s[..], &y[..], n);
         quo = poly_add(&quo[..], &s[..], n);
         rem = poly_sub(&rem, &sy, n);
+        if !rem[idx].equal(T::default()) {
+            panic!("Can't divide these two polynomials");
+        }
     }
     (quo, make_fixed_length(&rem, yd))
 }
-- 
2.43.0


From 3a2f2f51b73d5836093057607990542795185dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 22/25] fix: a negative bounded integer does not convert to its
 absolute value

---
 abstract-integers/src/abstract_int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 8b6c450..0b598db 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -109,6 +109,7 @@ macro_rules! abstract_int {
 
         impl Into<BigUint> for $name {
             fn into(self) -> BigUint {
+                assert!(self.sign != Sign::Minus, "{} is negative", self);
                 BigUint::from_bytes_be(&self.b)
             }
         }
-- 
2.43.0


From b1a2cd744b1d327496038c3981831b1834545d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 23/25] fix: signed from_hex with no sign is not always zero

---
 abstract-integers/src/abstract_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 0b598db..fafed68 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -345,7 +345,7 @@ macro_rules! abstract_signed {
                 let sign = match sign {
                     "+" => Sign::Plus,
                     "-" => Sign::Minus,
-                    "" => Sign::NoSign,
+                    "" => Sign::Plus,
                     _ => panic!("from_hex requires the first argument to be + or -")
                 };
                 BigInt::from_bytes_be(sign, &Self::hex_string_to_bytes(s)).into()
-- 
2.43.0


From f8dc8759f656ed1b3164fe0ec54b7549610feebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 24/25] fix: pow accepts exponents wider than the base type

---
 abstract-integers/src/abstract_int.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index fafed68..2389762 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -154,7 +154,9 @@ macro_rules! abstract_public {
             /// The exponent is a u128.
             #[allow(dead_code)]
             pub fn pow(self, exp: u128, modval: Self) -> Self {
-                self.pow_felem(BigInt::from(exp).into(), modval)
+                let a: BigInt = self.into();
+                let m: BigInt = modval.into();
+                a.modpow(&BigInt::from(exp), &m).into()
             }
 
             fn rem(self, n: Self) -> Self {
-- 
2.43.0


From 92e51238727b0efbee14a2a1db588fd2cb15de90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:14 +0000
Subject: [PATCH 25/25] fix: attributes: use Span::file, Span::source_file no
 longer exists

---
 attributes/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attributes/src/lib.rs b/attributes/src/lib.rs
index f390d3e..83b47aa 100644
--- a/attributes/src/lib.rs
+++ b/attributes/src/lib.rs
@@ -39,11 +39,11 @@ macro_rules! declare_attribute {
                         name,
                         Green.paint(format!("{}", func.sig.ident)),
                         {
-                            let file = func.sig.span().unwrap().source_file().path();
+                            let file = func.sig.span().unwrap().file();
                             let start = func.sig.span().start();
                             format!(
                                 "in file {}, line {}",
-                                Yellow.paint(file.to_str().unwrap()),
+                                Yellow.paint(file),
                                 Yellow.paint(format!("{}", start.line))
                             )
                         }
-- 
2.43.0


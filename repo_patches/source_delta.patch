From f0b2c610518edc98b4dd3bbf2df5d874da6853c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 01/54] fix: decode_align returns an error instead of panicking
 at the end of the buffer

---
 codecs/src/aper/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 2b0cdcd..790961f 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -64,6 +64,12 @@ impl AperCodecData {
         let remaining = 8 - (self.decode_offset & 0x7_usize);
         log::debug!("Aligning Codec Buffer with {} bits", remaining);
 
+        if remaining > self.bits.len() - self.decode_offset {
+            return Err(AperCodecError::new(
+                "AperCodec:DecodeError:End of Bitstream reached while trying to align.",
+            ));
+        }
+
         if !self.bits[self.decode_offset..self.decode_offset + remaining]
             .iter()
             .all(|b| b == false)
-- 
2.43.0


From 44a7472ad53d08789303af7777d6403e74fb704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 02/54] fix: decoding an unsigned field wider than i128 is an
 error, not a panic or a negative value

---
 codecs/src/aper/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 790961f..389fb80 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -122,6 +122,10 @@ impl AperCodecData {
             let value = if !signed {
                 if bits == 0 {
                     0_i128
+                } else if bits > 128 || (bits == 128 && self.bits[self.decode_offset]) {
+                    return Err(AperCodecError::new(
+                        "AperCodec:DecodeError:Value does not fit in an i128.",
+                    ));
                 } else {
                     self.bits[self.decode_offset..self.decode_offset + bits].load_be::<u128>()
                         as i128
-- 
2.43.0


From b0078790e00c8811d5beacd3611b7aa65a032f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 03/54] fix: decoding a semi-constrained whole number must not
 overflow

---
 codecs/src/aper/decode/decode_internal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 3632214..293d349 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -152,7 +152,9 @@ pub(super) fn decode_semi_constrained_whole_number(
     let bits = length * 8;
     let val = data.decode_bits_as_integer(bits, false)?;
 
-    Ok(val + lb)
+    val.checked_add(lb).ok_or_else(|| {
+        AperCodecError::new("AperCodec:DecodeError:Value does not fit in an i128.")
+    })
 }
 
 // Decode a 'constrained' whole number where both `lb` and `ub` are available.
-- 
2.43.0


From ffeb5c9c769dcd6208f78d09eb522e3ef6addd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 04/54] fix: reject constrained whole numbers above the upper
 bound when decoding

---
 codecs/src/aper/decode/decode_internal.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 293d349..4d03f33 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -200,6 +200,12 @@ pub(super) fn decode_constrained_whole_number(
             data.decode_bits_as_integer(length * 8, false)?
         };
 
+        if value > ub - lb {
+            return Err(AperCodecError::new(
+                "AperCodec:DecodeError:Decoded value is greater than the upper bound.",
+            ));
+        }
+
         Ok(value + lb)
     }
 }
-- 
2.43.0


From 053f0aec5a98f0973180bfe4b7625b999a233005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 05/54] fix: the lower bound of a constrained INTEGER with a
 range above 64K can be encoded

---
 codecs/src/aper/encode/encode_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index c944c7d..41f9ed4 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -93,7 +93,7 @@ pub(super) fn encode_constrained_whole_number(
     } else {
         let bytes_needed_for_range = crate::aper::bytes_needed_for_range(range) as i128;
         let bytes = value.to_be_bytes();
-        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(16);
+        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
         encode_constrained_whole_number(
             data,
             1,
-- 
2.43.0


From 6a4dd0528e59d78fa7ef954c0760eabe064beb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 06/54] fix: octets needed for a range are those of its largest
 offset (X.691 10.5.7.4)

---
 codecs/src/aper/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 389fb80..01f7246 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -382,7 +382,7 @@ impl AperCodecData {
 }
 
 fn bytes_needed_for_range(range: i128) -> u8 {
-    let bits_needed: u8 = 128 - range.leading_zeros() as u8;
+    let bits_needed: u8 = 128 - (range - 1).leading_zeros() as u8;
     let mut bytes_needed = bits_needed / 8;
     if bits_needed % 8 != 0 {
         bytes_needed += 1
-- 
2.43.0


From f020ee663192835d280d48c98bfaee4e0e7634d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 07/54] fix: semi-constrained whole numbers are minimal
 unsigned octets (X.691 10.7), without overflow

---
 codecs/src/aper/encode/encode_internal.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 41f9ed4..3a64e3b 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -41,7 +41,14 @@ pub(super) fn encode_semi_constrained_whole_number(
         )));
     }
 
-    encode_unconstrained_whole_number(data, value - lb)
+    let value = value
+        .checked_sub(lb)
+        .ok_or_else(|| AperCodecError::new("Cannot encode integer - offset exceeds an i128"))?;
+    let bytes = value.to_be_bytes();
+    let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
+    encode_length_determinent(data, None, None, false, 16 - first_non_zero)?;
+    data.append_bits(bytes[first_non_zero..16].view_bits());
+    Ok(())
 }
 
 pub(super) fn encode_constrained_whole_number(
-- 
2.43.0


From e2f31a9b5a4c5855fec3c9f349623f1412463253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 08/54] fix: decode the 9 to 15 octet unconstrained whole
 numbers that can be encoded

---
 codecs/src/aper/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 01f7246..1a9ad9b 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -196,6 +196,17 @@ impl AperCodecData {
                         let inner = inner as i64;
                         inner as i128
                     }
+                    72 | 80 | 88 | 96 | 104 | 112 | 120 => {
+                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
+                            .load_be::<u128>();
+                        let inner = if self.bits[self.decode_offset] {
+                            // Bit is 1 negative no.
+                            inner | (u128::MAX << bits)
+                        } else {
+                            inner
+                        };
+                        inner as i128
+                    }
                     64 => {
                         let inner = self.bits[self.decode_offset..self.decode_offset + bits]
                             .load_be::<u128>() as i64;
-- 
2.43.0


From 2d1a40961f40c7cdd3def14e6af6b11fa9a1fa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 09/54] fix: normally small lengths use the short form up to
 64, and 0 is an error

---
 codecs/src/aper/encode/encode_internal.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 3a64e3b..09d8b56 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -136,7 +136,13 @@ pub(super) fn encode_normally_small_length_determinent(
     data: &mut AperCodecData,
     value: usize,
 ) -> Result<(), AperCodecError> {
-    if value <= 32 {
+    if value == 0 {
+        return Err(AperCodecError::new(
+            "Cannot encode a normally small length of 0",
+        ));
+    }
+
+    if value <= 64 {
         let byte = (value - 1) as u8;
         data.encode_bool(false);
         data.append_bits(&byte.view_bits::<Msb0>()[2..8]);
-- 
2.43.0


From 2fee2ca105fc68d96a70783b51e9bb26685c23c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 10/54] fix: decode characters of unaligned strings in big
 endian bit order

---
 codecs/src/aper/decode/decode_charstrings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 96fbcc6..f00cdc2 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -84,7 +84,7 @@ fn decode_string(
     let bits = data.get_bitvec(length)?;
     let bytes = bits
         .chunks_exact(num_bits)
-        .map(|c| c.load::<u8>())
+        .map(|c| c.load_be::<u8>())
         .collect::<Vec<u8>>();
 
     data.dump();
-- 
2.43.0


From 5defe39a35636809f3f1a584b79487e87d9acf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 11/54] fix: a constrained length of 16384 or more is not a
 fragment

---
 codecs/src/aper/decode/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 3b2d7b8..14cd750 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -226,7 +226,7 @@ pub fn decode_bitstring(
         }
 
         // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        if length >= 16384 && (is_extended || ub.map_or(true, |ub| ub >= 65_536)) {
             continue;
         } else {
             break;
@@ -276,7 +276,7 @@ pub fn decode_octetstring(
         }
 
         // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        if length >= 16384 && (is_extended || ub.map_or(true, |ub| ub >= 65_536)) {
             continue;
         } else {
             break;
-- 
2.43.0


From ccd2b61621d6da71db8253ede0ca00676527c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 12/54] fix: reject fragmented character strings instead of
 returning the first fragment

---
 codecs/src/aper/decode/decode_charstrings.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index f00cdc2..adbf941 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -75,6 +75,11 @@ fn decode_string(
     } else {
         decode_length_determinent(data, lb, ub, false)?
     };
+    if length >= 16384 && (is_extended || ub.map_or(true, |ub| ub >= 65_536)) {
+        return Err(AperCodecError::new(
+            "Decode of fragmented character string not yet implemented",
+        ));
+    }
 
     let num_bits = 8;
     let length = length * num_bits;
-- 
2.43.0


From e156a98ca22b1deadc810146faf43349731ac97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 13/54] fix: length_in_bytes of an empty buffer is 0 instead of
 a panic

---
 codecs/src/aper/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 1a9ad9b..f484de9 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -380,7 +380,7 @@ impl AperCodecData {
     /// Get the length of the data in bytes
     /// This is useful when encoding an open type.
     pub fn length_in_bytes(&self) -> usize {
-        ((self.bits.len() - 1) / 8) + 1
+        (self.bits.len() + 7) / 8
     }
 
     /// Append one encoding to another preserving byte alignment.
-- 
2.43.0


From 944e991a6bcdc6bdf4bc050f093f4e5eaa189791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:43 +0000
Subject: [PATCH 14/54] fix: strings of variable size are octet-aligned however
 short they are (X.691 15, 16, 27.5.7)

---
 codecs/src/aper/decode/decode_charstrings.rs | 2 +-
 codecs/src/aper/decode/mod.rs                | 4 ++--
 codecs/src/aper/encode/mod.rs                | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index adbf941..7387376 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -83,7 +83,7 @@ fn decode_string(
 
     let num_bits = 8;
     let length = length * num_bits;
-    if length > 16 {
+    if length > 16 || (length > 0 && lb != ub && ub != Some(1)) {
         data.decode_align()?;
     }
     let bits = data.get_bitvec(length)?;
diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 14cd750..3791085 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -219,7 +219,7 @@ pub fn decode_bitstring(
         };
 
         if length > 0 {
-            if length > 16 {
+            if length > 16 || lb != ub {
                 let _ = data.decode_align()?;
             }
             bv.extend(data.get_bitvec(length)?);
@@ -269,7 +269,7 @@ pub fn decode_octetstring(
         };
 
         if length > 0 {
-            if length > 2 {
+            if length > 2 || lb != ub {
                 let _ = data.decode_align()?;
             }
             octets.extend(data.get_bytes(length)?);
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 736338f..330f9a6 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -199,7 +199,7 @@ pub fn encode_bitstring(
 
     encode_length_determinent(data, lb, ub, false, length)?;
     if length > 0 {
-        if length > 16 {
+        if length > 16 || lb != ub {
             data.align();
         }
         data.append_bits(bit_string);
@@ -248,7 +248,7 @@ pub fn encode_octetstring(
     encode_length_determinent(data, lb, ub, false, length)?;
 
     if length > 0 {
-        if length > 2 {
+        if length > 2 || lb != ub {
             data.align();
         }
         data.append_bits(octet_string.view_bits());
@@ -331,7 +331,7 @@ fn encode_string(
         data.encode_bool(extended);
     }
     encode_length_determinent(data, lb, ub, false, value.len())?;
-    if value.len() > 2 {
+    if value.len() > 2 || (value.len() > 0 && lb != ub && ub != Some(1)) {
         data.align();
     }
     data.append_bits(value.as_bits());
-- 
2.43.0


From 160439d0e783b75a2f410426f5859ad8f67f2526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:28 +0000
Subject: [PATCH 15/54] fix: UTF8String is encoded with a general length
 whatever its constraints (X.691 27.6)

---
 codecs/src/aper/decode/decode_charstrings.rs | 3 ++-
 codecs/src/aper/encode/mod.rs                | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 7387376..cd5fb80 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -55,7 +55,8 @@ pub fn decode_utf8_string(
         ub,
         is_extensible
     );
-    decode_string(data, lb, ub, is_extensible)
+    // Constraints of a UTF8String are not PER-visible (X.691 9.3.20, 27.6): always a general length.
+    decode_string(data, None, None, false)
 }
 
 fn decode_string(
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 330f9a6..ab519d5 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -400,7 +400,8 @@ pub fn encode_utf8_string(
         extended
     );
 
-    encode_string(data, lb, ub, is_extensible, value, extended)
+    // Constraints of a UTF8String are not PER-visible (X.691 9.3.20, 27.6): always a general length.
+    encode_string(data, None, None, false, value, extended)
 }
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 305cf2e22dcc1abf616000961c2052c8e4731d87 Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Wed, 18 Nov 2026 21:14:19 +0000
Subject: [PATCH 16/54] fix: a decoded INTEGER that does not fit its field is
 an error, not truncated

---
 codecs_derive/src/aper/integer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/integer.rs b/codecs_derive/src/aper/integer.rs
index 8dc44d9..0eb0b02 100644
--- a/codecs_derive/src/aper/integer.rs
+++ b/codecs_derive/src/aper/integer.rs
@@ -43,7 +43,10 @@ pub(super) fn generate_aper_codec_for_asn_integer(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_integer(data, #lb, #ub, #ext)?;
-                Ok(Self(decoded.0 as #ty))
+                match <#ty as core::convert::TryFrom<i128>>::try_from(decoded.0) {
+                    Ok(value) => Ok(Self(value)),
+                    Err(_) => Err(asn1_codecs::aper::AperCodecError::new(format!("Value {} does not fit in {}", decoded.0, stringify!(#ty)))),
+                }
             }
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
-- 
2.43.0


From 47dae773ed0c27636869e65d778528e267e9bc89 Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Wed, 18 Nov 2026 21:14:19 +0000
Subject: [PATCH 17/54] fix: an ENUMERATED addition is not decoded as the root
 value of the same index

---
 codecs_derive/src/aper/enumerated.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/enumerated.rs b/codecs_derive/src/aper/enumerated.rs
index 80b26d9..c6858ab 100644
--- a/codecs_derive/src/aper/enumerated.rs
+++ b/codecs_derive/src/aper/enumerated.rs
@@ -44,7 +44,13 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
 
                 let decoded = asn1_codecs::aper::decode::decode_enumerated(data, #lb, #ub, #ext)?;
 
-                Ok(Self(decoded.0 as #ty))
+                if decoded.1 {
+                    return Err(asn1_codecs::aper::AperCodecError::new("ENUMERATED Additions not supported yet."));
+                }
+                match <#ty as core::convert::TryFrom<i128>>::try_from(decoded.0) {
+                    Ok(value) => Ok(Self(value)),
+                    Err(_) => Err(asn1_codecs::aper::AperCodecError::new(format!("Value {} does not fit in {}", decoded.0, stringify!(#ty)))),
+                }
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
-- 
2.43.0


From 313d7fec0ba66eabd465e555e379c308e609abca Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Wed, 18 Nov 2026 21:14:19 +0000
Subject: [PATCH 18/54] fix: SEQUENCE OF: empty lists, extensible sizes and
 sizes out of bounds (X.691 20)

---
 codecs_derive/src/aper/seqof.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index 8d5049c..307782c 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -34,6 +34,7 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
     }
 
     let (sz_lb, sz_ub, sz_ext) = utils::get_sz_bounds_extensible_from_params(params);
+    let sz_is_general = params.sz_ub.as_ref().map_or(true, |ub| ub.value().parse::<i128>().unwrap() >= 65_536);
 
     let tokens = quote! {
 
@@ -43,16 +44,21 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext)?;
+                let extended = if #sz_ext { asn1_codecs::aper::decode::decode_bool(data)? } else { false };
+                let length = if extended {
+                    asn1_codecs::aper::decode::decode_length_determinent(data, None, None, false)?
+                } else {
+                    asn1_codecs::aper::decode::decode_length_determinent(data, #sz_lb, #sz_ub, false)?
+                };
+                if length >= 16384 && (extended || #sz_is_general) {
+                    return Err(asn1_codecs::aper::AperCodecError::new("Decode of fragmented SEQUENCE OF not yet implemented"));
+                }
 
-                let mut items = vec![];
+                let mut items = Vec::new();
                 let mut count = 0;
-                loop {
+                while count < length {
                     items.push(#ty::decode(data)?);
                     count += 1;
-                    if count == length {
-                        break;
-                    }
                 }
 
                 Ok(Self(items))
@@ -61,7 +67,10 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn encode(&self, data:&mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
-                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext, self.0.len());
+                if #sz_ext {
+                    asn1_codecs::aper::encode::encode_bool(data, false)?;
+                }
+                asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, false, self.0.len())?;
 
                 for elem in &self.0 {
                     let _ = elem.encode(data)?;
-- 
2.43.0


From 8cfa19f7ee961b6b292486579222104e580ec022 Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Wed, 18 Nov 2026 21:14:19 +0000
Subject: [PATCH 19/54] fix: an empty open type is encoded as one zero octet
 (X.691 11.1, 11.2)

---
 codecs_derive/src/aper/open.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 8205f6a..655391d 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -22,6 +22,9 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
                 let _ = match self {
                     #(#variant_encode_tokens)*
                 };
+                if inner.length_in_bytes() == 0 {
+                    asn1_codecs::aper::encode::encode_bool(&mut inner, false)?;
+                }
                 let length = inner.length_in_bytes();
                 let _ = asn1_codecs::aper::encode::encode_length_determinent(data, None, None, false, length)?;
                 data.append_aligned(&mut inner);
-- 
2.43.0


From 0563f63ea4a80f7b0183cfb96fc1e277f546cc39 Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Wed, 18 Nov 2026 21:14:19 +0000
Subject: [PATCH 20/54] fix: an open type is decoded from its own octets, all
 of which are consumed (X.691 11.2)

---
 codecs_derive/src/aper/open.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 655391d..a4a9677 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -43,9 +43,9 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, None, None, false)?;
+                let contents = asn1_codecs::aper::decode::decode_octetstring(data, None, None, false)?;
 
-                log::trace!("open type: decoded length: {}", length);
+                log::trace!("open type: decoded length: {}", contents.len());
 
                 if data.get_key().is_none() {
                     return Err(asn1_codecs::aper::AperCodecError::new("Decoding OPEN Type, but `key` is not determined!"));
@@ -53,6 +53,10 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
 
                 let key = data.get_key().unwrap();
 
+                let mut contents = asn1_codecs::aper::AperCodecData::from_slice(&contents);
+                let data = &mut contents;
+                data.set_key(key);
+
                 match key {
                     #(#variant_decode_tokens)*
                     _ => Err(asn1_codecs::aper::AperCodecError::new(format!("Key {} Not Found", key).as_str()))
-- 
2.43.0


From 8d42c423bf4a06e8903f26f25694fe33b9100aff Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Wed, 18 Nov 2026 21:14:19 +0000
Subject: [PATCH 21/54] fix: the extension additions of a SEQUENCE are skipped,
 not left to be decoded as what follows

---
 codecs/src/aper/decode/mod.rs | 26 ++++++++++++++++++++++++++
 codecs_derive/src/aper/seq.rs |  8 ++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 3791085..0d4c6b8 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -74,6 +74,32 @@ pub fn decode_sequence_header(
     Ok((bitmap, extended))
 }
 
+/// Skip the extension additions of a SEQUENCE
+///
+/// When the extension bit of a SEQUENCE is set, its root is followed by a bitmap of the additions
+/// that are present and one open type for each of them (X.691 19.7 to 19.9).
+pub fn decode_sequence_additions(data: &mut AperCodecData) -> Result<(), AperCodecError> {
+    log::debug!("decode_sequence_additions:");
+
+    let count = decode_length_determinent(data, None, None, true)?;
+    if count >= 16384 {
+        return Err(AperCodecError::new(
+            "Decode of a fragmented extension bitmap not yet implemented",
+        ));
+    }
+    let (bitmap, _) = decode_sequence_header(data, false, count)?;
+    let mut index = 0;
+    while index < count {
+        if bitmap[index] {
+            let _ = decode_octetstring(data, None, None, false)?;
+        }
+        index += 1;
+    }
+
+    data.dump();
+    Ok(())
+}
+
 /// Decode an Integer
 ///
 /// Given an Integer Specification with PER Visible Constraints, decode an Integer Value to obtain
diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 896c83e..7d9e3d9 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -30,8 +30,12 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let (bitmap, _extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
-                Ok(Self{#(#fld_decode_tokens)*})
+                let (bitmap, extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
+                let value = Self{#(#fld_decode_tokens)*};
+                if extensions_present {
+                    asn1_codecs::aper::decode::decode_sequence_additions(data)?;
+                }
+                Ok(value)
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
-- 
2.43.0


From b3ddc83e7516899a56ba3d3b7539a50d26734e41 Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Wed, 18 Nov 2026 21:14:52 +0000
Subject: [PATCH 22/54] fix: an open type is decoded by the key of its own
 SEQUENCE, not that of a nested one

---
 codecs_derive/src/aper/seq.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 7d9e3d9..4e2d5a7 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -31,6 +31,8 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let (bitmap, extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
+                #[allow(unused_variables, unused_mut, unused_assignments)]
+                let mut key = 0i128;
                 let value = Self{#(#fld_decode_tokens)*};
                 if extensions_present {
                     asn1_codecs::aper::decode::decode_sequence_additions(data)?;
@@ -71,6 +73,9 @@ fn generate_seq_field_codec_tokens_using_attrs(
     let mut encode_tokens = vec![];
     let mut hdr_encode_tokens = vec![];
 
+    // Fields decoded after a key field may have key fields of their own.
+    let mut set_key = quote! {};
+
     let mut errors: Vec<syn::Error> = vec![];
     if let syn::Data::Struct(ref data) = ast.data {
         if let syn::Fields::Named(ref fields) = data.fields {
@@ -106,6 +111,7 @@ fn generate_seq_field_codec_tokens_using_attrs(
                                             {
                                             let present = bitmap[#optidx];
                                             if present {
+                                                #set_key
                                                 Some(#ty_ident::decode(data)?)
                                             } else {
                                                 None
@@ -125,14 +131,17 @@ fn generate_seq_field_codec_tokens_using_attrs(
                                 if !is_key_field {
                                     quote! {
                                         {
+                                        #set_key
                                         #ty_ident::decode(data)?
                                         }
                                     }
                                 } else {
+                                    set_key = quote! { data.set_key(key); };
                                     quote! {
                                         {
                                         let value = #ty_ident::decode(data)?;
-                                        let _ = data.set_key(value.0 as i128);
+                                        key = value.0 as i128;
+                                        let _ = data.set_key(key);
                                         value
                                         }
                                     }
-- 
2.43.0


From 03d5c2c797fa6fc15ca0cf333f2867e6677e4d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:29 +0000
Subject: [PATCH 23/54] fix: an empty ASN.1 input is no tokens, not a panic

---
 asn-compiler/src/tokenizer/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 2164273..c7a0289 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -814,7 +814,7 @@ where
     let mut column = 0_usize;
     let mut processed = 0;
     let total_read = chars.len();
-    loop {
+    while processed < total_read {
         let c = chars[processed];
         match c {
             ' ' | '\t' => {
@@ -925,9 +925,6 @@ where
                 );
             }
         }
-        if processed == total_read {
-            break;
-        }
     }
     Ok(tokens)
 }
-- 
2.43.0


From e26091092472f9cb27ce79aa7f2cb56c286527ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:29 +0000
Subject: [PATCH 24/54] fix: a character no token starts with is an error, not
 a panic

---
 asn-compiler/src/tokenizer/mod.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index c7a0289..6f59155 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -918,12 +918,7 @@ where
             '\u{feff}' => {
                 processed += 1;
             }
-            _ => {
-                panic!(
-                    "Unsupported First character for a token: '{:?}'. Line: {}, Column: {}",
-                    chars[processed], line, column
-                );
-            }
+            _ => return Err(Error::TokenizeError(22, line, column)),
         }
     }
     Ok(tokens)
-- 
2.43.0


From e026550c0ad74f2d48820cde33187c62951ed93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:29 +0000
Subject: [PATCH 25/54] fix: carriage return, vertical tab and form feed are
 white space

---
 asn-compiler/src/tokenizer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 6f59155..96d1442 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -817,7 +817,7 @@ where
     while processed < total_read {
         let c = chars[processed];
         match c {
-            ' ' | '\t' => {
+            ' ' | '\t' | '\r' | '\x0b' | '\x0c' => {
                 processed += 1;
                 column += 1;
             }
-- 
2.43.0


From 77dc8204d3abd20547e172a569f5bb90fceb3405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:29 +0000
Subject: [PATCH 26/54] fix: an input that cannot be read, or is not UTF-8, is
 an error, not a panic

---
 asn-compiler/src/tokenizer/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 96d1442..442d9e5 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -808,8 +808,13 @@ where
     let mut line = 1;
     let mut tokens: Vec<Token> = Vec::new();
     let mut buffer = Vec::new();
-    let _ = input.read_to_end(&mut buffer).unwrap();
-    let buffer = String::from_utf8(buffer).unwrap();
+    if input.read_to_end(&mut buffer).is_err() {
+        return Err(Error::TokenizeError(23, line, 0));
+    }
+    let buffer = match String::from_utf8(buffer) {
+        Ok(text) => text,
+        Err(_) => return Err(Error::TokenizeError(24, line, 0)),
+    };
     let chars: Vec<char> = buffer.chars().collect();
     let mut column = 0_usize;
     let mut processed = 0;
-- 
2.43.0


From cefb7bf32436b5592a3933d7ba0605af519fe5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:29 +0000
Subject: [PATCH 27/54] fix: a square bracket at the end of the input does not
 panic

---
 asn-compiler/src/tokenizer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 442d9e5..fd59643 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -690,12 +690,12 @@ fn get_seq_extension_or_square_brackets_token(
     begin: usize,
 ) -> Result<(Token, usize), Error> {
     let (token_type, consumed) = if chars[0] == '[' {
-        if chars[1] == '[' {
+        if chars.len() > 1 && chars[1] == '[' {
             (TokenType::AdditionGroupsBegin, 2)
         } else {
             (TokenType::SquareBegin, 1)
         }
-    } else if chars[1] == ']' {
+    } else if chars.len() > 1 && chars[1] == ']' {
         (TokenType::AdditionGroupsEnd, 2)
     } else {
         (TokenType::SquareEnd, 1)
-- 
2.43.0


From bd8bcba32c8b644c0b530c72bdd88d5c241acd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:29 +0000
Subject: [PATCH 28/54] fix: a '-' with no digit after it is an error, and only
 ASCII digits make a number

---
 asn-compiler/src/tokenizer/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index fd59643..8a3a3e7 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -524,13 +524,18 @@ fn get_number_token(chars: &[char], line: usize, begin: usize) -> Result<(Token,
     }
 
     let mut consumed = neg;
-    let last = chars[neg..].iter().position(|&x| !x.is_numeric());
+    let last = chars[neg..].iter().position(|&x| !x.is_ascii_digit());
     if let Some(lst) = last {
         consumed += lst;
     } else {
         consumed += chars[neg..].len();
     }
 
+    // Free standing '-' this is an error.
+    if consumed == neg {
+        return Err(Error::TokenizeError(14, line, begin));
+    }
+
     Ok((
         Token {
             r#type: TokenType::NumberInt,
@@ -753,7 +758,7 @@ fn get_maybe_comment_token(
     line: usize,
     begin: usize,
 ) -> Result<(Option<Token>, usize), Error> {
-    if chars[1] != '-' {
+    if chars.len() < 2 || chars[1] != '-' {
         return Ok((None, 0));
     }
     let mut consumed = 2; // initial "--"
-- 
2.43.0


From 78a2ad649269f989209e4f3ea02d9906ed4655a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 29/54] fix: PLUS-INFINITY is the keyword, not Plus-Infinity

---
 asn-compiler/src/tokenizer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 8a3a3e7..dbaf345 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -65,7 +65,7 @@ const KEYWORDS: &[&str] = &[
     "OPTIONAL",
     "PATTERN",
     "PDV",
-    "Plus-Infinity",
+    "PLUS-INFINITY",
     "PRESENT",
     "PrintableString",
     "PRIVATE",
-- 
2.43.0


From f8cf2d4d9db68d7b353ab2c3ab297c81275b599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:35 +0000
Subject: [PATCH 30/54] fix: parsing a list whose next token is unexpected ends
 in an error, not in an endless loop

---
 .../src/parser/asn/types/constructed/choice.rs         | 10 ++++++++++
 asn-compiler/src/parser/asn/types/constructed/seq.rs   |  5 +++++
 asn-compiler/src/parser/asn/types/int.rs               |  5 +++++
 asn-compiler/src/parser/asn/types/ioc.rs               |  5 +++++
 4 files changed, 25 insertions(+)

diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index 83ca10f..c56ae45 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -32,6 +32,7 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
     let mut no_ver_additions_components = vec![];
     let mut extension_markers = 0;
     loop {
+        let begin = consumed;
         let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
             Ok(result) => (Some(result.0), result.1),
             Err(_) => (None, 0),
@@ -84,6 +85,10 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
             consumed += 1;
             break;
         }
+
+        if consumed == begin {
+            return Err(unexpected_token!("'}'", tokens[consumed]));
+        }
     }
 
     let additions = if extension_markers > 0 {
@@ -130,6 +135,7 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
 
     let mut components = vec![];
     loop {
+        let begin = consumed;
         let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
             Ok(result) => (Some(result.0), result.1),
             Err(_) => (None, 0),
@@ -148,6 +154,10 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
             consumed += 1;
             break;
         }
+
+        if consumed == begin {
+            return Err(unexpected_token!("']]'", tokens[consumed]));
+        }
     }
     if components.is_empty() {
         Err(parse_error!("Additional Components cannot be empty!"))
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index 6b2b6ec..bf34802 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -43,6 +43,7 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
     let mut additions = vec![];
     let mut ext_marker_found = 0;
     loop {
+        let begin = consumed;
         let (component, component_consumed) = match parse_seq_component(&tokens[consumed..]) {
             Ok(result) => result,
             Err(_) => (None, 0),
@@ -83,6 +84,10 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
             consumed += 1;
             break;
         }
+
+        if consumed == begin {
+            return Err(unexpected_token!("'}'", tokens[consumed]));
+        }
     }
 
     let extensible = ext_marker_found > 0;
diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index 470acae..635e7b0 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -194,6 +194,7 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
 
     let mut params = vec![];
     loop {
+        let begin = consumed;
         if expect_token(&tokens[consumed..], Token::is_curly_begin)? {
             consumed += 1;
             let param = if expect_one_of_tokens(
@@ -229,6 +230,10 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
             consumed += 1;
             break;
         }
+
+        if consumed == begin {
+            return Err(unexpected_token!("'}'", tokens[consumed]));
+        }
     }
     Ok((params, consumed))
 }
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index d81941c..75e3d62 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -314,6 +314,7 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
     let mut additional_elements = vec![];
     let mut extension_token_count = 0;
     loop {
+        let begin = consumed;
         if expect_token(&tokens[consumed..], Token::is_extension)? {
             extension_token_count += 1;
             if extension_token_count > 1 {
@@ -371,6 +372,10 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
             consumed += 1;
             break;
         }
+
+        if consumed == begin {
+            return Err(unexpected_token!("'}'", tokens[consumed]));
+        }
     }
     Ok((
         ObjectSet {
-- 
2.43.0


From f7c39bd07b903ed79230cadb100284dc7fa5349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:35 +0000
Subject: [PATCH 31/54] fix: OCTET and CHARACTER have to be followed by STRING

---
 asn-compiler/src/parser/asn/types/int.rs | 26 +++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index 635e7b0..d2ef9b8 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -43,14 +43,26 @@ pub(crate) fn parse_type(tokens: &[Token]) -> Result<(Asn1Type, usize), Error> {
             )
         }
 
-        "OCTET" => (Asn1TypeKind::Builtin(Asn1BuiltinType::OctetString), 2),
+        "OCTET" => {
+            if !expect_keywords(&tokens[consumed..], &["OCTET", "STRING"])? {
+                return Err(unexpected_token!("'STRING'", tokens[consumed + 1]));
+            }
 
-        "CHARACTER" => (
-            Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString {
-                str_type: "CHARACTER-STRING".to_string(),
-            }),
-            2,
-        ),
+            (Asn1TypeKind::Builtin(Asn1BuiltinType::OctetString), 2)
+        }
+
+        "CHARACTER" => {
+            if !expect_keywords(&tokens[consumed..], &["CHARACTER", "STRING"])? {
+                return Err(unexpected_token!("'STRING'", tokens[consumed + 1]));
+            }
+
+            (
+                Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString {
+                    str_type: "CHARACTER-STRING".to_string(),
+                }),
+                2,
+            )
+        }
 
         "ENUMERATED" => {
             let (enum_type, enum_type_consumed) = parse_enumerated_type(tokens)?;
-- 
2.43.0


From c272e59935e7890d843a0909703fcc9265246e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:35 +0000
Subject: [PATCH 32/54] fix: the '..' of a range is required after '<' as well

---
 asn-compiler/src/parser/asn/types/constraints.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn-compiler/src/parser/asn/types/constraints.rs b/asn-compiler/src/parser/asn/types/constraints.rs
index 2721b08..109944a 100644
--- a/asn-compiler/src/parser/asn/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/types/constraints.rs
@@ -306,6 +306,9 @@ fn parse_range_elements(tokens: &[Token]) -> Result<(SubtypeElements, usize), Er
     } else {
         true
     };
+    if !expect_token(&tokens[consumed..], Token::is_range_separator)? {
+        return Err(unexpected_token!("'..'", tokens[consumed]));
+    }
     consumed += 1; // The '..' Token
 
     let upper_inclusive = if expect_token(&tokens[consumed..], Token::is_less_than)? {
-- 
2.43.0


From b6b27aaddaad4f94e72a0821e4f6db9e5810f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:10 +0000
Subject: [PATCH 33/54] fix: the upper bound of values and ranges is the
 greatest of them

---
 asn-compiler/src/resolver/asn/structs/types/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 78ddae2..9f50ffd 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -44,7 +44,7 @@ impl ConstraintValues {
             None => ranges_max,
             Some(vals_max) => match ranges_max {
                 None => Some(*vals_max),
-                Some(rnges_max) => Some(std::cmp::min(rnges_max, *vals_max)), // FIXME: This should be std::cmp::max?
+                Some(rnges_max) => Some(std::cmp::max(rnges_max, *vals_max)),
             },
         }
     }
-- 
2.43.0


From c5f35ba24fd73d666fe4dbdadd17f427f4e0db24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:28 +0000
Subject: [PATCH 34/54] fix: the intersection of two constraints is what both
 of them allow

---
 .../resolver/asn/structs/types/constraints.rs | 37 ++++++++++++++++++-
 .../src/resolver/asn/types/constraints.rs     | 18 +++------
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 9f50ffd..c8ac3b0 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -21,8 +21,41 @@ impl ConstraintValues {
         self.values.extend(other.values.clone());
     }
 
-    pub(crate) fn is_empty(&self) -> bool {
-        self.values.is_empty() && self.ranges.is_empty()
+    pub(crate) fn contains(&self, value: i128) -> bool {
+        if self.values.contains(&value) {
+            return true;
+        }
+        for range in &self.ranges {
+            if range.start <= value && value < range.end {
+                return true;
+            }
+        }
+        false
+    }
+
+    // The values and ranges that are in `self` and in `other`.
+    pub(crate) fn intersection(&self, other: &Self) -> Self {
+        let mut result = ConstraintValues::new();
+        for value in &self.values {
+            if other.contains(*value) {
+                result.values.push(*value);
+            }
+        }
+        for value in &other.values {
+            if self.contains(*value) {
+                result.values.push(*value);
+            }
+        }
+        for range in &self.ranges {
+            for other_range in &other.ranges {
+                let start = std::cmp::max(range.start, other_range.start);
+                let end = std::cmp::min(range.end, other_range.end);
+                if start < end {
+                    result.ranges.push(Range { start, end });
+                }
+            }
+        }
+        result
     }
 
     pub(crate) fn min(&self) -> Option<i128> {
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 732986a..b6ccede 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -238,22 +238,14 @@ impl IntersectionSet {
 
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
         let mut value_set = ConstraintValues::new();
+        let mut first = true;
         for element in &self.elements {
             let element_set = element.get_integer_valueset(resolver)?;
-            if value_set.is_empty() {
-                // If Empty Set, it's okay to union, but not otherwise
-                value_set.append(&element_set);
+            if first {
+                value_set = element_set;
+                first = false;
             } else {
-                value_set.values = value_set
-                    .values
-                    .into_iter()
-                    .filter(|e| element_set.values.contains(e))
-                    .collect::<Vec<i128>>();
-                value_set.ranges = value_set
-                    .ranges
-                    .into_iter()
-                    .filter(|e| element_set.ranges.contains(e))
-                    .collect::<Vec<Range<i128>>>();
+                value_set = value_set.intersection(&element_set);
             }
         }
         Ok(value_set)
-- 
2.43.0


From 57b69b7be00232f3af8f63afd2a763e3675e73ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 35/54] fix: a range without values, or whose bounds overflow,
 is an error

---
 asn-compiler/src/resolver/asn/types/constraints.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index b6ccede..c1ea9db 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -308,16 +308,22 @@ impl SubtypeElements {
                 upper_inclusive,
             } => {
                 let mut lower_value = Self::parse_or_resolve_value(lower, resolver)?;
+                let mut end_value = Self::parse_or_resolve_value(upper, resolver)?;
+                if lower_value == i128::MAX || end_value == i128::MAX {
+                    return Err(constraint_error!("The bounds of '{:#?}' are too large", self));
+                }
                 if !lower_inclusive {
                     lower_value += 1;
                 }
-                let mut upper_value = Self::parse_or_resolve_value(upper, resolver)?;
-                if !upper_inclusive {
-                    upper_value -= 1;
+                if *upper_inclusive {
+                    end_value += 1;
+                }
+                if lower_value >= end_value {
+                    return Err(constraint_error!("The range '{:#?}' has no values", self));
                 }
                 value_set.ranges.push(Range {
                     start: lower_value,
-                    end: upper_value + 1,
+                    end: end_value,
                 });
             }
             Self::SizeConstraint(ref elems) => {
-- 
2.43.0


From efb56ac16c57d2152c2611770ba7614891f3fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:59 +0000
Subject: [PATCH 36/54] fix: every constraint of an INTEGER counts, and without
 one there is an error

---
 .../resolver/asn/structs/types/constraints.rs   | 11 +++++++++++
 asn-compiler/src/resolver/asn/types/int.rs      | 17 +++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index c8ac3b0..3dc5de3 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -92,4 +92,15 @@ impl Asn1ConstraintValueSet {
     pub(crate) fn has_extension(&self) -> bool {
         self.additional_values.is_some()
     }
+
+    // What is left of the values when they have to be among the values of `parent`.
+    pub(crate) fn within(&self, parent: &ConstraintValues) -> Self {
+        Asn1ConstraintValueSet {
+            root_values: self.root_values.intersection(parent),
+            additional_values: match self.additional_values {
+                Some(ref values) => Some(values.intersection(parent)),
+                None => None,
+            },
+        }
+    }
 }
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 5195053..1598035 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -29,8 +29,21 @@ impl Asn1Type {
         let kind = &self.kind;
         match kind {
             Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(..)) => {
-                let constraint = &self.constraints.as_ref().unwrap()[0];
-                constraint.get_integer_valueset(resolver)
+                let mut result: Option<Asn1ConstraintValueSet> = None;
+                if let Some(ref constraints) = self.constraints {
+                    for constraint in constraints {
+                        let value_set = constraint.get_integer_valueset(resolver)?;
+                        result = Some(match result {
+                            // Applied to the values the constraints before it allow.
+                            Some(ref parent) => value_set.within(&parent.root_values),
+                            None => value_set,
+                        });
+                    }
+                }
+                match result {
+                    Some(value_set) => Ok(value_set),
+                    None => Err(constraint_error!("No Constraint for the Type '{:#?}'", self)),
+                }
             }
             Asn1TypeKind::Reference(Asn1TypeReference::Reference(ref _r)) => {
                 Err(constraint_error!("Not Implemented!"))
-- 
2.43.0


From faf111d9fbd4ffa9cf0a7c5ed4f5176a6eab5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:25 +0000
Subject: [PATCH 37/54] fix: the type of an INTEGER holds every value it may
 have, or there is an error

---
 .../src/resolver/asn/types/base/integer.rs    | 56 +++++++++++--------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 4ce50a3..ab05c07 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -26,38 +26,50 @@ impl Asn1ResolvedInteger {
 
         // Get the Values that are expected
         let value_set = ty.get_integer_valueset_from_constraint(resolver)?;
-        if let Some(x) = value_set.root_values.min() {
-            if x < 0 {
-                base.signed = true
-            } else {
-                base.signed = false
-            }
+        let mut values = value_set.root_values.clone();
+        if let Some(ref additional) = value_set.additional_values {
+            values.append(additional);
         }
-
-        let bit_width = if base.signed {
-            let min = value_set.root_values.min().unwrap();
-            let max = value_set.root_values.max().unwrap();
-            let bits_needed_max = 128 - max.abs().leading_zeros();
-            let bits_needed_min = 128 - min.abs().leading_zeros();
-            std::cmp::max(bits_needed_min, bits_needed_max)
-        } else if value_set.root_values.min().is_none() {
-            8_u32
-        } else {
-            let max = value_set.root_values.max().unwrap();
-            128 - max.leading_zeros()
+        let (min, max) = match (values.min(), values.max()) {
+            (Some(min), Some(max)) if value_set.root_values.min().is_some() => (min, max),
+            _ => {
+                return Err(constraint_error!(
+                    "No value satisfies the constraints of '{:#?}'",
+                    ty
+                ))
+            }
         };
 
-        base.bits = if bit_width <= 8 {
+        base.signed = min < 0;
+        base.bits = if base.signed {
+            if min >= i8::MIN as i128 && max <= i8::MAX as i128 {
+                8
+            } else if min >= i16::MIN as i128 && max <= i16::MAX as i128 {
+                16
+            } else if min >= i32::MIN as i128 && max <= i32::MAX as i128 {
+                32
+            } else if min >= i64::MIN as i128 && max <= i64::MAX as i128 {
+                64
+            } else {
+                128
+            }
+        } else if max <= u8::MAX as i128 {
             8
-        } else if bit_width <= 16 {
+        } else if max <= u16::MAX as i128 {
             16
-        } else if bit_width <= 32 {
+        } else if max <= u32::MAX as i128 {
             32
-        } else if bit_width <= 64 {
+        } else if max <= u64::MAX as i128 {
             64
         } else {
             128
         };
+        if base.bits > 64 {
+            return Err(constraint_error!(
+                "The values of '{:#?}' need more than 64 bits",
+                ty
+            ));
+        }
 
         // TODO: If we have named values, They should be added to Global list of resolved definitions.
         if i.named_values.is_some() {}
-- 
2.43.0


From 8924defc85ce958642c1ca9ed5d4fde6b59f8f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:26 +0000
Subject: [PATCH 38/54] fix: an INTEGER value that is no number is an error,
 not a panic

---
 asn-compiler/src/resolver/asn/values.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/values.rs b/asn-compiler/src/resolver/asn/values.rs
index 08914f1..404742a 100644
--- a/asn-compiler/src/resolver/asn/values.rs
+++ b/asn-compiler/src/resolver/asn/values.rs
@@ -25,7 +25,12 @@ pub(crate) fn resolve_value(
             match typeref {
                 Asn1ResolvedType::Base(ref b) => match b {
                     ResolvedBaseType::Integer(ref _i) => {
-                        let value = value.parse::<BaseInteger>().unwrap();
+                        let value = match value.parse::<BaseInteger>() {
+                            Ok(value) => value,
+                            Err(_) => {
+                                return Err(resolve_error!("'{}' is not a value of INTEGER", value))
+                            }
+                        };
                         Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Integer(
                             Asn1ResolvedIntegerValue {
                                 typeref: typeref.clone(),
-- 
2.43.0


From b16c3563ea1b1846b8947c6204b29b9f36da4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:27 +0000
Subject: [PATCH 39/54] fix: a named bit beyond 255 is an error, not a panic

---
 asn-compiler/src/resolver/asn/types/base/bitstring.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/bitstring.rs b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
index cb0f510..3fadf99 100644
--- a/asn-compiler/src/resolver/asn/types/base/bitstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
@@ -37,7 +37,12 @@ impl Asn1ResolvedBitString {
             let mut named_values = HashMap::new();
             for nb in b.named_bits.as_ref().unwrap() {
                 if let NamedValue::Number(ref v) = nb.1 {
-                    let parsed = v.parse::<u8>().unwrap(); // Let it panic if it does not fit in u8.
+                    let parsed = match v.parse::<u8>() {
+                        Ok(parsed) => parsed,
+                        Err(_) => {
+                            return Err(resolve_error!("Named bit '{}' does not fit in u8", v))
+                        }
+                    };
                     named_values.insert(nb.0.clone(), parsed);
                 }
             }
-- 
2.43.0


From 6d4ed964a170bc07b631b1017a671d4b1ce574af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:35 +0000
Subject: [PATCH 40/54] fix: a size constraint counts with all its parts and
 with the extension marker outside SIZE

---
 .../src/resolver/asn/types/constraints.rs     | 107 +++++++++++++-----
 1 file changed, 77 insertions(+), 30 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index c1ea9db..6ca3940 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -110,18 +110,15 @@ impl Asn1Constraint {
     // Returns whether the constraint is a 'size' constraint.
     pub(crate) fn is_size_constraint(&self) -> bool {
         if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() != 1 {
-                false
-            } else {
-                matches!(
-                    iset[0].elements[0],
-                    Elements::Subtype(SubtypeElements::SizeConstraint(..))
-                )
+            for iset in e.get_inner_elements() {
+                for element in &iset.elements {
+                    if let Elements::Subtype(SubtypeElements::SizeConstraint(..)) = element {
+                        return true;
+                    }
+                }
             }
-        } else {
-            false
         }
+        false
     }
 
     pub(crate) fn get_size_valueset(
@@ -129,26 +126,7 @@ impl Asn1Constraint {
         resolver: &Resolver,
     ) -> Result<Asn1ConstraintValueSet, Error> {
         if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() == 1 {
-                match iset[0].elements[0] {
-                    Elements::Subtype(ref s) => match s {
-                        SubtypeElements::SizeConstraint(ref elems) => {
-                            elems.get_integer_valueset(resolver)
-                        }
-                        _ => Err(constraint_error!(
-                            "The Constraint for the Type is not a Size Constraint."
-                        )),
-                    },
-                    _ => Err(constraint_error!(
-                        "The Constraint for the type is not a size Constraint."
-                    )),
-                }
-            } else {
-                Err(constraint_error!(
-                    "The Constraint for the type is not a size Constraint."
-                ))
-            }
+            e.get_size_valueset(resolver)
         } else {
             Err(constraint_error!(
                 "The Constraint for the type is not a size Constraint."
@@ -162,6 +140,36 @@ impl ElementSet {
         &self.root_elements.elements
     }
 
+    // The sizes that the 'size' constraints allow. An extension marker may be inside or outside
+    // of the `SIZE ( ... )`.
+    fn get_size_valueset(&self, resolver: &Resolver) -> Result<Asn1ConstraintValueSet, Error> {
+        let mut root_values = ConstraintValues::new();
+        let mut additional_values = ConstraintValues::new();
+        let mut extensible = self.additional_elements.is_some();
+        for element in self.get_inner_elements() {
+            let sizes = element.get_size_valueset(resolver)?;
+            root_values.append(&sizes.root_values);
+            if let Some(ref values) = sizes.additional_values {
+                additional_values.append(values);
+                extensible = true;
+            }
+        }
+        match root_values.min() {
+            Some(min) if min >= 0 => Ok(Asn1ConstraintValueSet {
+                root_values,
+                additional_values: if extensible {
+                    Some(additional_values)
+                } else {
+                    None
+                },
+            }),
+            _ => Err(constraint_error!(
+                "The size constraint '{:#?}' has no sizes, or negative ones",
+                self
+            )),
+        }
+    }
+
     fn get_single_string_value(&self) -> Result<String, Error> {
         let inner_elements = self.get_inner_elements();
         if inner_elements.len() == 1 {
@@ -218,6 +226,45 @@ impl ElementSet {
 }
 
 impl IntersectionSet {
+    // The sizes that all the 'size' constraints of the intersection allow.
+    fn get_size_valueset(&self, resolver: &Resolver) -> Result<Asn1ConstraintValueSet, Error> {
+        let mut result: Option<Asn1ConstraintValueSet> = None;
+        for element in &self.elements {
+            match element {
+                Elements::Subtype(SubtypeElements::SizeConstraint(ref elems)) => {
+                    let sizes = elems.get_integer_valueset(resolver)?;
+                    result = Some(match result {
+                        None => sizes,
+                        Some(ref other) => {
+                            let extensible = sizes.has_extension() || other.has_extension();
+                            Asn1ConstraintValueSet {
+                                root_values: sizes.root_values.intersection(&other.root_values),
+                                additional_values: if extensible {
+                                    Some(ConstraintValues::new())
+                                } else {
+                                    None
+                                },
+                            }
+                        }
+                    });
+                }
+                // Does not say anything about the size.
+                Elements::Subtype(SubtypeElements::PermittedAlphabet(..)) => {}
+                _ => {
+                    return Err(constraint_error!(
+                        "The Constraint for the type is not a size Constraint."
+                    ))
+                }
+            }
+        }
+        match result {
+            Some(sizes) => Ok(sizes),
+            None => Err(constraint_error!(
+                "The Constraint for the type is not a size Constraint."
+            )),
+        }
+    }
+
     fn get_single_string_value(&self) -> Result<String, Error> {
         if self.elements.len() == 1 {
             let element = &self.elements[0];
-- 
2.43.0


From ea3b40ea7dc79b4e87914449d4eedc301feed0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:36 +0000
Subject: [PATCH 41/54] fix: every size constraint of a string type counts

---
 .../src/resolver/asn/types/base/bitstring.rs  | 15 ++-------
 .../src/resolver/asn/types/base/charstring.rs |  3 +-
 .../resolver/asn/types/base/octetstring.rs    | 15 ++-------
 asn-compiler/src/resolver/asn/types/int.rs    | 31 +++++++++++++++++++
 4 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/bitstring.rs b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
index 3fadf99..ea71370 100644
--- a/asn-compiler/src/resolver/asn/types/base/bitstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
@@ -19,19 +19,8 @@ impl Asn1ResolvedBitString {
     ) -> Result<Asn1ResolvedBitString, Error> {
         let mut base = Asn1ResolvedBitString::default();
 
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    // The constraint is a 'CONTAINING' Constraint, TODO: Handle this.
-                }
-            }
-        }
+        // A 'CONTAINING' Constraint is not a size constraint, TODO: Handle it.
+        base.size = ty.get_size_valueset_from_constraints(resolver)?;
 
         if b.named_bits.is_some() {
             let mut named_values = HashMap::new();
diff --git a/asn-compiler/src/resolver/asn/types/base/charstring.rs b/asn-compiler/src/resolver/asn/types/base/charstring.rs
index 42f279b..c8e932f 100644
--- a/asn-compiler/src/resolver/asn/types/base/charstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/charstring.rs
@@ -22,8 +22,7 @@ impl Asn1ResolvedCharacterString {
                 let constraint = &constraints[0];
 
                 if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
+                    base.size = ty.get_size_valueset_from_constraints(resolver)?;
                 } else {
                     return Err(constraint_error!(
                         "Expected a Size Constraint, Found '{:#?}'",
diff --git a/asn-compiler/src/resolver/asn/types/base/octetstring.rs b/asn-compiler/src/resolver/asn/types/base/octetstring.rs
index 0ed52b6..421609e 100644
--- a/asn-compiler/src/resolver/asn/types/base/octetstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/octetstring.rs
@@ -13,19 +13,8 @@ impl Asn1ResolvedOctetString {
     ) -> Result<Asn1ResolvedOctetString, Error> {
         let mut base = Asn1ResolvedOctetString::default();
 
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    // The constraint is a 'CONTAINING' Constraint, TODO: Handle this.
-                }
-            }
-        }
+        // A 'CONTAINING' Constraint is not a size constraint, TODO: Handle it.
+        base.size = ty.get_size_valueset_from_constraints(resolver)?;
         Ok(base)
     }
 }
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 1598035..3a8c8e9 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -56,6 +56,37 @@ impl Asn1Type {
     }
 }
 
+impl Asn1Type {
+    // Returns the sizes that the 'size' constraints of the type allow, if it has any.
+    pub(crate) fn get_size_valueset_from_constraints(
+        &self,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        let mut result: Option<Asn1ConstraintValueSet> = None;
+        if let Some(ref constraints) = self.constraints {
+            for constraint in constraints {
+                if constraint.is_size_constraint() {
+                    let value_set = constraint.get_size_valueset(resolver)?;
+                    result = Some(match result {
+                        // Applied to the sizes the constraints before it allow.
+                        Some(ref parent) => value_set.within(&parent.root_values),
+                        None => value_set,
+                    });
+                }
+            }
+        }
+        if let Some(ref value_set) = result {
+            if value_set.root_values.min().is_none() {
+                return Err(constraint_error!(
+                    "No size satisfies the constraints of '{:#?}'",
+                    self
+                ));
+            }
+        }
+        Ok(result)
+    }
+}
+
 pub(crate) fn resolve_type(
     ty: &Asn1Type,
     resolver: &mut Resolver,
-- 
2.43.0


From 857bf9e5f36f4eab1c61c9bfeb36800ede61f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:02 +0000
Subject: [PATCH 42/54] fix: the items of an ENUMERATED are numbered as their
 definition says

---
 .../src/parser/asn/structs/types/base.rs      | 18 ++++
 .../src/parser/asn/structs/types/mod.rs       |  1 +
 .../src/resolver/asn/types/base/enumerated.rs | 85 ++++++++++++-------
 .../src/resolver/asn/types/constraints.rs     |  2 +-
 4 files changed, 73 insertions(+), 33 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/base.rs b/asn-compiler/src/parser/asn/structs/types/base.rs
index 50929d8..a51926c 100644
--- a/asn-compiler/src/parser/asn/structs/types/base.rs
+++ b/asn-compiler/src/parser/asn/structs/types/base.rs
@@ -25,6 +25,24 @@ pub(crate) struct Asn1TypeEnumerated {
     pub(crate) ext_values: Vec<EnumValue>,
 }
 
+impl Asn1TypeEnumerated {
+    // The values that the numbers of the items refer to.
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
+        let mut references = vec![];
+        for item in &self.root_values {
+            if let Some(NamedValue::ValueRef(ref r)) = item.value {
+                references.push(r.clone());
+            }
+        }
+        for item in &self.ext_values {
+            if let Some(NamedValue::ValueRef(ref r)) = item.value {
+                references.push(r.clone());
+            }
+        }
+        references
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1TypeBitString {
     pub(crate) named_bits: Option<Vec<(String, NamedValue)>>,
diff --git a/asn-compiler/src/parser/asn/structs/types/mod.rs b/asn-compiler/src/parser/asn/structs/types/mod.rs
index b25b26a..76feadc 100644
--- a/asn-compiler/src/parser/asn/structs/types/mod.rs
+++ b/asn-compiler/src/parser/asn/structs/types/mod.rs
@@ -36,6 +36,7 @@ pub(crate) struct Asn1Type {
 impl Asn1Type {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut kind_references = match self.kind {
+            Asn1TypeKind::Builtin(Asn1BuiltinType::Enumerated(ref e)) => e.dependent_references(),
             Asn1TypeKind::Builtin(ref _b) => vec![],
             Asn1TypeKind::Reference(ref r) => r.dependent_references(),
             Asn1TypeKind::Constructed(ref c) => c.dependent_references(),
diff --git a/asn-compiler/src/resolver/asn/types/base/enumerated.rs b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
index 33c79e5..092638b 100644
--- a/asn-compiler/src/resolver/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
@@ -1,12 +1,12 @@
 //! Functionality for handling Resolved ASN.1 ENUMERATED Types
 
 use std::collections::BTreeSet;
-use std::convert::TryInto;
 
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    base::{Asn1TypeEnumerated, NamedValue},
+    base::{Asn1TypeEnumerated, EnumValue, NamedValue},
+    constraints::SubtypeElements,
     Asn1Type,
 };
 use crate::resolver::asn::structs::types::base::Asn1ResolvedEnumerated;
@@ -16,7 +16,7 @@ impl Asn1ResolvedEnumerated {
     pub(super) fn resolve_enumerated(
         _ty: &Asn1Type,
         e: &Asn1TypeEnumerated,
-        _resolver: &Resolver,
+        resolver: &Resolver,
     ) -> Result<Asn1ResolvedEnumerated, Error> {
         let mut base = Asn1ResolvedEnumerated {
             extensible: e.ext_marker_index.is_some(),
@@ -25,47 +25,68 @@ impl Asn1ResolvedEnumerated {
 
         // FIXME: TODO Constraints
 
+        // A value of the generated type is the index of the item, when the items are sorted by
+        // their numbers.
         let mut root_values = BTreeSet::<i128>::new();
-        for v in &e.root_values {
-            let named = &v.value;
-            if let Some(NamedValue::Number(ref s)) = named {
-                let parsed = s.parse::<i128>().unwrap();
-                root_values.insert(parsed);
-            }
-        }
-        // TODO: Support all crazy Enumerations.
-        if root_values.is_empty() {
-            for (value, v) in e.root_values.iter().enumerate() {
-                base.named_root_values
-                    .push((v.name.clone(), value.try_into().unwrap()));
-                root_values.insert(value.try_into().unwrap());
+        let numbers = Self::item_numbers(&e.root_values, resolver)?;
+        for (i, v) in e.root_values.iter().enumerate() {
+            let mut index = 0_i128;
+            for number in &numbers {
+                if *number < numbers[i] {
+                    index += 1;
+                }
             }
+            base.named_root_values.push((v.name.clone(), index));
+            root_values.insert(numbers[i]);
         }
 
         let mut ext_values = BTreeSet::<i128>::new();
-        for v in &e.ext_values {
-            let named = &v.value;
-            if let Some(NamedValue::Number(ref s)) = named {
-                let parsed = s.parse::<i128>().unwrap();
-                ext_values.insert(parsed);
-            }
-        }
-        // TODO: Support all crazy Enumerations.
-        if ext_values.is_empty() {
-            for (value, v) in e.ext_values.iter().enumerate() {
-                base.named_ext_values
-                    .push((v.name.clone(), value.try_into().unwrap()));
-                ext_values.insert(value.try_into().unwrap());
-            }
+        let numbers = Self::item_numbers(&e.ext_values, resolver)?;
+        for (i, v) in e.ext_values.iter().enumerate() {
+            base.named_ext_values.push((v.name.clone(), i as i128));
+            ext_values.insert(numbers[i]);
         }
 
-        // FIXME: Following is hard-coded
         base.signed = false;
-        base.bits = 8;
+        base.bits = if e.root_values.len() <= 256 { 8 } else { 16 };
 
         let _ = base.root_values.replace(root_values);
         let _ = base.ext_values.replace(ext_values);
 
         Ok(base)
     }
+
+    // The numbers of items: those they are given, for the others the smallest that is left.
+    fn item_numbers(items: &[EnumValue], resolver: &Resolver) -> Result<Vec<i128>, Error> {
+        let mut given = vec![];
+        for item in items {
+            if let Some(NamedValue::Number(ref s)) | Some(NamedValue::ValueRef(ref s)) = item.value {
+                let number = SubtypeElements::parse_or_resolve_value(s, resolver)?;
+                if given.contains(&number) {
+                    return Err(resolve_error!("Number '{}' is given to two items", number));
+                }
+                given.push(number);
+            }
+        }
+
+        let mut numbers = vec![];
+        let mut next_given = 0;
+        let mut next = 0_i128;
+        for item in items {
+            if item.value.is_some() {
+                numbers.push(given[next_given]);
+                next_given += 1;
+            } else {
+                while next < i128::MAX && given.contains(&next) {
+                    next += 1;
+                }
+                if next == i128::MAX {
+                    return Err(resolve_error!("No number left for '{}'", item.name));
+                }
+                numbers.push(next);
+                next += 1;
+            }
+        }
+        Ok(numbers)
+    }
 }
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 6ca3940..acee1f6 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -390,7 +390,7 @@ impl SubtypeElements {
         Ok(value_set)
     }
 
-    fn parse_or_resolve_value(value: &str, resolver: &Resolver) -> Result<i128, Error> {
+    pub(crate) fn parse_or_resolve_value(value: &str, resolver: &Resolver) -> Result<i128, Error> {
         // FIXME : do the 'resolve part'
         let parsed = value.parse::<i128>();
         match parsed {
-- 
2.43.0


From de43cb33d48068774870696dc43cbf9189f9ec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:02 +0000
Subject: [PATCH 43/54] fix: a component with a DEFAULT may be absent

---
 asn-compiler/src/resolver/asn/types/constructed.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index ebf433c..d27d737 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -106,7 +106,8 @@ fn resolve_sequence_type(
         };
         let seq_component = ResolvedSeqComponent {
             component,
-            optional: c.optional,
+            // May be absent, so it takes a presence bit just like an OPTIONAL one.
+            optional: c.optional || c._default.is_some(),
             class_field_type: None,
             key_field: false,
         };
-- 
2.43.0


From cc40cfd82d8cbf41c0d7ee773fa28e62e507543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:03 +0000
Subject: [PATCH 44/54] fix: a component without the table constraint it needs
 is an error, not a panic

---
 .../src/resolver/asn/types/constructed.rs      | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index d27d737..2b469fd 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -3,6 +3,7 @@ use std::collections::BTreeMap;
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
+    constraints::Asn1Constraint,
     constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf, Component, SeqComponent},
     Asn1ConstructedType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
 };
@@ -170,8 +171,7 @@ fn resolve_sequence_classfield_components(
 
     // Get the Object Set first It's the Same Object Set for all components. So if we get the first
     // one that's good enough!
-    let ty = &all_components[0].ty;
-    let constraint = &ty.constraints.as_ref().unwrap()[0];
+    let constraint = first_constraint(&all_components[0])?;
 
     let set_reference = constraint.get_set_reference()?;
 
@@ -201,6 +201,18 @@ fn resolve_sequence_classfield_components(
     }
 }
 
+fn first_constraint(component: &Component) -> Result<&Asn1Constraint, Error> {
+    if let Some(ref constraints) = component.ty.constraints {
+        if !constraints.is_empty() {
+            return Ok(&constraints[0]);
+        }
+    }
+    Err(resolve_error!(
+        "Component '{}' has no Table Constraint",
+        component.id
+    ))
+}
+
 fn resolve_seq_components_for_objects(
     input_components: &[Component],
     set_reference: &str,
@@ -218,7 +230,7 @@ fn resolve_seq_components_for_objects(
             if let ResolvedObjectSetElement::Object(ref o) = first {
                 let spec = o.fields.get(fieldref);
                 if let Some(ResolvedFieldSpec::FixedTypeValue { typeref, .. }) = spec {
-                    let constraint = &component.ty.constraints.as_ref().unwrap()[0];
+                    let constraint = first_constraint(component)?;
                     let comp_spec = constraint.get_comp_reference();
                     let component = ResolvedComponent {
                         id: component.id.clone(),
-- 
2.43.0


From 925ac18e784bbec3ddbf049d208e2236177c5b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:52 +0000
Subject: [PATCH 45/54] fix: a definition that depends on itself is an error,
 not left out

---
 asn-compiler/src/resolver/int.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 30cbbc6..48c7f72 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -76,22 +76,14 @@ impl Resolver {
             parsed_def.resolved = true;
         }
 
-        for k in module.definitions_sorted() {
-            let parsed_def = module.get_definition_mut(&k);
-            if parsed_def.is_none() {
-                eprintln!(
-                    "Definition '{}' Not found! It's Okay for certain Dummy References",
-                    k
-                );
-                continue;
-            }
-            let parsed_def = parsed_def.unwrap();
+        // Definitions that depend on themselves are not among the sorted ones.
+        for (k, parsed_def) in module.get_definitions() {
             if !parsed_def.resolved {
-                println!(
-                    "UNRESOLVED: Definition: {} in module : {} not resolved!",
+                return Err(resolve_error!(
+                    "Definition '{}' in module '{}' depends on itself",
                     k,
                     module.get_module_name()
-                );
+                ));
             }
         }
 
-- 
2.43.0


From bf3b13e89da282f67850a5b30f28a6ede468d382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:07 +0000
Subject: [PATCH 46/54] fix: a parameterized type that expands to itself is an
 error, not a stack overflow

---
 asn-compiler/src/resolver/asn/types/int.rs | 13 +++++++++++--
 asn-compiler/src/resolver/int.rs           |  7 +++++++
 asn-compiler/src/resolver/mod.rs           |  2 +-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 3a8c8e9..4b44da8 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -12,7 +12,7 @@ use crate::resolver::{
         },
         types::{base::resolve_base_type, constructed::resolve_constructed_type},
     },
-    Resolver,
+    Resolver, MAX_DEPTH,
 };
 
 impl Asn1Type {
@@ -128,7 +128,16 @@ fn resolve_reference_type(
                 match def {
                     Some(d) => {
                         let params_resolved_type = d.clone().apply_params(params)?;
-                        resolve_type(&params_resolved_type, resolver)
+                        if resolver.depth >= MAX_DEPTH {
+                            return Err(resolve_error!(
+                                "Parameterized Type '{}' is nested too deep",
+                                typeref
+                            ));
+                        }
+                        resolver.depth += 1;
+                        let resolved = resolve_type(&params_resolved_type, resolver);
+                        resolver.depth -= 1;
+                        resolved
                     }
                     None => Err(resolve_error!(
                         "Parameterized Type for '{:#?}' Not found!",
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 48c7f72..6104e80 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -20,14 +20,21 @@ pub(crate) struct Resolver {
 
     // Object Classes: Used by Objects and Object Sets to resolves themselves.
     pub(crate) classes: HashMap<String, Asn1Definition>,
+
+    // Number of Parameterized Definitions inside of which we are resolving.
+    pub(crate) depth: usize,
 }
 
+// A Parameterized Definition that refers to itself would be expanded without end.
+pub(crate) const MAX_DEPTH: usize = 64;
+
 impl Resolver {
     pub fn new() -> Self {
         Resolver {
             resolved_defs: BTreeMap::new(),
             parameterized_defs: HashMap::new(),
             classes: HashMap::new(),
+            depth: 0,
         }
     }
 
diff --git a/asn-compiler/src/resolver/mod.rs b/asn-compiler/src/resolver/mod.rs
index c051e90..0af402f 100644
--- a/asn-compiler/src/resolver/mod.rs
+++ b/asn-compiler/src/resolver/mod.rs
@@ -1,6 +1,6 @@
 //! Resolver module
 
 mod int;
-pub(crate) use int::Resolver;
+pub(crate) use int::{Resolver, MAX_DEPTH};
 
 pub(crate) mod asn;
-- 
2.43.0


From b4c0f484090fb944ff21a4882e0871a91a4bb629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:07 +0000
Subject: [PATCH 47/54] fix: modules that import from each other are an error,
 not left out

---
 asn-compiler/src/compiler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index cd044fd..a1dfa16 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -161,6 +161,12 @@ impl Asn1Compiler {
 
     fn resolve_definitions(&mut self) -> Result<(), Error> {
         let module_names = self.sorted_modules();
+        // Modules that import from each other are not among the sorted ones.
+        for name in self.modules.keys() {
+            if !module_names.contains(name) {
+                return Err(resolve_error!("Module '{}' depends on itself", name));
+            }
+        }
         for name in module_names {
             let mut module = self.modules.get_mut(&name).unwrap();
 
-- 
2.43.0


From 2c9adc5caa85fe834b600fc3d9016ff842c726f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:43 +0000
Subject: [PATCH 48/54] fix: add_module tells whether the module is new, as
 documented

---
 asn-compiler/src/compiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index a1dfa16..96d26e4 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -55,7 +55,7 @@ impl Asn1Compiler {
     pub fn add_module(&mut self, module: Asn1Module) -> bool {
         self.modules
             .insert(module.get_module_name(), module)
-            .is_some()
+            .is_none()
     }
 
     /// Resolve Modules order and definitions within those modules.
-- 
2.43.0


From 2e8e2907da646a3954780496773626b5c4d15a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:43 +0000
Subject: [PATCH 49/54] fix: an object without an INTEGER for its unique field
 is an error, not a panic

---
 asn-compiler/src/resolver/asn/types/ioc.rs | 92 +++++++++++-----------
 1 file changed, 48 insertions(+), 44 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 975273f..a2313db 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -15,6 +15,7 @@ use crate::resolver::{
                 Asn1ResolvedObject, Asn1ResolvedObjectSet, ResolvedFieldSpec, ResolvedObjectSet,
                 ResolvedObjectSetElement,
             },
+            types::Asn1ResolvedType,
             values::Asn1ResolvedValue,
         },
         types::resolve_type,
@@ -96,31 +97,12 @@ pub(crate) fn resolve_object_set(
                                         });
                                     elements.push(element.clone());
                                     if !unique_field.is_empty() {
-                                        if let ResolvedObjectSetElement::Object(ref o) = element {
-                                            let field = o.fields.get(&unique_field);
-                                            if let ResolvedFieldSpec::FixedTypeValue {
-                                                value,
-                                                typeref,
-                                            } = field.unwrap()
-                                            {
-                                                decoder_ty.replace(typeref.clone());
-                                                let value = value.as_ref().unwrap();
-                                                if let Asn1ResolvedValue::Reference(ref s) = value {
-                                                    let v = resolver.resolved_defs.get(s).unwrap();
-
-                                                    if let Asn1ResolvedDefinition::Value(ref v) = v
-                                                    {
-                                                        // Get the actual Value - Usually this value is an
-                                                        // Integer Value. This Value is to be used by the
-                                                        // decoder.
-                                                        let v = format!(
-                                                            "{}",
-                                                            v.get_base_integer_value().unwrap()
-                                                        );
-                                                        lookup_table
-                                                            .insert((v, s.clone()), element);
-                                                    }
-                                                }
+                                        if let Some((ty, key)) =
+                                            get_unique_value(&element, &unique_field, resolver)?
+                                        {
+                                            decoder_ty.replace(ty);
+                                            if let Some(key) = key {
+                                                lookup_table.insert(key, element);
                                             }
                                         }
                                     }
@@ -142,25 +124,12 @@ pub(crate) fn resolve_object_set(
                         )?);
                         elements.push(element.clone());
                         if !unique_field.is_empty() {
-                            if let ResolvedObjectSetElement::Object(ref o) = element {
-                                let field = o.fields.get(&unique_field);
-                                if let ResolvedFieldSpec::FixedTypeValue { value, typeref } =
-                                    field.unwrap()
-                                {
-                                    decoder_ty.replace(typeref.clone());
-                                    let value = value.as_ref().unwrap();
-                                    if let Asn1ResolvedValue::Reference(ref s) = value {
-                                        let v = resolver.resolved_defs.get(s).unwrap();
-
-                                        if let Asn1ResolvedDefinition::Value(ref v) = v {
-                                            // Get the actual Value - Usually this value is an
-                                            // Integer Value. This Value is to be used by the
-                                            // decoder.
-                                            let v =
-                                                format!("{}", v.get_base_integer_value().unwrap());
-                                            lookup_table.insert((v, s.clone()), element);
-                                        }
-                                    }
+                            if let Some((ty, key)) =
+                                get_unique_value(&element, &unique_field, resolver)?
+                            {
+                                decoder_ty.replace(ty);
+                                if let Some(key) = key {
+                                    lookup_table.insert(key, element);
                                 }
                             }
                         }
@@ -179,6 +148,41 @@ pub(crate) fn resolve_object_set(
     }
 }
 
+// The type of the unique field of an object and, if its value is a reference, the actual value
+// and the reference. The actual value is to be used by the decoder.
+fn get_unique_value(
+    element: &ResolvedObjectSetElement,
+    unique_field: &str,
+    resolver: &Resolver,
+) -> Result<Option<(Asn1ResolvedType, Option<(String, String)>)>, Error> {
+    let object = match element {
+        ResolvedObjectSetElement::Object(ref o) => o,
+        _ => return Ok(None),
+    };
+    match object.fields.get(unique_field) {
+        Some(ResolvedFieldSpec::FixedTypeValue {
+            typeref,
+            value: Some(value),
+        }) => {
+            if let Asn1ResolvedValue::Reference(ref s) = value {
+                if let Some(Asn1ResolvedDefinition::Value(ref v)) = resolver.resolved_defs.get(s) {
+                    return match v.get_base_integer_value() {
+                        Some(v) => Ok(Some((typeref.clone(), Some((format!("{}", v), s.clone()))))),
+                        None => Err(resolve_error!("Value '{}' is not an INTEGER", s)),
+                    };
+                }
+            }
+            Ok(Some((typeref.clone(), None)))
+        }
+        Some(ResolvedFieldSpec::Type { .. }) => Ok(None),
+        _ => Err(resolve_error!(
+            "Object '{}' has no value for the unique field '{}'",
+            object.name,
+            unique_field
+        )),
+    }
+}
+
 pub(crate) fn resolve_object(
     object_name: &str,
     object_value: &Asn1ObjectValue,
-- 
2.43.0


From c91842c60da1ead8832cf15f6bbd6bd9fe4e4a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:27 +0000
Subject: [PATCH 50/54] fix: the sizes of a SEQUENCE OF may refer to values
 defined after it

---
 asn-compiler/src/parser/asn/structs/types/constructed.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/constructed.rs b/asn-compiler/src/parser/asn/structs/types/constructed.rs
index 2ca0ad8..c98fc2f 100644
--- a/asn-compiler/src/parser/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constructed.rs
@@ -109,6 +109,10 @@ pub(crate) struct Asn1TypeSequenceOf {
 
 impl Asn1TypeSequenceOf {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
-        self.ty.dependent_references()
+        let mut dependencies = self.ty.dependent_references();
+        if let Some(ref size) = self.size {
+            dependencies.extend(size.dependent_references());
+        }
+        dependencies
     }
 }
-- 
2.43.0


From 2eedd003af7bb4359258bd11b915e90d95c2a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:27 +0000
Subject: [PATCH 51/54] fix: a value may refer to a value defined after it

---
 asn-compiler/src/parser/asn/structs/defs.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/structs/defs.rs b/asn-compiler/src/parser/asn/structs/defs.rs
index 32637d8..707b9a0 100644
--- a/asn-compiler/src/parser/asn/structs/defs.rs
+++ b/asn-compiler/src/parser/asn/structs/defs.rs
@@ -81,6 +81,17 @@ pub(crate) struct Asn1ValueAssignment {
     pub(crate) value: String,
 }
 
+impl Asn1ValueAssignment {
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
+        let mut references = self.typeref.dependent_references();
+        // Only a value that is not a number may be a reference to another value.
+        if self.value.parse::<i128>().is_err() {
+            references.push(self.value.clone());
+        }
+        references
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) enum Asn1AssignmentKind {
     Value(Asn1ValueAssignment),
@@ -103,7 +114,7 @@ impl Asn1AssignmentKind {
 
     pub fn dependent_references(&self) -> Vec<String> {
         match self {
-            Self::Value(ref v) => v.typeref.dependent_references(),
+            Self::Value(ref v) => v.dependent_references(),
             Self::Type(ref t) => t.typeref.dependent_references(),
             Self::Object(ref o) => vec![o.object.class.clone()],
             Self::ObjectSet(ref s) => s.dependent_references(),
-- 
2.43.0


From f76c8488e8c6c44a96b7293da409d5387468cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:27 +0000
Subject: [PATCH 52/54] fix: an object may refer to types and values defined
 after it

---
 asn-compiler/src/parser/asn/structs/defs.rs   |  2 +-
 .../src/parser/asn/structs/types/ioc.rs       | 19 ++++++++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/defs.rs b/asn-compiler/src/parser/asn/structs/defs.rs
index 707b9a0..d30150d 100644
--- a/asn-compiler/src/parser/asn/structs/defs.rs
+++ b/asn-compiler/src/parser/asn/structs/defs.rs
@@ -116,7 +116,7 @@ impl Asn1AssignmentKind {
         match self {
             Self::Value(ref v) => v.dependent_references(),
             Self::Type(ref t) => t.typeref.dependent_references(),
-            Self::Object(ref o) => vec![o.object.class.clone()],
+            Self::Object(ref o) => o.object.dependent_references(),
             Self::ObjectSet(ref s) => s.dependent_references(),
             Self::Class(ref c) => c.dependent_references(),
         }
diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index 79b5ca2..e432d73 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -118,7 +118,16 @@ impl Asn1ObjectFieldSpec {
                     vec![]
                 }
             }
-            Self::FixedTypeValue { typeref, .. } => typeref.dependent_references(),
+            Self::FixedTypeValue { typeref, value } => {
+                let mut output = typeref.dependent_references();
+                // Only a value that is not a number may be a reference to another value.
+                if let Some(ref value) = value {
+                    if value.parse::<i128>().is_err() {
+                        output.push(value.clone());
+                    }
+                }
+                output
+            }
         }
     }
 }
@@ -149,6 +158,14 @@ pub(crate) struct Asn1Object {
     pub(crate) value: Asn1ObjectValue, // For now just a string,
 }
 
+impl Asn1Object {
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
+        let mut output = vec![self.class.clone()];
+        output.extend(self.value.dependent_references());
+        output
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct ObjectSet {
     pub(crate) root_elements: Vec<ObjectSetElement>,
-- 
2.43.0


From d58f625528e4b9221861f6418f220dcf613e03dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:17 +0000
Subject: [PATCH 53/54] fix: a SEQUENCE of class fields with other components
 is refused

The other components were silently left out of the result.
---
 asn-compiler/src/resolver/asn/types/constructed.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 2b469fd..33e4ae6 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -218,6 +218,17 @@ fn resolve_seq_components_for_objects(
     set_reference: &str,
     objects: &ResolvedObjectSet,
 ) -> Result<Vec<ResolvedSeqComponent>, Error> {
+    for component in input_components {
+        match component.ty.kind {
+            Asn1TypeKind::Reference(Asn1TypeReference::ClassField { .. }) => {}
+            _ => {
+                return Err(resolve_error!(
+                    "Component '{}' is not a ClassField Reference",
+                    component.id
+                ))
+            }
+        }
+    }
     if objects.elements.is_empty() {
         return Ok(vec![]);
     }
-- 
2.43.0


From dfe235c31c404b5ddcfc7e51c277399b3d88198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:41 +0000
Subject: [PATCH 54/54] fix: a value that names another value can be used where
 an INTEGER is needed

---
 .../src/resolver/asn/types/constraints.rs     | 53 ++++++++++++-------
 asn-compiler/src/resolver/asn/types/ioc.rs    | 13 +++--
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index acee1f6..84da52c 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -8,9 +8,9 @@ use crate::parser::asn::structs::types::constraints::*;
 use crate::resolver::asn::structs::{
     defs::Asn1ResolvedDefinition,
     types::constraints::{Asn1ConstraintValueSet, ConstraintValues},
-    values::{Asn1ResolvedValue, ResolvedBaseValue},
+    values::Asn1ResolvedValue,
 };
-use crate::resolver::Resolver;
+use crate::resolver::{Resolver, MAX_DEPTH};
 
 impl Asn1Constraint {
     /// Returns 'value' `String` for the constraint
@@ -396,26 +396,41 @@ impl SubtypeElements {
         match parsed {
             Ok(x) => Ok(x),
             Err(_) => {
-                let resolved = resolver.resolved_defs.get(value);
-                match resolved {
-                    None => Err(constraint_error!(
-                        "Unable To Resolve '{}'. Not Found!",
-                        value
-                    )),
-                    Some(res) => {
-                        if let Asn1ResolvedDefinition::Value(Asn1ResolvedValue::Base(
-                            ResolvedBaseValue::Integer(ref i),
-                        )) = res
-                        {
-                            Ok(i.value)
-                        } else {
-                            Err(constraint_error!(
-                                "Resolved Value {:#?} of different type!",
-                                res
-                            ))
+                // A Value may be a reference to another Value.
+                let mut name = value;
+                for _ in 0..MAX_DEPTH {
+                    let resolved = resolver.resolved_defs.get(name);
+                    match resolved {
+                        None => {
+                            return Err(constraint_error!(
+                                "Unable To Resolve '{}'. Not Found!",
+                                name
+                            ));
+                        }
+                        Some(Asn1ResolvedDefinition::Value(Asn1ResolvedValue::Reference(
+                            ref r,
+                        ))) => {
+                            name = r;
+                        }
+                        Some(res) => {
+                            let integer = match res {
+                                Asn1ResolvedDefinition::Value(ref v) => v.get_base_integer_value(),
+                                _ => None,
+                            };
+                            return match integer {
+                                Some(i) => Ok(i),
+                                None => Err(constraint_error!(
+                                    "Resolved Value {:#?} of different type!",
+                                    res
+                                )),
+                            };
                         }
                     }
                 }
+                Err(constraint_error!(
+                    "Unable To Resolve '{}'. Too many references!",
+                    value
+                ))
             }
         }
     }
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index a2313db..ab80ba7 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -3,8 +3,9 @@ use std::collections::HashMap;
 
 use crate::error::Error;
 
-use crate::parser::asn::structs::types::ioc::{
-    Asn1ObjectFieldSpec, Asn1ObjectSet, Asn1ObjectValue, ObjectSetElement,
+use crate::parser::asn::structs::types::{
+    constraints::SubtypeElements,
+    ioc::{Asn1ObjectFieldSpec, Asn1ObjectSet, Asn1ObjectValue, ObjectSetElement},
 };
 
 use crate::resolver::{
@@ -165,11 +166,9 @@ fn get_unique_value(
             value: Some(value),
         }) => {
             if let Asn1ResolvedValue::Reference(ref s) = value {
-                if let Some(Asn1ResolvedDefinition::Value(ref v)) = resolver.resolved_defs.get(s) {
-                    return match v.get_base_integer_value() {
-                        Some(v) => Ok(Some((typeref.clone(), Some((format!("{}", v), s.clone()))))),
-                        None => Err(resolve_error!("Value '{}' is not an INTEGER", s)),
-                    };
+                if let Some(Asn1ResolvedDefinition::Value(_)) = resolver.resolved_defs.get(s) {
+                    let v = SubtypeElements::parse_or_resolve_value(s, resolver)?;
+                    return Ok(Some((typeref.clone(), Some((format!("{}", v), s.clone())))));
                 }
             }
             Ok(Some((typeref.clone(), None)))
-- 
2.43.0


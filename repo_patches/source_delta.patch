From 243ef02ff890765fcbc493e80cbb297a5620c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:35 +0000
Subject: [PATCH 01/29] fix: accept negative and typed-constant defaults on
 integer-backed fields without a setter

---
 .../bitfield/features/common/generator_helper.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 18456b3..cdd4dce 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -152,6 +152,22 @@ pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Fie
         );
     }
 
+    // Fields without a setter are written as raw storage bits, so the default
+    // has to be converted from the field type first (it may be negative or a
+    // typed constant).
+    let field_default_value_tokens = match field.spanned_data_type_token().data_type() {
+        DataType::Integer(integer_type)
+            if integer_type != IntegerType::Bool && bitfield.is_integer_backed() =>
+        {
+            let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+            let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
+            quote! {
+                (#field_default_value_tokens) as #field_data_type_tokens as #bitfield_data_type_tokens
+            }
+        },
+        _ => field_default_value_tokens,
+    };
+
     generate_setting_field_without_setter_tokens(
         bitfield,
         field,
-- 
2.43.0


From a1ab1f6a189ac2b15e6606f27ef25805b42a3441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:01 +0000
Subject: [PATCH 02/29] fix: builder of a bitfield without new functions
 compiles with setter-less fields

---
 .../generating/bitfield/features/common/generator_helper.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index cdd4dce..42097e7 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -654,8 +654,10 @@ fn generate_setting_field_without_setter_tokens(
     let bitfield_internal_value_ident_tokens =
         bitfield.bitfield_internal_value_ident_tokens(builder_caller);
     let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
-    let field_bits_tokens = get_field_bits_tokens(bitfield, field, builder_caller);
-    let field_offset_tokens = get_field_offset_tokens(bitfield, field, builder_caller);
+    // Constants are referenced by the bitfield name since these tokens may also
+    // be placed in the builder's `new` functions.
+    let field_bits_tokens = get_field_bits_tokens(bitfield, field, /* builder_caller= */ true);
+    let field_offset_tokens = get_field_offset_tokens(bitfield, field, /* builder_caller= */ true);
 
     if !bitfield.is_integer_backed() {
         if let DataType::Array {
-- 
2.43.0


From 72231d132440a73c3a3ad0333b42834abe84c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:01 +0000
Subject: [PATCH 03/29] fix: bit range bounds check no longer overflows for
 large lengths

---
 .../src/generating/bitfield/features/set_get_bit_ops_feature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 4d4badc..3d83a3c 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -475,7 +475,7 @@ impl SetGetBitOpsFeature {
         let guard_return_tokens = Self::get_guard_return_tokens(bitfield, guard_return_type);
 
         quote! {
-            if offset + length > #bitfield_data_type_bits_tokens {
+            if length > #bitfield_data_type_bits_tokens - offset {
                 #guard_return_tokens
             }
         }
-- 
2.43.0


From 76698cdbdd3a1658cec7f2a150ea928ca3441dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 04/29] fix: zero-length bit ranges of integer-backed bitfields
 no longer overflow the mask shift

---
 .../bitfield/features/set_get_bit_ops_feature.rs         | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 3d83a3c..dd119b3 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -130,7 +130,8 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_tokens
                     #check_offset_and_length_bitfield_range_tokens
-                    let range_mask = (#bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length)) << offset;
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
+                    let range_mask = mask << offset;
                     #protected_mask
                     let writable_mask = range_mask & !protected_mask;
                     #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !writable_mask) | ((value << offset) & writable_mask);
@@ -145,7 +146,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -326,7 +327,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_return_zero_tokens
                     #check_offset_and_length_bitfield_range_return_zero_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let shifted_protected_mask = (protected_mask >> offset) & mask;
                     let readable_mask = mask & !shifted_protected_mask;
@@ -341,7 +342,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
-- 
2.43.0


From 9d77ed4873c391f8ef1695207ee4f050c8a9f028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 05/29] fix: checked range setters reject values too large for
 the length, as documented

---
 .../bitfield/features/set_get_bit_ops_feature.rs      | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index dd119b3..9b4468b 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -90,6 +90,7 @@ impl SetGetBitOpsFeature {
         );
         let protected_mask =
             generate_protected_bits_mask_tokens(bitfield, ProtectionType::ReadOnly);
+        let total_bits = bitfield.spanned_data_type_token().data_type().bit_size();
 
         if bitfield.is_integer_backed() {
             quote! {
@@ -152,6 +153,9 @@ impl SetGetBitOpsFeature {
                     if range_mask & protected_mask != 0 {
                         return Err("Attempted to write to non-writable bit(s).");
                     }
+                    if value & !mask != 0 {
+                        return Err("The value is too large for the length.");
+                    }
                     #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !(mask << offset)) | ((value & mask) << offset);
                     Ok(())
                 }
@@ -239,6 +243,13 @@ impl SetGetBitOpsFeature {
                         }
                         i += 1;
                     }
+                    let mut i = length;
+                    while i < #total_bits {
+                        if (value[(i / 8) as usize] >> (i % 8)) & 1 != 0 {
+                            return Err("The value is too large for the length.");
+                        }
+                        i += 1;
+                    }
                     let mut i = 0u32;
                     while i < length {
                         let bit_val = ((value[(i / 8) as usize] >> (i % 8)) & 1) != 0;
-- 
2.43.0


From 2a1ce309682ea541461852371b5c94d795a9c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 06/29] fix: integer-backed array fields keep the bits of a
 partial last byte

---
 .../src/generating/bitfield/features/common/generator_helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 42097e7..0c2d75f 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -443,7 +443,7 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                         } = field.spanned_data_type_token().data_type()
                         {
                             let len = length as usize;
-                            let pack_len = (field.bits() as usize / 8).min(len);
+                            let pack_len = (field.bits() as usize).div_ceil(8).min(len);
                             quote! {
                                 let bits = {
                                     let __arr = bits;
-- 
2.43.0


From 032402089c78fc80f04fb84067703e82313dd3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:39 +0000
Subject: [PATCH 07/29] fix: write_bit_ops argument controls the write bit
 operations

---
 .../src/generating/bitfield/features/write_bit_ops_feature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
index 3421538..bedad8c 100644
--- a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
@@ -23,8 +23,8 @@ impl Feature for WriteBitOpsFeature {
     fn enabled(&self, bitfield: &Bitfield) -> bool {
         is_bit_ops_feature_enabled(
             bitfield,
-            bitfield.arguments().generate_bit_ops(),
-            bitfield.arguments().generate_set_get_bit_ops(),
+            bitfield.arguments().generate_write_bit_ops(),
+            bitfield.arguments().user_set_generate_write_bit_ops(),
         )
     }
 
-- 
2.43.0


From e6c5a16dc5ba4a445b86e901e633a35ce7223606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:39 +0000
Subject: [PATCH 08/29] fix: inverted getters of signed fields sign-extend like
 the plain getters

---
 .../generating/bitfield/features/invert_bit_ops_feature.rs  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 1d087d4..b570a1b 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -6,8 +6,8 @@ use crate::generating::bitfield::features::common::generator_helper::{
     BitsSource, ProtectionType,
     generate_extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens,
     generate_extract_field_bits_from_source_into_variable_tokens,
-    generate_protected_bits_mask_tokens, get_bits_or_bytes_term, get_field_unit_terms,
-    get_function_modifier_tokens,
+    generate_protected_bits_mask_tokens, generate_sign_extend_bit_operation_tokens,
+    get_bits_or_bytes_term, get_field_unit_terms, get_function_modifier_tokens,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
@@ -167,11 +167,13 @@ impl InvertBitOpsFeature {
                         /* invert_bits= */ true,
                         /* builder_caller= */ false,
                     );
+                let sign_extend_tokens = generate_sign_extend_bit_operation_tokens(field);
                 quote! {
                     #[doc = #documentation]
                     #visibility_tokens #function_modifier_tokens fn #field_inverted_ident_tokens(&self) -> #field_data_type_tokens {
                         let this = self;
                         #extract_field_bits_from_source_into_variable_tokens
+                        #sign_extend_tokens
                         #value_to_field_tokens
                     }
                 }
-- 
2.43.0


From 11789337102f4031fa04e27a9f408ce64d96a8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:25 +0000
Subject: [PATCH 09/29] fix: checked setters reject values that do not survive
 the cast to the backing integer

---
 .../features/common/generator_helper.rs       | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 0c2d75f..eb8c79b 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -268,7 +268,7 @@ pub fn generate_setting_field_from_variable_tokens(
         && !is_signed_integer
         && !is_bool_field
         && !is_array_field)
-        .then(generate_bit_size_check_tokens);
+        .then(|| generate_bit_size_check_tokens(bitfield));
 
     let extract_field_bits_into_variable_tokens =
         generate_extract_field_bits_from_source_into_variable_tokens(
@@ -352,8 +352,21 @@ fn get_value_variable_tokens(field: &Field) -> TokenStream {
 }
 
 /// Generates an overflow check for unsigned/custom fields.
-fn generate_bit_size_check_tokens() -> TokenStream {
+fn generate_bit_size_check_tokens(bitfield: &Bitfield) -> TokenStream {
+    // The value may have lost bits when it was cast to a narrower integer
+    // backing type, so it has to survive casting back as well.
+    let lossy_cast_check_tokens = bitfield.is_integer_backed().then(|| {
+        quote! {
+            #[allow(unused_assignments)]
+            let mut restored_bits = source_bits;
+            restored_bits = bits as _;
+            if restored_bits != source_bits {
+                return Err("Value is too big to fit within the field bits.");
+            }
+        }
+    });
     quote! {
+        #lossy_cast_check_tokens
         if bits > mask {
             return Err("Value is too big to fit within the field bits.");
         }
@@ -435,8 +448,9 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                     (bits_source == BitsSource::IntegerVariable && cast_bits).then(|| {
                         if matches!(field.spanned_data_type_token().data_type(), DataType::Custom) {
                             quote! {
+                                let source_bits = bits.into_bits();
                                 #[allow(clippy::unnecessary_cast)]
-                                let bits = bits.into_bits() as #bitfield_data_type_tokens;
+                                let bits = source_bits as #bitfield_data_type_tokens;
                             }
                         } else if let DataType::Array {
                             length,
@@ -459,7 +473,8 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                             }
                         } else {
                             quote! {
-                                let bits = bits as #bitfield_data_type_tokens;
+                                let source_bits = bits;
+                                let bits = source_bits as #bitfield_data_type_tokens;
                             }
                         }
                     });
-- 
2.43.0


From 5bcff9f6beb8f96d0a52bc032c451d153124c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:25 +0000
Subject: [PATCH 10/29] fix: checked setters of array fields reject bits beyond
 the field width, as documented

---
 .../features/common/generator_helper.rs       | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index eb8c79b..9139e1b 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -260,8 +260,14 @@ pub fn generate_setting_field_from_variable_tokens(
         return generate_builder_direct_setter_call_tokens(field, check_bit_size);
     }
 
-    let pre_extract_check_tokens = (!using_setter && check_bit_size && is_signed_integer)
-        .then(|| generate_signed_bit_size_check_tokens(field));
+    let pre_extract_check_tokens =
+        (!using_setter && check_bit_size && (is_signed_integer || is_array_field)).then(|| {
+            if is_array_field {
+                generate_array_bit_size_check_tokens(field)
+            } else {
+                generate_signed_bit_size_check_tokens(field)
+            }
+        });
 
     let post_extract_check_tokens = (!using_setter
         && check_bit_size
@@ -397,6 +403,29 @@ fn generate_signed_bit_size_check_tokens(field: &Field) -> TokenStream {
     }
 }
 
+/// Generates an overflow check for array fields, the array must not have bits
+/// set beyond the field's bit-width.
+fn generate_array_bit_size_check_tokens(field: &Field) -> TokenStream {
+    let field_bits = field.bits();
+    let type_bits = field.spanned_data_type_token().data_type().bit_size();
+
+    if field_bits >= type_bits {
+        return quote! {};
+    }
+
+    quote! {
+        {
+            let mut __i: u32 = #field_bits;
+            while __i < #type_bits {
+                if (bits[(__i / 8) as usize] >> (__i % 8)) & 1 != 0 {
+                    return Err("Value is too big to fit within the field bits.");
+                }
+                __i += 1;
+            }
+        }
+    }
+}
+
 /// Creates a typed suffixed integer literal matching the signed integer type of
 /// `field`.
 fn make_signed_literal(field: &Field, value: i128) -> Literal {
-- 
2.43.0


From 4e6c3d53dcbb8faf50a7a0a269612a962907eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:53 +0000
Subject: [PATCH 11/29] fix: reject array fields whose width exceeds the array

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index e2a82b1..f595d8b 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -13,6 +13,7 @@ use crate::parsing::bitfields::bits_attribute::bits_attribute_parser::BitsAttrib
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::const_expr::ConstExpr;
 use crate::parsing::common::spanned_data_type::{DataType, SpannedDataTypeToken};
+use crate::parsing::common::to_tokens::ToTokens;
 use crate::parsing::common::type_parse_error::TypeParsingError;
 use crate::parsing::common::visibility::Visibility;
 
@@ -124,6 +125,9 @@ fn parse_field_helper(
 
     if matches!(spanned_data_type_token.data_type(), DataType::Integer(..)) {
         check_default_value_fit_in_field(bits_attribute.as_ref(), bits, &spanned_data_type_token)?;
+    }
+
+    if !matches!(spanned_data_type_token.data_type(), DataType::Custom) {
         check_field_data_type_can_hold_bits(
             bits_attribute.as_ref(),
             bits,
@@ -361,7 +365,7 @@ fn check_field_data_type_can_hold_bits(
     };
 
     let field_max_bits = spanned_data_type_token.data_type().bit_size();
-    let spanned_data_type_tokens = spanned_data_type_token.get_data_type_tokens();
+    let spanned_data_type_tokens = spanned_data_type_token.to_tokens();
     if bits > field_max_bits {
         return Err(create_user_parsing_compiler_error(
             bits_attr.span().expect("Expected bits attribute for bits checking"),
-- 
2.43.0


From fd4e43d3849107904540c23f71a0033daa316a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:53 +0000
Subject: [PATCH 12/29] fix: array fields longer than 16 bytes no longer
 overflow the shift in integer-backed bitfields

---
 .../src/generating/bitfield/features/common/generator_helper.rs | 2 +-
 .../src/generating/bitfield/features/field_getters_feature.rs   | 2 +-
 .../src/generating/bitfield/features/invert_bit_ops_feature.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 9139e1b..829b98a 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -672,7 +672,7 @@ fn generate_field_setter_call_tokens(
                         let __int_val = (#value_tokens) as u128;
                         let mut __arr = [0u8; #len];
                         let mut __i: usize = 0;
-                        while __i < #len {
+                        while __i < #len && __i < 16 {
                             __arr[__i] = ((__int_val >> (__i * 8)) & 0xFF) as u8;
                             __i += 1;
                         }
diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index 4051c24..efa6b09 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -100,7 +100,7 @@ impl FieldGettersFeature {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #len && __i < 16 {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index b570a1b..72c6083 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -202,7 +202,7 @@ impl InvertBitOpsFeature {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #len && __i < 16 {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
-- 
2.43.0


From 4456143248d27925a5559f18fb563c17bbf2a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:10 +0000
Subject: [PATCH 13/29] fix: accept negative defaults on array-backed fields
 without a setter

---
 .../bitfield/features/common/generator_helper.rs      | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 829b98a..7155879 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -156,13 +156,14 @@ pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Fie
     // has to be converted from the field type first (it may be negative or a
     // typed constant).
     let field_default_value_tokens = match field.spanned_data_type_token().data_type() {
-        DataType::Integer(integer_type)
-            if integer_type != IntegerType::Bool && bitfield.is_integer_backed() =>
-        {
+        DataType::Integer(integer_type) if integer_type != IntegerType::Bool => {
             let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
-            let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
+            let storage_cast_tokens = bitfield.is_integer_backed().then(|| {
+                let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
+                quote! { as #bitfield_data_type_tokens }
+            });
             quote! {
-                (#field_default_value_tokens) as #field_data_type_tokens as #bitfield_data_type_tokens
+                (#field_default_value_tokens) as #field_data_type_tokens #storage_cast_tokens
             }
         },
         _ => field_default_value_tokens,
-- 
2.43.0


From 13f53e77786b65f939e86c3de29490c45b6e094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:13 +0000
Subject: [PATCH 14/29] fix: literal defaults wider than 32 bits keep their
 upper bits

---
 .../features/common/generator_helper.rs       | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 7155879..a479ba9 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -143,6 +143,20 @@ pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Fie
         .expect("Expected default value when setting field defaults")
         .to_tokens();
 
+    // An integer default gets the field type first: a bare literal would be an
+    // `i32` and lose its upper bits, and a negative or typed constant can't be
+    // used as raw storage bits.
+    let is_integer_field = matches!(
+        field.spanned_data_type_token().data_type(),
+        DataType::Integer(integer_type) if integer_type != IntegerType::Bool
+    );
+    let field_default_value_tokens = if is_integer_field {
+        let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+        quote! { (#field_default_value_tokens) as #field_data_type_tokens }
+    } else {
+        field_default_value_tokens
+    };
+
     if field.has_setter() {
         return generate_field_setter_call_tokens(
             bitfield,
@@ -152,21 +166,12 @@ pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Fie
         );
     }
 
-    // Fields without a setter are written as raw storage bits, so the default
-    // has to be converted from the field type first (it may be negative or a
-    // typed constant).
-    let field_default_value_tokens = match field.spanned_data_type_token().data_type() {
-        DataType::Integer(integer_type) if integer_type != IntegerType::Bool => {
-            let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
-            let storage_cast_tokens = bitfield.is_integer_backed().then(|| {
-                let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
-                quote! { as #bitfield_data_type_tokens }
-            });
-            quote! {
-                (#field_default_value_tokens) as #field_data_type_tokens #storage_cast_tokens
-            }
-        },
-        _ => field_default_value_tokens,
+    // Fields without a setter are written as raw storage bits.
+    let field_default_value_tokens = if is_integer_field && bitfield.is_integer_backed() {
+        let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
+        quote! { #field_default_value_tokens as #bitfield_data_type_tokens }
+    } else {
+        field_default_value_tokens
     };
 
     generate_setting_field_without_setter_tokens(
-- 
2.43.0


From b1d602fe573f94755a9cf82555856cf751082177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:32 +0000
Subject: [PATCH 15/29] fix: write-only setters and ignored members keep their
 declared visibility

---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index cabf078..356ea0e 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -144,9 +144,9 @@ impl Field {
 
     /// Returns the visibility of the field.
     pub fn visibility(&self) -> Visibility {
-        let has_public_access =
-            matches!(self.access, FieldAccess::ReadWrite | FieldAccess::ReadOnly);
-        if !has_public_access {
+        // Ignored fields are plain struct members, only bitfield fields without
+        // any access are kept private.
+        if !self.ignored && matches!(self.access, FieldAccess::NoAccess) {
             return Visibility::Private;
         }
 
-- 
2.43.0


From 80ebe26bcc93877a53da48e0ef3da364c10db8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:32 +0000
Subject: [PATCH 16/29] fix: ignored members may have any type, floats, sizes
 and tuples included

---
 .../src/parsing/bitfields/bitfield_parser.rs           |  3 +--
 bitfields_impl/src/parsing/common/spanned_data_type.rs | 10 ++++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index f595d8b..019b2da 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -153,8 +153,7 @@ fn parse_field_helper(
 }
 
 fn parse_ignored_field(field_tokens: &syn::Field) -> Field {
-    let spanned_data_type_token = SpannedDataTypeToken::new(&field_tokens.ty)
-        .expect("Expected field type kind for ignored field");
+    let spanned_data_type_token = SpannedDataTypeToken::new_opaque(&field_tokens.ty);
     let name_ident = field_tokens.ident.as_ref().expect("Expected field identifier").clone();
     Field::new(
         Visibility::new(&field_tokens.vis),
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index e64e509..4edce8a 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -33,6 +33,16 @@ impl SpannedDataTypeToken {
         })
     }
 
+    /// Creates a token for a type that is only passed through to the generated
+    /// struct, so any type is allowed.
+    pub fn new_opaque(syn_type: &Type) -> Self {
+        Self {
+            data_type: DataType::Custom,
+            spanned_token: SpannedToken::new(Self::get_syn_type_string(syn_type), syn_type.span()),
+            original_type_tokens: quote! { #syn_type },
+        }
+    }
+
     /// Returns a compact string representation of a `syn::Type` (e.g.
     /// `[u8;32]`).
     fn get_syn_type_string(syn_type: &Type) -> String {
-- 
2.43.0


From de2b490be5014daf9ef02c713fca9f6afb2e02d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:51 +0000
Subject: [PATCH 17/29] fix: restricted visibilities with a path are kept

---
 bitfields_impl/src/parsing/common/visibility.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/visibility.rs b/bitfields_impl/src/parsing/common/visibility.rs
index 25a220a..90948d0 100644
--- a/bitfields_impl/src/parsing/common/visibility.rs
+++ b/bitfields_impl/src/parsing/common/visibility.rs
@@ -1,5 +1,5 @@
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote};
+use quote::quote;
 
 use crate::parsing::common::to_tokens::ToTokens;
 
@@ -22,13 +22,9 @@ impl Visibility {
         match vis {
             syn::Visibility::Public(_) => Self::Public,
             syn::Visibility::Restricted(r) => {
-                let path = r
-                    .path
-                    .segments
-                    .iter()
-                    .map(|segment| segment.ident.to_string())
-                    .collect::<String>();
-                Self::Restricted(path)
+                let in_token = &r.in_token;
+                let path = &r.path;
+                Self::Restricted(quote! { #in_token #path }.to_string())
             },
             syn::Visibility::Inherited => Self::Private,
         }
@@ -44,9 +40,10 @@ impl ToTokens for Visibility {
                 }
             },
             Self::Restricted(path) => {
-                let path_ident = format_ident!("{}", path);
+                let path_tokens: TokenStream =
+                    path.parse().expect("Expected a previously parsed visibility path");
                 quote! {
-                    pub(#path_ident)
+                    pub(#path_tokens)
                 }
             },
             Self::Private => {
-- 
2.43.0


From 32f8640ae2c5aeae4dd8cc8eed7413b426a23c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:04 +0000
Subject: [PATCH 18/29] fix: ignored members of generic, array and tuple types
 are initialised through Default

---
 .../bitfield/features/common/generator_helper.rs       | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index a479ba9..7101494 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -91,7 +91,7 @@ pub fn generate_bitfield_struct_initialization_tokens(
 ///
 /// # Example:
 ///
-/// - `player: Player:default()`
+/// - `player: <Player as ::core::default::Default>::default()`
 fn generate_ignored_fields_default_calls_token_list(bitfield: &Bitfield) -> Vec<TokenStream> {
     bitfield
         .ignored_fields()
@@ -100,14 +100,8 @@ fn generate_ignored_fields_default_calls_token_list(bitfield: &Bitfield) -> Vec<
             let field_name_tokens = field.name_tokens();
             let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
 
-            if matches!(field.spanned_data_type_token().data_type(), DataType::Integer(..)) {
-                return quote! {
-                    #field_name_tokens: <#field_data_type_tokens>::default()
-                };
-            }
-
             quote! {
-                #field_name_tokens: #field_data_type_tokens::default()
+                #field_name_tokens: <#field_data_type_tokens as ::core::default::Default>::default()
             }
         })
         .collect()
-- 
2.43.0


From c73fc603eac9987d80742690eab193ebe7ad4ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:16 +0000
Subject: [PATCH 19/29] fix: raw identifiers are accepted as field names

---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index 356ea0e..ade5302 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -1,6 +1,7 @@
 use getset::{CloneGetters, Getters};
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitfieldArguments;
 use crate::parsing::bitfields::bits_attribute::bits_arguments::{BitsArguments, FieldAccess};
@@ -48,7 +49,7 @@ impl Bitfield {
         ignored_fields: Vec<Field>,
         arguments: BitfieldArguments,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             user_attributes_tokens,
             visibility,
@@ -127,7 +128,7 @@ impl Field {
         arguments: Option<BitsArguments>,
         ignored: bool,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             visibility,
             name,
-- 
2.43.0


From d57ed32ae16815815f7efec4aa2405c3e237f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:44 +0000
Subject: [PATCH 20/29] fix: drop the helper the array width check no longer
 uses

---
 .../src/parsing/common/spanned_data_type.rs          | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index 4edce8a..575c2c9 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -134,18 +134,6 @@ impl SpannedDataTypeToken {
             _ => None,
         }
     }
-
-    /// Returns the token representation of the data type.
-    /// For array-backed types, returns `u128` as the internal backing type.
-    pub fn get_data_type_tokens(&self) -> TokenStream {
-        if matches!(self.data_type, DataType::Array { .. }) {
-            return quote! {
-                u128
-            };
-        }
-
-        self.original_type_tokens.clone()
-    }
 }
 
 impl ToTokens for SpannedDataTypeToken {
-- 
2.43.0


From 31f99fbc1d2a0a081760963f77a359e296b95cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:11 +0000
Subject: [PATCH 21/29] fix: the most negative i128 default is accepted and
 larger magnitudes are rejected

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 019b2da..9c1a610 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -326,12 +326,7 @@ fn check_default_value_fit_in_field(
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
-        let negative_default_value = (*number as i128)
-            .checked_neg()
-            .ok_or_else(|| unreachable!("The compiler won't allow a number less than -i128 exist"))
-            .expect("Expected a negative default value for negative default value checking");
-
-        if negative_default_value < negative_bits_min_value {
+        if *number > negative_bits_min_value.unsigned_abs() {
             return Err(create_user_parsing_compiler_error(
                 default_value_expr.span(),
                 format!(
-- 
2.43.0


From 2b80e496320855350bbfd6abf7589d154fb60986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:11 +0000
Subject: [PATCH 22/29] fix: constants and hex defaults ending in f32 or f64
 are not mistaken for floats

---
 bitfields_impl/src/parsing/common/const_expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 0ab1eed..26c9a6b 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -78,7 +78,11 @@ impl ConstExpr {
     }
 
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
-        if !number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
+        // Constants, functions and hex numbers may end like a float suffix.
+        let unsigned_number_str = number_str.trim_start_matches(NEGATIVE_SIGN);
+        if unsigned_number_str.starts_with(|c: char| c.is_ascii_digit())
+            && !unsigned_number_str.starts_with(&IntegerPrefix::Hex.prefix())
+        {
             let contains_float_identifier =
                 FLOAT_IDENTIFIERS.iter().any(|&identifier| number_str.ends_with(identifier));
             if number_str.contains(FLOAT_DOT) || contains_float_identifier {
-- 
2.43.0


From adf7efabd23cbaa3a4ec7bb76e48cfb3e9c02ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:25 +0000
Subject: [PATCH 23/29] fix: default expressions that start with a prefixed
 literal no longer panic the macro

---
 bitfields_impl/src/parsing/common/const_expr.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 26c9a6b..2a3d924 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -158,7 +158,10 @@ impl ConstExpr {
                 IntegerPrefix::Hex.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Hex parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse integer literal: {err}"),
+                )),
             };
         }
 
@@ -168,7 +171,10 @@ impl ConstExpr {
                 IntegerPrefix::Binary.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Binary parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse integer literal: {err}"),
+                )),
             };
         }
 
@@ -178,7 +184,10 @@ impl ConstExpr {
                 IntegerPrefix::Octal.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Octal parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse integer literal: {err}"),
+                )),
             };
         }
 
-- 
2.43.0


From d98b81524f6f3abb3fce1cab8961d85aeedd51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:06 +0000
Subject: [PATCH 24/29] fix: long literals that the token printer wraps are
 still checked as literals

---
 bitfields_impl/src/parsing/common/const_expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 2a3d924..f7f90e8 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -59,8 +59,11 @@ impl IntegerPrefix {
 
 impl ConstExpr {
     pub fn new(spanned_token: &SpannedToken) -> syn::Result<Self> {
-        let trimmed_number_str =
-            spanned_token.token().trim().replace([' ', '_'], "").to_ascii_lowercase();
+        // The token printer may break long expressions over several lines.
+        let trimmed_number_str = spanned_token
+            .token()
+            .replace(|c: char| c.is_whitespace() || c == '_', "")
+            .to_ascii_lowercase();
 
         Self::check_float(&trimmed_number_str, spanned_token.span())?;
 
-- 
2.43.0


From 89eda14b03336dafe147918016177a16c6986a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:05 +0000
Subject: [PATCH 25/29] fix: bitflag values beyond the bitflag type are
 rejected instead of wrapping

---
 .../src/parsing/bitflags/bitflag_parser.rs    | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index da21523..6ab324e 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -8,6 +8,7 @@ use crate::parsing::bitflags::bitflag::{Bitflag, BitflagVariant};
 use crate::parsing::bitflags::bitflag_attribute_parser::BitflagAttribute;
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::const_expr::ConstExpr;
+use crate::parsing::common::spanned_data_type::DataType;
 use crate::parsing::common::spanned_token::SpannedToken;
 use crate::parsing::common::visibility::Visibility;
 
@@ -21,6 +22,7 @@ pub fn parse_bitflag_enum(args: TokenStream, input: TokenStream) -> syn::Result<
     let name_ident = enum_tokens.ident.clone();
     let variants = parse_variants(&enum_tokens.variants)?;
 
+    check_bitflag_variant_values(&bitflag_attribute, &variants)?;
     check_base_bitflag_variants(&enum_tokens, &variants)?;
 
     Ok(Bitflag::new(
@@ -84,6 +86,40 @@ fn parse_variant_helper(variant: &Variant) -> syn::Result<BitflagVariant> {
     Ok(BitflagVariant::new(user_attributes_tokens, name_ident, value, base, default))
 }
 
+/// Ensures the literal values of the variants fit in the bitflag type.
+fn check_bitflag_variant_values(
+    bitflag_attribute: &BitflagAttribute,
+    variants: &[BitflagVariant],
+) -> syn::Result<()> {
+    let spanned_data_type_token = bitflag_attribute.spanned_data_type_token();
+    let data_type = spanned_data_type_token.data_type();
+    if !matches!(data_type, DataType::Integer(..)) {
+        return Ok(());
+    }
+
+    let max_value = u128::MAX >> (u128::BITS - data_type.bit_size());
+    for variant in variants {
+        if let ConstExpr::Literal {
+            number,
+            spanned_token,
+            ..
+        } = variant.value()
+        {
+            if number > max_value {
+                return Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!(
+                        "The bitflag value '{number}' exceeds the maximum value of the bitflag \
+                         type '{spanned_data_type_token}' ({max_value}).",
+                    ),
+                ));
+            }
+        }
+    }
+
+    Ok(())
+}
+
 fn check_base_bitflag_variants(
     item_enum: &ItemEnum,
     variants: &[BitflagVariant],
-- 
2.43.0


From 6ce6308f984185a921df74b94cc5cd48ab06ede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:59 +0000
Subject: [PATCH 26/29] fix: an i128 default below i128::MIN is left to the
 compiler's literal check as before

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 9c1a610..356de6c 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -326,7 +326,8 @@ fn check_default_value_fit_in_field(
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
-        if *number > negative_bits_min_value.unsigned_abs() {
+        // A literal below `i128::MIN` is rejected by the compiler itself.
+        if bits < i128::BITS && *number > negative_bits_min_value.unsigned_abs() {
             return Err(create_user_parsing_compiler_error(
                 default_value_expr.span(),
                 format!(
-- 
2.43.0


From 0e600a73447f6b15c4956b97cb25ae8c6c56cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:07 +0000
Subject: [PATCH 27/29] fix: a default below i128::MIN is reported by the
 compiler instead of wrapping

---
 bitfields_impl/src/parsing/common/const_expr.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index f7f90e8..b76ffce 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -226,11 +226,24 @@ impl ToTokens for ConstExpr {
     fn to_tokens(&self) -> TokenStream {
         match self {
             Self::Literal {
-                spanned_token, ..
+                number,
+                negative_sign,
+                spanned_token,
             } => {
                 let expr: Expr = syn::parse_str(&spanned_token.token())
                     .expect("Failed to parse previously accepted literal expression");
-                quote! { #expr }
+                if !negative_sign || *number <= i128::MIN.unsigned_abs() {
+                    return quote! { #expr };
+                }
+
+                // No type can hold the literal. Keep the user's span so the compiler reports
+                // it, literals created by a macro aren't checked.
+                let mut expr_tokens = TokenStream::new();
+                for mut token in quote! { #expr } {
+                    token.set_span(spanned_token.span());
+                    expr_tokens.extend([token]);
+                }
+                expr_tokens
             },
             Self::Path {
                 spanned_token,
-- 
2.43.0


From 824578f7906d6b47813c29000b1fb4a1b9f37354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:46 +0000
Subject: [PATCH 28/29] fix: constant expressions that look like a literal are
 left to the compiler

---
 bitfields_impl/src/parsing/common/const_expr.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index b76ffce..32a57e3 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
-use syn::Expr;
+use syn::{Expr, UnOp};
 
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::spanned_token::SpannedToken;
@@ -59,6 +59,11 @@ impl IntegerPrefix {
 
 impl ConstExpr {
     pub fn new(spanned_token: &SpannedToken) -> syn::Result<Self> {
+        // Constants and functions may look like a literal, e.g. `_5` or `5u8.pow(2)`.
+        if !Self::is_literal(&spanned_token.token()) {
+            return Ok(Self::parse_path(spanned_token));
+        }
+
         // The token printer may break long expressions over several lines.
         let trimmed_number_str = spanned_token
             .token()
@@ -80,6 +85,16 @@ impl ConstExpr {
         Ok(Self::parse_path(spanned_token))
     }
 
+    fn is_literal(expr_str: &str) -> bool {
+        match syn::parse_str::<Expr>(expr_str) {
+            Ok(Expr::Lit(_)) => true,
+            Ok(Expr::Unary(unary)) => {
+                matches!(unary.op, UnOp::Neg(_)) && matches!(*unary.expr, Expr::Lit(_))
+            },
+            _ => false,
+        }
+    }
+
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
         // Constants, functions and hex numbers may end like a float suffix.
         let unsigned_number_str = number_str.trim_start_matches(NEGATIVE_SIGN);
-- 
2.43.0


From 5e3d47124793498665c5bf9f0473337329a41851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:02 +0000
Subject: [PATCH 29/29] fix: Default without new zeroes the fields like new
 does

---
 .../features/default_trait_feature.rs         | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
index 3efd4bd..5dbf181 100644
--- a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
@@ -2,10 +2,7 @@ use proc_macro2::TokenStream;
 use quote::quote;
 
 use crate::generating::bitfield::feature::{Feature, FeaturePosition};
-use crate::generating::bitfield::features::common::generator_helper::{
-    generate_bitfield_struct_initialization_tokens,
-    generate_setting_fields_to_default_value_tokens_list,
-};
+use crate::generating::bitfield::features::common::generator_helper::generate_new_function_implementation_tokens;
 use crate::parsing::bitfields::bitfield::Bitfield;
 
 /// Generates `Default` trait implementation.
@@ -50,16 +47,14 @@ impl DefaultTraitFeature {
                 Self::new()
             }
         } else {
-            let bitfield_struct_initialization_tokens =
-                generate_bitfield_struct_initialization_tokens(
-                    bitfield, /* builder_caller= */ false,
-                );
-            let setting_fields_to_default_value_tokens_list =
-                generate_setting_fields_to_default_value_tokens_list(bitfield);
+            // Same value as `new`, which isn't generated.
+            let new_function_implementation_tokens = generate_new_function_implementation_tokens(
+                bitfield, /* generate_setting_defaults= */ true,
+                /* builder_caller= */ false, /* existing_bitfield= */ false,
+            );
 
             quote! {
-                let mut this = #bitfield_struct_initialization_tokens;
-                #( #setting_fields_to_default_value_tokens_list )*
+                #new_function_implementation_tokens
                 this
             }
         }
-- 
2.43.0


From e92988fb990a90ae1e03554f8c9d8b537b2ff827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 01/44] fix: derive Copy through core so generated code
 compiles in no_std crates

---
 .../src/generating/bitfield/features/bitfield_struct_feature.rs | 2 +-
 bitfields_impl/src/generating/bitflag/bitflag_generator.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
index 1a99875..f88075e 100644
--- a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
@@ -87,7 +87,7 @@ impl BitfieldStructFeatureGenerator {
                 });
             } else {
                 attributes_tokens.push(quote! {
-                    #[derive(std::marker::Copy, core::clone::Clone)]
+                    #[derive(core::marker::Copy, core::clone::Clone)]
                 });
             }
         }
diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index 90afbd9..fe95e09 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -40,7 +40,7 @@ fn generate_repr_tokens(bitflag: &Bitflag) -> TokenStream {
 fn generate_copy_derive_tokens(bitflag: &Bitflag) -> TokenStream {
     if bitflag.arguments().derive_copy() {
         quote! {
-            #[derive(std::marker::Copy, core::clone::Clone)]
+            #[derive(core::marker::Copy, core::clone::Clone)]
         }
     } else {
         quote! {}
-- 
2.43.0


From f1e9d1279b8188610e51678d8f33b7127783889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 02/44] fix: make write_bit_ops switch control the write bit
 operations

---
 .../src/generating/bitfield/features/write_bit_ops_feature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
index 3421538..bedad8c 100644
--- a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
@@ -23,8 +23,8 @@ impl Feature for WriteBitOpsFeature {
     fn enabled(&self, bitfield: &Bitfield) -> bool {
         is_bit_ops_feature_enabled(
             bitfield,
-            bitfield.arguments().generate_bit_ops(),
-            bitfield.arguments().generate_set_get_bit_ops(),
+            bitfield.arguments().generate_write_bit_ops(),
+            bitfield.arguments().user_set_generate_write_bit_ops(),
         )
     }
 
-- 
2.43.0


From e136172814e096616147b6ecb074f8506123a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 03/44] fix: range bit operations no longer overflow on zero or
 huge lengths

---
 .../bitfield/features/set_get_bit_ops_feature.rs      | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 4d4badc..dd119b3 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -130,7 +130,8 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_tokens
                     #check_offset_and_length_bitfield_range_tokens
-                    let range_mask = (#bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length)) << offset;
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
+                    let range_mask = mask << offset;
                     #protected_mask
                     let writable_mask = range_mask & !protected_mask;
                     #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !writable_mask) | ((value << offset) & writable_mask);
@@ -145,7 +146,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -326,7 +327,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_return_zero_tokens
                     #check_offset_and_length_bitfield_range_return_zero_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let shifted_protected_mask = (protected_mask >> offset) & mask;
                     let readable_mask = mask & !shifted_protected_mask;
@@ -341,7 +342,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    let mask = if length == 0 { 0 } else { #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length) };
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -475,7 +476,7 @@ impl SetGetBitOpsFeature {
         let guard_return_tokens = Self::get_guard_return_tokens(bitfield, guard_return_type);
 
         quote! {
-            if offset + length > #bitfield_data_type_bits_tokens {
+            if length > #bitfield_data_type_bits_tokens - offset {
                 #guard_return_tokens
             }
         }
-- 
2.43.0


From 4b976ba710937aa95176d37daa2a74cd3600a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 04/44] fix: keep the top partial byte when setting array
 fields of integer bitfields

---
 .../src/generating/bitfield/features/common/generator_helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 18456b3..9be0e11 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -427,7 +427,7 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                         } = field.spanned_data_type_token().data_type()
                         {
                             let len = length as usize;
-                            let pack_len = (field.bits() as usize / 8).min(len);
+                            let pack_len = (field.bits() as usize).div_ceil(8).min(len);
                             quote! {
                                 let bits = {
                                     let __arr = bits;
-- 
2.43.0


From 6fc899d2aeab849b984afaf1752afa95d70e3c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:39 +0000
Subject: [PATCH 05/44] fix: reading array fields longer than 16 bytes in
 integer bitfields no longer overflows

---
 .../generating/bitfield/features/common/generator_helper.rs    | 3 ++-
 .../src/generating/bitfield/features/field_getters_feature.rs  | 3 ++-
 .../src/generating/bitfield/features/invert_bit_ops_feature.rs | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 9be0e11..501d917 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -606,13 +606,14 @@ fn generate_field_setter_call_tokens(
             length,
         } => {
             let len = length as usize;
+            let unpack_len = len.min((u128::BITS / 8) as usize);
             if bitfield.is_integer_backed() {
                 quote! {
                     #bitfield_variable_reference.#field_setter_ident_tokens({
                         let __int_val = (#value_tokens) as u128;
                         let mut __arr = [0u8; #len];
                         let mut __i: usize = 0;
-                        while __i < #len {
+                        while __i < #unpack_len {
                             __arr[__i] = ((__int_val >> (__i * 8)) & 0xFF) as u8;
                             __i += 1;
                         }
diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index 4051c24..6abe436 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -94,13 +94,14 @@ impl FieldGettersFeature {
                 length,
             } => {
                 let len = length as usize;
+                let unpack_len = len.min((u128::BITS / 8) as usize);
                 if bitfield.is_integer_backed() {
                     quote! {
                         {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #unpack_len {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 1d087d4..40faf20 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -194,13 +194,14 @@ impl InvertBitOpsFeature {
                 length,
             } => {
                 let len = length as usize;
+                let unpack_len = len.min((u128::BITS / 8) as usize);
                 if bitfield.is_integer_backed() {
                     quote! {
                         {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #unpack_len {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
-- 
2.43.0


From 68b0c5f42b64632686ad4410b2436989f4363ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:21 +0000
Subject: [PATCH 06/44] fix: checked setters reject every value that overflows
 the field

---
 .../features/common/generator_helper.rs       | 88 +++++++++++++++----
 1 file changed, 70 insertions(+), 18 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 501d917..d92ae90 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -232,11 +232,7 @@ pub fn generate_setting_field_from_variable_tokens(
 ) -> TokenStream {
     let is_signed_integer = !field.spanned_data_type_token().data_type().unsigned();
 
-    let is_bool_field =
-        matches!(field.spanned_data_type_token().data_type(), DataType::Integer(IntegerType::Bool));
-
-    let is_array_field =
-        matches!(field.spanned_data_type_token().data_type(), DataType::Array { .. });
+    let is_custom_field = matches!(field.spanned_data_type_token().data_type(), DataType::Custom);
 
     let using_setter = field.has_setter() && use_setter;
 
@@ -244,15 +240,22 @@ pub fn generate_setting_field_from_variable_tokens(
         return generate_builder_direct_setter_call_tokens(field, check_bit_size);
     }
 
-    let pre_extract_check_tokens = (!using_setter && check_bit_size && is_signed_integer)
-        .then(|| generate_signed_bit_size_check_tokens(field));
+    let checking_bit_size = !using_setter && check_bit_size;
+
+    let pre_extract_check_tokens =
+        checking_bit_size.then(|| match field.spanned_data_type_token().data_type() {
+            DataType::Integer(IntegerType::Bool) | DataType::Custom => quote! {},
+            DataType::Integer(_) if is_signed_integer => {
+                generate_signed_bit_size_check_tokens(field)
+            },
+            DataType::Integer(_) => generate_unsigned_bit_size_check_tokens(field),
+            DataType::Array {
+                length,
+            } => generate_array_bit_size_check_tokens(field, length as usize),
+        });
 
-    let post_extract_check_tokens = (!using_setter
-        && check_bit_size
-        && !is_signed_integer
-        && !is_bool_field
-        && !is_array_field)
-        .then(generate_bit_size_check_tokens);
+    let post_extract_check_tokens =
+        (checking_bit_size && is_custom_field).then(generate_custom_bit_size_check_tokens);
 
     let extract_field_bits_into_variable_tokens =
         generate_extract_field_bits_from_source_into_variable_tokens(
@@ -335,12 +338,59 @@ fn get_value_variable_tokens(field: &Field) -> TokenStream {
     }
 }
 
-/// Generates an overflow check for unsigned/custom fields.
-fn generate_bit_size_check_tokens() -> TokenStream {
+/// Generates an overflow check for custom fields. The bits must survive the
+/// cast to the type they are masked in.
+fn generate_custom_bit_size_check_tokens() -> TokenStream {
+    quote! {
+        #[allow(clippy::unnecessary_cast)]
+        let [field_bits, cast_back_field_bits] = [field_bits, bits as _];
+        if bits > mask || cast_back_field_bits != field_bits {
+            return Err("Value is too big to fit within the field bits.");
+        }
+    }
+}
+
+/// Generates an overflow check for unsigned integer fields.
+/// Must run before `bits` is cast to the bitfield type, which may be smaller.
+/// Skipped when the field's bit-width equals the full type width.
+fn generate_unsigned_bit_size_check_tokens(field: &Field) -> TokenStream {
+    let field_bits = field.bits();
+    let type_bits = field.spanned_data_type_token().data_type().bit_size();
+
+    if field_bits >= type_bits {
+        return quote! {};
+    }
+
+    let max_lit = Literal::u128_unsuffixed((1u128 << field_bits) - 1);
+
+    quote! {
+        if bits > #max_lit {
+            return Err("Value is too big to fit within the field bits.");
+        }
+    }
+}
+
+/// Generates an overflow check for array fields, the bits above the field's
+/// bit-width must be zero.
+fn generate_array_bit_size_check_tokens(field: &Field, length: usize) -> TokenStream {
+    let full_bytes = field.bits() as usize / 8;
+    let remaining_bits = field.bits() % 8;
+
+    if full_bytes >= length {
+        return quote! {};
+    }
+
     quote! {
-        if bits > mask {
+        if bits[#full_bytes] >> #remaining_bits != 0 {
             return Err("Value is too big to fit within the field bits.");
         }
+        let mut __i: usize = #full_bytes + 1;
+        while __i < #length {
+            if bits[__i] != 0 {
+                return Err("Value is too big to fit within the field bits.");
+            }
+            __i += 1;
+        }
     }
 }
 
@@ -419,8 +469,9 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                     (bits_source == BitsSource::IntegerVariable && cast_bits).then(|| {
                         if matches!(field.spanned_data_type_token().data_type(), DataType::Custom) {
                             quote! {
+                                let field_bits = bits.into_bits();
                                 #[allow(clippy::unnecessary_cast)]
-                                let bits = bits.into_bits() as #bitfield_data_type_tokens;
+                                let bits = field_bits as #bitfield_data_type_tokens;
                             }
                         } else if let DataType::Array {
                             length,
@@ -481,7 +532,8 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                 }
                 if matches!(field.spanned_data_type_token().data_type(), DataType::Custom) {
                     return quote! {
-                        let bits = bits.into_bits() as u128;
+                        let field_bits = bits.into_bits();
+                        let bits = field_bits as u128;
                         let mask = if #field_bits_tokens == 128 { u128::MAX } else { (1u128 << #field_bits_tokens) - 1 };
                         let value = {
                             let val = bits & mask;
-- 
2.43.0


From 1e302df1f921e32d73d8a7b027e8da7e35a8a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:21 +0000
Subject: [PATCH 07/44] fix: reserved fields without a bits attribute are
 readable by the bit operations

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index e2a82b1..bce8437 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -424,7 +424,7 @@ fn get_field_access(
     reserved: bool,
 ) -> syn::Result<FieldAccess> {
     if bits_attribute.is_none() && reserved {
-        return Ok(FieldAccess::NoAccess);
+        return Ok(FieldAccess::ReadOnly);
     }
 
     if let Some(bits_attribute) = bits_attribute {
-- 
2.43.0


From 9e9074f6e12c31afadc5564b499609834477b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:06 +0000
Subject: [PATCH 08/44] fix: builders of bitfields without constructors
 reference the bitfield constants

---
 .../features/common/generator_helper.rs       | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index d92ae90..3eb8e9b 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -455,8 +455,8 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
 
             let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
 
-            let field_bits_tokens = get_field_bits_tokens(bitfield, field, builder_caller);
-            let field_offset_tokens = get_field_offset_tokens(bitfield, field, builder_caller);
+            let field_bits_tokens = get_field_bits_tokens(bitfield, field);
+            let field_offset_tokens = get_field_offset_tokens(bitfield, field);
 
             let invert_value_tokens = invert_bits.then(|| {
                 quote! {
@@ -691,8 +691,8 @@ fn generate_setting_field_without_setter_tokens(
     let bitfield_internal_value_ident_tokens =
         bitfield.bitfield_internal_value_ident_tokens(builder_caller);
     let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
-    let field_bits_tokens = get_field_bits_tokens(bitfield, field, builder_caller);
-    let field_offset_tokens = get_field_offset_tokens(bitfield, field, builder_caller);
+    let field_bits_tokens = get_field_bits_tokens(bitfield, field);
+    let field_offset_tokens = get_field_offset_tokens(bitfield, field);
 
     if !bitfield.is_integer_backed() {
         if let DataType::Array {
@@ -809,12 +809,8 @@ pub fn generate_extract_all_field_bits_from_variable_into_variable_tokens_and_se
 }
 
 /// Returns the field bits tokens, using the bits constant if available.
-pub fn get_field_bits_tokens(
-    bitfield: &Bitfield,
-    field: &Field,
-    builder_caller: bool,
-) -> TokenStream {
-    let bitfield_reference = get_bitfield_reference_tokens(bitfield, builder_caller);
+pub fn get_field_bits_tokens(bitfield: &Bitfield, field: &Field) -> TokenStream {
+    let bitfield_reference = bitfield.name_tokens();
 
     if field.has_constants() {
         let field_bits_constant_ident_tokens = field.bits_constant_ident_tokens();
@@ -831,12 +827,8 @@ pub fn get_field_bits_tokens(
 }
 
 /// Returns the field offset tokens, using the offset constant if available.
-pub fn get_field_offset_tokens(
-    bitfield: &Bitfield,
-    field: &Field,
-    builder_caller: bool,
-) -> TokenStream {
-    let bitfield_reference = get_bitfield_reference_tokens(bitfield, builder_caller);
+pub fn get_field_offset_tokens(bitfield: &Bitfield, field: &Field) -> TokenStream {
+    let bitfield_reference = bitfield.name_tokens();
 
     if field.has_constants() {
         let field_offset_constant_ident_tokens = field.offset_constant_ident_tokens();
-- 
2.43.0


From 1b7cd9b82695b855916a927a3398c670693b0044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 09/44] fix: defaults of fields without setters are cast
 through the field type

---
 .../bitfield/features/common/generator_helper.rs     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 3eb8e9b..db060e3 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -691,6 +691,7 @@ fn generate_setting_field_without_setter_tokens(
     let bitfield_internal_value_ident_tokens =
         bitfield.bitfield_internal_value_ident_tokens(builder_caller);
     let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
+    let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
     let field_bits_tokens = get_field_bits_tokens(bitfield, field);
     let field_offset_tokens = get_field_offset_tokens(bitfield, field);
 
@@ -727,7 +728,7 @@ fn generate_setting_field_without_setter_tokens(
                 #value_tokens.into_bits() as u128
             },
             _ => quote! {
-                #value_tokens as u128
+                (#value_tokens) as #field_data_type_tokens as u128
             },
         };
 
@@ -770,9 +771,16 @@ fn generate_setting_field_without_setter_tokens(
         };
     }
 
+    let field_value_tokens = match field.spanned_data_type_token().data_type() {
+        // Defaults are in the domain of the field type.
+        DataType::Integer(_) => quote! { (#value_tokens) as #field_data_type_tokens },
+        _ => value_tokens,
+    };
+
     quote! {
         let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - #field_bits_tokens);
-        let field_bits = #value_tokens;
+        #[allow(clippy::unnecessary_cast)]
+        let field_bits = (#field_value_tokens) as #bitfield_data_type_tokens;
         #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !(mask << #field_offset_tokens)) | ((field_bits & mask) << #field_offset_tokens);
     }
 }
-- 
2.43.0


From 307e5d553e428853e23d17249c8aa2fe799f7c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:49 +0000
Subject: [PATCH 10/44] fix: ignored fields can have any type that implements
 Default

---
 .../bitfield/features/common/generator_helper.rs       |  8 +-------
 .../src/parsing/bitfields/bitfield_parser.rs           |  3 +--
 bitfields_impl/src/parsing/common/spanned_data_type.rs | 10 ++++++++++
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index db060e3..f957544 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -100,14 +100,8 @@ fn generate_ignored_fields_default_calls_token_list(bitfield: &Bitfield) -> Vec<
             let field_name_tokens = field.name_tokens();
             let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
 
-            if matches!(field.spanned_data_type_token().data_type(), DataType::Integer(..)) {
-                return quote! {
-                    #field_name_tokens: <#field_data_type_tokens>::default()
-                };
-            }
-
             quote! {
-                #field_name_tokens: #field_data_type_tokens::default()
+                #field_name_tokens: <#field_data_type_tokens as ::core::default::Default>::default()
             }
         })
         .collect()
diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index bce8437..2ff0277 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -149,8 +149,7 @@ fn parse_field_helper(
 }
 
 fn parse_ignored_field(field_tokens: &syn::Field) -> Field {
-    let spanned_data_type_token = SpannedDataTypeToken::new(&field_tokens.ty)
-        .expect("Expected field type kind for ignored field");
+    let spanned_data_type_token = SpannedDataTypeToken::new_opaque(&field_tokens.ty);
     let name_ident = field_tokens.ident.as_ref().expect("Expected field identifier").clone();
     Field::new(
         Visibility::new(&field_tokens.vis),
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index e64e509..a24f598 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -33,6 +33,16 @@ impl SpannedDataTypeToken {
         })
     }
 
+    /// Creates a new type kind from a syn type that is not part of the
+    /// bitfield, so it can be any type.
+    pub fn new_opaque(syn_type: &Type) -> Self {
+        Self {
+            data_type: DataType::Custom,
+            spanned_token: SpannedToken::new(Self::get_syn_type_string(syn_type), syn_type.span()),
+            original_type_tokens: quote! { #syn_type },
+        }
+    }
+
     /// Returns a compact string representation of a `syn::Type` (e.g.
     /// `[u8;32]`).
     fn get_syn_type_string(syn_type: &Type) -> String {
-- 
2.43.0


From b3e8b50b14f0494a8ef76a02291b65f5b38f6f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:49 +0000
Subject: [PATCH 11/44] fix: ignored fields keep their declared visibility

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 2ff0277..08e655d 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -158,7 +158,7 @@ fn parse_ignored_field(field_tokens: &syn::Field) -> Field {
         0,
         0,
         false,
-        FieldAccess::NoAccess,
+        FieldAccess::ReadWrite,
         /* arguments= */ None,
         /* ignored= */ true,
     )
-- 
2.43.0


From 1f5a45d74d2ec028bb327972d95dd3144d68fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:49 +0000
Subject: [PATCH 12/44] fix: inverted getters of signed fields are
 sign-extended like the field getter

---
 .../generating/bitfield/features/invert_bit_ops_feature.rs  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 40faf20..c86dea8 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -6,8 +6,8 @@ use crate::generating::bitfield::features::common::generator_helper::{
     BitsSource, ProtectionType,
     generate_extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens,
     generate_extract_field_bits_from_source_into_variable_tokens,
-    generate_protected_bits_mask_tokens, get_bits_or_bytes_term, get_field_unit_terms,
-    get_function_modifier_tokens,
+    generate_protected_bits_mask_tokens, generate_sign_extend_bit_operation_tokens,
+    get_bits_or_bytes_term, get_field_unit_terms, get_function_modifier_tokens,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
@@ -167,11 +167,13 @@ impl InvertBitOpsFeature {
                         /* invert_bits= */ true,
                         /* builder_caller= */ false,
                     );
+                let sign_extend_tokens = generate_sign_extend_bit_operation_tokens(field);
                 quote! {
                     #[doc = #documentation]
                     #visibility_tokens #function_modifier_tokens fn #field_inverted_ident_tokens(&self) -> #field_data_type_tokens {
                         let this = self;
                         #extract_field_bits_from_source_into_variable_tokens
+                        #sign_extend_tokens
                         #value_to_field_tokens
                     }
                 }
-- 
2.43.0


From 5d5164cb29c89d6400ba173136b658c2ae750577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 13/44] fix: reject array and custom fields with more bits than
 their type can hold

---
 .../src/parsing/bitfields/bitfield_parser.rs       | 14 +++++++-------
 .../src/parsing/common/spanned_data_type.rs        | 12 ------------
 2 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 08e655d..f403d53 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -122,13 +122,9 @@ fn parse_field_helper(
 
     check_bits(bits_attribute.as_ref(), bits)?;
 
+    check_field_data_type_can_hold_bits(bits_attribute.as_ref(), bits, &spanned_data_type_token)?;
     if matches!(spanned_data_type_token.data_type(), DataType::Integer(..)) {
         check_default_value_fit_in_field(bits_attribute.as_ref(), bits, &spanned_data_type_token)?;
-        check_field_data_type_can_hold_bits(
-            bits_attribute.as_ref(),
-            bits,
-            &spanned_data_type_token,
-        )?;
     }
 
     let offset = calculate_field_offset(bitfield_attribute, field_tokens, bits, prev_fields)?;
@@ -359,8 +355,12 @@ fn check_field_data_type_can_hold_bits(
         return Ok(());
     };
 
-    let field_max_bits = spanned_data_type_token.data_type().bit_size();
-    let spanned_data_type_tokens = spanned_data_type_token.get_data_type_tokens();
+    let field_max_bits = match spanned_data_type_token.data_type() {
+        // Custom types are converted to and from a primitive type.
+        DataType::Custom => u128::BITS,
+        data_type => data_type.bit_size(),
+    };
+    let spanned_data_type_tokens = spanned_data_type_token.to_string();
     if bits > field_max_bits {
         return Err(create_user_parsing_compiler_error(
             bits_attr.span().expect("Expected bits attribute for bits checking"),
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index a24f598..6f2835a 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -134,18 +134,6 @@ impl SpannedDataTypeToken {
             _ => None,
         }
     }
-
-    /// Returns the token representation of the data type.
-    /// For array-backed types, returns `u128` as the internal backing type.
-    pub fn get_data_type_tokens(&self) -> TokenStream {
-        if matches!(self.data_type, DataType::Array { .. }) {
-            return quote! {
-                u128
-            };
-        }
-
-        self.original_type_tokens.clone()
-    }
 }
 
 impl ToTokens for SpannedDataTypeToken {
-- 
2.43.0


From d2140b231f3bab5a89c8e8731aca4269650c8fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 14/44] fix: accept the i128 minimum as a default value

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index f403d53..ec49080 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -318,10 +318,8 @@ fn check_default_value_fit_in_field(
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
-        let negative_default_value = (*number as i128)
-            .checked_neg()
-            .ok_or_else(|| unreachable!("The compiler won't allow a number less than -i128 exist"))
-            .expect("Expected a negative default value for negative default value checking");
+        // `i128::MIN` has no positive counterpart, so it must stay as it is.
+        let negative_default_value = (*number as i128).wrapping_neg();
 
         if negative_default_value < negative_bits_min_value {
             return Err(create_user_parsing_compiler_error(
-- 
2.43.0


From 8c821e8f3ca041e30bdda94013ee61490d0a3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 15/44] fix: bit width totals no longer wrap around

---
 .../src/parsing/bitfields/bitfield_parser.rs         | 12 +++++++++---
 .../src/parsing/common/spanned_data_type.rs          |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index ec49080..4a68ad9 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -380,13 +380,19 @@ const fn min_max_for_bits(bits: u32) -> (i128, u128) {
     (min, max)
 }
 
+/// Returns the total bits of the fields, a total that can't be represented
+/// stays at the maximum.
+fn sum_field_bits(fields: &[Field]) -> u32 {
+    fields.iter().map(Field::bits).fold(0, u32::saturating_add)
+}
+
 fn calculate_field_offset(
     bitfield_attribute: &BitfieldAttribute,
     field_tokens: &syn::Field,
     bits: u32,
     prev_fields: &[Field],
 ) -> syn::Result<u32> {
-    let offset = prev_fields.iter().map(Field::bits).sum::<u32>();
+    let offset = sum_field_bits(prev_fields);
 
     match bitfield_attribute.arguments().order() {
         BitOrder::Lsb => Ok(offset),
@@ -397,7 +403,7 @@ fn calculate_field_offset(
             // the total bits of all fields is greater than the number of bits
             // of the bitfield type. We will catch it later so
             // we can ignore for now.
-            let total_bits = offset + bits;
+            let total_bits = offset.saturating_add(bits);
             if total_bits <= bitfield_bit_size {
                 Ok(bitfield_bit_size - bits - offset)
             } else {
@@ -465,7 +471,7 @@ fn check_fields_fit_in_bitfield_type(
     bitfield_attribute: &BitfieldAttribute,
     fields: &[Field],
 ) -> syn::Result<()> {
-    let total_field_bits = fields.iter().map(Field::bits).sum::<u32>();
+    let total_field_bits = sum_field_bits(fields);
     let bitfield_bit_size = bitfield_attribute.spanned_data_type_token().data_type().bit_size();
 
     match total_field_bits.cmp(&bitfield_bit_size) {
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index 6f2835a..bbbeef2 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -179,7 +179,7 @@ impl DataType {
             Self::Integer(integer_type) => integer_type.bit_size(),
             Self::Array {
                 length,
-            } => length * IntegerType::U8.bit_size(),
+            } => length.saturating_mul(IntegerType::U8.bit_size()),
             Self::Custom => unreachable!(
                 "Custom types should not have a bit size and all calls should be guarded."
             ),
-- 
2.43.0


From 316679d73e3b9b3d2f74f060ef64b04d11a2c411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 16/44] fix: constants whose name ends like a float type can be
 used as defaults

---
 bitfields_impl/src/parsing/common/const_expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 0ab1eed..991ed73 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -81,7 +81,10 @@ impl ConstExpr {
         if !number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
             let contains_float_identifier =
                 FLOAT_IDENTIFIERS.iter().any(|&identifier| number_str.ends_with(identifier));
-            if number_str.contains(FLOAT_DOT) || contains_float_identifier {
+            let is_number = number_str
+                .trim_start_matches(NEGATIVE_SIGN)
+                .starts_with(|character: char| character.is_ascii_digit());
+            if number_str.contains(FLOAT_DOT) || (is_number && contains_float_identifier) {
                 return Err(create_user_parsing_compiler_error(
                     span,
                     "Float are not supported.".to_string(),
-- 
2.43.0


From d2a9da31daf0d013bbfd0be79d9344a6512ddd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 17/44] fix: keep the path of pub(in path) visibilities

---
 .../src/parsing/common/visibility.rs          | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/visibility.rs b/bitfields_impl/src/parsing/common/visibility.rs
index 25a220a..dffc7f5 100644
--- a/bitfields_impl/src/parsing/common/visibility.rs
+++ b/bitfields_impl/src/parsing/common/visibility.rs
@@ -1,5 +1,5 @@
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote};
+use quote::quote;
 
 use crate::parsing::common::to_tokens::ToTokens;
 
@@ -22,13 +22,7 @@ impl Visibility {
         match vis {
             syn::Visibility::Public(_) => Self::Public,
             syn::Visibility::Restricted(r) => {
-                let path = r
-                    .path
-                    .segments
-                    .iter()
-                    .map(|segment| segment.ident.to_string())
-                    .collect::<String>();
-                Self::Restricted(path)
+                Self::Restricted(quote! { #r }.to_string())
             },
             syn::Visibility::Inherited => Self::Private,
         }
@@ -43,12 +37,9 @@ impl ToTokens for Visibility {
                     pub
                 }
             },
-            Self::Restricted(path) => {
-                let path_ident = format_ident!("{}", path);
-                quote! {
-                    pub(#path_ident)
-                }
-            },
+            Self::Restricted(restricted) => restricted
+                .parse()
+                .expect("Failed to parse previously accepted restricted visibility"),
             Self::Private => {
                 quote! {}
             },
-- 
2.43.0


From a87e892feebcf13bfcef80c7d7df3ca9baff7b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 18/44] fix: support raw identifiers as names of bitfields and
 fields

---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index cabf078..74784aa 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -1,6 +1,7 @@
 use getset::{CloneGetters, Getters};
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitfieldArguments;
 use crate::parsing::bitfields::bits_attribute::bits_arguments::{BitsArguments, FieldAccess};
@@ -48,7 +49,7 @@ impl Bitfield {
         ignored_fields: Vec<Field>,
         arguments: BitfieldArguments,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             user_attributes_tokens,
             visibility,
@@ -127,7 +128,7 @@ impl Field {
         arguments: Option<BitsArguments>,
         ignored: bool,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             visibility,
             name,
-- 
2.43.0


From 25cc700fe7cf39845d59a35cfba31fe3f63464f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 19/44] fix: builders can not set no-access fields

---
 .../src/generating/bitfield/features/builder_feature.rs        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
index 3370677..aeac6fa 100644
--- a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
@@ -7,6 +7,7 @@ use crate::generating::bitfield::features::common::generator_helper::{
     get_function_modifier_tokens, get_setter_documentation,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
+use crate::parsing::bitfields::bits_attribute::bits_arguments::FieldAccess;
 use crate::parsing::common::to_tokens::ToTokens;
 
 /// Generates the builder feature bitfields.
@@ -129,7 +130,7 @@ impl BuilderFeature {
         bitfield
             .fields()
             .iter()
-            .filter(|field: &&Field| !field.is_reserved())
+            .filter(|field: &&Field| !field.is_reserved() && field.access() != FieldAccess::NoAccess)
             .map(|field| Self::generate_generate_builder_setters_setter_helper(bitfield, field))
             .collect()
     }
-- 
2.43.0


From 6b91184e8ca1dca4b5258d67e1caa2e92456b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 20/44] fix: write-only fields keep their declared visibility

---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index 74784aa..8637fc9 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -145,9 +145,7 @@ impl Field {
 
     /// Returns the visibility of the field.
     pub fn visibility(&self) -> Visibility {
-        let has_public_access =
-            matches!(self.access, FieldAccess::ReadWrite | FieldAccess::ReadOnly);
-        if !has_public_access {
+        if self.access == FieldAccess::NoAccess {
             return Visibility::Private;
         }
 
-- 
2.43.0


From 1a394c9a991651993f93fcbc45b7c96feceaf9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 21/44] fix: debug output prints signed and bool fields with
 their values

---
 .../bitfield/features/debug_trait_feature.rs           | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
index ca46d0d..4c99abe 100644
--- a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
@@ -4,8 +4,10 @@ use quote::quote;
 use crate::generating::bitfield::feature::{Feature, FeaturePosition};
 use crate::generating::bitfield::features::common::generator_helper::{
     BitsSource, generate_extract_field_bits_from_source_into_variable_tokens,
+    generate_sign_extend_bit_operation_tokens,
 };
 use crate::parsing::bitfields::bitfield::Bitfield;
+use crate::parsing::common::spanned_data_type::{DataType, IntegerType};
 
 /// Generates `Debug` trait implementation.
 pub struct DebugTraitFeature;
@@ -62,9 +64,17 @@ impl DebugTraitFeature {
                         /* invert_bits= */ false,
                         /* builder_caller= */ false,
                     );
+                let sign_extend_tokens = generate_sign_extend_bit_operation_tokens(field);
+                let bool_value_tokens = matches!(
+                    field.spanned_data_type_token().data_type(),
+                    DataType::Integer(IntegerType::Bool)
+                )
+                .then(|| quote! { let value = value != 0; });
 
                 quote! {
                     #extract_field_bits_from_bitfield_into_variable
+                    #sign_extend_tokens
+                    #bool_value_tokens
                     debug.field(#field_name, &value);
                 }
             })
-- 
2.43.0


From 20991a1d56c9cd6578b6fd34571f2df57796f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:59 +0000
Subject: [PATCH 22/44] fix: default literals are typed by their field instead
 of falling back to i32

---
 .../generating/bitfield/features/common/generator_helper.rs    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index f957544..42fc4dc 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -629,6 +629,7 @@ fn generate_field_setter_call_tokens(
         quote! { this }
     };
 
+    let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
     let field_setter_ident_tokens = field.setter_ident_tokens();
 
     match field.spanned_data_type_token().data_type() {
@@ -639,7 +640,7 @@ fn generate_field_setter_call_tokens(
                 }
             } else {
                 quote! {
-                    #bitfield_variable_reference.#field_setter_ident_tokens(#value_tokens as _);
+                    #bitfield_variable_reference.#field_setter_ident_tokens((#value_tokens) as #field_data_type_tokens);
                 }
             }
         },
-- 
2.43.0


From 9d7c38693c07cb8a4f4f8b787c2d8090640edc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:08 +0000
Subject: [PATCH 23/44] fix: negative hex defaults ending in f32 or f64 are not
 floats

---
 bitfields_impl/src/parsing/common/const_expr.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 991ed73..d1d5921 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -78,12 +78,11 @@ impl ConstExpr {
     }
 
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
+        let number_str = number_str.trim_start_matches(NEGATIVE_SIGN);
         if !number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
             let contains_float_identifier =
                 FLOAT_IDENTIFIERS.iter().any(|&identifier| number_str.ends_with(identifier));
-            let is_number = number_str
-                .trim_start_matches(NEGATIVE_SIGN)
-                .starts_with(|character: char| character.is_ascii_digit());
+            let is_number = number_str.starts_with(|character: char| character.is_ascii_digit());
             if number_str.contains(FLOAT_DOT) || (is_number && contains_float_identifier) {
                 return Err(create_user_parsing_compiler_error(
                     span,
-- 
2.43.0


From acec4393a120420652e5011a1b68b4e658da9a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:18 +0000
Subject: [PATCH 24/44] fix: hex, binary and octal defaults above u128 are
 reported instead of crashing the macro

---
 bitfields_impl/src/parsing/common/const_expr.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index d1d5921..ab1e47d 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -156,7 +156,10 @@ impl ConstExpr {
                 IntegerPrefix::Hex.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Hex parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse integer literal: {err}"),
+                )),
             };
         }
 
@@ -166,7 +169,10 @@ impl ConstExpr {
                 IntegerPrefix::Binary.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Binary parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse integer literal: {err}"),
+                )),
             };
         }
 
@@ -176,7 +182,10 @@ impl ConstExpr {
                 IntegerPrefix::Octal.radix(),
             ) {
                 Ok(num) => Ok(num),
-                Err(err) => unreachable!("Octal parsing should succeed: {:?}", err),
+                Err(err) => Err(create_user_parsing_compiler_error(
+                    spanned_token.span(),
+                    format!("Failed to parse integer literal: {err}"),
+                )),
             };
         }
 
-- 
2.43.0


From 5f9b495a87b3441b16f48dd7dc0c3a2853d46fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:09 +0000
Subject: [PATCH 25/44] fix: field clear, invert and inverted accessors follow
 the field's visibility

---
 .../src/generating/bitfield/features/clear_bit_ops_feature.rs | 4 ++--
 .../generating/bitfield/features/invert_bit_ops_feature.rs    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/clear_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/clear_bit_ops_feature.rs
index d5c23e7..c623420 100644
--- a/bitfields_impl/src/generating/bitfield/features/clear_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/clear_bit_ops_feature.rs
@@ -90,7 +90,7 @@ impl ClearBitOpsFeature {
             .iter()
             .filter(|field| field.has_setter())
             .map(|field| {
-                let visibility_tokens = bitfield.visibility().to_tokens();
+                let visibility_tokens = field.visibility().to_tokens();
                 let function_modifier_tokens = get_function_modifier_tokens(bitfield);
                 let documentation = Self::get_clear_field_documentation(bitfield, field);
                 let clear_field_ident_tokens = format_ident!("clear_{}", field.name(), span = field.name_ident().span()).to_token_stream();
@@ -108,10 +108,10 @@ impl ClearBitOpsFeature {
     }
 
     fn generate_clear_fields_to_defaults_bit_ops_tokens(bitfield: &Bitfield) -> TokenStream {
-        let visibility_tokens = bitfield.visibility().to_tokens();
         let function_modifier_tokens = get_function_modifier_tokens(bitfield);
 
         bitfield.fields().iter().filter(|field| field.has_setter()).filter(|field: &&Field| field.has_default_value()).map(|field| {
+            let visibility_tokens = field.visibility().to_tokens();
             let documentation = Self::get_clear_field_documentation(bitfield, field);
             let clear_field_to_default_ident_tokens = format_ident!("clear_{}_to_default", field.name(), span = field.name_ident().span()).to_token_stream();
             let clear_field_to_default_implementation_tokens = generate_setting_field_to_default_tokens(bitfield, field);
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index c86dea8..508df46 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -108,7 +108,6 @@ impl InvertBitOpsFeature {
 
     /// Returns tokens to invert a field in the bitfield.
     fn generate_invert_fields_tokens(bitfield: &Bitfield) -> TokenStream {
-        let visibility_tokens = bitfield.visibility().to_tokens();
         let function_modifier_tokens = get_function_modifier_tokens(bitfield);
 
         bitfield
@@ -116,6 +115,7 @@ impl InvertBitOpsFeature {
             .iter()
             .filter(|field| field.has_setter())
             .map(|field| {
+                let visibility_tokens = field.visibility().to_tokens();
                 let field_setter_ident_tokens = field.setter_ident_tokens();
                 let field_invert_ident_tokens =
                     format_ident!("invert_{}", field.name(), span = field.name_ident().span()).to_token_stream();
@@ -145,7 +145,6 @@ impl InvertBitOpsFeature {
 
     /// Returns tokens to return a field inverted.
     fn generate_inverted_fields_getter_tokens(bitfield: &Bitfield) -> TokenStream {
-        let visibility_tokens = bitfield.visibility().to_tokens();
         let function_modifier_tokens = get_function_modifier_tokens(bitfield);
 
         bitfield
@@ -153,6 +152,7 @@ impl InvertBitOpsFeature {
             .iter()
             .filter(|field| field.has_getter())
             .map(|field| {
+                let visibility_tokens = field.visibility().to_tokens();
                 let field_inverted_ident_tokens =
                     format_ident!("{}_inverted", field.name(), span = field.name_ident().span()).to_token_stream();
                 let documentation = Self::get_invert_field_documentation(bitfield, field);
-- 
2.43.0


From 96e5c5fd9035b5071122cf9e35ff359fa961789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:06 +0000
Subject: [PATCH 26/44] fix: reject float defaults written with an exponent

---
 bitfields_impl/src/parsing/common/const_expr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index ab1e47d..4ae7657 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -8,6 +8,7 @@ use crate::parsing::common::to_tokens::ToTokens;
 
 const FLOAT_IDENTIFIERS: [&str; 2] = ["f32", "f64"];
 const FLOAT_DOT: &str = ".";
+const FLOAT_EXPONENT: char = 'e';
 
 const INTEGER_IDENTIFIERS: [&str; 12] =
     ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
@@ -83,7 +84,12 @@ impl ConstExpr {
             let contains_float_identifier =
                 FLOAT_IDENTIFIERS.iter().any(|&identifier| number_str.ends_with(identifier));
             let is_number = number_str.starts_with(|character: char| character.is_ascii_digit());
-            if number_str.contains(FLOAT_DOT) || (is_number && contains_float_identifier) {
+            let contains_exponent = number_str
+                .trim_start_matches(|character: char| character.is_ascii_digit())
+                .starts_with(FLOAT_EXPONENT);
+            if number_str.contains(FLOAT_DOT)
+                || (is_number && (contains_float_identifier || contains_exponent))
+            {
                 return Err(create_user_parsing_compiler_error(
                     span,
                     "Float are not supported.".to_string(),
-- 
2.43.0


From 9b464d1cc6d3fe9ed19ffe5de6a06c62eb9bf4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:32 +0000
Subject: [PATCH 27/44] fix: reject bitflag values outside the bitflag type

---
 .../src/parsing/bitflags/bitflag_parser.rs    | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index da21523..a14494b 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -8,6 +8,7 @@ use crate::parsing::bitflags::bitflag::{Bitflag, BitflagVariant};
 use crate::parsing::bitflags::bitflag_attribute_parser::BitflagAttribute;
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::const_expr::ConstExpr;
+use crate::parsing::common::spanned_data_type::DataType;
 use crate::parsing::common::spanned_token::SpannedToken;
 use crate::parsing::common::visibility::Visibility;
 
@@ -22,6 +23,7 @@ pub fn parse_bitflag_enum(args: TokenStream, input: TokenStream) -> syn::Result<
     let variants = parse_variants(&enum_tokens.variants)?;
 
     check_base_bitflag_variants(&enum_tokens, &variants)?;
+    check_variant_values_fit(bitflag_attribute.spanned_data_type_token().data_type(), &variants)?;
 
     Ok(Bitflag::new(
         user_attributes_tokens,
@@ -107,3 +109,34 @@ fn check_base_bitflag_variants(
 
     Ok(())
 }
+
+/// Ensures the literal values of the variants fit in the integer type of the
+/// bitflag, any other expression is left to the compiler.
+fn check_variant_values_fit(data_type: DataType, variants: &[BitflagVariant]) -> syn::Result<()> {
+    if !matches!(data_type, DataType::Integer(..)) {
+        return Ok(());
+    }
+
+    let bits = data_type.bit_size();
+    let max = u128::MAX >> (u128::BITS - bits);
+    for variant in variants {
+        let value = variant.value();
+        let ConstExpr::Literal {
+            number, ..
+        } = &value
+        else {
+            continue;
+        };
+        if *number > max {
+            return Err(create_user_parsing_compiler_error(
+                value.span(),
+                format!(
+                    "The bitflag value '{number}' exceeds the maximum value for the bitflag type \
+                     '{bits} bits ({max})'."
+                ),
+            ));
+        }
+    }
+
+    Ok(())
+}
-- 
2.43.0


From b48be27d03ce9f929c05365297139d08c2246def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:44 +0000
Subject: [PATCH 28/44] fix: reject negative defaults below the range of i128

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 4a68ad9..592640b 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -318,8 +318,9 @@ fn check_default_value_fit_in_field(
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
-        // `i128::MIN` has no positive counterpart, so it must stay as it is.
-        let negative_default_value = (*number as i128).wrapping_neg();
+        // `i128::MIN` has no positive counterpart, and nothing below it can be
+        // represented.
+        let negative_default_value = i128::try_from(*number).map_or(i128::MIN, |number| -number);
 
         if negative_default_value < negative_bits_min_value {
             return Err(create_user_parsing_compiler_error(
-- 
2.43.0


From 19ab46315082ae5a127ec01065ad59367b66f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:30 +0000
Subject: [PATCH 29/44] fix: reject array field defaults outside the field

---
 .../src/parsing/bitfields/bitfield_parser.rs  | 49 ++++++++++++++++---
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 592640b..2fba017 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -3,7 +3,7 @@ use std::collections::HashSet;
 
 use proc_macro2::TokenStream;
 use syn::spanned::Spanned;
-use syn::{Fields, ItemStruct, Meta};
+use syn::{Expr, ExprArray, ExprLit, Fields, ItemStruct, Lit, Meta};
 
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
@@ -13,6 +13,7 @@ use crate::parsing::bitfields::bits_attribute::bits_attribute_parser::BitsAttrib
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::const_expr::ConstExpr;
 use crate::parsing::common::spanned_data_type::{DataType, SpannedDataTypeToken};
+use crate::parsing::common::to_tokens::ToTokens;
 use crate::parsing::common::type_parse_error::TypeParsingError;
 use crate::parsing::common::visibility::Visibility;
 
@@ -123,7 +124,7 @@ fn parse_field_helper(
     check_bits(bits_attribute.as_ref(), bits)?;
 
     check_field_data_type_can_hold_bits(bits_attribute.as_ref(), bits, &spanned_data_type_token)?;
-    if matches!(spanned_data_type_token.data_type(), DataType::Integer(..)) {
+    if !matches!(spanned_data_type_token.data_type(), DataType::Custom) {
         check_default_value_fit_in_field(bits_attribute.as_ref(), bits, &spanned_data_type_token)?;
     }
 
@@ -293,6 +294,9 @@ fn check_default_value_fit_in_field(
     // function or something as a default, leave this to the compiler
     // there's nothing we can do.
     if !matches!(default_value_expr, ConstExpr::Literal { .. }) {
+        if matches!(spanned_data_type_token.data_type(), DataType::Array { .. }) {
+            return check_byte_list_fit_in_field(&default_value_expr, bits);
+        }
         return Ok(());
     }
 
@@ -313,8 +317,6 @@ fn check_default_value_fit_in_field(
         ));
     }
 
-    // If checked_shl returns None, bits == 128 and no field type can exceed the
-    // bit range.
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
@@ -344,6 +346,41 @@ fn check_default_value_fit_in_field(
     Ok(())
 }
 
+/// Validate that a default value that is a list of byte literals fits within
+/// the array field's bit width, the first byte is the least significant. Any
+/// other expression is left to the compiler.
+fn check_byte_list_fit_in_field(default_value_expr: &ConstExpr, bits: u32) -> syn::Result<()> {
+    let default_value_tokens = default_value_expr.to_tokens();
+    let Ok(byte_list) = syn::parse2::<ExprArray>(default_value_tokens) else {
+        return Ok(());
+    };
+
+    for (index, element) in byte_list.elems.iter().enumerate() {
+        let Expr::Lit(ExprLit {
+            lit: Lit::Int(lit_int), ..
+        }) = element
+        else {
+            continue;
+        };
+        let element_bits = u8::BITS.saturating_mul(u32::try_from(index).unwrap_or(u32::MAX));
+        let max = match bits.saturating_sub(element_bits) {
+            0 => 0,
+            remaining_bits => u8::MAX >> u8::BITS.saturating_sub(remaining_bits),
+        };
+        if !lit_int.base10_parse::<u128>().is_ok_and(|number| number <= u128::from(max)) {
+            return Err(create_user_parsing_compiler_error(
+                default_value_expr.span(),
+                format!(
+                    "The default value byte '{lit_int}' at index {index} exceeds the maximum \
+                     value for the specified '{bits} bits ({max})'.",
+                ),
+            ));
+        }
+    }
+
+    Ok(())
+}
+
 /// Checks if the field can contain the defined bits.
 fn check_field_data_type_can_hold_bits(
     bits_attribute: Option<&BitsAttribute>,
@@ -376,8 +413,8 @@ fn check_field_data_type_can_hold_bits(
 /// Compute the minimum and maximum representable signed/unsigned values for
 /// a given number of bits.
 const fn min_max_for_bits(bits: u32) -> (i128, u128) {
-    let max: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
-    let min: i128 = if bits == 128 { i128::MIN } else { -(1i128 << (bits - 1)) };
+    let max: u128 = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
+    let min: i128 = if bits >= 128 { i128::MIN } else { -(1i128 << (bits - 1)) };
     (min, max)
 }
 
-- 
2.43.0


From 942746dbbd52944fb16ba36764349126beeaeb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:18 +0000
Subject: [PATCH 30/44] fix: reject array lengths whose bits can't be
 represented

---
 bitfields_impl/src/parsing/common/spanned_data_type.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index bbbeef2..831c232 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -102,6 +102,11 @@ impl SpannedDataTypeToken {
                     return Err(TypeParsingError::ZeroArrayLength);
                 }
 
+                // The number of bits must be representable.
+                if length.checked_mul(IntegerType::U8.bit_size()).is_none() {
+                    return Err(TypeParsingError::ArrayLengthTooLarge);
+                }
+
                 Ok(DataType::Array {
                     length,
                 })
-- 
2.43.0


From 5af75dade188d6fef3f672bbadfa3484dfba2a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:22 +0000
Subject: [PATCH 31/44] fix: parse literal defaults that are printed on
 multiple lines

---
 bitfields_impl/src/parsing/common/const_expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 4ae7657..1ad2710 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -60,8 +60,11 @@ impl IntegerPrefix {
 
 impl ConstExpr {
     pub fn new(spanned_token: &SpannedToken) -> syn::Result<Self> {
-        let trimmed_number_str =
-            spanned_token.token().trim().replace([' ', '_'], "").to_ascii_lowercase();
+        // The token may be broken into multiple lines when it's long.
+        let trimmed_number_str = spanned_token
+            .token()
+            .replace(|character: char| character.is_whitespace() || character == '_', "")
+            .to_ascii_lowercase();
 
         Self::check_float(&trimmed_number_str, spanned_token.span())?;
 
-- 
2.43.0


From 2a73d8f987b33c546fdb43bd5f67b389ecf9fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:57 +0000
Subject: [PATCH 32/44] fix: check the type of defaults of fields without
 setters

---
 .../features/common/generator_helper.rs         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 42fc4dc..435ea30 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -146,6 +146,23 @@ pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Fie
         );
     }
 
+    // There's no setter whose argument checks the type of the default value.
+    let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+    let has_field_data_type = match field.spanned_data_type_token().data_type() {
+        DataType::Custom => true,
+        DataType::Array {
+            ..
+        } => !bitfield.is_integer_backed(),
+        DataType::Integer(_) => false,
+    };
+    let field_default_value_tokens = if has_field_data_type {
+        quote! {
+            { let default_value: #field_data_type_tokens = #field_default_value_tokens; default_value }
+        }
+    } else {
+        field_default_value_tokens
+    };
+
     generate_setting_field_without_setter_tokens(
         bitfield,
         field,
-- 
2.43.0


From 07083c12903b18e502849ba7930e3021b75be63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 33/44] fix: accept any primitive returned by into_bits in
 checked setters of custom fields

---
 .../bitfield/features/common/generator_helper.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 435ea30..92ce5a0 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -349,13 +349,21 @@ fn get_value_variable_tokens(field: &Field) -> TokenStream {
     }
 }
 
-/// Generates an overflow check for custom fields. The bits must survive the
-/// cast to the type they are masked in.
+/// Generates an overflow check for custom fields. The returned primitive, which
+/// may not be castable back (e.g. `bool`), may be wider than the type it is
+/// masked in.
 fn generate_custom_bit_size_check_tokens() -> TokenStream {
     quote! {
+        const fn size_of_value<T>(_: &T) -> usize {
+            core::mem::size_of::<T>()
+        }
         #[allow(clippy::unnecessary_cast)]
-        let [field_bits, cast_back_field_bits] = [field_bits, bits as _];
-        if bits > mask || cast_back_field_bits != field_bits {
+        let too_big = if size_of_value(&field_bits) > size_of_value(&bits) {
+            field_bits as u128 > mask as u128
+        } else {
+            bits > mask
+        };
+        if too_big {
             return Err("Value is too big to fit within the field bits.");
         }
     }
-- 
2.43.0


From a10c772cf859facb43900f3bca8700ed9fc13af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:07 +0000
Subject: [PATCH 34/44] fix: support custom field types with generic arguments

---
 .../generating/bitfield/features/common/generator_helper.rs   | 4 ++--
 .../src/generating/bitfield/features/field_getters_feature.rs | 2 +-
 .../generating/bitfield/features/invert_bit_ops_feature.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 92ce5a0..9d71c74 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -201,7 +201,7 @@ pub fn generate_setting_field_to_zero_tokens(bitfield: &Bitfield, field: &Field)
         },
         DataType::Custom => {
             let custom_field_data_type_tokens = field.spanned_data_type_token().to_tokens();
-            quote! { #custom_field_data_type_tokens::from_bits(0) }
+            quote! { <#custom_field_data_type_tokens>::from_bits(0) }
         },
         DataType::Array {
             length,
@@ -337,7 +337,7 @@ fn get_value_variable_tokens(field: &Field) -> TokenStream {
     match field.spanned_data_type_token().data_type() {
         DataType::Custom => {
             quote! {
-                #custom_field_data_type_tokens::from_bits(value as _)
+                <#custom_field_data_type_tokens>::from_bits(value as _)
             }
         },
         DataType::Integer(IntegerType::Bool) => {
diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index 6abe436..8ef038c 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -87,7 +87,7 @@ impl FieldGettersFeature {
             DataType::Custom => {
                 let custom_field_data_type_tokens = field.spanned_data_type_token().to_tokens();
                 quote! {
-                    #custom_field_data_type_tokens::from_bits(value as _)
+                    <#custom_field_data_type_tokens>::from_bits(value as _)
                 }
             },
             DataType::Array {
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 508df46..1775d9b 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -186,7 +186,7 @@ impl InvertBitOpsFeature {
         match field.spanned_data_type_token().data_type() {
             DataType::Custom => {
                 quote! {
-                    #custom_field_data_type_tokens::from_bits(value as _)
+                    <#custom_field_data_type_tokens>::from_bits(value as _)
                 }
             },
             DataType::Integer(IntegerType::Bool) => {
-- 
2.43.0


From 4843433bcca238e26b17bc8368d3fb77a741f43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:16 +0000
Subject: [PATCH 35/44] fix: compare the bits of signed values in checked
 setters of custom fields

---
 .../bitfield/features/common/generator_helper.rs   | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 9d71c74..4e97364 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -349,21 +349,17 @@ fn get_value_variable_tokens(field: &Field) -> TokenStream {
     }
 }
 
-/// Generates an overflow check for custom fields. The returned primitive, which
-/// may not be castable back (e.g. `bool`), may be wider than the type it is
-/// masked in.
+/// Generates an overflow check for custom fields. The bits of the returned
+/// primitive, of any type and size, must fit in the field.
 fn generate_custom_bit_size_check_tokens() -> TokenStream {
     quote! {
         const fn size_of_value<T>(_: &T) -> usize {
             core::mem::size_of::<T>()
         }
         #[allow(clippy::unnecessary_cast)]
-        let too_big = if size_of_value(&field_bits) > size_of_value(&bits) {
-            field_bits as u128 > mask as u128
-        } else {
-            bits > mask
-        };
-        if too_big {
+        let value_bits = field_bits as u128 & (u128::MAX >> (128 - 8 * size_of_value(&field_bits)));
+        #[allow(clippy::unnecessary_cast)]
+        if value_bits > mask as u128 {
             return Err("Value is too big to fit within the field bits.");
         }
     }
-- 
2.43.0


From 605fa83e3c859f6c95ddc7ade874f3cf4c54908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:08 +0000
Subject: [PATCH 36/44] fix: accept types passed through macro_rules fragments

---
 .../src/parsing/common/spanned_data_type.rs   | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index 831c232..38b7d2e 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -22,6 +22,7 @@ pub struct SpannedDataTypeToken {
 impl SpannedDataTypeToken {
     /// Creates a new type kind from a syn type.
     pub fn new(syn_type: &Type) -> Result<Self, TypeParsingError> {
+        let syn_type = Self::ungroup_type(syn_type);
         let str_repr = Self::get_syn_type_string(syn_type);
         let data_type = Self::get_data_type(syn_type)?;
         let original_type_tokens = quote! { #syn_type };
@@ -43,6 +44,25 @@ impl SpannedDataTypeToken {
         }
     }
 
+    /// Returns the type inside parentheses or inside the invisible group around
+    /// a type passed through a macro (e.g. `$t:ty`).
+    fn ungroup_type(syn_type: &Type) -> &Type {
+        match syn_type {
+            Type::Group(type_group) => Self::ungroup_type(&type_group.elem),
+            Type::Paren(type_paren) => Self::ungroup_type(&type_paren.elem),
+            _ => syn_type,
+        }
+    }
+
+    /// Returns the expression inside the invisible group around an expression
+    /// passed through a macro (e.g. `$len:expr`).
+    fn ungroup_expr(syn_expr: &syn::Expr) -> &syn::Expr {
+        match syn_expr {
+            syn::Expr::Group(expr_group) => Self::ungroup_expr(&expr_group.expr),
+            _ => syn_expr,
+        }
+    }
+
     /// Returns a compact string representation of a `syn::Type` (e.g.
     /// `[u8;32]`).
     fn get_syn_type_string(syn_type: &Type) -> String {
@@ -75,7 +95,8 @@ impl SpannedDataTypeToken {
                 }
             },
             Type::Array(type_array) => {
-                let element_type = Self::get_data_type(&type_array.elem)?;
+                let element_type =
+                    Self::get_data_type(Self::ungroup_type(&type_array.elem))?;
                 let DataType::Integer(integer_type) = element_type else {
                     return Err(TypeParsingError::NonIntegerArrayType);
                 };
@@ -84,7 +105,7 @@ impl SpannedDataTypeToken {
                     return Err(TypeParsingError::NonIntegerArrayType);
                 }
 
-                let length = match &type_array.len {
+                let length = match Self::ungroup_expr(&type_array.len) {
                     syn::Expr::Lit(expr_lit) => match &expr_lit.lit {
                         syn::Lit::Int(lit_int) => lit_int
                             .base10_parse::<u32>()
-- 
2.43.0


From e20b9e1176c37763548c1865f860250814537e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:43 +0000
Subject: [PATCH 37/44] fix: refer to core items by absolute paths in generated
 code

---
 .../features/bitfield_struct_feature.rs       |  4 +--
 .../bitfield/features/builder_feature.rs      |  4 +--
 .../features/common/generator_helper.rs       | 16 +++++-----
 .../bitfield/features/debug_trait_feature.rs  |  4 +--
 .../features/default_trait_feature.rs         |  2 +-
 .../features/field_setters_feature.rs         |  2 +-
 .../features/from_into_bits_feature.rs        | 22 ++++++-------
 .../bitfield/features/from_traits_feature.rs  |  4 +--
 .../features/set_get_bit_ops_feature.rs       | 32 +++++++++----------
 .../generating/bitflag/bitflag_generator.rs   |  2 +-
 10 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
index f88075e..24fd9e8 100644
--- a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
@@ -83,11 +83,11 @@ impl BitfieldStructFeatureGenerator {
             let is_heap_array = bitfield.arguments().array_heap() && !bitfield.is_integer_backed();
             if is_heap_array {
                 attributes_tokens.push(quote! {
-                    #[derive(core::clone::Clone)]
+                    #[derive(::core::clone::Clone)]
                 });
             } else {
                 attributes_tokens.push(quote! {
-                    #[derive(core::marker::Copy, core::clone::Clone)]
+                    #[derive(::core::marker::Copy, ::core::clone::Clone)]
                 });
             }
         }
diff --git a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
index aeac6fa..930270c 100644
--- a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
@@ -62,7 +62,7 @@ impl BuilderFeature {
                 this: #bitfield_name_tokens,
             }
 
-            impl Default for #builder_ident_tokens {
+            impl ::core::default::Default for #builder_ident_tokens {
                 fn default() -> Self {
                     Self::new()
                 }
@@ -174,7 +174,7 @@ impl BuilderFeature {
             #[doc = #checked_setter_documentation]
             #visibility_tokens #function_modifier_tokens fn #builder_checked_setter_name_token_stream(mut self, bits: #data_type_tokens) -> ::core::result::Result<Self, &'static str> {
                 #checked_set_bits_logic_tokens
-                Ok(self)
+                ::core::result::Result::Ok(self)
             }
         }
     }
diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 4e97364..c492221 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -323,8 +323,8 @@ fn generate_builder_direct_setter_call_tokens(field: &Field, check_bit_size: boo
     if check_bit_size {
         quote! {
             match #call {
-                Ok(()) => {},
-                Err(e) => return Err(e),
+                ::core::result::Result::Ok(()) => {},
+                ::core::result::Result::Err(e) => return ::core::result::Result::Err(e),
             }
         }
     } else {
@@ -354,13 +354,13 @@ fn get_value_variable_tokens(field: &Field) -> TokenStream {
 fn generate_custom_bit_size_check_tokens() -> TokenStream {
     quote! {
         const fn size_of_value<T>(_: &T) -> usize {
-            core::mem::size_of::<T>()
+            ::core::mem::size_of::<T>()
         }
         #[allow(clippy::unnecessary_cast)]
         let value_bits = field_bits as u128 & (u128::MAX >> (128 - 8 * size_of_value(&field_bits)));
         #[allow(clippy::unnecessary_cast)]
         if value_bits > mask as u128 {
-            return Err("Value is too big to fit within the field bits.");
+            return ::core::result::Result::Err("Value is too big to fit within the field bits.");
         }
     }
 }
@@ -380,7 +380,7 @@ fn generate_unsigned_bit_size_check_tokens(field: &Field) -> TokenStream {
 
     quote! {
         if bits > #max_lit {
-            return Err("Value is too big to fit within the field bits.");
+            return ::core::result::Result::Err("Value is too big to fit within the field bits.");
         }
     }
 }
@@ -397,12 +397,12 @@ fn generate_array_bit_size_check_tokens(field: &Field, length: usize) -> TokenSt
 
     quote! {
         if bits[#full_bytes] >> #remaining_bits != 0 {
-            return Err("Value is too big to fit within the field bits.");
+            return ::core::result::Result::Err("Value is too big to fit within the field bits.");
         }
         let mut __i: usize = #full_bytes + 1;
         while __i < #length {
             if bits[__i] != 0 {
-                return Err("Value is too big to fit within the field bits.");
+                return ::core::result::Result::Err("Value is too big to fit within the field bits.");
             }
             __i += 1;
         }
@@ -428,7 +428,7 @@ fn generate_signed_bit_size_check_tokens(field: &Field) -> TokenStream {
 
     quote! {
         if bits > #max_lit || bits < -(#min_abs_lit) {
-            return Err("Value is too big to fit within the field bits.");
+            return ::core::result::Result::Err("Value is too big to fit within the field bits.");
         }
     }
 }
diff --git a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
index 4c99abe..f8e8510 100644
--- a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
@@ -38,8 +38,8 @@ impl DebugTraitFeature {
         let set_debug_fields = Self::generate_debug_set_field_tokens(bitfield);
 
         quote! {
-            impl core::fmt::Debug for #bitfield_name_tokens {
-                fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+            impl ::core::fmt::Debug for #bitfield_name_tokens {
+                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                     let this = self;
                     let mut debug = f.debug_struct(#bitfield_name);
                     #set_debug_fields
diff --git a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
index 3efd4bd..45fdc89 100644
--- a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
@@ -36,7 +36,7 @@ impl DefaultTraitFeature {
             Self::generate_default_trait_feature_implementation_tokens(bitfield);
 
         quote! {
-            impl core::default::Default for #bitfield_name_tokens {
+            impl ::core::default::Default for #bitfield_name_tokens {
                 fn default() -> #bitfield_name_tokens {
                     #default_trait_feature_implementation_tokens
                 }
diff --git a/bitfields_impl/src/generating/bitfield/features/field_setters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_setters_feature.rs
index c9d4252..bf2507d 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_setters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_setters_feature.rs
@@ -80,7 +80,7 @@ impl FieldSettersFeature {
             #visibility_tokens #function_modifier_tokens fn #checked_field_setter_ident_tokens(&mut self, bits: #field_data_type_tokens) -> ::core::result::Result<(), &'static str> {
                 let this = self;
                 #checked_set_bits_logic_tokens
-                Ok(())
+                ::core::result::Result::Ok(())
             }
         }
     }
diff --git a/bitfields_impl/src/generating/bitfield/features/from_into_bits_feature.rs b/bitfields_impl/src/generating/bitfield/features/from_into_bits_feature.rs
index a62d506..c7eff9d 100644
--- a/bitfields_impl/src/generating/bitfield/features/from_into_bits_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/from_into_bits_feature.rs
@@ -333,7 +333,7 @@ impl FromIntoBitsFeature {
 
         let size_check_tokens = quote! {
             if slice.len() < #array_len {
-                return Err("Slice is too small to fill the bitfield.");
+                return ::core::result::Result::Err("Slice is too small to fill the bitfield.");
             }
         };
 
@@ -390,7 +390,7 @@ impl FromIntoBitsFeature {
                 #default_endian_tokens
                 let mut this = #bitfield_struct_initialization_tokens;
                 #extract_all_field_bits_tokens
-                Ok(this)
+                ::core::result::Result::Ok(this)
             }
 
             #[doc = "Creates a new bitfield instance from the given byte slice while \
@@ -403,7 +403,7 @@ impl FromIntoBitsFeature {
                 let mut this = #bitfield_struct_initialization_tokens;
                 #extract_all_field_bits_tokens
                 #( #setting_fields_to_default_value_tokens_list )*
-                Ok(this)
+                ::core::result::Result::Ok(this)
             }
 
             #[doc = "Creates a new bitfield instance from the given little-endian byte \
@@ -438,7 +438,7 @@ impl FromIntoBitsFeature {
                 #le_endian_tokens
                 let mut this = #bitfield_struct_initialization_tokens;
                 #extract_all_field_bits_tokens
-                Ok(this)
+                ::core::result::Result::Ok(this)
             }
 
             #[doc = "Creates a new bitfield instance from the given little-endian byte \
@@ -451,7 +451,7 @@ impl FromIntoBitsFeature {
                 let mut this = #bitfield_struct_initialization_tokens;
                 #extract_all_field_bits_tokens
                 #( #setting_fields_to_default_value_tokens_list )*
-                Ok(this)
+                ::core::result::Result::Ok(this)
             }
 
             #[doc = "Creates a new bitfield instance from the given big-endian byte \
@@ -486,7 +486,7 @@ impl FromIntoBitsFeature {
                 #be_endian_tokens
                 let mut this = #bitfield_struct_initialization_tokens;
                 #extract_all_field_bits_tokens
-                Ok(this)
+                ::core::result::Result::Ok(this)
             }
 
             #[doc = "Creates a new bitfield instance from the given big-endian byte \
@@ -499,7 +499,7 @@ impl FromIntoBitsFeature {
                 let mut this = #bitfield_struct_initialization_tokens;
                 #extract_all_field_bits_tokens
                 #( #setting_fields_to_default_value_tokens_list )*
-                Ok(this)
+                ::core::result::Result::Ok(this)
             }
         }
     }
@@ -649,7 +649,7 @@ impl FromIntoBitsFeature {
 
         let size_check_tokens = quote! {
             if slice.len() < #array_len {
-                return Err("Slice is too small to hold the bitfield.");
+                return ::core::result::Result::Err("Slice is too small to hold the bitfield.");
             }
         };
 
@@ -672,7 +672,7 @@ impl FromIntoBitsFeature {
                 #size_check_tokens
                 #default_get_bits
                 #copy_exact_to_slice_tokens
-                Ok(())
+                ::core::result::Result::Ok(())
             }
 
             #[doc = "Writes the bitfield bytes in little-endian order into the \
@@ -692,7 +692,7 @@ impl FromIntoBitsFeature {
                 #size_check_tokens
                 #le_get_bits
                 #copy_exact_to_slice_tokens
-                Ok(())
+                ::core::result::Result::Ok(())
             }
 
             #[doc = "Writes the bitfield bytes in big-endian order into the \
@@ -712,7 +712,7 @@ impl FromIntoBitsFeature {
                 #size_check_tokens
                 #be_get_bits
                 #copy_exact_to_slice_tokens
-                Ok(())
+                ::core::result::Result::Ok(())
             }
         }
     }
diff --git a/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs b/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs
index e1616cf..c3b618b 100644
--- a/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs
@@ -69,7 +69,7 @@ impl FromTraitsFeature {
         let source_param = generate_backing_data_param_ident(bitfield);
 
         quote! {
-            impl core::convert::From<#bitfield_data_type_tokens> for #bitfield_name_tokens {
+            impl ::core::convert::From<#bitfield_data_type_tokens> for #bitfield_name_tokens {
                 fn from(#source_param: #bitfield_data_type_tokens) -> Self {
                     let mut this = #initialize_struct_initialization_tokens;
                     let bits = #bits_return_endian_conversion_tokens;
@@ -89,7 +89,7 @@ impl FromTraitsFeature {
             );
 
         quote! {
-            impl core::convert::From<#bitfield_name_tokens> for #bitfield_data_type_tokens {
+            impl ::core::convert::From<#bitfield_name_tokens> for #bitfield_data_type_tokens {
                 fn from(val: #bitfield_name_tokens) -> Self {
                     let mut this = val;
                     #bits_return_endian_conversion_tokens
diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index dd119b3..13ad86d 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -121,7 +121,7 @@ impl SetGetBitOpsFeature {
                         #bitfield_internal_value_ident_tokens &= !(1 << offset);
                     }
 
-                    Ok(())
+                    ::core::result::Result::Ok(())
                 }
 
                 #[doc = "Sets bits in the bitfield starting from the offset \
@@ -150,10 +150,10 @@ impl SetGetBitOpsFeature {
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
-                        return Err("Attempted to write to non-writable bit(s).");
+                        return ::core::result::Result::Err("Attempted to write to non-writable bit(s).");
                     }
                     #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !(mask << offset)) | ((value & mask) << offset);
-                    Ok(())
+                    ::core::result::Result::Ok(())
                 }
             }
         } else {
@@ -190,7 +190,7 @@ impl SetGetBitOpsFeature {
                         #bitfield_internal_value_ident_tokens[byte_idx as usize] &= !(1 << bit_in_byte);
                     }
 
-                    Ok(())
+                    ::core::result::Result::Ok(())
                 }
 
                 #[doc = "Sets bytes in the bitfield starting from the offset \
@@ -235,7 +235,7 @@ impl SetGetBitOpsFeature {
                         let dst_bit_in_byte = dst_bit % 8;
                         let is_protected = (protected_mask[dst_byte_idx] >> dst_bit_in_byte) & 1 != 0;
                         if is_protected {
-                            return Err("Attempted to write to non-writable bit(s).");
+                            return ::core::result::Result::Err("Attempted to write to non-writable bit(s).");
                         }
                         i += 1;
                     }
@@ -252,7 +252,7 @@ impl SetGetBitOpsFeature {
                         }
                         i += 1;
                     }
-                    Ok(())
+                    ::core::result::Result::Ok(())
                 }
             }
         }
@@ -319,7 +319,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #field_bit_read_guard_error
-                    Ok((#bitfield_internal_value_ident_tokens >> offset) & 1 != 0)
+                    ::core::result::Result::Ok((#bitfield_internal_value_ident_tokens >> offset) & 1 != 0)
                 }
 
                 #[doc = "Returns bits from the bitfield."]
@@ -346,9 +346,9 @@ impl SetGetBitOpsFeature {
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
-                        return Err("Attempted to read from non-readable bit(s).");
+                        return ::core::result::Result::Err("Attempted to read from non-readable bit(s).");
                     }
-                    Ok((#bitfield_internal_value_ident_tokens >> offset) & mask)
+                    ::core::result::Result::Ok((#bitfield_internal_value_ident_tokens >> offset) & mask)
                 }
             }
         } else {
@@ -371,7 +371,7 @@ impl SetGetBitOpsFeature {
                     #field_bit_read_guard_error
                     let byte_idx = offset / 8;
                     let bit_in_byte = offset % 8;
-                    Ok((#bitfield_internal_value_ident_tokens[byte_idx as usize] >> bit_in_byte) & 1 != 0)
+                    ::core::result::Result::Ok((#bitfield_internal_value_ident_tokens[byte_idx as usize] >> bit_in_byte) & 1 != 0)
                 }
 
                 #[doc = "Returns bytes from the bitfield."]
@@ -414,7 +414,7 @@ impl SetGetBitOpsFeature {
                         let src_bit_in_byte = src_bit % 8;
                         let is_protected = (protected_mask[src_byte] >> src_bit_in_byte) & 1 != 0;
                         if is_protected {
-                            return Err("Attempted to read from non-readable bit(s).");
+                            return ::core::result::Result::Err("Attempted to read from non-readable bit(s).");
                         }
                         i += 1;
                     }
@@ -430,7 +430,7 @@ impl SetGetBitOpsFeature {
                         res[dst_byte] |= bit_val << dst_bit_in_byte;
                         i += 1;
                     }
-                    Ok(res)
+                    ::core::result::Result::Ok(res)
                 }
             }
         }
@@ -546,22 +546,22 @@ impl SetGetBitOpsFeature {
             },
             GuardReturnType::OffsetOutOfRangeError => {
                 quote! {
-                    return Err("The offset is outside the bitfield range.");
+                    return ::core::result::Result::Err("The offset is outside the bitfield range.");
                 }
             },
             GuardReturnType::LengthOutOfRangeError => {
                 quote! {
-                    return Err("The length is outside the bitfield range.");
+                    return ::core::result::Result::Err("The length is outside the bitfield range.");
                 }
             },
             GuardReturnType::AttemptedToWriteNonWritableBitsError => {
                 quote! {
-                    return Err("Attempted to write to non-writable bit(s).");
+                    return ::core::result::Result::Err("Attempted to write to non-writable bit(s).");
                 }
             },
             GuardReturnType::AttemptedToReadNonReadableBitsError => {
                 quote! {
-                    return Err("Attempted to read from non-readable bit(s).");
+                    return ::core::result::Result::Err("Attempted to read from non-readable bit(s).");
                 }
             },
         }
diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index fe95e09..26d70b6 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -40,7 +40,7 @@ fn generate_repr_tokens(bitflag: &Bitflag) -> TokenStream {
 fn generate_copy_derive_tokens(bitflag: &Bitflag) -> TokenStream {
     if bitflag.arguments().derive_copy() {
         quote! {
-            #[derive(core::marker::Copy, core::clone::Clone)]
+            #[derive(::core::marker::Copy, ::core::clone::Clone)]
         }
     } else {
         quote! {}
-- 
2.43.0


From 2354888808617074276bdbde73a5ac133b6a017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:57 +0000
Subject: [PATCH 38/44] fix: reject repeated #[bits] attributes instead of
 ignoring all but the first

---
 .../src/parsing/bitfields/bitfield_parser.rs        | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 2fba017..804c753 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -163,12 +163,19 @@ fn parse_ignored_field(field_tokens: &syn::Field) -> Field {
 
 /// Returns the bits attribute if the field is attributed.
 fn get_bits_attribute(field_tokens: &syn::Field) -> syn::Result<Option<BitsAttribute>> {
-    let bits_attribute = field_tokens
+    let mut bits_attributes = field_tokens
         .attrs
         .iter()
-        .find(|attr| attr.path().is_ident("bits") && attr.style == syn::AttrStyle::Outer);
+        .filter(|attr| attr.path().is_ident("bits") && attr.style == syn::AttrStyle::Outer);
 
-    let Some(attr) = bits_attribute else { return Ok(None) };
+    let Some(attr) = bits_attributes.next() else { return Ok(None) };
+
+    if let Some(repeated_attr) = bits_attributes.next() {
+        return Err(create_user_parsing_compiler_error(
+            repeated_attr.span(),
+            "A field can only have one '#[bits]' attribute.",
+        ));
+    }
 
     let Meta::List(bits_attribute_tokens) = &attr.meta else {
         return Err(create_user_parsing_compiler_error(
-- 
2.43.0


From d7205278a831bc40e3d7d871e1796aa952b61060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:58 +0000
Subject: [PATCH 39/44] fix: reject generic parameters and variant fields
 instead of dropping them

---
 .../src/parsing/bitfields/bitfield_parser.rs  | 14 +++++++++++
 .../src/parsing/bitflags/bitflag_parser.rs    | 23 ++++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 804c753..dcf10e5 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -20,6 +20,7 @@ use crate::parsing::common::visibility::Visibility;
 /// Parses a bitfield struct annotated with `#[bitfield(..)]`.
 pub fn parse_bitfield_struct(args: TokenStream, input: TokenStream) -> syn::Result<Bitfield> {
     let struct_tokens = parse_struct_tokens(&input)?;
+    check_not_generic(&struct_tokens)?;
     let user_attributes_tokens =
         struct_tokens.attrs.iter().map(quote::ToTokens::into_token_stream).collect();
     let visibility = Visibility::new(&struct_tokens.vis);
@@ -44,6 +45,19 @@ fn parse_struct_tokens(input: &TokenStream) -> syn::Result<ItemStruct> {
     syn::parse2::<ItemStruct>(input.clone())
 }
 
+/// Ensures the struct isn't generic, the generated code has no place for the
+/// parameters.
+fn check_not_generic(struct_tokens: &ItemStruct) -> syn::Result<()> {
+    if struct_tokens.generics.params.is_empty() {
+        return Ok(());
+    }
+
+    Err(create_user_parsing_compiler_error(
+        struct_tokens.generics.span(),
+        "Generic bitfields are not supported.",
+    ))
+}
+
 fn parse_bitfield_attribute(args: TokenStream) -> syn::Result<BitfieldAttribute> {
     syn::parse2(args)
 }
diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index a14494b..ba4b875 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -2,7 +2,7 @@ use proc_macro2::TokenStream;
 use quote::quote;
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
-use syn::{ItemEnum, Token, Variant};
+use syn::{Fields, ItemEnum, Token, Variant};
 
 use crate::parsing::bitflags::bitflag::{Bitflag, BitflagVariant};
 use crate::parsing::bitflags::bitflag_attribute_parser::BitflagAttribute;
@@ -15,6 +15,7 @@ use crate::parsing::common::visibility::Visibility;
 /// Parses an enum annotated with `#[bitflag(..)]` into a [`Bitflag`].
 pub fn parse_bitflag_enum(args: TokenStream, input: TokenStream) -> syn::Result<Bitflag> {
     let enum_tokens = parse_enum_tokens(&input)?;
+    check_not_generic(&enum_tokens)?;
     let user_attributes_tokens =
         enum_tokens.attrs.iter().map(quote::ToTokens::into_token_stream).collect();
     let visibility = Visibility::new(&enum_tokens.vis);
@@ -39,6 +40,19 @@ fn parse_enum_tokens(input: &TokenStream) -> syn::Result<ItemEnum> {
     syn::parse2::<ItemEnum>(input.clone())
 }
 
+/// Ensures the enum isn't generic, the generated code has no place for the
+/// parameters.
+fn check_not_generic(enum_tokens: &ItemEnum) -> syn::Result<()> {
+    if enum_tokens.generics.params.is_empty() {
+        return Ok(());
+    }
+
+    Err(create_user_parsing_compiler_error(
+        enum_tokens.generics.span(),
+        "Generic bitflags are not supported.",
+    ))
+}
+
 fn parse_bitflag_attribute(args: TokenStream) -> syn::Result<BitflagAttribute> {
     syn::parse2(args)
 }
@@ -53,6 +67,13 @@ const DEFAULT_MACRO_NAME: &str = "default";
 
 /// Converts a single [`Variant`] into a [`BitflagVariant`].
 fn parse_variant_helper(variant: &Variant) -> syn::Result<BitflagVariant> {
+    if !matches!(variant.fields, Fields::Unit) {
+        return Err(create_user_parsing_compiler_error(
+            variant.ident.span(),
+            format!("Bitflag variant '{}' can't have fields.", variant.ident),
+        ));
+    }
+
     let base = variant.attrs.iter().any(|attr| attr.path().is_ident(BASE_BITFLAG_ENTRY_MACRO_NAME));
     let default = variant.attrs.iter().any(|attr| attr.path().is_ident(DEFAULT_MACRO_NAME));
 
-- 
2.43.0


From 3a3f52c1b3b4d96d8a518671128f13d6dee789ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:27 +0000
Subject: [PATCH 40/44] fix: keep $crate and macro fragments of default values
 and bitflag values

---
 .../bits_attribute/bits_arguments.rs          |  3 +-
 .../src/parsing/bitflags/bitflag_parser.rs    |  9 +--
 .../common/attribute_argument_parser.rs       | 11 +++-
 .../src/parsing/common/const_expr.rs          | 61 +++++++++++++++----
 4 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bits_attribute/bits_arguments.rs b/bitfields_impl/src/parsing/bitfields/bits_attribute/bits_arguments.rs
index e178b0d..7b48162 100644
--- a/bitfields_impl/src/parsing/bitfields/bits_attribute/bits_arguments.rs
+++ b/bitfields_impl/src/parsing/bitfields/bits_attribute/bits_arguments.rs
@@ -118,7 +118,8 @@ impl Parse for BitsArguments {
                     bits_arguments.ignored = parse_boolean_attribute_argument(argument)?;
                 },
                 BitsArgumentKey::Default => {
-                    bits_arguments.default_value_expr = Some(ConstExpr::new(&argument.value())?);
+                    bits_arguments.default_value_expr =
+                        Some(ConstExpr::new(&argument.value_expr())?);
                 },
             }
         }
diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index ba4b875..3675181 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -1,5 +1,4 @@
 use proc_macro2::TokenStream;
-use quote::quote;
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
 use syn::{Fields, ItemEnum, Token, Variant};
@@ -9,7 +8,6 @@ use crate::parsing::bitflags::bitflag_attribute_parser::BitflagAttribute;
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::const_expr::ConstExpr;
 use crate::parsing::common::spanned_data_type::DataType;
-use crate::parsing::common::spanned_token::SpannedToken;
 use crate::parsing::common::visibility::Visibility;
 
 /// Parses an enum annotated with `#[bitflag(..)]` into a [`Bitflag`].
@@ -87,12 +85,7 @@ fn parse_variant_helper(variant: &Variant) -> syn::Result<BitflagVariant> {
     let name_ident = variant.ident.clone();
 
     let value = match variant.discriminant.clone() {
-        Some((_, expr)) => {
-            let token = quote!(#expr).to_string();
-            let span = expr.span();
-            let spanned_token = SpannedToken::new(token, span);
-            ConstExpr::new(&spanned_token)?
-        },
+        Some((_, expr)) => ConstExpr::new(&expr)?,
         None => {
             return Err(create_user_parsing_compiler_error(
                 variant.ident.span(),
diff --git a/bitfields_impl/src/parsing/common/attribute_argument_parser.rs b/bitfields_impl/src/parsing/common/attribute_argument_parser.rs
index 9db6421..c4977a0 100644
--- a/bitfields_impl/src/parsing/common/attribute_argument_parser.rs
+++ b/bitfields_impl/src/parsing/common/attribute_argument_parser.rs
@@ -4,7 +4,7 @@ use getset::CloneGetters;
 use quote::quote;
 use syn::parse::ParseStream;
 use syn::spanned::Spanned;
-use syn::{Ident, Token};
+use syn::{Expr, Ident, Token};
 
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::spanned_token::SpannedToken;
@@ -17,13 +17,17 @@ pub struct AttributeArgument {
 
     #[getset(get_clone = "pub")]
     value: SpannedToken,
+
+    #[getset(get_clone = "pub")]
+    value_expr: Expr,
 }
 
 impl AttributeArgument {
-    pub const fn new(key: SpannedToken, value: SpannedToken) -> Self {
+    pub const fn new(key: SpannedToken, value: SpannedToken, value_expr: Expr) -> Self {
         Self {
             key,
             value,
+            value_expr,
         }
     }
 }
@@ -87,7 +91,7 @@ pub fn parse_attribute_arguments(
 
         // Parse value — accept an ident/path (e.g. `lsb` or `CustomType::A`) or
         // a literal (e.g. `true`, `42`)
-        let expr: syn::Expr = match input.parse() {
+        let expr: Expr = match input.parse() {
             Ok(expr) => expr,
             Err(_) => {
                 return Err(create_user_parsing_compiler_error(
@@ -103,6 +107,7 @@ pub fn parse_attribute_arguments(
         arguments.push(AttributeArgument::new(
             SpannedToken::new(key.to_string(), key.span()),
             SpannedToken::new(value, value_span),
+            expr,
         ));
     }
 
diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 1ad2710..237336f 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -1,5 +1,6 @@
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
 use quote::quote;
+use syn::spanned::Spanned;
 use syn::Expr;
 
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
@@ -22,7 +23,7 @@ pub enum ConstExpr {
     Literal { number: u128, negative_sign: bool, spanned_token: SpannedToken },
 
     /// A constant path.
-    Path { spanned_token: SpannedToken },
+    Path { spanned_token: SpannedToken, expr: Expr },
 }
 
 enum IntegerPrefix {
@@ -59,7 +60,9 @@ impl IntegerPrefix {
 }
 
 impl ConstExpr {
-    pub fn new(spanned_token: &SpannedToken) -> syn::Result<Self> {
+    pub fn new(expr: &Expr) -> syn::Result<Self> {
+        let spanned_token = &SpannedToken::new(quote!(#expr).to_string(), expr.span());
+
         // The token may be broken into multiple lines when it's long.
         let trimmed_number_str = spanned_token
             .token()
@@ -78,7 +81,7 @@ impl ConstExpr {
         }
 
         // Parsing as integer failed; assume it's a path and let the compiler handle it.
-        Ok(Self::parse_path(spanned_token))
+        Ok(Self::parse_path(spanned_token, expr))
     }
 
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
@@ -208,9 +211,10 @@ impl ConstExpr {
         }
     }
 
-    fn parse_path(spanned_token: &SpannedToken) -> Self {
+    fn parse_path(spanned_token: &SpannedToken, expr: &Expr) -> Self {
         Self::Path {
             spanned_token: spanned_token.clone(),
+            expr: expr.clone(),
         }
     }
 
@@ -220,7 +224,7 @@ impl ConstExpr {
                 spanned_token, ..
             }
             | Self::Path {
-                spanned_token,
+                spanned_token, ..
             } => spanned_token.span(),
         }
     }
@@ -237,12 +241,45 @@ impl ToTokens for ConstExpr {
                 quote! { #expr }
             },
             Self::Path {
-                spanned_token,
-            } => {
-                let expr: Expr = syn::parse_str(&spanned_token.token())
-                    .expect("Failed to parse previously accepted path expression");
-                quote! { #expr }
-            },
+                expr, ..
+            } => relocate_tokens(quote! { #expr }),
         }
     }
 }
+
+/// Points the tokens to the macro call site. Unlike their string representation,
+/// the tokens keep what their names resolve to and the precedence of operators
+/// passed as a single `macro_rules!` fragment.
+fn relocate_tokens(tokens: TokenStream) -> TokenStream {
+    tokens
+        .into_iter()
+        .map(|mut token| {
+            token = match token {
+                TokenTree::Group(group) => {
+                    let delimiter = if is_operator_fragment(&group) {
+                        Delimiter::Parenthesis
+                    } else {
+                        group.delimiter()
+                    };
+                    Group::new(delimiter, relocate_tokens(group.stream())).into()
+                },
+                TokenTree::Ident(mut ident) => {
+                    ident.set_span(ident.span().located_at(Span::call_site()));
+                    return ident.into();
+                },
+                token => token,
+            };
+            token.set_span(Span::call_site());
+            token
+        })
+        .collect()
+}
+
+/// Returns whether the group is an invisible group around an operator.
+fn is_operator_fragment(group: &Group) -> bool {
+    group.delimiter() == Delimiter::None
+        && matches!(
+            syn::parse2(group.stream()),
+            Ok(Expr::Binary(_) | Expr::Unary(_) | Expr::Cast(_))
+        )
+}
-- 
2.43.0


From 94e63641b08621d66cd810adde6a2466bb3f06d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:23 +0000
Subject: [PATCH 41/44] fix: accept any constant expression as a default value

---
 bitfields_impl/src/parsing/common/const_expr.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 237336f..31dcc04 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -1,7 +1,7 @@
 use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
 use quote::quote;
 use syn::spanned::Spanned;
-use syn::Expr;
+use syn::{Expr, UnOp};
 
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::spanned_token::SpannedToken;
@@ -63,6 +63,11 @@ impl ConstExpr {
     pub fn new(expr: &Expr) -> syn::Result<Self> {
         let spanned_token = &SpannedToken::new(quote!(#expr).to_string(), expr.span());
 
+        // Only literals can be checked; let the compiler handle anything else.
+        if !Self::is_literal(expr) {
+            return Ok(Self::parse_path(spanned_token, expr));
+        }
+
         // The token may be broken into multiple lines when it's long.
         let trimmed_number_str = spanned_token
             .token()
@@ -84,6 +89,16 @@ impl ConstExpr {
         Ok(Self::parse_path(spanned_token, expr))
     }
 
+    /// Returns whether the expression is a literal with optional negation.
+    fn is_literal(expr: &Expr) -> bool {
+        match expr {
+            Expr::Lit(_) => true,
+            Expr::Group(group) => Self::is_literal(&group.expr),
+            Expr::Unary(unary) => matches!(unary.op, UnOp::Neg(_)) && Self::is_literal(&unary.expr),
+            _ => false,
+        }
+    }
+
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
         let number_str = number_str.trim_start_matches(NEGATIVE_SIGN);
         if !number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
-- 
2.43.0


From 1d620d4b2bc19fb8fa5e3e315fd42eca4a3eb369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:20 +0000
Subject: [PATCH 42/44] fix: compute default expressions with the type of their
 field

---
 .../features/common/generator_helper.rs       | 16 ++++++++++----
 .../src/parsing/common/const_expr.rs          | 22 +++++++++++++++++++
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index c492221..4bc2988 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -130,12 +130,21 @@ pub fn generate_setting_fields_to_default_value_tokens_list(
 
 /// Generates tokens for setting a field to default.
 pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Field) -> TokenStream {
-    let field_default_value_tokens = field
+    let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+    let field_default_value_expr = field
         .arguments()
         .expect("Expected field arguments when setting default value")
         .default_value_expr()
-        .expect("Expected default value when setting field defaults")
-        .to_tokens();
+        .expect("Expected default value when setting field defaults");
+    let mut field_default_value_tokens = field_default_value_expr.to_tokens();
+
+    if matches!(field.spanned_data_type_token().data_type(), DataType::Integer(_))
+        && field_default_value_expr.has_inferred_type()
+    {
+        field_default_value_tokens = quote! {
+            { let default_value: #field_data_type_tokens = #field_default_value_tokens; default_value }
+        };
+    }
 
     if field.has_setter() {
         return generate_field_setter_call_tokens(
@@ -147,7 +156,6 @@ pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Fie
     }
 
     // There's no setter whose argument checks the type of the default value.
-    let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
     let has_field_data_type = match field.spanned_data_type_token().data_type() {
         DataType::Custom => true,
         DataType::Array {
diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 31dcc04..fb18b55 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -233,6 +233,28 @@ impl ConstExpr {
         }
     }
 
+    /// Returns whether the type of the expression depends on where it's used,
+    /// unlike the type of a constant or a function.
+    pub fn has_inferred_type(&self) -> bool {
+        match self {
+            Self::Literal {
+                ..
+            } => false,
+            Self::Path {
+                expr, ..
+            } => {
+                let mut expr = expr;
+                while let Expr::Group(group) = expr {
+                    expr = &group.expr;
+                }
+                !matches!(
+                    expr,
+                    Expr::Lit(_) | Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_)
+                )
+            },
+        }
+    }
+
     pub fn span(&self) -> Span {
         match self {
             Self::Literal {
-- 
2.43.0


From b9bc1ed73a70cec9f33f65d96a170f1fcc3c6852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 43/44] fix: let Self in default values mean the bitfield in
 builders without constructors

---
 .../bitfield/features/builder_feature.rs      | 33 +++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
index 930270c..569a978 100644
--- a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Group, Ident, TokenStream, TokenTree};
 use quote::{ToTokens as QuoteToTokens, format_ident, quote};
 
 use crate::generating::bitfield::feature::{Feature, FeaturePosition};
@@ -111,11 +111,14 @@ impl BuilderFeature {
                 }
             }
         } else {
-            let new_implementation_tokens = generate_new_function_implementation_tokens(
-                bitfield,
-                generate_setting_defaults,
-                /* builder_caller= */ true,
-                /* existing_bitfield= */ false,
+            let new_implementation_tokens = Self::refer_self_to_bitfield(
+                generate_new_function_implementation_tokens(
+                    bitfield,
+                    generate_setting_defaults,
+                    /* builder_caller= */ true,
+                    /* existing_bitfield= */ false,
+                ),
+                &bitfield.name_ident(),
             );
             quote! {
                 #new_implementation_tokens
@@ -126,6 +129,24 @@ impl BuilderFeature {
         }
     }
 
+    /// Makes `Self` in default values (e.g. `Self::MODE`) mean the bitfield
+    /// instead of the builder.
+    fn refer_self_to_bitfield(tokens: TokenStream, bitfield_ident: &Ident) -> TokenStream {
+        tokens
+            .into_iter()
+            .map(|token| match token {
+                TokenTree::Ident(ident) if ident == "Self" => bitfield_ident.clone().into(),
+                TokenTree::Group(group) => {
+                    let tokens = Self::refer_self_to_bitfield(group.stream(), bitfield_ident);
+                    let mut bitfield_group = Group::new(group.delimiter(), tokens);
+                    bitfield_group.set_span(group.span());
+                    bitfield_group.into()
+                },
+                token => token,
+            })
+            .collect()
+    }
+
     fn generate_builder_setters(bitfield: &Bitfield) -> TokenStream {
         bitfield
             .fields()
-- 
2.43.0


From 88c07d673825896be26bd042833402eff56b6dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:12 +0000
Subject: [PATCH 44/44] fix: keep $crate in pub(in path) visibilities

---
 .../src/parsing/bitfields/bitfield_parser.rs           |  2 +-
 bitfields_impl/src/parsing/common/visibility.rs        | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index dcf10e5..fd62ebf 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -517,7 +517,7 @@ fn get_field_access(
 fn get_field_visibility(bitfield_visibility: &Visibility, field_tokens: &syn::Field) -> Visibility {
     let visibility = Visibility::new(&field_tokens.vis);
 
-    if visibility == Visibility::Private {
+    if matches!(visibility, Visibility::Private) {
         return bitfield_visibility.clone();
     }
 
diff --git a/bitfields_impl/src/parsing/common/visibility.rs b/bitfields_impl/src/parsing/common/visibility.rs
index dffc7f5..6898aed 100644
--- a/bitfields_impl/src/parsing/common/visibility.rs
+++ b/bitfields_impl/src/parsing/common/visibility.rs
@@ -4,13 +4,13 @@ use quote::quote;
 use crate::parsing::common::to_tokens::ToTokens;
 
 /// Represents the visibility of an item.
-#[derive(Clone, Debug, PartialEq, Eq)]
+#[derive(Clone, Debug)]
 pub enum Visibility {
     /// A public visibility level.
     Public,
 
     /// A restricted visibility level.
-    Restricted(String),
+    Restricted(TokenStream),
 
     /// A private visibility level.
     Private,
@@ -22,7 +22,7 @@ impl Visibility {
         match vis {
             syn::Visibility::Public(_) => Self::Public,
             syn::Visibility::Restricted(r) => {
-                Self::Restricted(quote! { #r }.to_string())
+                Self::Restricted(quote! { #r })
             },
             syn::Visibility::Inherited => Self::Private,
         }
@@ -37,9 +37,7 @@ impl ToTokens for Visibility {
                     pub
                 }
             },
-            Self::Restricted(restricted) => restricted
-                .parse()
-                .expect("Failed to parse previously accepted restricted visibility"),
+            Self::Restricted(restricted) => restricted.clone(),
             Self::Private => {
                 quote! {}
             },
-- 
2.43.0


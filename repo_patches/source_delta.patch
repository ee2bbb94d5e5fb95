From 62f76d4c2d3d0d911bcca223a180e65f4711c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 01/70] fix: decode variable length integers wider than two
 bytes, and reject ones that do not fit

---
 protospec-build/src/prelude/var.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/prelude/var.rs b/protospec-build/src/prelude/var.rs
index 66b0e50..794d9bc 100644
--- a/protospec-build/src/prelude/var.rs
+++ b/protospec-build/src/prelude/var.rs
@@ -71,23 +71,28 @@ impl ForeignType for VarInt {
         is_async: bool,
     ) -> TokenStream {
         let inner = self.type_ref();
-        let end = (self.scalar_type.size() as f64 / 7.0).ceil() as usize;
+        // the number of 7-bit groups that hold all of the bits of the scalar
+        let end = (self.scalar_type.size() as usize * 8 + 6) / 7;
         let inner_unsigned = emit_type_ref(&self.unsigned);
         let async_ = map_async(is_async);
         quote! {
             let #output_ref = {
                 let mut i = 0usize;
                 let mut buf = [0xffu8; 1];
-                let mut output: #inner = 0;
+                let mut output: #inner_unsigned = 0;
                 while (buf[0] & 128) == 128 {
+                    if i >= #end {
+                        return Err(decode_error("variable length integer is too long").into());
+                    }
                     #source.read_exact(&mut buf[..])#async_?;
-                    output |= ((buf[0] as #inner_unsigned & 127) << (i * 7)) as #inner;
-                    i += 1;
-                    if i > #end {
-                        break;
+                    let group = buf[0] as #inner_unsigned & 127;
+                    if ((group << (i * 7)) >> (i * 7)) != group {
+                        return Err(decode_error("variable length integer is out of range").into());
                     }
+                    output |= group << (i * 7);
+                    i += 1;
                 }
-                output
+                output as #inner
             };
         }
     }
-- 
2.43.0


From eff29219d4845aa9010b809eead4d59cb4a1ab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 02/70] fix: decode utf16 as the big endian it is encoded as,
 without uninitialised or unbounded buffers

---
 protospec-build/src/prelude/utf16.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 76540c5..57724b8 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -31,16 +31,13 @@ impl ForeignType for Utf16 {
         let len = arguments.first().expect("missing len argument");
         quote! {
             let #output_ref = {
-                let t_count = #len as usize;
-                let mut t: Vec<u16> = Vec::with_capacity(t_count);
-                unsafe { t.set_len(t_count); }
-                let t_borrow = &mut t[..];
-                let t_borrow2 = unsafe {
-                    let len = t_borrow.len() * 2;
-                    let ptr = t.as_ptr() as *mut u8;
-                    slice::from_raw_parts_mut(ptr, len)
-                };
-                #source.read_exact(&mut t_borrow2[..])#async_?;
+                let t_count = (#len as usize).checked_mul(2).ok_or_else(|| decode_error("utf16 length overflow"))?;
+                let mut raw: Vec<u8> = Vec::new();
+                (&mut *#source).take(t_count as u64).read_to_end(&mut raw)#async_?;
+                if raw.len() != t_count {
+                    return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                }
+                let t: Vec<u16> = raw.chunks_exact(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect();
                 String::from_utf16(&t[..])?
             };
         }
-- 
2.43.0


From 738c3fa854d1cc6ebf88ad4f450fbb2b80aa6525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 03/70] fix: decode utf8 without uninitialised or unbounded
 buffers

---
 protospec-build/src/prelude/utf8.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 4c01365..52aee3c 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -32,15 +32,11 @@ impl ForeignType for Utf8 {
             quote! {
                 let #output_ref = {
                     let t_count = #len as usize;
-                    let mut t: Vec<u8> = Vec::with_capacity(t_count);
-                    unsafe { t.set_len(t_count); }
-                    let t_borrow = &mut t[..];
-                    let t_borrow2 = unsafe {
-                        let len = t_borrow.len();
-                        let ptr = t.as_ptr() as *mut u8;
-                        slice::from_raw_parts_mut(ptr, len)
-                    };
-                    #source.read_exact(&mut t_borrow2[..])#async_?;
+                    let mut t: Vec<u8> = Vec::new();
+                    (&mut *#source).take(t_count as u64).read_to_end(&mut t)#async_?;
+                    if t.len() != t_count {
+                        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                    }
                     String::from_utf8(t)?
                 };
             }
-- 
2.43.0


From f5a5fb12005c033e60ef09b7aa65df91bd144a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 04/70] fix: refuse to encode strings that do not match their
 length or terminator, and count utf16 length in units

---
 protospec-build/src/ffi/type_.rs     |  6 ++++++
 protospec-build/src/prelude/len.rs   |  3 ++-
 protospec-build/src/prelude/utf16.rs | 10 +++++++++-
 protospec-build/src/prelude/utf8.rs  |  8 +++++++-
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/ffi/type_.rs b/protospec-build/src/ffi/type_.rs
index a64e863..310309c 100644
--- a/protospec-build/src/ffi/type_.rs
+++ b/protospec-build/src/ffi/type_.rs
@@ -1,4 +1,5 @@
 use proc_macro2::TokenStream;
+use quote::quote;
 
 use crate::{
     asg::{Type, TypeArgument},
@@ -88,6 +89,11 @@ pub trait ForeignType {
     /// All optional arguments must come at the end of the list of arguments.
     fn arguments(&self) -> Vec<TypeArgument>;
 
+    /// Emits the length of a value of this type, in the unit of its length argument, as a `u64`
+    fn len_gen(&self, value: TokenStream) -> TokenStream {
+        quote! { (#value).len() as u64 }
+    }
+
     /// If true, this type can be freely copied
     fn copyable(&self) -> bool;
 }
diff --git a/protospec-build/src/prelude/len.rs b/protospec-build/src/prelude/len.rs
index 48b3af4..ea9332a 100644
--- a/protospec-build/src/prelude/len.rs
+++ b/protospec-build/src/prelude/len.rs
@@ -27,7 +27,8 @@ impl LenFunction {
                     #size
                 }
             }
-            Type::Array(_) | Type::Foreign(_) => {
+            Type::Foreign(f) => f.obj.len_gen(value.clone()),
+            Type::Array(_) => {
                 quote! {
                     (#value).len() as u64
                 }
diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 57724b8..53627ca 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -47,12 +47,16 @@ impl ForeignType for Utf16 {
         &self,
         target: TokenStream,
         field_ref: TokenStream,
-        _arguments: Vec<TokenStream>,
+        arguments: Vec<TokenStream>,
         is_async: bool,
     ) -> TokenStream {
         let async_ = map_async(is_async);
+        let len = arguments.first().expect("missing len argument");
         quote! {
             {
+                if #field_ref.encode_utf16().count() != (#len as usize) {
+                    return Err(encode_error("utf16 length mismatch").into());
+                }
                 for utf16 in #field_ref.encode_utf16() {
                     #target.write_all(&utf16.to_be_bytes()[..])#async_?;
                 }
@@ -69,6 +73,10 @@ impl ForeignType for Utf16 {
         }]
     }
 
+    fn len_gen(&self, value: TokenStream) -> TokenStream {
+        quote! { (#value).encode_utf16().count() as u64 }
+    }
+
     fn copyable(&self) -> bool {
         false
     }
diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 52aee3c..b5b93de 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -62,15 +62,21 @@ impl ForeignType for Utf8 {
         is_async: bool,
     ) -> TokenStream {
         let async_ = map_async(is_async);
-        if let Some(_) = arguments.first() {
+        if let Some(len) = arguments.first() {
             quote! {
                 {
+                    if #field_ref.len() != (#len as usize) {
+                        return Err(encode_error("utf8 length mismatch").into());
+                    }
                     #target.write_all(#field_ref.as_bytes())#async_?;
                 }
             }
         } else {
             quote! {
                 {
+                    if #field_ref.as_bytes().contains(&0u8) {
+                        return Err(encode_error("nul byte in nul terminated utf8").into());
+                    }
                     #target.write_all(#field_ref.as_bytes())#async_?;
                     #target.write_all(&[0u8])#async_?;
                 }
-- 
2.43.0


From a94748e0f7e2d5dd1e22946b5876d8585f621986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 05/70] fix: do not size decode buffers from lengths read from
 the input

---
 protospec-build/src/compiler/decoder.rs | 32 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 06b50e5..4e62b0e 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -316,11 +316,13 @@ fn prepare_decode(
                     let len = emit_register(*len);
                     statements.push(quote! {
                         let #data = {
-                            let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            let t_count = (#len as usize).checked_mul(size).ok_or_else(|| decode_error("array length overflow"))?;
+                            let mut raw: Vec<u8> = Vec::new();
+                            (&mut *#target).take(t_count as u64).read_to_end(&mut raw)#async_?;
+                            if raw.len() != t_count {
+                                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                            }
                             raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
                         };
                     });
@@ -351,11 +353,13 @@ fn prepare_decode(
                     let len = emit_register(*len);
                     statements.push(quote! {
                         let #data = {
-                            let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            let t_count = (#len as usize).checked_mul(size).ok_or_else(|| decode_error("array length overflow"))?;
+                            let mut raw: Vec<u8> = Vec::new();
+                            (&mut *#target).take(t_count as u64).read_to_end(&mut raw)#async_?;
+                            if raw.len() != t_count {
+                                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                            }
                             raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
                         };
                     });
@@ -378,7 +382,7 @@ fn prepare_decode(
                 let target = emit_target(target);
                 if let Some(stop) = stop {
                     statements.push(quote! {
-                        let mut #output = Vec::with_capacity(#stop as usize);
+                        let mut #output = Vec::new();
                         for _ in 0..#stop {
                             #inner
                         }
@@ -500,10 +504,16 @@ fn prepare_decode(
             }
             Instruction::Skip(target, len) => {
                 let target = emit_target(target);
+                let (copy, sink) = if is_async {
+                    (quote! { tokio::io::copy }, quote! { tokio::io::sink })
+                } else {
+                    (quote! { std::io::copy }, quote! { std::io::sink })
+                };
                 let len = emit_register(*len);
                 statements.push(quote! {
-                    let mut big_scratch = vec![0u8; #len as usize];
-                    #target.read_exact(&mut big_scratch[..])#async_?;
+                    if #copy(&mut (&mut *#target).take(#len as u64), &mut #sink())#async_? != #len as u64 {
+                        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                    }
                 });
             }
         }
-- 
2.43.0


From d1eec95bf68d2b65648fc69b86bc36d99b60a365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 06/70] fix: report an end of stream inside an element of an
 unbounded array

---
 protospec-build/src/compiler/decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 4e62b0e..7c48c2d 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -332,6 +332,9 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
+                            if raw.len() % size != 0 {
+                                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                            }
                             raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
                         };
                     });
@@ -369,6 +372,9 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
+                            if raw.len() % size != 0 {
+                                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                            }
                             raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
                         };
                     });
-- 
2.43.0


From cee10f1f8707e53a94b76066871891e6cd62c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 07/70] fix: generate compilable code for arrays of bool and
 bool variants of tagged enums

---
 protospec-build/src/compiler/decoder.rs | 8 ++++++--
 protospec-build/src/compiler/encoder.rs | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 7c48c2d..48dec11 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -312,6 +312,10 @@ fn prepare_decode(
                     }) => quote! { from_le_bytes },
                     _ => quote! { from_be_bytes },
                 };
+                let item = match type_ {
+                    PrimitiveType::Bool => quote! { x[0] != 0 },
+                    _ => quote! { #type_::#decoder(x.try_into().unwrap()) },
+                };
                 if let Some(len) = len {
                     let len = emit_register(*len);
                     statements.push(quote! {
@@ -323,7 +327,7 @@ fn prepare_decode(
                             if raw.len() != t_count {
                                 return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
                             }
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #item).collect::<Vec<#type_>>()
                         };
                     });
                 } else {
@@ -335,7 +339,7 @@ fn prepare_decode(
                             if raw.len() % size != 0 {
                                 return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
                             }
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #item).collect::<Vec<#type_>>()
                         };
                     });
                 }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 3029fa3..352f6c6 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -236,7 +236,7 @@ impl EncoderContext {
                     let target = emit_target(target);
                     let data = emit_register(*data);
                     statements.push(quote! {
-                        #target.write_all(&[if #data { 1u8 } else { 0u8 }])#async_?;
+                        #target.write_all(&[if #data.clone() { 1u8 } else { 0u8 }])#async_?;
                     });
                 }
                 Instruction::EncodePrimitive(
@@ -267,7 +267,7 @@ impl EncoderContext {
                         PrimitiveType::Bool => {
                             quote! {
                                 for x in #data.iter() {
-                                    #target.write_all(&[if x { 1u8 } else { 0u8 }])#async_?;
+                                    #target.write_all(&[if *x { 1u8 } else { 0u8 }])#async_?;
                                 }
                             }
                         }
-- 
2.43.0


From a97b627c8fef9ea145ff272d954ed721fc9d1973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 08/70] fix: report an array that does not match its declared
 length as an encode error

---
 protospec-build/src/coder/encode/array.rs       |  5 +++++
 protospec-build/src/coder/encode/instruction.rs |  5 +++++
 protospec-build/src/compiler/encoder.rs         | 12 ++++++++++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 7748bb7..9005ac1 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -89,6 +89,11 @@ impl Context {
         self.encode_type(&type_.element, target, new_source);
         let drained = self.instructions.drain(current_pos..).collect();
         let len = if let Some(len) = len {
+            self.instructions.push(Instruction::CheckLen(
+                source,
+                len,
+                "array length mismatch".to_string(),
+            ));
             len
         } else {
             let len = self.alloc_register();
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 333f912..b4985ed 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -58,6 +58,8 @@ pub enum Instruction {
     Loop(usize, usize, Vec<Instruction>),
     /// len target, buffer, cast_type
     GetLen(usize, usize, Option<ScalarType>),
+    /// source, expected length register, message
+    CheckLen(usize, usize, String),
     /// register
     Drop(usize),
     /// original, checked, is_copyable, message
@@ -174,6 +176,9 @@ impl fmt::Display for Instruction {
             Instruction::GetLen(dest, buffer, cast_type) => {
                 write!(f, "GetLen({}, {}, {:?})", dest, buffer, cast_type)
             }
+            Instruction::CheckLen(source, length, message) => {
+                write!(f, "CheckLen({}, {}, {})", source, length, message)
+            }
             Instruction::Drop(register) => write!(f, "Drop({})", register),
             Instruction::NullCheck(original, checked, is_copyable, message) => write!(
                 f,
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 352f6c6..9673eda 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -115,6 +115,15 @@ impl EncoderContext {
                         let #len = #source.len() #cast;
                     });
                 }
+                Instruction::CheckLen(source, len, message) => {
+                    let source = emit_register(*source);
+                    let len = emit_register(*len);
+                    statements.push(quote! {
+                        if #source.len() != (#len as usize) {
+                            return Err(encode_error(#message).into());
+                        }
+                    });
+                }
                 Instruction::NullCheck(target, destination, is_copyable, message) => {
                     let target = emit_register(*target);
                     let destination = emit_register(*destination);
@@ -303,8 +312,7 @@ impl EncoderContext {
                             {
                                 let t_count = #len as usize;
                                 if t_count != #data.len() {
-                                    //todo: throw an error properly
-                                    assert_eq!(t_count, #data.len());
+                                    return Err(encode_error("array length mismatch").into());
                                 }
                                 #writing
                             }
-- 
2.43.0


From d77ed3c69ff0b34fecd9042876ebb417658fcf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 09/70] fix: generate compilable async decoders for unbounded
 arrays of composite elements

---
 protospec-build/src/compiler/decoder.rs | 2 +-
 protospec-build/src/compiler/mod.rs     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 48dec11..9486f4c 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -29,7 +29,7 @@ fn prepare_decode(
             })
         } else {
             statements.push(quote! {
-                use std::io::Read;
+                use std::io::{ Read, BufRead };
             })
         }
     }
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 240c04a..83314c5 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -135,7 +135,7 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
     };
 
     components.push(quote! {
-        use std::io::{Read, BufRead, Cursor};
+        use std::io::Cursor;
         use std::slice;
         use std::mem;
         use std::convert::TryInto;
@@ -255,7 +255,7 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
 
     quote! {
         impl #container_ident {
-            pub fn decode_sync<R: Read + BufRead>(reader: &mut R #arguments) -> Result<Self> {
+            pub fn decode_sync<R: std::io::Read + std::io::BufRead>(reader: &mut R #arguments) -> Result<Self> {
                 #redefaults
                 #decode_sync
             }
-- 
2.43.0


From c97562ad1ad9cf6237cbc1544c5332129b8b22e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 10/70] fix: decode arrays with a terminator of several bytes
 without spinning at a buffer boundary or the end of the stream

---
 protospec-build/src/compiler/decoder.rs | 29 ++++++++++++++++---------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 9486f4c..159eb3d 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -390,6 +390,12 @@ fn prepare_decode(
                 let stop = stop_index.map(emit_register);
                 let terminator = terminator.map(emit_register);
                 let target = emit_target(target);
+                // a trait object keeps the stream type of a recursive decoder finite
+                let stream_type = if is_async {
+                    quote! { &mut (dyn AsyncBufRead + Send + Sync + Unpin) }
+                } else {
+                    quote! { &mut dyn BufRead }
+                };
                 if let Some(stop) = stop {
                     statements.push(quote! {
                         let mut #output = Vec::new();
@@ -400,20 +406,23 @@ fn prepare_decode(
                 } else if let Some(terminator) = terminator {
                     statements.push(quote! {
                         let mut #output = Vec::new();
+                        // bytes taken from the stream that are not yet part of an element
+                        let mut peeked: Vec<u8> = Vec::new();
                         loop {
-                            let buf = #target.fill_buf()#async_?;
-                            if buf.len() == 0 {
+                            let missing = #terminator.len().saturating_sub(peeked.len());
+                            (&mut *#target).take(missing as u64).read_to_end(&mut peeked)#async_?;
+                            if peeked.is_empty() || peeked == #terminator {
                                 break;
                             }
-                            if (buf.len() < #terminator.len()) {
-                                //todo: confirm this cannot infinite loop
-                                continue;
-                            }
-                            if &buf[..#terminator.len()] == #terminator {
-                                #target.consume(#terminator.len());
-                                break;
+                            let mut cursor = Cursor::new(peeked);
+                            {
+                                let mut chained = (&mut cursor).chain(&mut *#target);
+                                let mut chained: #stream_type = &mut chained;
+                                let #target = &mut chained;
+                                #inner
                             }
-                            #inner
+                            let position = cursor.position() as usize;
+                            peeked = cursor.into_inner().split_off(position);
                         }
                     });
                 } else {
-- 
2.43.0


From 0670272d0a8e4a45536d4881bee8e3f03a4a220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 11/70] fix: apply transforms left to right when encoding

---
 protospec-build/src/coder/encode/field.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index 1cc8eca..f88b053 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -67,7 +67,8 @@ impl Context {
     ) {
         let mut new_streams = vec![];
 
-        for transform in field.transforms.borrow().iter() {
+        // the innermost writer is wrapped first, so the first transform has to be wrapped last
+        for transform in field.transforms.borrow().iter().rev() {
             let condition = if let Some(condition) = &transform.condition {
                 let value = self.alloc_register();
                 self.instructions
-- 
2.43.0


From 94e24e138bde2c28559527b6863cbaa4d8f75c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 12/70] fix: borrow the writer that a transform wraps, so
 transforms can be chained

---
 protospec-build/src/compiler/encoder.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 9673eda..13e99df 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -15,6 +15,18 @@ fn emit_target(target: &Target) -> TokenStream {
     }
 }
 
+/// the writer that a transform wraps: borrowed, as it is flushed or written to again afterwards
+fn emit_wrapped_target(target: &Target) -> TokenStream {
+    match target {
+        Target::Direct => quote! { (&mut *writer) },
+        Target::Stream(x) => {
+            let stream = emit_register(*x);
+            quote! { (&mut #stream) }
+        }
+        Target::Buf(_) => emit_target(target),
+    }
+}
+
 struct EncoderContext {
     is_async: bool,
     resolved_refs: HashMap<String, usize>,
@@ -162,7 +174,7 @@ impl EncoderContext {
                 Instruction::WrapStream(stream, new_stream, transformer, args) => {
                     let new_stream_value = emit_register(*new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
+                    let input = emit_wrapped_target(stream);
                     let transformed = transformer.inner.encoding_gen(input, args, self.is_async);
                     statements.push(quote! {
                         let mut #new_stream_value = #transformed;
@@ -338,7 +350,7 @@ impl EncoderContext {
                     let new_stream_value = emit_register(*new_stream);
                     let owned_new_stream = emit_register(*owned_new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
+                    let input = emit_wrapped_target(stream);
                     let transformed =
                         transformer
                             .inner
@@ -354,7 +366,7 @@ impl EncoderContext {
                     //todo: would be nicer to use generics here instead of trait object
                     statements.push(quote! {
                         let mut #owned_new_stream = None;
-                        let #new_stream_value: &mut #trait_name = if #condition {
+                        let mut #new_stream_value: &mut #trait_name = if #condition {
                             #prelude
                             #owned_new_stream = Some(#transformed);
                             #owned_new_stream.as_mut().unwrap()
-- 
2.43.0


From 294e7a5aa976d3e285053a326e2182e36f646ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 13/70] fix: let transformed streams be buffered, borrowed and
 conditionally applied

---
 protospec-build/src/compiler/decoder.rs | 10 ++++++----
 protospec-build/src/compiler/encoder.rs |  2 +-
 protospec-build/src/prelude/base64.rs   |  2 +-
 protospec-build/src/prelude/gzip.rs     |  4 ++--
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 159eb3d..440f95b 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -165,6 +165,7 @@ fn prepare_decode(
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
                 let input = emit_target(stream);
+                let input = quote! { (&mut *#input) };
                 let transformed = transformer.inner.decoding_gen(input, args, is_async);
                 statements.push(quote! {
                     let mut #new_stream_value = #transformed;
@@ -183,6 +184,7 @@ fn prepare_decode(
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
                 let input = emit_target(stream);
+                let input = quote! { (&mut *#input) };
                 let transformed = transformer
                     .inner
                     .decoding_gen(input.clone(), args, is_async);
@@ -192,23 +194,23 @@ fn prepare_decode(
                 if is_async {
                     statements.push(quote! {
                         let mut r_xform;
-                        let #new_stream_value: &mut dyn AsyncBufRead + Unpin + Send + Sync = if #condition {
+                        let #new_stream_value: &mut (dyn AsyncBufRead + Unpin + Send + Sync) = if #condition {
                             #prelude
                             r_xform = #transformed;
                             &mut r_xform
                         } else {
-                            #input as &mut dyn AsyncBufRead + Unpin + Send + Sync
+                            #input as &mut (dyn AsyncBufRead + Unpin + Send + Sync)
                         };
                     })
                 } else {
                     statements.push(quote! {
                         let mut r_xform;
-                        let #new_stream_value: &mut dyn Read = if #condition {
+                        let #new_stream_value: &mut dyn BufRead = if #condition {
                             #prelude
                             r_xform = #transformed;
                             &mut r_xform
                         } else {
-                            #input as &mut dyn Read
+                            #input as &mut dyn BufRead
                         };
                     })
                 }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 13e99df..bec0538 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -358,7 +358,7 @@ impl EncoderContext {
                     let prelude = self.prepare_encode(&prelude[..], false);
 
                     let trait_name = if self.is_async {
-                        quote! { dyn AsyncWrite + Send + Sync + Unpin }
+                        quote! { (dyn AsyncWrite + Send + Sync + Unpin) }
                     } else {
                         quote! { dyn Write }
                     };
diff --git a/protospec-build/src/prelude/base64.rs b/protospec-build/src/prelude/base64.rs
index 805507c..8314bd6 100644
--- a/protospec-build/src/prelude/base64.rs
+++ b/protospec-build/src/prelude/base64.rs
@@ -14,7 +14,7 @@ impl ForeignTransform for Base64Transform {
         }
         quote! {
             {
-                base64::read::DecoderReader::new(#input_stream, base64::STANDARD)
+                std::io::BufReader::new(base64::read::DecoderReader::new(#input_stream, base64::STANDARD))
             }
         }
     }
diff --git a/protospec-build/src/prelude/gzip.rs b/protospec-build/src/prelude/gzip.rs
index 343a142..555775b 100644
--- a/protospec-build/src/prelude/gzip.rs
+++ b/protospec-build/src/prelude/gzip.rs
@@ -11,11 +11,11 @@ impl ForeignTransform for GzipTransform {
     ) -> TokenStream {
         if is_async {
             quote! {
-                async_compression::tokio::bufread::GzipDecoder::new(#input_stream)
+                tokio::io::BufReader::new(async_compression::tokio::bufread::GzipDecoder::new(#input_stream))
             }
         } else {
             quote! {
-                flate2::read::GzDecoder::new(#input_stream)
+                std::io::BufReader::new(flate2::read::GzDecoder::new(#input_stream))
             }
         }
     }
-- 
2.43.0


From e286ff64b01071fd88b49b6ebcadec1542877a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 14/70] fix: pass transformed writers by reference to the
 encoders of referenced types

---
 protospec-build/src/compiler/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index bec0538..88132d2 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -217,7 +217,7 @@ impl EncoderContext {
                         out_arguments.push(quote! {, #value});
                     }
                     let out_arguments = flatten(out_arguments);
-                    let target = emit_target(target);
+                    let target = emit_wrapped_target(target);
                     let source = emit_register(*source);
                     if self.is_async {
                         statements.push(quote! {
-- 
2.43.0


From aa8fde8ad2eb2c401ac7688061353605645fe175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 15/70] fix: do not emit a suffix on a tuple index

---
 protospec-build/src/compiler/encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 88132d2..90b8f4e 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -80,6 +80,7 @@ impl EncoderContext {
                                 quote! { #source[#index as usize] }
                             }
                             FieldRef::TupleAccess(x) => {
+                                let x = proc_macro2::Literal::usize_unsuffixed(*x);
                                 quote! { #source.#x }
                             }
                         };
-- 
2.43.0


From 89431180535b6bbc8747ddbe4e97ababb1f4ae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 16/70] fix: read both digits of a hex escape in a string

---
 protospec-build/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 29f5e9c..d958339 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -213,7 +213,6 @@ impl Token {
                         i += 1;
                         if input[i].is_ascii_hexdigit() {
                             if i < input.len() - 1 && input[i + 1].is_ascii_hexdigit() {
-                                i += 1;
                                 out.push(
                                     u8::from_str_radix(
                                         std::str::from_utf8(&input[i..i + 2]).unwrap(),
@@ -221,6 +220,7 @@ impl Token {
                                     )
                                     .unwrap(),
                                 );
+                                i += 1;
                             } else {
                                 out.push(
                                     u8::from_str_radix(
-- 
2.43.0


From 0f0e3dda2abe2d382c6aa9b41bb0caccbb99931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 17/70] fix: do not treat newtypes of copyable types as
 copyable

---
 protospec-build/src/asg/types/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index ef64d74..62cb853 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -153,7 +153,14 @@ impl Type {
     }
 
     pub fn copyable(&self) -> bool {
-        match &*self.resolved() {
+        match self {
+            // a reference to anything else names a newtype, which is not `Copy`
+            Type::Ref(call) => match &*call.target.type_.borrow() {
+                Type::Enum(_) => true,
+                Type::Bitfield(_) => true,
+                Type::Foreign(foreign) => foreign.obj.copyable(),
+                _ => false,
+            },
             Type::Enum(_) => true,
             Type::Bitfield(_) => true,
             Type::Scalar(_) => true,
-- 
2.43.0


From 70d436dbc68a2082c0da0d54f54f5fa5d2b2aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 18/70] fix: report a wrong number of foreign arguments instead
 of panicking

---
 protospec-build/src/semantics/convert/ffi_arguments.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/protospec-build/src/semantics/convert/ffi_arguments.rs b/protospec-build/src/semantics/convert/ffi_arguments.rs
index 7cfed2f..8330060 100644
--- a/protospec-build/src/semantics/convert/ffi_arguments.rs
+++ b/protospec-build/src/semantics/convert/ffi_arguments.rs
@@ -10,11 +10,7 @@ impl Scope {
     ) -> AsgResult<Vec<Expression>> {
         let min_arg_count = type_arguments.iter().filter(|x| !x.optional).count();
         // optionals MUST be at the end
-        if min_arg_count < arguments.len()
-            && type_arguments[type_arguments.len() - min_arg_count..]
-                .iter()
-                .any(|x| !x.optional)
-        {
+        if type_arguments[..min_arg_count].iter().any(|x| x.optional) {
             unimplemented!("cannot have ffi transform with required arguments after optional arguments for '{}'", name);
         }
         if arguments.len() < min_arg_count || arguments.len() > type_arguments.len() {
-- 
2.43.0


From 7d3ea34877315b23d686291695092d4c567490f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 19/70] fix: pass optional type arguments where their types are
 referenced

---
 protospec-build/src/coder/decode/instruction.rs    |  2 +-
 protospec-build/src/coder/decode/mod.rs            | 11 +++++++++++
 protospec-build/src/coder/encode/instruction.rs    |  6 ++----
 protospec-build/src/coder/encode/var_ref.rs        | 14 ++++++++++----
 protospec-build/src/coder/mod.rs                   |  8 ++++++++
 protospec-build/src/compiler/decoder.rs            |  2 +-
 protospec-build/src/compiler/encoder.rs            |  2 +-
 protospec-build/src/compiler/mod.rs                | 11 ++++++++++-
 .../src/semantics/convert/type_/type_ref.rs        |  7 +++----
 9 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index d5a7296..1dce46c 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -40,7 +40,7 @@ pub enum Instruction {
     ), // condition, prelude, stream, new stream, transformer, arguments
 
     DecodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
-    DecodeRef(Target, usize, String, Vec<usize>),
+    DecodeRef(Target, usize, String, Vec<RefArgument>),
     DecodeRepr(String, PrimitiveType, usize, Target),
     DecodePrimitive(Target, usize, PrimitiveType),
     DecodePrimitiveArray(Target, usize, PrimitiveType, Option<usize>),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 0e5369d..5859aba 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -149,6 +149,17 @@ impl Context {
                         args,
                     ));
                 } else {
+                    let args = r
+                        .target
+                        .arguments
+                        .borrow()
+                        .iter()
+                        .enumerate()
+                        .map(|(i, argument)| RefArgument {
+                            register: args.get(i).copied(),
+                            optional: argument.default_value.is_some(),
+                        })
+                        .collect();
                     self.instructions.push(Instruction::DecodeRef(
                         source,
                         output,
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index b4985ed..df13cc8 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -40,7 +40,7 @@ pub enum Instruction {
     /// dest, source, type, arguments
     EncodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
     /// dest, source, arguments
-    EncodeRef(Target, usize, Vec<usize>),
+    EncodeRef(Target, usize, Vec<RefArgument>),
     /// rep type, dest, source
     EncodeEnum(Target, usize, EndianScalarType),
     /// dest, source
@@ -142,9 +142,7 @@ impl fmt::Display for Instruction {
                 write!(f, ")")
             }
             Instruction::EncodeRef(dest, source, arguments) => {
-                write!(f, "EncodeRef({:?}, {}, ", dest, source)?;
-                write_arguments(f, &arguments[..])?;
-                write!(f, ")")
+                write!(f, "EncodeRef({:?}, {}, {:?})", dest, source, arguments)
             }
             Instruction::EncodeEnum(dest, source, type_) => {
                 write!(f, "EncodeEnum({:?}, {}, {})", dest, source, type_)
diff --git a/protospec-build/src/coder/encode/var_ref.rs b/protospec-build/src/coder/encode/var_ref.rs
index 45ad006..a999f30 100644
--- a/protospec-build/src/coder/encode/var_ref.rs
+++ b/protospec-build/src/coder/encode/var_ref.rs
@@ -17,10 +17,16 @@ impl Context {
             ));
         } else {
             let mut args = vec![];
-            for arg in type_.arguments.iter() {
-                let r = self.alloc_register();
-                self.instructions.push(Instruction::Eval(r, arg.clone()));
-                args.push(r);
+            for (i, argument) in type_.target.arguments.borrow().iter().enumerate() {
+                let register = type_.arguments.get(i).map(|arg| {
+                    let r = self.alloc_register();
+                    self.instructions.push(Instruction::Eval(r, arg.clone()));
+                    r
+                });
+                args.push(RefArgument {
+                    register,
+                    optional: argument.default_value.is_some(),
+                });
             }
             self.instructions
                 .push(Instruction::EncodeRef(target, source, args));
diff --git a/protospec-build/src/coder/mod.rs b/protospec-build/src/coder/mod.rs
index c087b01..caf43bd 100644
--- a/protospec-build/src/coder/mod.rs
+++ b/protospec-build/src/coder/mod.rs
@@ -29,6 +29,14 @@ impl Target {
     }
 }
 
+/// an argument of a referenced type
+#[derive(Debug, Clone, Copy)]
+pub struct RefArgument {
+    /// `None` if an optional argument is not given
+    pub register: Option<usize>,
+    pub optional: bool,
+}
+
 #[derive(Clone, Copy, Debug)]
 pub enum PrimitiveType {
     Bool,
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 440f95b..7008e61 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -233,7 +233,7 @@ fn prepare_decode(
             Instruction::DecodeRef(target, source, class, args) => {
                 let mut out_arguments = vec![];
                 for argument in args {
-                    let value = emit_register(*argument);
+                    let value = emit_ref_argument(argument);
                     out_arguments.push(quote! {, #value});
                 }
                 let out_arguments = flatten(out_arguments);
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 90b8f4e..ab44031 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -214,7 +214,7 @@ impl EncoderContext {
                 Instruction::EncodeRef(target, source, args) => {
                     let mut out_arguments = vec![];
                     for argument in args {
-                        let value = emit_register(*argument);
+                        let value = emit_ref_argument(argument);
                         out_arguments.push(quote! {, #value});
                     }
                     let out_arguments = flatten(out_arguments);
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 83314c5..76d1d17 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -1,5 +1,5 @@
 use crate::asg::*;
-use crate::coder;
+use crate::coder::{self, RefArgument};
 use crate::{BinaryOp, UnaryOp};
 use case::CaseExt;
 use expr::*;
@@ -284,6 +284,15 @@ fn emit_register(register: usize) -> TokenStream {
     }
 }
 
+fn emit_ref_argument(argument: &RefArgument) -> TokenStream {
+    let value = argument.register.map(emit_register);
+    match (argument.optional, value) {
+        (false, value) => value.expect("missing required argument"),
+        (true, Some(value)) => quote! { Some(#value) },
+        (true, None) => quote! { None },
+    }
+}
+
 fn flatten<T: IntoIterator<Item = TokenStream>>(iter: T) -> TokenStream {
     let mut out = quote! {};
     out.append_all(iter);
diff --git a/protospec-build/src/semantics/convert/type_/type_ref.rs b/protospec-build/src/semantics/convert/type_/type_ref.rs
index 04269d0..ff87b89 100644
--- a/protospec-build/src/semantics/convert/type_/type_ref.rs
+++ b/protospec-build/src/semantics/convert/type_/type_ref.rs
@@ -12,10 +12,9 @@ impl Scope {
                 .filter(|x| x.default_value.is_none())
                 .count();
             // optionals MUST be at the end
-            if min_arg_count < type_.arguments.len()
-                && target_args[target_args.len() - min_arg_count..]
-                    .iter()
-                    .any(|x| x.default_value.is_some())
+            if target_args[..min_arg_count]
+                .iter()
+                .any(|x| x.default_value.is_some())
             {
                 return Err(AsgError::InvalidTypeArgumentOrder(type_.span));
             }
-- 
2.43.0


From 206bfc235d603e17320632c1810ba34afa0a0a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 20/70] fix: emit the values of consts where they are used, as
 nothing declares them

---
 protospec-build/src/compiler/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index abe5e06..62d855e 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -361,9 +361,9 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             }
         }
         ConstRef(c) => {
-            let c = format_ident!("{}", c.name);
+            let value = emit_expression(&c.value, ref_resolver);
             quote! {
-                #c
+                (#value)
             }
         }
         InputRef(c) => {
-- 
2.43.0


From 17a51c770732aadc548c9f29dd39408362dbca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 21/70] fix: parenthesise emitted casts, ternaries and member
 targets

---
 protospec-build/src/compiler/expr.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 62d855e..0bb66d0 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -295,7 +295,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let target = emit_expression(&c.target, ref_resolver);
             let get_member = format_ident!("{}", c.member.name.to_snake());
             quote! {
-                #target.#get_member()
+                (#target).#get_member()
             }
         }
         Unary(c) => {
@@ -315,17 +315,17 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             match &*c.inner.get_type().unwrap().resolved() {
                 Type::Enum(_) => {
                     quote! {
-                        (#inner).to_repr() as #target
+                        ((#inner).to_repr() as #target)
                     }
                 }
                 Type::Bitfield(_) => {
                     quote! {
-                        (#inner).0 as #target
+                        ((#inner).0 as #target)
                     }
                 }
                 _ => {
                     quote! {
-                        (#inner) as #target
+                        ((#inner) as #target)
                     }
                 }
             }
@@ -385,11 +385,11 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let if_false = emit_expression(&c.if_false, ref_resolver);
 
             quote! {
-                if #condition {
+                (if #condition {
                     #if_true
                 } else {
                     #if_false
-                }
+                })
             }
         }
         Bool(c) => {
-- 
2.43.0


From 03db2cf87d539312463af6f87938555b5d720f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 22/70] fix: reference bitfield flags by the name they are
 declared with

---
 protospec-build/src/compiler/expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 0bb66d0..a523b55 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -340,7 +340,10 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         EnumAccess(c) => {
             let enum_name = emit_ident(&c.enum_field.name);
-            let enum_variant_name = emit_ident(&c.variant.name);
+            let enum_variant_name = match &*c.enum_field.type_.borrow() {
+                Type::Bitfield(_) => emit_ident(&c.variant.name.to_snake().to_uppercase()),
+                _ => emit_ident(&c.variant.name),
+            };
             quote! {
                 #enum_name::#enum_variant_name
             }
-- 
2.43.0


From f18ae6fbb4e9a252f21cb9a7dc736b53d66fea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 23/70] fix: index arrays by usize, and through type references

---
 protospec-build/src/asg/expression/array_index.rs | 2 +-
 protospec-build/src/compiler/expr.rs              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/asg/expression/array_index.rs b/protospec-build/src/asg/expression/array_index.rs
index bd9dd2e..80eb090 100644
--- a/protospec-build/src/asg/expression/array_index.rs
+++ b/protospec-build/src/asg/expression/array_index.rs
@@ -10,7 +10,7 @@ pub struct ArrayIndexExpression {
 impl AsgExpression for ArrayIndexExpression {
     fn get_type(&self) -> Option<Type> {
         let parent_type = self.array.get_type()?;
-        match parent_type {
+        match parent_type.resolved().as_ref() {
             Type::Array(parent_type) => Some(parent_type.element.as_ref().clone()),
             _ => None,
         }
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index a523b55..94629b9 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -335,7 +335,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let index = emit_expression(&c.index, ref_resolver);
 
             quote! {
-                (#array)[#index]
+                (#array)[(#index) as usize]
             }
         }
         EnumAccess(c) => {
-- 
2.43.0


From 24a3795f9a3a22b05365d69cce99675c74739cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 24/70] fix: take values out of newtypes when they are used in
 expressions

---
 protospec-build/src/compiler/expr.rs | 43 ++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 94629b9..9a6fae2 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -250,6 +250,31 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
     }
 }
 
+/// like `emit_expression`, but takes the value out of newtypes
+fn emit_value<F: Fn(&Arc<Field>) -> TokenStream>(
+    expr: &Expression,
+    ref_resolver: &F,
+) -> TokenStream {
+    let mut emitted = emit_expression(expr, ref_resolver);
+    let mut type_ = match expr {
+        Expression::FieldRef(_) | Expression::InputRef(_) | Expression::ArrayIndex(_) => {
+            expr.get_type()
+        }
+        _ => None,
+    };
+    while let Some(Type::Ref(call)) = type_ {
+        let inner = call.target.type_.borrow().clone();
+        match inner {
+            Type::Container(_) | Type::Enum(_) | Type::Bitfield(_) | Type::Foreign(_) => break,
+            inner => {
+                emitted = quote! { (#emitted).0 };
+                type_ = Some(inner);
+            }
+        }
+    }
+    emitted
+}
+
 pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
     expr: &Expression,
     ref_resolver: &F,
@@ -257,13 +282,15 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
     use Expression::*;
     match expr {
         Binary(c) => {
-            let left = emit_expression(&c.left, ref_resolver);
-            let right = emit_expression(&c.right, ref_resolver);
             if c.op == BinaryOp::Elvis {
+                let left = emit_expression(&c.left, ref_resolver);
+                let right = emit_expression(&c.right, ref_resolver);
                 quote! {
                     (#left).unwrap_or(#right)
                 }
             } else {
+                let left = emit_value(&c.left, ref_resolver);
+                let right = emit_value(&c.right, ref_resolver);
                 let op = match c.op {
                     BinaryOp::Lt => quote! { < },
                     BinaryOp::Gt => quote! { > },
@@ -299,7 +326,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             }
         }
         Unary(c) => {
-            let inner = emit_expression(&c.inner, ref_resolver);
+            let inner = emit_value(&c.inner, ref_resolver);
             let op = match c.op {
                 UnaryOp::Negate => quote! { - },
                 UnaryOp::Not => quote! { ! },
@@ -310,7 +337,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             }
         }
         Cast(c) => {
-            let inner = emit_expression(&c.inner, ref_resolver);
+            let inner = emit_value(&c.inner, ref_resolver);
             let target = emit_type_ref(&c.type_);
             match &*c.inner.get_type().unwrap().resolved() {
                 Type::Enum(_) => {
@@ -331,8 +358,8 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             }
         }
         ArrayIndex(c) => {
-            let array = emit_expression(&c.array, ref_resolver);
-            let index = emit_expression(&c.index, ref_resolver);
+            let array = emit_value(&c.array, ref_resolver);
+            let index = emit_value(&c.index, ref_resolver);
 
             quote! {
                 (#array)[(#index) as usize]
@@ -383,7 +410,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             }
         }
         Ternary(c) => {
-            let condition = emit_expression(&c.condition, ref_resolver);
+            let condition = emit_value(&c.condition, ref_resolver);
             let if_true = emit_expression(&c.if_true, ref_resolver);
             let if_false = emit_expression(&c.if_false, ref_resolver);
 
@@ -403,7 +430,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         Call(c) => {
             let mut arguments = vec![];
             for argument in &c.arguments {
-                let expression = emit_expression(argument, ref_resolver);
+                let expression = emit_value(argument, ref_resolver);
                 arguments.push(FFIArgumentValue {
                     type_: argument.get_type().expect("missing type in ffi argument"),
                     present: true,
-- 
2.43.0


From 5ee3ebdf87f8a7c84bdcefdf1971aeef75e98527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 25/70] fix: coerce the result of ?: rather than its optional
 operand

---
 protospec-build/src/semantics/convert/expression/binary.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 705210a..ebd847b 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -23,6 +23,8 @@ impl Scope {
             Lt | Gt | Lte | Gte => PartialType::Scalar(PartialScalarType::None),
             Eq | Ne => PartialType::Any,
             Or | And => PartialType::Type(Type::Bool),
+            // the left side is optional, so only the result can be coerced
+            Elvis => PartialType::Any,
             _ => expected_type.clone(),
         };
         let mut left = Scope::convert_expr(self_, &expr.left, init_expected_type.clone());
-- 
2.43.0


From 980565a776c3f7a7fad4322e19a3d6f63cf5064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 26/70] fix: emit >>> as an arithmetic shift, as rust has no
 such operator

---
 .../src/asg/expression/const_int.rs           | 15 ++++++++++++
 protospec-build/src/ast/types/scalar.rs       | 12 ++++++++++
 protospec-build/src/compiler/expr.rs          | 24 ++++++++++++++++---
 3 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/asg/expression/const_int.rs b/protospec-build/src/asg/expression/const_int.rs
index b08936e..a2beb20 100644
--- a/protospec-build/src/asg/expression/const_int.rs
+++ b/protospec-build/src/asg/expression/const_int.rs
@@ -188,6 +188,21 @@ impl Not for ConstInt {
 }
 
 impl ConstInt {
+    pub fn scalar_type(&self) -> ScalarType {
+        match self {
+            ConstInt::I8(_) => ScalarType::I8,
+            ConstInt::I16(_) => ScalarType::I16,
+            ConstInt::I32(_) => ScalarType::I32,
+            ConstInt::I64(_) => ScalarType::I64,
+            ConstInt::I128(_) => ScalarType::I128,
+            ConstInt::U8(_) => ScalarType::U8,
+            ConstInt::U16(_) => ScalarType::U16,
+            ConstInt::U32(_) => ScalarType::U32,
+            ConstInt::U64(_) => ScalarType::U64,
+            ConstInt::U128(_) => ScalarType::U128,
+        }
+    }
+
     pub fn cast_to(&self, target: ScalarType) -> Self {
         const_int_op!(
             self,
diff --git a/protospec-build/src/ast/types/scalar.rs b/protospec-build/src/ast/types/scalar.rs
index 011d8d7..26d14eb 100644
--- a/protospec-build/src/ast/types/scalar.rs
+++ b/protospec-build/src/ast/types/scalar.rs
@@ -54,6 +54,18 @@ impl ScalarType {
         }
     }
 
+    /// the signed type of the same size
+    pub fn to_signed(&self) -> ScalarType {
+        match self {
+            ScalarType::U8 => ScalarType::I8,
+            ScalarType::U16 => ScalarType::I16,
+            ScalarType::U32 => ScalarType::I32,
+            ScalarType::U64 => ScalarType::I64,
+            ScalarType::U128 => ScalarType::I128,
+            x => *x,
+        }
+    }
+
     pub fn size(&self) -> u64 {
         match self {
             ScalarType::I8 | ScalarType::U8 => 1,
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 9a6fae2..946d670 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -185,7 +185,15 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
                 BinaryOp::BitXor => ConstValue::Int((left.to_int()? ^ right.to_int()?)?),
                 BinaryOp::Shr => ConstValue::Int((left.to_int()? >> right.to_int()?)?), // todo: cast signedness to ensure proper shr is used in rust
                 BinaryOp::Shl => ConstValue::Int((left.to_int()? << right.to_int()?)?),
-                BinaryOp::ShrSigned => ConstValue::Int((left.to_int()? >> right.to_int()?)?),
+                BinaryOp::ShrSigned => {
+                    let (left, right) = (left.to_int()?, right.to_int()?);
+                    let type_ = left.scalar_type();
+                    let (left, right) = (
+                        left.cast_to(type_.to_signed()),
+                        right.cast_to(type_.to_signed()),
+                    );
+                    ConstValue::Int((left >> right)?.cast_to(type_))
+                }
                 BinaryOp::Add => ConstValue::Int((left.to_int()? + right.to_int()?)?),
                 BinaryOp::Sub => ConstValue::Int((left.to_int()? - right.to_int()?)?),
                 BinaryOp::Mul => ConstValue::Int((left.to_int()? * right.to_int()?)?),
@@ -291,6 +299,17 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             } else {
                 let left = emit_value(&c.left, ref_resolver);
                 let right = emit_value(&c.right, ref_resolver);
+                if c.op == BinaryOp::ShrSigned {
+                    let type_ = match &*c.left.get_type().unwrap().resolved() {
+                        Type::Scalar(s) => s.scalar,
+                        _ => unimplemented!("cannot shift a non-integer"),
+                    };
+                    let scalar = format_ident!("{}", type_.to_string());
+                    let signed = format_ident!("{}", type_.to_signed().to_string());
+                    return quote! {
+                        ((((#left) as #signed) >> (#right)) as #scalar)
+                    };
+                }
                 let op = match c.op {
                     BinaryOp::Lt => quote! { < },
                     BinaryOp::Gt => quote! { > },
@@ -305,13 +324,12 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                     BinaryOp::BitXor => quote! { ^ },
                     BinaryOp::Shr => quote! { >> },
                     BinaryOp::Shl => quote! { << },
-                    BinaryOp::ShrSigned => quote! { >>> },
                     BinaryOp::Add => quote! { + },
                     BinaryOp::Sub => quote! { - },
                     BinaryOp::Mul => quote! { * },
                     BinaryOp::Div => quote! { / },
                     BinaryOp::Mod => quote! { % },
-                    BinaryOp::Elvis => unimplemented!(),
+                    BinaryOp::ShrSigned | BinaryOp::Elvis => unimplemented!(),
                 };
                 quote! {
                     ((#left) #op (#right))
-- 
2.43.0


From b52f1ca3596c3ec271f7f7eff59cf029e048f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 27/70] fix: refuse to encode a tagged enum when no condition
 of its variants is met

---
 protospec-build/src/coder/encode/container.rs   | 10 ++++++++++
 protospec-build/src/coder/encode/instruction.rs |  3 +++
 protospec-build/src/compiler/encoder.rs         |  6 +++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 831eff8..6df2c85 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -194,6 +194,7 @@ impl Context {
         };
         if type_.is_enum.get() {
             let break_start = self.instructions.len();
+            let mut exhaustive = false;
             for (name, child) in type_.items.iter() {
                 let condition = self.encode_field_condition(child);
                 let start = self.instructions.len();
@@ -250,8 +251,17 @@ impl Context {
                     let drained = self.instructions.drain(start..).collect();
                     self.instructions
                         .push(Instruction::Conditional(condition, drained, vec![]));
+                } else {
+                    exhaustive = true;
+                    break;
                 }
             }
+            if !exhaustive {
+                self.instructions.push(Instruction::Error(format!(
+                    "no enum conditions matched for {}",
+                    field.name
+                )));
+            }
             let drained = self.instructions.drain(break_start..).collect();
             self.instructions.push(Instruction::BreakBlock(drained));
         } else {
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index df13cc8..aa28fa1 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -73,6 +73,8 @@ pub enum Instruction {
     /// instructions
     BreakBlock(Vec<Instruction>),
     Break,
+    /// message
+    Error(String),
 }
 
 fn write_arguments(f: &mut fmt::Formatter<'_>, arguments: &[usize]) -> fmt::Result {
@@ -224,6 +226,7 @@ impl fmt::Display for Instruction {
                 Ok(())
             }
             Instruction::Break => write!(f, "Break()"),
+            Instruction::Error(message) => write!(f, "Error('{}')", message),
         }
     }
 }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index ab44031..962ccf5 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -431,7 +431,6 @@ impl EncoderContext {
                     statements.push(quote! {
                         'bb: loop {
                             #interior
-                            break 'bb;
                         }
                     });
                 }
@@ -440,6 +439,11 @@ impl EncoderContext {
                         break 'bb;
                     });
                 }
+                Instruction::Error(message) => {
+                    statements.push(quote! {
+                        return Err(encode_error(#message).into());
+                    });
+                }
                 Instruction::Pad(target, length) => {
                     let length = emit_register(*length);
                     let target = emit_target(target);
-- 
2.43.0


From beba88ddff450aa722232b967340583bfd3a2919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 28/70] fix: apply the transforms of container variants of
 tagged enums when encoding

---
 protospec-build/src/coder/encode/container.rs |  4 ++-
 protospec-build/src/coder/encode/field.rs     | 36 +++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 6df2c85..2ad3170 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -230,7 +230,9 @@ impl Context {
                             self.instructions.push(Instruction::SetRef(name, register));
                         }
                         self.encode_container_calculated(type_);
-                        self.encode_container_items(type_, buf_target, source, false);
+                        let (target, new_streams) = self.encode_transforms(buf_target, child);
+                        self.encode_container_items(type_, target, source, false);
+                        self.encode_end_transforms(&new_streams[..]);
                         self.instructions.push(Instruction::Break);
                     }
                     _ => {
diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index f88b053..e538942 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -57,14 +57,12 @@ impl Context {
         }
     }
 
-    pub fn encode_field_unconditional(
+    /// returns the target wrapped with the field's transforms, and the streams to end after it
+    pub fn encode_transforms(
         &mut self,
         mut target: Target,
-        source: usize,
         field: &Arc<Field>,
-        self_conditional: bool,
-        total_conditional: bool,
-    ) {
+    ) -> (Target, Vec<(usize, Option<usize>)>) {
         let mut new_streams = vec![];
 
         // the innermost writer is wrapped first, so the first transform has to be wrapped last
@@ -110,6 +108,27 @@ impl Context {
             }
             target = Target::Stream(new_stream);
         }
+        (target, new_streams)
+    }
+
+    pub fn encode_end_transforms(&mut self, new_streams: &[(usize, Option<usize>)]) {
+        for (stream, owned_stream) in new_streams.iter().rev() {
+            self.instructions.push(Instruction::EndStream(*stream));
+            if let Some(owned_stream) = owned_stream {
+                self.instructions.push(Instruction::Drop(*owned_stream));
+            }
+        }
+    }
+
+    pub fn encode_field_unconditional(
+        &mut self,
+        target: Target,
+        source: usize,
+        field: &Arc<Field>,
+        self_conditional: bool,
+        total_conditional: bool,
+    ) {
+        let (target, new_streams) = self.encode_transforms(target, field);
 
         let is_psuedocontainer =
             !field.toplevel && matches!(&*field.type_.borrow(), Type::Container(_));
@@ -148,11 +167,6 @@ impl Context {
             type_ => self.encode_complex_type(field, type_, target, source, total_conditional),
         }
 
-        for (stream, owned_stream) in new_streams.iter().rev() {
-            self.instructions.push(Instruction::EndStream(*stream));
-            if let Some(owned_stream) = owned_stream {
-                self.instructions.push(Instruction::Drop(*owned_stream));
-            }
-        }
+        self.encode_end_transforms(&new_streams[..]);
     }
 }
-- 
2.43.0


From bb7776bff26224d5ed06a90f0783420e97b5dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 29/70] fix: refuse to encode a container whose content does
 not have its declared length

---
 protospec-build/src/coder/encode/container.rs | 99 +++++++++++++------
 .../src/coder/encode/instruction.rs           |  3 -
 protospec-build/src/compiler/encoder.rs       |  8 --
 3 files changed, 69 insertions(+), 41 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 2ad3170..7a55d1c 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -175,23 +175,7 @@ impl Context {
         source: usize,
         conditional: bool,
     ) {
-        let buf_target = if let Some(length) = &type_.length {
-            //todo: use limited stream
-            let buf = self.alloc_register();
-            // we avoid cyclic dependency during encoding by ignoring container length constraint if we're a blen-target
-            if self.pending_autos.contains(&field.name) {
-                self.instructions.push(Instruction::AllocDynBuf(buf));
-            } else {
-                let len_register = self.alloc_register();
-                self.instructions
-                    .push(Instruction::Eval(len_register, length.clone()));
-                self.instructions
-                    .push(Instruction::AllocBuf(buf, len_register));
-            }
-            Target::Buf(buf)
-        } else {
-            target
-        };
+        let (buf_target, len_register) = self.encode_container_start(field, type_, target);
         if type_.is_enum.get() {
             let break_start = self.instructions.len();
             let mut exhaustive = false;
@@ -230,8 +214,18 @@ impl Context {
                             self.instructions.push(Instruction::SetRef(name, register));
                         }
                         self.encode_container_calculated(type_);
-                        let (target, new_streams) = self.encode_transforms(buf_target, child);
-                        self.encode_container_items(type_, target, source, false);
+                        let (child_target, new_streams) =
+                            self.encode_transforms(buf_target, child);
+                        let (child_buf_target, len_register) =
+                            self.encode_container_start(child, type_, child_target);
+                        self.encode_container_items(type_, child_buf_target, source, false);
+                        self.encode_container_end(
+                            child,
+                            type_,
+                            child_target,
+                            child_buf_target,
+                            len_register,
+                        );
                         self.encode_end_transforms(&new_streams[..]);
                         self.instructions.push(Instruction::Break);
                     }
@@ -276,19 +270,64 @@ impl Context {
             self.encode_container_items(type_, buf_target, source, conditional);
         }
 
-        if type_.length.is_some() {
-            if self.pending_autos.remove(&field.name) {
-                let target = self.alloc_register();
-                self.instructions.push(Instruction::GetLen(
-                    target,
-                    buf_target.unwrap_buf(),
-                    Some(ScalarType::U64),
-                ));
-                self.resolved_autos.insert(field.name.clone(), target);
-            }
+        self.encode_container_end(field, type_, target, buf_target, len_register);
+    }
+
+    /// returns the target of the content, and the register of the length it has to have, if any
+    fn encode_container_start(
+        &mut self,
+        field: &Arc<Field>,
+        type_: &ContainerType,
+        target: Target,
+    ) -> (Target, Option<usize>) {
+        let length = match &type_.length {
+            Some(length) => length,
+            None => return (target, None),
+        };
+        //todo: use limited stream
+        let buf = self.alloc_register();
+        self.instructions.push(Instruction::AllocDynBuf(buf));
+        // we avoid cyclic dependency during encoding by ignoring container length constraint if we're a blen-target
+        let len_register = if self.pending_autos.contains(&field.name) {
+            None
+        } else {
+            let len_register = self.alloc_register();
             self.instructions
-                .push(Instruction::EmitBuf(target, buf_target.unwrap_buf()));
+                .push(Instruction::Eval(len_register, length.clone()));
+            Some(len_register)
+        };
+        (Target::Buf(buf), len_register)
+    }
+
+    fn encode_container_end(
+        &mut self,
+        field: &Arc<Field>,
+        type_: &ContainerType,
+        target: Target,
+        buf_target: Target,
+        len_register: Option<usize>,
+    ) {
+        if type_.length.is_none() {
+            return;
+        }
+        let buf = buf_target.unwrap_buf();
+        if let Some(len_register) = len_register {
+            self.instructions.push(Instruction::CheckLen(
+                buf,
+                len_register,
+                "container length mismatch".to_string(),
+            ));
+        }
+        if self.pending_autos.remove(&field.name) {
+            let target = self.alloc_register();
+            self.instructions.push(Instruction::GetLen(
+                target,
+                buf,
+                Some(ScalarType::U64),
+            ));
+            self.resolved_autos.insert(field.name.clone(), target);
         }
+        self.instructions.push(Instruction::EmitBuf(target, buf));
     }
 }
 
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index aa28fa1..efc83d9 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -15,8 +15,6 @@ pub enum Instruction {
     GetRef(usize, String),
     /// ref name, value
     SetRef(String, usize),
-    /// buf handle, len register
-    AllocBuf(usize, usize),
     /// buf handle
     AllocDynBuf(usize),
     /// stream, new stream, transformer, arguments
@@ -98,7 +96,6 @@ impl fmt::Display for Instruction {
             Instruction::SetRef(ref_name, source) => {
                 write!(f, "SetRef('{}', {})", ref_name, source)
             }
-            Instruction::AllocBuf(buf, len) => write!(f, "AllocBuf({}, {})", buf, len),
             Instruction::AllocDynBuf(buf) => write!(f, "AllocDynBuf({})", buf),
             Instruction::WrapStream(stream, new_stream, transform, arguments) => {
                 write!(
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 962ccf5..02ef7ca 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -89,14 +89,6 @@ impl EncoderContext {
                         let #target = #source;
                     });
                 }
-                Instruction::AllocBuf(buf, len) => {
-                    let buf = emit_register(*buf);
-                    let len = emit_register(*len);
-                    statements.push(quote! {
-                        //todo: strictly bound this
-                        let mut #buf: Vec<u8> = Vec::with_capacity(#len as usize);
-                    });
-                }
                 Instruction::AllocDynBuf(buf) => {
                     let buf = emit_register(*buf);
                     statements.push(quote! {
-- 
2.43.0


From 702ee1660eec9bb24af7b586d591565a996e925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 30/70] fix: do not allocate padding

---
 protospec-build/src/compiler/encoder.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 02ef7ca..c503356 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -438,11 +438,16 @@ impl EncoderContext {
                 }
                 Instruction::Pad(target, length) => {
                     let length = emit_register(*length);
-                    let target = emit_target(target);
-                    //todo: dont alloc on the heap
-                    statements.push(quote! {
-                        #target.write_all(&vec![0u8; #length as usize][..])#async_?;
-                    });
+                    let target = emit_wrapped_target(target);
+                    if self.is_async {
+                        statements.push(quote! {
+                            tokio::io::copy(&mut tokio::io::AsyncReadExt::take(tokio::io::repeat(0), #length as u64), #target).await?;
+                        });
+                    } else {
+                        statements.push(quote! {
+                            std::io::copy(&mut std::io::Read::take(std::io::repeat(0), #length as u64), #target)?;
+                        });
+                    }
                 }
                 Instruction::SetRef(name, value) => {
                     self.resolved_refs.insert(name.clone(), *value);
-- 
2.43.0


From 589691b8f2449e02b78e869e489859db48a51ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 31/70] fix: convert the operand of a unary expression once

---
 protospec-build/src/semantics/convert/expression/unary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/expression/unary.rs b/protospec-build/src/semantics/convert/expression/unary.rs
index 05243b7..0cf311f 100644
--- a/protospec-build/src/semantics/convert/expression/unary.rs
+++ b/protospec-build/src/semantics/convert/expression/unary.rs
@@ -47,7 +47,7 @@ impl Scope {
         }
         Ok(UnaryExpression {
             op: expr.op.clone(),
-            inner: Box::new(Scope::convert_expr(self_, &expr.inner, expected_type)?),
+            inner,
             span: expr.span,
         })
     }
-- 
2.43.0


From 67aa6cc8a19d5b6c7834759949e317cbe29dc2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 32/70] fix: report token positions on the first line and
 around multi-line tokens

---
 protospec-build/src/tokenizer.rs | 48 +++++++++++---------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index d958339..5ac1737 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -493,27 +493,15 @@ impl std::ops::Add for Span {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        if self.line_start == other.line_stop {
-            Span {
-                line_start: self.line_start,
-                line_stop: self.line_stop,
-                col_start: self.col_start.min(other.col_start),
-                col_stop: self.col_stop.max(other.col_stop),
-            }
-        } else if self.line_start < other.line_start {
-            Span {
-                line_start: self.line_start,
-                line_stop: other.line_stop,
-                col_start: self.col_start,
-                col_stop: other.col_stop,
-            }
-        } else {
-            Span {
-                line_start: other.line_start,
-                line_stop: self.line_stop,
-                col_start: other.col_start,
-                col_stop: self.col_stop,
-            }
+        let (line_start, col_start) =
+            (self.line_start, self.col_start).min((other.line_start, other.col_start));
+        let (line_stop, col_stop) =
+            (self.line_stop, self.col_stop).max((other.line_stop, other.col_stop));
+        Span {
+            line_start,
+            line_stop,
+            col_start,
+            col_stop,
         }
     }
 }
@@ -540,32 +528,30 @@ impl fmt::Debug for SpannedToken {
 pub fn tokenize(input: &str, strip_comments: bool) -> Result<Vec<SpannedToken>> {
     let mut input = input.as_bytes();
     let mut tokens = vec![];
-    let mut index = 064;
+    let mut index = 0u64;
     let mut line_no = 1u64;
     let mut line_start = 0u64;
     while input.len() > 0 {
         match Token::gobble(input) {
             (output, Some(token)) => {
                 let start_line = line_no;
-                match &token {
-                    Token::CommentLine(_) => {
+                let col_start = index - line_start + 1;
+                for byte in &input[..input.len() - output.len()] {
+                    index += 1;
+                    if *byte == b'\n' {
                         line_no += 1;
+                        line_start = index;
                     }
-                    Token::CommentBlock(s) => {
-                        line_no += s.chars().filter(|x| *x == '\n').count() as u64;
-                    }
-                    _ => (),
                 }
                 tokens.push(SpannedToken {
                     token,
                     span: Span {
                         line_start: start_line,
                         line_stop: line_no,
-                        col_start: index - line_start + 1,
-                        col_stop: index - line_start + (input.len() - output.len()) as u64 + 1,
+                        col_start,
+                        col_stop: index - line_start + 1,
                     },
                 });
-                index += (input.len() - output.len()) as u64;
                 input = output;
             }
             (output, None) => {
-- 
2.43.0


From fceb54eb860cbd3baa0042b1fd5f0563129e33d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 33/70] fix: import functions from other files

---
 protospec-build/src/semantics/convert/program/import.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/protospec-build/src/semantics/convert/program/import.rs b/protospec-build/src/semantics/convert/program/import.rs
index 13e130c..8f926a8 100644
--- a/protospec-build/src/semantics/convert/program/import.rs
+++ b/protospec-build/src/semantics/convert/program/import.rs
@@ -27,6 +27,11 @@ impl Scope {
                         .borrow_mut()
                         .transforms
                         .insert(imported_name, t.clone());
+                } else if let Some(t) = cached.functions.get(&import_item.name.name) {
+                    program
+                        .borrow_mut()
+                        .functions
+                        .insert(imported_name, t.clone());
                 } else {
                     return Err(AsgError::ImportUnresolved(
                         import_item.name.name.clone(),
-- 
2.43.0


From e4c2fcf4ff64c960ceb6cd89be8f930fd198a9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 34/70] fix: generate the whole imported file, under the names
 its types are declared with

---
 protospec-build/src/asg/program.rs                      | 2 ++
 protospec-build/src/compiler/mod.rs                     | 9 ++++++++-
 protospec-build/src/semantics/convert/program/import.rs | 7 +++++++
 protospec-build/src/semantics/convert/program/mod.rs    | 1 +
 4 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/program.rs b/protospec-build/src/asg/program.rs
index 8d53e93..e0d6c30 100644
--- a/protospec-build/src/asg/program.rs
+++ b/protospec-build/src/asg/program.rs
@@ -6,6 +6,8 @@ pub struct Program {
     pub consts: IndexMap<String, Arc<Const>>,
     pub transforms: IndexMap<String, Arc<Transform>>,
     pub functions: IndexMap<String, Arc<Function>>,
+    /// all types of the files that are imported, directly or not
+    pub imported_types: Vec<Arc<Field>>,
 }
 
 impl Program {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 76d1d17..540a7db 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -142,7 +142,14 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
 
         #errors
     });
-    for (name, field) in program.types.iter() {
+    let mut fields: Vec<&Arc<Field>> = vec![];
+    for field in program.types.values().chain(program.imported_types.iter()) {
+        if !fields.iter().any(|x| Arc::ptr_eq(x, field)) {
+            fields.push(field);
+        }
+    }
+    for field in fields {
+        let name = &field.name;
         match &*field.type_.borrow() {
             Type::Foreign(_) => continue,
             Type::Container(item) => {
diff --git a/protospec-build/src/semantics/convert/program/import.rs b/protospec-build/src/semantics/convert/program/import.rs
index 8f926a8..b0ee0a4 100644
--- a/protospec-build/src/semantics/convert/program/import.rs
+++ b/protospec-build/src/semantics/convert/program/import.rs
@@ -12,6 +12,13 @@ impl Scope {
         let content = String::from_utf8_lossy(&import.from.content[..]);
         let normalized = resolver.normalize_import(content.as_ref())?;
         if let Some(cached) = import_cache.get(&normalized) {
+            // the whole imported file is generated, as its types may refer to each other
+            for type_ in cached.types.values().chain(cached.imported_types.iter()) {
+                let imported_types = &mut program.borrow_mut().imported_types;
+                if !imported_types.iter().any(|x| Arc::ptr_eq(x, type_)) {
+                    imported_types.push(type_.clone());
+                }
+            }
             for import_item in import.items.iter() {
                 let imported_name = if let Some(alias) = import_item.alias.as_ref() {
                     alias.name.clone()
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 0c15ee2..c86cfb2 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -31,6 +31,7 @@ impl Program {
             consts: IndexMap::new(),
             transforms: IndexMap::new(),
             functions: IndexMap::new(),
+            imported_types: vec![],
         }));
 
         {
-- 
2.43.0


From d191e1434803d1877070f6f359021600c2373cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 35/70] fix: reject import files that import themselves

---
 protospec-build/src/semantics/convert/program/mod.rs     | 2 +-
 protospec-build/src/semantics/convert/program/resolve.rs | 8 +++++++-
 protospec-build/src/semantics/error.rs                   | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index c86cfb2..6dcf040 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -17,7 +17,7 @@ impl Program {
     ) -> AsgResult<Program> {
         let mut cached_imports: IndexMap<String, Program> = IndexMap::new();
 
-        Program::from_ast_imports(ast, resolver, &mut cached_imports)?;
+        Program::from_ast_imports(ast, resolver, &mut cached_imports, &mut vec![])?;
         Program::from_ast_imported(ast, resolver, &cached_imports)
     }
 
diff --git a/protospec-build/src/semantics/convert/program/resolve.rs b/protospec-build/src/semantics/convert/program/resolve.rs
index 042cc22..3b5d954 100644
--- a/protospec-build/src/semantics/convert/program/resolve.rs
+++ b/protospec-build/src/semantics/convert/program/resolve.rs
@@ -5,12 +5,16 @@ impl Program {
         ast: &ast::Program,
         resolver: &T,
         cache: &mut IndexMap<String, Program>,
+        loading: &mut Vec<String>,
     ) -> AsgResult<()> {
         for declaration in ast.declarations.iter() {
             match declaration {
                 ast::Declaration::Import(import) => {
                     let content = String::from_utf8_lossy(&import.from.content[..]).into_owned();
                     let normalized = resolver.normalize_import(&content[..])?;
+                    if loading.contains(&normalized) {
+                        return Err(AsgError::ImportCycle(content, import.from.span));
+                    }
                     if let Some(_cached) = cache.get(&normalized) {
                     } else {
                         let loaded = resolver.resolve_import(&normalized)?;
@@ -21,7 +25,9 @@ impl Program {
                                     return Err(AsgError::ImportParse(content, import.from.span, e))
                                 }
                             };
-                            Program::from_ast_imports(&parsed, resolver, cache)?;
+                            loading.push(normalized.clone());
+                            Program::from_ast_imports(&parsed, resolver, cache, loading)?;
+                            loading.pop();
                             let asg = Program::from_ast_imported(&parsed, resolver, cache)?;
                             cache.insert(normalized, asg);
                         } else {
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 92b5aa2..9d2743c 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -13,6 +13,8 @@ pub enum AsgError {
     ImportMissing(String, Span),
     #[error("unresolved import item '{0}' does not exist in module {1} @ {2}")]
     ImportUnresolved(String, String, Span),
+    #[error("import file '{0}' imports itself @ {1}")]
+    ImportCycle(String, Span),
     #[error("failed to parse import file '{0}' @ {1}: {2}")]
     ImportParse(String, Span, crate::parser::ParseError),
     #[error("type name already in use: '{0}' @ {1}, originally declared at {2}")]
-- 
2.43.0


From d91f5f1007f84f26c8605aefc7058d6ffb8aabcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 36/70] fix: reject types that are declared as themselves

---
 protospec-build/src/semantics/convert/field.rs | 10 ++++++++++
 protospec-build/src/semantics/error.rs         |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 9acb1cd..98982f4 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -134,6 +134,16 @@ impl Scope {
         //     }
         // }
 
+        if into.toplevel {
+            let mut next = asg_type.clone();
+            while let Type::Ref(call) = next {
+                if Arc::ptr_eq(&call.target, into) {
+                    return Err(AsgError::TypeCycle(into.name.clone(), into.span));
+                }
+                next = call.target.type_.borrow().clone();
+            }
+        }
+
         into.type_.replace(asg_type);
         into.condition.replace(condition);
         into.transforms.replace(transforms);
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 9d2743c..0ea7686 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -17,6 +17,8 @@ pub enum AsgError {
     ImportCycle(String, Span),
     #[error("failed to parse import file '{0}' @ {1}: {2}")]
     ImportParse(String, Span, crate::parser::ParseError),
+    #[error("type '{0}' is declared as itself @ {1}")]
+    TypeCycle(String, Span),
     #[error("type name already in use: '{0}' @ {1}, originally declared at {2}")]
     TypeRedefinition(String, Span, Span),
     #[error("transform name already in use: '{0}' @ {1}, originally declared at {2}")]
-- 
2.43.0


From 03dbaf4174e4b0b94135550bb2c67842e88ffb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 37/70] fix: compare references to the same type without
 descending into it

---
 protospec-build/src/asg/types/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 62cb853..26f565b 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -87,6 +87,12 @@ impl Type {
     }
 
     pub fn assignable_from(&self, other: &Type) -> bool {
+        if let (Type::Ref(call1), Type::Ref(call2)) = (self, other) {
+            // comparing a recursive type with itself would not terminate
+            if Arc::ptr_eq(&call1.target, &call2.target) {
+                return true;
+            }
+        }
         match (self.resolved().as_ref(), other.resolved().as_ref()) {
             (Type::Ref(field1), Type::Ref(field2)) => field1
                 .target
-- 
2.43.0


From 4f80af34a96ba4dc67474c5a4c998c506000af19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 38/70] fix: report errors from finishing gzip and base64
 streams

---
 protospec-build/src/coder/encode/field.rs     | 14 ++++++++-----
 .../src/coder/encode/instruction.rs           | 10 +++++++---
 protospec-build/src/compiler/encoder.rs       | 20 +++++++++++++++++--
 protospec-build/src/ffi/transform.rs          | 11 +++++++++-
 protospec-build/src/prelude/base64.rs         |  6 ++++++
 protospec-build/src/prelude/gzip.rs           | 14 +++++++++++++
 6 files changed, 64 insertions(+), 11 deletions(-)

diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index e538942..57ec7fc 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -62,7 +62,7 @@ impl Context {
         &mut self,
         mut target: Target,
         field: &Arc<Field>,
-    ) -> (Target, Vec<(usize, Option<usize>)>) {
+    ) -> (Target, Vec<(usize, Option<usize>, Arc<Transform>)>) {
         let mut new_streams = vec![];
 
         // the innermost writer is wrapped first, so the first transform has to be wrapped last
@@ -85,7 +85,7 @@ impl Context {
             }
             let new_stream = self.alloc_register();
             let new_owned_stream = condition.map(|_| self.alloc_register());
-            new_streams.push((new_stream, new_owned_stream));
+            new_streams.push((new_stream, new_owned_stream, transform.transform.clone()));
 
             if let Some(condition) = condition {
                 let drained = self.instructions.drain(argument_start..).collect();
@@ -111,9 +111,13 @@ impl Context {
         (target, new_streams)
     }
 
-    pub fn encode_end_transforms(&mut self, new_streams: &[(usize, Option<usize>)]) {
-        for (stream, owned_stream) in new_streams.iter().rev() {
-            self.instructions.push(Instruction::EndStream(*stream));
+    pub fn encode_end_transforms(&mut self, new_streams: &[(usize, Option<usize>, Arc<Transform>)]) {
+        for (stream, owned_stream, transform) in new_streams.iter().rev() {
+            self.instructions.push(Instruction::EndStream(
+                *stream,
+                *owned_stream,
+                transform.clone(),
+            ));
             if let Some(owned_stream) = owned_stream {
                 self.instructions.push(Instruction::Drop(*owned_stream));
             }
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index efc83d9..ad97252 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -29,8 +29,8 @@ pub enum Instruction {
         Arc<Transform>,
         Vec<usize>,
     ),
-    /// stream
-    EndStream(usize),
+    /// stream, owned stream if conditionally wrapped, transformer
+    EndStream(usize, Option<usize>, Arc<Transform>),
 
     /// dest, buf handle
     EmitBuf(Target, usize),
@@ -127,7 +127,11 @@ impl fmt::Display for Instruction {
                 }
                 Ok(())
             }
-            Instruction::EndStream(stream) => write!(f, "EndStream({})", stream),
+            Instruction::EndStream(stream, owned_stream, transform) => write!(
+                f,
+                "EndStream({}, {:?}, '{}')",
+                stream, owned_stream, transform.name
+            ),
             Instruction::EmitBuf(dest, buf_handle) => {
                 write!(f, "EmitBuf({:?}, {})", dest, buf_handle)
             }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index c503356..ab1a1db 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -189,13 +189,29 @@ impl EncoderContext {
                         self.is_async,
                     ));
                 }
-                Instruction::EndStream(stream) => {
+                Instruction::EndStream(stream, None, transformer) => {
                     let stream = emit_register(*stream);
+                    let finish = transformer
+                        .inner
+                        .encoding_finish_gen(stream.clone(), self.is_async);
                     statements.push(quote! {
-                        #stream.flush()#async_?;
+                        #finish
                         drop(#stream);
                     });
                 }
+                Instruction::EndStream(stream, Some(owned_stream), transformer) => {
+                    let stream = emit_register(*stream);
+                    let owned_stream = emit_register(*owned_stream);
+                    let finish = transformer
+                        .inner
+                        .encoding_finish_gen(stream.clone(), self.is_async);
+                    statements.push(quote! {
+                        drop(#stream);
+                        if let Some(#stream) = #owned_stream.as_mut() {
+                            #finish
+                        }
+                    });
+                }
                 Instruction::EmitBuf(target, buf) => {
                     let target = emit_target(target);
                     let buf = emit_register(*buf);
diff --git a/protospec-build/src/ffi/transform.rs b/protospec-build/src/ffi/transform.rs
index 84dffa6..3816846 100644
--- a/protospec-build/src/ffi/transform.rs
+++ b/protospec-build/src/ffi/transform.rs
@@ -1,6 +1,7 @@
 use proc_macro2::TokenStream;
+use quote::quote;
 
-use crate::FFIArgument;
+use crate::{map_async, FFIArgument};
 
 pub type ForeignTransformObj = Box<dyn ForeignTransform + Send + Sync + 'static>;
 
@@ -20,4 +21,12 @@ pub trait ForeignTransform {
     ) -> TokenStream;
 
     fn arguments(&self) -> Vec<FFIArgument>;
+
+    /// ends the stream made by `encoding_gen`, so that everything written to it has been passed on and no error is lost
+    fn encoding_finish_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
+        let async_ = map_async(is_async);
+        quote! {
+            #stream.flush()#async_?;
+        }
+    }
 }
diff --git a/protospec-build/src/prelude/base64.rs b/protospec-build/src/prelude/base64.rs
index 8314bd6..4d7bf9f 100644
--- a/protospec-build/src/prelude/base64.rs
+++ b/protospec-build/src/prelude/base64.rs
@@ -36,4 +36,10 @@ impl ForeignTransform for Base64Transform {
     fn arguments(&self) -> Vec<FFIArgument> {
         vec![]
     }
+
+    fn encoding_finish_gen(&self, stream: TokenStream, _is_async: bool) -> TokenStream {
+        quote! {
+            #stream.finish()?.flush()?;
+        }
+    }
 }
diff --git a/protospec-build/src/prelude/gzip.rs b/protospec-build/src/prelude/gzip.rs
index 555775b..25f8f4f 100644
--- a/protospec-build/src/prelude/gzip.rs
+++ b/protospec-build/src/prelude/gzip.rs
@@ -40,4 +40,18 @@ impl ForeignTransform for GzipTransform {
     fn arguments(&self) -> Vec<FFIArgument> {
         vec![]
     }
+
+    fn encoding_finish_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
+        let async_ = map_async(is_async);
+        if is_async {
+            quote! {
+                #stream.flush()#async_?;
+            }
+        } else {
+            quote! {
+                #stream.try_finish()?;
+                #stream.get_mut().flush()?;
+            }
+        }
+    }
 }
-- 
2.43.0


From 6ea55aa4ec1331438c4e0052330932b224fe1880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 39/70] fix: keep the stream types of recursive types finite
 and referenced types behind conditional transforms sized

---
 protospec-build/src/compiler/decoder.rs | 23 ++++++++++++++++++++---
 protospec-build/src/compiler/encoder.rs | 25 ++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 7008e61..3a34841 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -237,16 +237,33 @@ fn prepare_decode(
                     out_arguments.push(quote! {, #value});
                 }
                 let out_arguments = flatten(out_arguments);
+                let is_stream = matches!(target, Target::Stream(_));
                 let target = emit_target(target);
                 let source = emit_register(*source);
                 let class = emit_ident(class);
-                if is_async {
+                let (stream_type, decode) = if is_async {
+                    (
+                        quote! { &mut (dyn AsyncBufRead + Send + Sync + Unpin) },
+                        quote! { #class::decode_async(#target #out_arguments).await? },
+                    )
+                } else {
+                    (
+                        quote! { &mut dyn BufRead },
+                        quote! { #class::decode_sync(#target #out_arguments)? },
+                    )
+                };
+                if is_stream {
+                    // a trait object keeps the stream type of a recursive decoder finite
                     statements.push(quote! {
-                        let #source = #class::decode_async(#target #out_arguments).await?;
+                        let #source = {
+                            let mut #target: #stream_type = &mut *#target;
+                            let #target = &mut #target;
+                            #decode
+                        };
                     });
                 } else {
                     statements.push(quote! {
-                        let #source = #class::decode_sync(#target #out_arguments)?;
+                        let #source = #decode;
                     });
                 }
             }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index ab1a1db..c805c58 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -226,16 +226,31 @@ impl EncoderContext {
                         out_arguments.push(quote! {, #value});
                     }
                     let out_arguments = flatten(out_arguments);
+                    let is_stream = matches!(target, Target::Stream(_));
+                    let writer = emit_target(target);
                     let target = emit_wrapped_target(target);
                     let source = emit_register(*source);
-                    if self.is_async {
-                        statements.push(quote! {
-                            #source.encode_async(#target #out_arguments).await?;
-                        });
+                    let (stream_type, encode) = if self.is_async {
+                        (
+                            quote! { &mut (dyn AsyncWrite + Send + Sync + Unpin) },
+                            quote! { #source.encode_async(#target #out_arguments).await?; },
+                        )
                     } else {
+                        (
+                            quote! { &mut dyn Write },
+                            quote! { #source.encode_sync(#target #out_arguments)?; },
+                        )
+                    };
+                    if is_stream {
+                        // a trait object keeps the stream type of a recursive encoder finite
                         statements.push(quote! {
-                            #source.encode_sync(#target #out_arguments)?;
+                            {
+                                let mut #writer: #stream_type = #target;
+                                #encode
+                            }
                         });
+                    } else {
+                        statements.push(encode);
                     }
                 }
                 Instruction::EncodeEnum(target, value, type_) => {
-- 
2.43.0


From 9c5feab8d5b00c092e68502e3aa473758247f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 40/70] fix: code array elements of referenced types with the
 referenced type's own coder

---
 protospec-build/src/asg/types/mod.rs      | 16 ++++++++++++++++
 protospec-build/src/coder/decode/array.rs |  2 +-
 protospec-build/src/coder/encode/array.rs |  2 +-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 26f565b..3ef12f4 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -86,6 +86,22 @@ impl Type {
         }
     }
 
+    /// what the elements of an array of this type are coded as: a reference to a plain enum or bitfield
+    /// stands for it, any other referenced type has a coder of its own
+    pub fn array_element(&self) -> Cow<'_, Type> {
+        if let Type::Ref(x) = self {
+            let is_plain =
+                x.target.condition.borrow().is_none() && x.target.transforms.borrow().is_empty();
+            match &*x.target.type_.borrow() {
+                target @ (Type::Enum(_) | Type::Bitfield(_)) if is_plain => {
+                    return Cow::Owned(target.clone())
+                }
+                _ => (),
+            }
+        }
+        Cow::Borrowed(self)
+    }
+
     pub fn assignable_from(&self, other: &Type) -> bool {
         if let (Type::Ref(call1), Type::Ref(call2)) = (self, other) {
             // comparing a recursive type with itself would not terminate
diff --git a/protospec-build/src/coder/decode/array.rs b/protospec-build/src/coder/decode/array.rs
index 789506d..d72ec3b 100644
--- a/protospec-build/src/coder/decode/array.rs
+++ b/protospec-build/src/coder/decode/array.rs
@@ -24,7 +24,7 @@ impl Context {
 
         let output = self.alloc_register();
         if terminator.is_none() {
-            let type_ = type_.element.resolved();
+            let type_ = type_.element.array_element();
             match &*type_ {
                 // todo: const-length type optimizations for container/array/foreign
                 Type::Container(_) | Type::Array(_) | Type::Foreign(_) | Type::Ref(_) => (),
diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 9005ac1..a0aeefa 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -37,7 +37,7 @@ impl Context {
         };
 
         if terminator.is_none() {
-            let type_ = type_.element.resolved();
+            let type_ = type_.element.array_element();
             let primitive_type = match &*type_ {
                 // todo: const-length type optimizations for container/array/foreign
                 Type::Container(_) | Type::Array(_) | Type::Foreign(_) | Type::Ref(_) => None,
-- 
2.43.0


From a6e2cf7a3f73d771535d6d5ebd7f5fc8615cfa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 41/70] fix: keep the order of fields when several await the
 byte length of a container

---
 protospec-build/src/coder/encode/container.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 7a55d1c..571e3a9 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -152,9 +152,10 @@ impl Context {
                         self.eval_blen_expr(&blen_calls[..], auto_field, calculated);
 
                     auto_targets.remove(i);
-                    let target = auto_targets
-                        .get(i)
-                        .map(|(target, _)| Target::Buf(*target))
+                    // the field and what follows it continue what precedes the field
+                    let target = i
+                        .checked_sub(1)
+                        .map(|previous| Target::Buf(auto_targets[previous].0))
                         .unwrap_or(buf_target);
                     self.encode_field(target, calculated_register, auto_field, conditional);
                     self.instructions
-- 
2.43.0


From cffea8b0b82de03787a76b14ed90d65c0ab045d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 42/70] fix: generate the same code every time for an
 expression with several blen calls

---
 protospec-build/src/coder/encode/container.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 571e3a9..8f8dbfe 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -1,6 +1,6 @@
 use std::{
     cell::{Cell, RefCell},
-    collections::{HashMap, HashSet},
+    collections::{BTreeSet, HashMap},
 };
 
 use crate::Span;
@@ -393,12 +393,12 @@ impl Expression {
     }
 
     fn blen_calls(&self) -> Vec<String> {
-        let mut out = HashSet::new();
+        let mut out = BTreeSet::new();
         self.extract_magic_blen_calls(&mut out);
         out.into_iter().collect()
     }
 
-    fn extract_magic_blen_calls(&self, output: &mut HashSet<String>) {
+    fn extract_magic_blen_calls(&self, output: &mut BTreeSet<String>) {
         match self {
             Expression::Binary(expr) => {
                 expr.left.extract_magic_blen_calls(output);
-- 
2.43.0


From bc5a1887804995a17f29c88e631f3b3510ad6ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 43/70] fix: byte lengths of any sibling field, before or after
 it, and of containers of equal names

---
 protospec-build/src/coder/encode/container.rs | 105 ++++++++++++++----
 1 file changed, 82 insertions(+), 23 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 8f8dbfe..c35f6d3 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -104,6 +104,11 @@ impl Context {
         conditional: bool,
     ) {
         let mut auto_targets = vec![];
+        let blen_targets = container.blen_targets();
+        for name in &blen_targets {
+            // another container may have had a field of that name
+            self.resolved_autos.swap_remove(name);
+        }
         for (name, child) in container.items.iter() {
             let calculated = child.calculated.borrow();
             if let Some(calculated) = &*calculated {
@@ -113,7 +118,6 @@ impl Context {
                     for target in &blen_calls {
                         if !self.resolved_autos.contains_key(target) {
                             all_resolved = false;
-                            self.pending_autos.insert(target.clone());
                         }
                     }
                     if all_resolved {
@@ -130,13 +134,42 @@ impl Context {
                 .last()
                 .map(|x| (Target::Buf(x.0), Some(&x.1)))
                 .unwrap_or_else(|| (buf_target, None));
-            if matches!(&*child.type_.borrow(), Type::Container(_)) || child.is_pad.get() {
-                self.encode_field(real_target, source, child, conditional);
+            let is_container = matches!(&*child.type_.borrow(), Type::Container(_));
+            let is_blen_target = blen_targets.contains(name);
+            // containers take their own length, as transforms of theirs are not to count
+            let own_buffer = is_blen_target
+                && (!is_container || child.condition.borrow().is_some())
+                && !child.is_pad.get();
+            let child_target = if own_buffer {
+                let buf = self.alloc_register();
+                self.instructions.push(Instruction::AllocDynBuf(buf));
+                Target::Buf(buf)
+            } else {
+                real_target
+            };
+            if is_blen_target {
+                self.pending_autos.insert(name.clone());
+            }
+            if is_container || child.is_pad.get() {
+                self.encode_field(child_target, source, child, conditional);
             } else {
                 let resolved = self.alloc_register();
                 self.instructions
                     .push(Instruction::GetRef(resolved, name.clone()));
-                self.encode_field(real_target, resolved, child, conditional);
+                self.encode_field(child_target, resolved, child, conditional);
+            }
+            if own_buffer {
+                let buf = child_target.unwrap_buf();
+                self.pending_autos.swap_remove(name);
+                let length = self.alloc_register();
+                self.instructions.push(Instruction::GetLen(
+                    length,
+                    buf,
+                    Some(ScalarType::U64),
+                ));
+                self.resolved_autos.insert(name.clone(), length);
+                self.instructions
+                    .push(Instruction::EmitBuf(real_target, buf));
             }
 
             for (i, (auto_target, auto_field)) in auto_targets.clone().into_iter().enumerate().rev()
@@ -176,7 +209,8 @@ impl Context {
         source: usize,
         conditional: bool,
     ) {
-        let (buf_target, len_register) = self.encode_container_start(field, type_, target);
+        let (buf_target, len_register, is_blen_target) =
+            self.encode_container_start(field, type_, target);
         if type_.is_enum.get() {
             let break_start = self.instructions.len();
             let mut exhaustive = false;
@@ -217,7 +251,7 @@ impl Context {
                         self.encode_container_calculated(type_);
                         let (child_target, new_streams) =
                             self.encode_transforms(buf_target, child);
-                        let (child_buf_target, len_register) =
+                        let (child_buf_target, len_register, is_blen_target) =
                             self.encode_container_start(child, type_, child_target);
                         self.encode_container_items(type_, child_buf_target, source, false);
                         self.encode_container_end(
@@ -226,6 +260,7 @@ impl Context {
                             child_target,
                             child_buf_target,
                             len_register,
+                            is_blen_target,
                         );
                         self.encode_end_transforms(&new_streams[..]);
                         self.instructions.push(Instruction::Break);
@@ -271,33 +306,42 @@ impl Context {
             self.encode_container_items(type_, buf_target, source, conditional);
         }
 
-        self.encode_container_end(field, type_, target, buf_target, len_register);
+        self.encode_container_end(
+            field,
+            type_,
+            target,
+            buf_target,
+            len_register,
+            is_blen_target,
+        );
     }
 
-    /// returns the target of the content, and the register of the length it has to have, if any
+    /// returns the target of the content, the register of the length it has to have, if any, and whether a sibling asks
+    /// for its length
     fn encode_container_start(
         &mut self,
         field: &Arc<Field>,
         type_: &ContainerType,
         target: Target,
-    ) -> (Target, Option<usize>) {
-        let length = match &type_.length {
-            Some(length) => length,
-            None => return (target, None),
-        };
+    ) -> (Target, Option<usize>, bool) {
+        let is_blen_target = self.pending_autos.swap_remove(&field.name);
+        if type_.length.is_none() && !is_blen_target {
+            return (target, None, false);
+        }
         //todo: use limited stream
         let buf = self.alloc_register();
         self.instructions.push(Instruction::AllocDynBuf(buf));
         // we avoid cyclic dependency during encoding by ignoring container length constraint if we're a blen-target
-        let len_register = if self.pending_autos.contains(&field.name) {
-            None
-        } else {
-            let len_register = self.alloc_register();
-            self.instructions
-                .push(Instruction::Eval(len_register, length.clone()));
-            Some(len_register)
+        let len_register = match &type_.length {
+            Some(length) if !is_blen_target => {
+                let len_register = self.alloc_register();
+                self.instructions
+                    .push(Instruction::Eval(len_register, length.clone()));
+                Some(len_register)
+            }
+            _ => None,
         };
-        (Target::Buf(buf), len_register)
+        (Target::Buf(buf), len_register, is_blen_target)
     }
 
     fn encode_container_end(
@@ -307,8 +351,9 @@ impl Context {
         target: Target,
         buf_target: Target,
         len_register: Option<usize>,
+        is_blen_target: bool,
     ) {
-        if type_.length.is_none() {
+        if type_.length.is_none() && !is_blen_target {
             return;
         }
         let buf = buf_target.unwrap_buf();
@@ -319,7 +364,7 @@ impl Context {
                 "container length mismatch".to_string(),
             ));
         }
-        if self.pending_autos.remove(&field.name) {
+        if is_blen_target {
             let target = self.alloc_register();
             self.instructions.push(Instruction::GetLen(
                 target,
@@ -332,6 +377,20 @@ impl Context {
     }
 }
 
+impl ContainerType {
+    /// fields whose byte length a sibling asks for
+    fn blen_targets(&self) -> Vec<String> {
+        let mut out = BTreeSet::new();
+        for (_, field) in &self.items {
+            if let Some(calculated) = &*field.calculated.borrow() {
+                calculated.extract_magic_blen_calls(&mut out);
+            }
+        }
+        out.retain(|name| self.items.iter().any(|(item, _)| item == name));
+        out.into_iter().collect()
+    }
+}
+
 impl Expression {
     fn rewrite_blen_calls(&mut self, map: &HashMap<String, String>) {
         match self {
-- 
2.43.0


From 17eb5e3462d4af5e4b0996d648dfcf91aaa8a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 44/70] fix: refuse content that is longer than its calculated
 length field can tell

---
 protospec-build/src/coder/encode/container.rs | 33 +++++++++++++++++--
 protospec-build/src/coder/encode/mod.rs       |  4 +--
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index c35f6d3..7d16036 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -79,7 +79,7 @@ impl Context {
     ) -> usize {
         let mut blen_map = HashMap::new();
         for target_name in blens {
-            let register = *self.resolved_autos.get(target_name).unwrap();
+            let (register, _) = *self.resolved_autos.get(target_name).unwrap();
             let blen_name = format!("__blen_{}", target_name);
             blen_map.insert(target_name.clone(), blen_name.clone());
             self.instructions
@@ -167,7 +167,7 @@ impl Context {
                     buf,
                     Some(ScalarType::U64),
                 ));
-                self.resolved_autos.insert(name.clone(), length);
+                self.resolved_autos.insert(name.clone(), (length, buf));
                 self.instructions
                     .push(Instruction::EmitBuf(real_target, buf));
             }
@@ -199,6 +199,32 @@ impl Context {
         for (_, auto_field) in auto_targets {
             panic!("unused auto field: {}", auto_field.name);
         }
+        // only now all that a length may depend on is known
+        for name in &blen_targets {
+            let (_, child) = container.items.iter().find(|(x, _)| *x == name).unwrap();
+            let length = match &*child.type_.borrow() {
+                Type::Container(type_) => type_.length.clone(),
+                _ => None,
+            };
+            if let (Some(length), Some((_, buf))) = (length, self.resolved_autos.get(name).copied())
+            {
+                let condition = self.encode_field_condition(child);
+                let start = self.instructions.len();
+                let len_register = self.alloc_register();
+                self.instructions
+                    .push(Instruction::Eval(len_register, length));
+                self.instructions.push(Instruction::CheckLen(
+                    buf,
+                    len_register,
+                    "container length mismatch".to_string(),
+                ));
+                if let Some(condition) = condition {
+                    let drained = self.instructions.drain(start..).collect();
+                    self.instructions
+                        .push(Instruction::Conditional(condition, drained, vec![]));
+                }
+            }
+        }
     }
 
     pub fn encode_container(
@@ -371,7 +397,8 @@ impl Context {
                 buf,
                 Some(ScalarType::U64),
             ));
-            self.resolved_autos.insert(field.name.clone(), target);
+            self.resolved_autos
+                .insert(field.name.clone(), (target, buf));
         }
         self.instructions.push(Instruction::EmitBuf(target, buf));
     }
diff --git a/protospec-build/src/coder/encode/mod.rs b/protospec-build/src/coder/encode/mod.rs
index c0a2268..de56183 100644
--- a/protospec-build/src/coder/encode/mod.rs
+++ b/protospec-build/src/coder/encode/mod.rs
@@ -23,8 +23,8 @@ pub use var_ref::*;
 pub struct Context {
     pub register_count: usize,
     pub instructions: Vec<Instruction>,
-    // map of resolved field name -> register
-    pub resolved_autos: IndexMap<String, usize>,
+    // map of resolved field name -> register of its length, register of its buffer
+    pub resolved_autos: IndexMap<String, (usize, usize)>,
     // set of pending field name
     pub pending_autos: IndexSet<String>,
 }
-- 
2.43.0


From 99202a7bc3ee625349b3db3701dbc1fc73b07a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 45/70] fix: conditional containers without fields

---
 protospec-build/src/coder/decode/field.rs | 3 ---
 protospec-build/src/compiler/decoder.rs   | 6 +++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/coder/decode/field.rs b/protospec-build/src/coder/decode/field.rs
index 865df93..da24aa9 100644
--- a/protospec-build/src/coder/decode/field.rs
+++ b/protospec-build/src/coder/decode/field.rs
@@ -58,9 +58,6 @@ impl Context {
         }
         if let Some(field_condition) = field_condition {
             let drained = self.instructions.drain(start..).collect();
-            if emitted.is_empty() {
-                panic!("no emitted values from conditional");
-            }
             self.instructions.push(Instruction::Conditional(
                 emitted.clone(),
                 emitted.clone(),
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 3a34841..69e777e 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -478,7 +478,7 @@ fn prepare_decode(
                     .map(emit_register)
                     .collect::<Vec<_>>();
                 let targets = flatten_separated(targets, quote! {,});
-                let targets = if target.len() > 1 {
+                let targets = if target.len() != 1 {
                     quote! { (#targets) }
                 } else {
                     targets
@@ -496,14 +496,14 @@ fn prepare_decode(
                 let anti_interiors = interior.iter().map(|_| quote! { None }).collect::<Vec<_>>();
 
                 let interiors = flatten_separated(interiors, quote! {,});
-                let interiors = if interior.len() > 1 {
+                let interiors = if interior.len() != 1 {
                     quote! { (#interiors) }
                 } else {
                     interiors
                 };
 
                 let anti_interiors = flatten_separated(anti_interiors, quote! {,});
-                let anti_interiors = if interior.len() > 1 {
+                let anti_interiors = if interior.len() != 1 {
                     quote! { (#anti_interiors) }
                 } else {
                     anti_interiors
-- 
2.43.0


From 532accb8bd7061377b1c82b4db33b0a53e63bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 46/70] fix: optional and calculated fields inside conditional
 containers

---
 protospec-build/src/coder/decode/field.rs     |  7 ++++++-
 .../src/coder/decode/instruction.rs           |  2 +-
 protospec-build/src/coder/decode/mod.rs       |  8 +++++++-
 protospec-build/src/coder/encode/container.rs | 20 ++++++++++++++-----
 protospec-build/src/compiler/decoder.rs       | 10 +++++++---
 5 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/protospec-build/src/coder/decode/field.rs b/protospec-build/src/coder/decode/field.rs
index da24aa9..1230310 100644
--- a/protospec-build/src/coder/decode/field.rs
+++ b/protospec-build/src/coder/decode/field.rs
@@ -58,12 +58,17 @@ impl Context {
         }
         if let Some(field_condition) = field_condition {
             let drained = self.instructions.drain(start..).collect();
+            let interiors = emitted
+                .iter()
+                .map(|register| (*register, self.optional_registers.contains(register)))
+                .collect();
             self.instructions.push(Instruction::Conditional(
                 emitted.clone(),
-                emitted.clone(),
+                interiors,
                 field_condition,
                 drained,
             ));
+            self.optional_registers.extend(emitted.iter().copied());
         }
         emitted
     }
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index 1dce46c..a92cc43 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -57,7 +57,7 @@ pub enum Instruction {
         Vec<Instruction>,
     ),
     LoopOutput(usize, usize), // output handle, item
-    Conditional(Vec<usize>, Vec<usize>, usize, Vec<Instruction>), // target, interior_register, condition, if_true
+    Conditional(Vec<usize>, Vec<(usize, bool)>, usize, Vec<Instruction>), // target, (interior_register, is an option already), condition, if_true
     ConditionalPredicate(usize, Vec<Instruction>), // target, interior_register, condition, if_true
     /// returns from decoder early
     Return(usize),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 5859aba..6a5ad49 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -1,6 +1,9 @@
 use super::*;
 use crate::asg::*;
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::{HashMap, HashSet},
+    sync::Arc,
+};
 
 mod instruction;
 pub use instruction::*;
@@ -20,6 +23,8 @@ pub struct Context {
     pub field_register_map: HashMap<String, usize>,
     pub instructions: Vec<Instruction>,
     pub name: String,
+    /// registers of fields that hold an option already
+    optional_registers: HashSet<usize>,
 }
 
 impl Context {
@@ -37,6 +42,7 @@ impl Context {
             instructions: vec![],
             field_register_map: HashMap::new(),
             register_count: 0,
+            optional_registers: HashSet::new(),
         }
     }
 
diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 7d16036..4e94b4e 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -55,8 +55,15 @@ impl Context {
         }
     }
 
-    fn encode_container_calculated(&mut self, container: &ContainerType) {
-        for (name, field) in container.flatten_view() {
+    /// the calculated fields of conditional containers are up to those, as what they refer to may be absent
+    fn encode_container_calculated(&mut self, container: &ContainerType, conditional: bool) {
+        for (name, field) in &container.items {
+            if let Type::Container(inner) = &*field.type_.borrow() {
+                if !conditional && field.condition.borrow().is_none() {
+                    self.encode_container_calculated(inner, false);
+                }
+                continue;
+            }
             let calculated = field.calculated.borrow();
             if let Some(calculated) = &*calculated {
                 if !calculated.blen_calls().is_empty() {
@@ -66,7 +73,7 @@ impl Context {
                 self.instructions
                     .push(Instruction::Eval(calculated_register, calculated.clone()));
                 self.instructions
-                    .push(Instruction::SetRef(name, calculated_register));
+                    .push(Instruction::SetRef(name.clone(), calculated_register));
             }
         }
     }
@@ -274,7 +281,7 @@ impl Context {
                         for (name, register, _) in unwrapped {
                             self.instructions.push(Instruction::SetRef(name, register));
                         }
-                        self.encode_container_calculated(type_);
+                        self.encode_container_calculated(type_, false);
                         let (child_target, new_streams) =
                             self.encode_transforms(buf_target, child);
                         let (child_buf_target, len_register, is_blen_target) =
@@ -325,9 +332,12 @@ impl Context {
         } else {
             if field.toplevel {
                 self.encode_container_refs(type_, source);
-                self.encode_container_calculated(type_);
+                self.encode_container_calculated(type_, false);
             } else {
                 self.nullcheck_container_refs(type_, conditional);
+                if conditional {
+                    self.encode_container_calculated(type_, true);
+                }
             }
             self.encode_container_items(type_, buf_target, source, conditional);
         }
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 69e777e..46de52a 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -486,10 +486,14 @@ fn prepare_decode(
                 let interiors = interior
                     .iter()
                     .copied()
-                    .map(|r| {
+                    .map(|(r, is_optional)| {
                         let r = emit_register(r);
-                        quote! {
-                            Some(#r)
+                        if is_optional {
+                            quote! { #r }
+                        } else {
+                            quote! {
+                                Some(#r)
+                            }
                         }
                     })
                     .collect::<Vec<_>>();
-- 
2.43.0


From 5bcfc27ad3f85e87533211a9ab8ffe293a351d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 47/70] fix: convert operands of nested binary expressions in
 less than exponential time

---
 .../semantics/convert/expression/binary.rs    | 33 ++++++++++++++++++-
 protospec-build/src/semantics/partial_type.rs | 27 +++++++++++++++
 2 files changed, 59 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index ebd847b..c223668 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -1,5 +1,29 @@
 use super::*;
 
+/// whether an expression that is invalid may be valid when another type is expected of it
+fn takes_expected_type(expr: &ast::Expression) -> bool {
+    use ast::BinaryOp::*;
+    match expr {
+        ast::Expression::Int(e) => e.type_.is_none(),
+        ast::Expression::Unary(e) => takes_expected_type(&e.inner),
+        ast::Expression::ArrayIndex(e) => takes_expected_type(&e.array),
+        ast::Expression::Ternary(e) => {
+            takes_expected_type(&e.if_true) || takes_expected_type(&e.if_false)
+        }
+        ast::Expression::Binary(e) => match e.op {
+            Lt | Gt | Lte | Gte | Eq | Ne | Or | And | Elvis => false,
+            _ => takes_expected_type(&e.left) || takes_expected_type(&e.right),
+        },
+        ast::Expression::Member(_) => false,
+        // these may be of a foreign type
+        ast::Expression::Cast(e) => matches!(e.type_.raw_type, ast::RawType::Ref(_)),
+        ast::Expression::Ref(_) | ast::Expression::Call(_) => true,
+        ast::Expression::EnumAccess(_) | ast::Expression::Str(_) | ast::Expression::Bool(_) => {
+            true
+        }
+    }
+}
+
 impl Scope {
     pub(super) fn convert_binary_expression(
         self_: &Arc<RefCell<Scope>>,
@@ -31,8 +55,15 @@ impl Scope {
         let right = if let Some(left_type) = left.as_ref().map(|x| x.get_type()).ok().flatten() {
             Scope::convert_expr(self_, &expr.right, left_type.into())?
         } else {
-            let right = Scope::convert_expr(self_, &expr.right, init_expected_type)?;
+            let right = Scope::convert_expr(self_, &expr.right, init_expected_type.clone())?;
             if let Some(right_type) = right.get_type() {
+                // trying the left side again in vain at every level would take exponential time
+                let retry_type: PartialType = right_type.clone().into();
+                if left.is_err()
+                    && (!takes_expected_type(&expr.left) || retry_type.is_same(&init_expected_type))
+                {
+                    left?;
+                }
                 left = Ok(Scope::convert_expr(self_, &expr.left, right_type.into())?);
                 if left.as_ref().unwrap().get_type().is_none() {
                     return Err(AsgError::UninferredType(*expr.left.span()));
diff --git a/protospec-build/src/semantics/partial_type.rs b/protospec-build/src/semantics/partial_type.rs
index b9261ae..5441dcd 100644
--- a/protospec-build/src/semantics/partial_type.rs
+++ b/protospec-build/src/semantics/partial_type.rs
@@ -59,6 +59,33 @@ impl PartialType {
         }
     }
 
+    /// whether expecting `self` is no different from expecting `other`
+    pub(crate) fn is_same(&self, other: &PartialType) -> bool {
+        use PartialScalarType::*;
+        match (self, other) {
+            (
+                PartialType::Scalar(Some(x) | Defaults(x)),
+                PartialType::Scalar(Some(y) | Defaults(y)),
+            ) => x == y,
+            (PartialType::Array(Option::Some(x)), PartialType::Array(Option::Some(y))) => {
+                x.is_same(y)
+            }
+            (PartialType::Type(Type::Bool), PartialType::Type(Type::Bool))
+            | (PartialType::Type(Type::F32), PartialType::Type(Type::F32))
+            | (PartialType::Type(Type::F64), PartialType::Type(Type::F64)) => true,
+            (PartialType::Type(Type::Enum(x)), PartialType::Type(Type::Enum(y))) => {
+                x.name == y.name
+            }
+            (PartialType::Type(Type::Bitfield(x)), PartialType::Type(Type::Bitfield(y))) => {
+                x.name == y.name
+            }
+            (PartialType::Type(Type::Foreign(x)), PartialType::Type(Type::Foreign(y))) => {
+                Arc::ptr_eq(x, y)
+            }
+            _ => false,
+        }
+    }
+
     pub fn into_type(&self) -> Option<Type> {
         Some(match self {
             PartialType::Type(t) => t.clone(),
-- 
2.43.0


From 95307b3039f8d2463e3e01d85ab32b8dbbd6c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 48/70] fix: accept values of type f64 where f64 is expected,
 and convert f32 values there

---
 protospec-build/src/asg/types/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 3ef12f4..a9fdf76 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -125,7 +125,7 @@ impl Type {
             (Type::Scalar(s1), Type::Scalar(s2)) => s2 == s1,
             (Type::Array(a1), Type::Array(a2)) => a1 == a2,
             (Type::F32, Type::F32) => true,
-            (Type::F64, Type::F32) => true,
+            (Type::F64, Type::F64) => true,
             (Type::Bool, Type::Bool) => true,
             (_, _) => false,
         }
@@ -154,6 +154,7 @@ impl Type {
                 true
             }
             (Type::Scalar(s1), Type::Scalar(s2)) => s1.scalar.can_implicit_cast_to(&s2.scalar),
+            (Type::F32, Type::F64) => true,
             (_, _) => false,
         }
     }
-- 
2.43.0


From 642df2359f720e1f205f6bb8ed98acc45529fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 49/70] fix: allow casts of enums and bitfields to wider
 integers, as without a cast

---
 protospec-build/src/asg/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index a9fdf76..2ba7e8c 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -160,7 +160,7 @@ impl Type {
     }
 
     pub fn can_cast_to(&self, to: &Type) -> bool {
-        if to.assignable_from(self) || to.can_coerce_to(self) {
+        if to.assignable_from(self) || to.can_coerce_to(self) || self.can_coerce_to(to) {
             return true;
         }
         match (self.resolved().as_ref(), to.resolved().as_ref()) {
-- 
2.43.0


From 6607926dfb4b04de0e9468cca3159624aab4cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 50/70] fix: compare integer types without their byte order

---
 protospec-build/src/asg/types/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 2ba7e8c..39579fb 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -122,7 +122,8 @@ impl Type {
             (Type::Container(c1), Type::Container(c2)) => c1 == c2,
             (Type::Enum(e1), Type::Enum(e2)) => e1 == e2,
             (Type::Bitfield(e1), Type::Bitfield(e2)) => e1 == e2,
-            (Type::Scalar(s1), Type::Scalar(s2)) => s2 == s1,
+            // the byte order only matters to coding
+            (Type::Scalar(s1), Type::Scalar(s2)) => s1.scalar == s2.scalar,
             (Type::Array(a1), Type::Array(a2)) => a1 == a2,
             (Type::F32, Type::F32) => true,
             (Type::F64, Type::F64) => true,
-- 
2.43.0


From 3de62e4dd49ce15813c392df006fb1de7b1e5d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 51/70] fix: refuse operands whose types do not have the
 operation

---
 protospec-build/src/asg/types/mod.rs          | 35 +++++++++++++++++++
 .../semantics/convert/expression/binary.rs    |  9 +++++
 .../src/semantics/convert/expression/unary.rs | 22 ++++++++----
 3 files changed, 59 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 39579fb..9729e8a 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -176,6 +176,41 @@ impl Type {
         }
     }
 
+    pub fn is_integer(&self) -> bool {
+        use ScalarType::*;
+        match self.resolved().as_ref() {
+            Type::Scalar(_) => true,
+            Type::Foreign(foreign) => [I8, I16, I32, I64, I128, U8, U16, U32, U64, U128]
+                .iter()
+                .any(|scalar| foreign.obj.assignable_to(&Type::Scalar((*scalar).into()))),
+            _ => false,
+        }
+    }
+
+    pub fn is_float(&self) -> bool {
+        matches!(self.resolved().as_ref(), Type::F32 | Type::F64)
+    }
+
+    pub fn is_bitfield(&self) -> bool {
+        matches!(self.resolved().as_ref(), Type::Bitfield(_))
+    }
+
+    /// whether values of this type can be operands of `op`
+    pub fn supports(&self, op: &BinaryOp) -> bool {
+        use BinaryOp::*;
+        match op {
+            Lt | Gt | Lte | Gte => self.is_integer() || self.is_float() || self.is_bool(),
+            BitOr | BitAnd | BitXor => self.is_integer() || self.is_bool() || self.is_bitfield(),
+            Shr | Shl | ShrSigned => self.is_integer(),
+            Add | Sub | Mul | Div | Mod => self.is_integer() || self.is_float(),
+            Or | And | Eq | Ne | Elvis => true,
+        }
+    }
+
+    pub fn is_bool(&self) -> bool {
+        matches!(self.resolved().as_ref(), Type::Bool)
+    }
+
     pub fn copyable(&self) -> bool {
         match self {
             // a reference to anything else names a newtype, which is not `Copy`
diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index c223668..981cd12 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -73,6 +73,15 @@ impl Scope {
             }
             right
         };
+        if let Some(type_) = left.as_ref().map(|x| x.get_type()).ok().flatten() {
+            if !type_.supports(&expr.op) {
+                return Err(AsgError::UnexpectedType(
+                    type_.to_string(),
+                    format!("an operand of {:?}", expr.op),
+                    *expr.left.span(),
+                ));
+            }
+        }
         Ok(BinaryExpression {
             op: expr.op.clone(),
             left: Box::new(left.unwrap()),
diff --git a/protospec-build/src/semantics/convert/expression/unary.rs b/protospec-build/src/semantics/convert/expression/unary.rs
index 0cf311f..9f49a2d 100644
--- a/protospec-build/src/semantics/convert/expression/unary.rs
+++ b/protospec-build/src/semantics/convert/expression/unary.rs
@@ -11,6 +11,21 @@ impl Scope {
             &expr.inner,
             expected_type.clone(),
         )?);
+        if let Some(inner_type) = inner.get_type() {
+            let is_supported = match expr.op {
+                ast::UnaryOp::Not | ast::UnaryOp::BitNot => {
+                    inner_type.is_integer() || inner_type.is_bool() || inner_type.is_bitfield()
+                }
+                ast::UnaryOp::Negate => inner_type.is_integer() || inner_type.is_float(),
+            };
+            if !is_supported {
+                return Err(AsgError::UnexpectedType(
+                    inner_type.to_string(),
+                    format!("an operand of {:?}", expr.op),
+                    expr.span,
+                ));
+            }
+        }
         match expr.op {
             ast::UnaryOp::Not => {
                 if !expected_type.assignable_from(&Type::Bool) {
@@ -23,13 +38,6 @@ impl Scope {
             }
             ast::UnaryOp::Negate | ast::UnaryOp::BitNot => {
                 if let Some(inner_type) = inner.get_type() {
-                    if !PartialType::Scalar(PartialScalarType::None).assignable_from(&inner_type) {
-                        return Err(AsgError::UnexpectedType(
-                            inner_type.to_string(),
-                            "integer".to_string(),
-                            expr.span,
-                        ));
-                    }
                     if expr.op == ast::UnaryOp::Negate {
                         match inner_type {
                             Type::Scalar(s) if !s.scalar.is_signed() => {
-- 
2.43.0


From 4a88fed62a8cff26389e361a5a71a81209d71aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:48 +0000
Subject: [PATCH 52/70] fix: refuse enum and bitfield values that are not
 constants, rather than panicking

---
 .../src/asg/expression/const_int.rs           | 30 +++++++++++++------
 protospec-build/src/compiler/expr.rs          | 21 ++++---------
 protospec-build/src/compiler/mod.rs           |  1 +
 .../src/semantics/convert/type_/bitfield.rs   |  4 +++
 .../src/semantics/convert/type_/enum_.rs      |  9 ++++++
 protospec-build/src/semantics/error.rs        |  2 ++
 6 files changed, 42 insertions(+), 25 deletions(-)

diff --git a/protospec-build/src/asg/expression/const_int.rs b/protospec-build/src/asg/expression/const_int.rs
index a2beb20..f22b067 100644
--- a/protospec-build/src/asg/expression/const_int.rs
+++ b/protospec-build/src/asg/expression/const_int.rs
@@ -1,4 +1,5 @@
 use super::*;
+use std::convert::TryFrom;
 
 #[derive(Clone, Copy, Debug, PartialEq)]
 pub enum ConstInt {
@@ -118,7 +119,13 @@ impl Shr for ConstInt {
     type Output = Option<Self>;
 
     fn shr(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 >> i2)
+        const_int_biop_map!(
+            self,
+            other,
+            i1,
+            i2,
+            i1.checked_shr(u32::try_from(i2).ok()?)?
+        )
     }
 }
 
@@ -126,7 +133,13 @@ impl Shl for ConstInt {
     type Output = Option<Self>;
 
     fn shl(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 << i2)
+        const_int_biop_map!(
+            self,
+            other,
+            i1,
+            i2,
+            i1.checked_shl(u32::try_from(i2).ok()?)?
+        )
     }
 }
 
@@ -134,7 +147,7 @@ impl Add for ConstInt {
     type Output = Option<Self>;
 
     fn add(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 + i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_add(i2)?)
     }
 }
 
@@ -142,7 +155,7 @@ impl Sub for ConstInt {
     type Output = Option<Self>;
 
     fn sub(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 - i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_sub(i2)?)
     }
 }
 
@@ -150,7 +163,7 @@ impl Mul for ConstInt {
     type Output = Option<Self>;
 
     fn mul(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 * i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_mul(i2)?)
     }
 }
 
@@ -158,7 +171,7 @@ impl Div for ConstInt {
     type Output = Option<Self>;
 
     fn div(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 / i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_div(i2)?)
     }
 }
 
@@ -166,16 +179,15 @@ impl Rem for ConstInt {
     type Output = Option<Self>;
 
     fn rem(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 % i2)
+        const_int_biop_map!(self, other, i1, i2, i1.checked_rem(i2)?)
     }
 }
 
 impl Neg for ConstInt {
     type Output = Option<Self>;
 
-    #[allow(unreachable_code, unused_variables)]
     fn neg(self) -> Self::Output {
-        const_int_map!(self, i1, -i1, unimplemented!("cannot neg unsigned value"))
+        const_int_map!(self, i1, i1.checked_neg()?, i1.checked_neg()?)
     }
 }
 
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 946d670..4c6b883 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -199,9 +199,7 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
                 BinaryOp::Mul => ConstValue::Int((left.to_int()? * right.to_int()?)?),
                 BinaryOp::Div => ConstValue::Int((left.to_int()? / right.to_int()?)?),
                 BinaryOp::Mod => ConstValue::Int((left.to_int()? % right.to_int()?)?),
-                BinaryOp::Elvis => {
-                    unimplemented!("cannot use elvis operator (?:) in const context")
-                }
+                BinaryOp::Elvis => return None,
             })
         }
         Member(c) => {
@@ -212,7 +210,7 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
                     // todo: find better way to get same-typed zero
                     Some(ConstValue::Bool((target & member)? != (member - member)?))
                 }
-                _ => unimplemented!("can not use member exprs on nonint targets"),
+                _ => None,
             }
         }
         Unary(c) => {
@@ -227,18 +225,11 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
             let inner = eval_const_expression(&c.inner)?;
             inner.cast_to(&c.type_)
         }
-        ArrayIndex(_) => {
-            unimplemented!("can not use array indexing in const")
-        }
+        ArrayIndex(_) => None,
         EnumAccess(c) => eval_const_expression(&c.variant.value),
         Int(c) => Some(ConstValue::Int(c.value)),
         ConstRef(c) => eval_const_expression(&c.value),
-        InputRef(_) => {
-            unimplemented!("cannot access input in constant");
-        }
-        FieldRef(_) => {
-            unimplemented!("cannot access field in constant");
-        }
+        InputRef(_) | FieldRef(_) => None,
         Str(c) => Some(ConstValue::String(c.content.clone())),
         Ternary(c) => {
             let condition = eval_const_expression(&c.condition)?;
@@ -252,9 +243,7 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
             }
         }
         Bool(c) => Some(ConstValue::Bool(*c)),
-        Call(_) => {
-            unimplemented!("cannot call ffi in constant");
-        }
+        Call(_) => None,
     }
 }
 
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 540a7db..ecd804f 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -11,6 +11,7 @@ use std::{sync::Arc, unimplemented};
 mod decoder;
 mod encoder;
 mod expr;
+pub(crate) use expr::{eval_const_expression, ConstValue};
 
 pub fn global_name(input: &str) -> String {
     input.to_string()
diff --git a/protospec-build/src/semantics/convert/type_/bitfield.rs b/protospec-build/src/semantics/convert/type_/bitfield.rs
index 75c8174..6eb4a27 100644
--- a/protospec-build/src/semantics/convert/type_/bitfield.rs
+++ b/protospec-build/src/semantics/convert/type_/bitfield.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::{eval_const_expression, ConstValue};
 
 impl Scope {
     pub(super) fn convert_bitfield_type(
@@ -46,6 +47,9 @@ impl Scope {
                     }),
                 },
             });
+            if !matches!(eval_const_expression(&cons.value), Some(ConstValue::Int(_))) {
+                return Err(AsgError::InvalidConst(name.name.clone(), name.span));
+            }
             if item.is_some() {
                 last_defined_item = Some(cons.clone());
                 undefined_counter = 1;
diff --git a/protospec-build/src/semantics/convert/type_/enum_.rs b/protospec-build/src/semantics/convert/type_/enum_.rs
index e252a49..eebcf95 100644
--- a/protospec-build/src/semantics/convert/type_/enum_.rs
+++ b/protospec-build/src/semantics/convert/type_/enum_.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::{eval_const_expression, ConstValue};
 
 impl Scope {
     pub(super) fn convert_enum_type(
@@ -62,6 +63,14 @@ impl Scope {
                     }))
                 }
             };
+            if let EnumValue::Value(value) = &value {
+                if !matches!(
+                    eval_const_expression(&value.value),
+                    Some(ConstValue::Int(_))
+                ) {
+                    return Err(AsgError::InvalidConst(name.name.clone(), name.span));
+                }
+            }
             if matches!(item, ast::EnumValue::Expression(_)) {
                 last_defined_item = Some(match &value {
                     EnumValue::Value(c) => c.clone(),
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 0ea7686..c7751b3 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -37,6 +37,8 @@ pub enum AsgError {
     EnumDefaultRedefinition(String, Span),
     #[error("enum variant name already in use: '{0}' @ {1}")]
     EnumVariantRedefinition(String, Span),
+    #[error("value of '{0}' is not a constant @ {1}")]
+    InvalidConst(String, Span),
     #[error("bitfield flag name already in use: '{0}' @ {1}, originally declared at {2}")]
     BitfieldFlagRedefinition(String, Span, Span),
     #[error("container field name already in use: '{0}' @ {1}, originally declared at {2}")]
-- 
2.43.0


From a8040915559e8255ade636e9d6097c6e28f7e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 53/70] fix: refuse enum variants of equal values, which do not
 compile

---
 .../src/semantics/convert/type_/enum_.rs         | 16 +++++++++++-----
 protospec-build/src/semantics/error.rs           |  2 ++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/protospec-build/src/semantics/convert/type_/enum_.rs b/protospec-build/src/semantics/convert/type_/enum_.rs
index eebcf95..355dc15 100644
--- a/protospec-build/src/semantics/convert/type_/enum_.rs
+++ b/protospec-build/src/semantics/convert/type_/enum_.rs
@@ -11,6 +11,7 @@ impl Scope {
         let mut last_defined_item = None::<Arc<Const>>;
         let mut undefined_counter = 0usize;
         let mut has_default = false;
+        let mut discriminants = vec![];
         for (name, item) in type_.items.iter() {
             if let Some(_) = items.get(&name.name) {
                 return Err(AsgError::EnumVariantRedefinition(
@@ -64,12 +65,17 @@ impl Scope {
                 }
             };
             if let EnumValue::Value(value) = &value {
-                if !matches!(
-                    eval_const_expression(&value.value),
-                    Some(ConstValue::Int(_))
-                ) {
-                    return Err(AsgError::InvalidConst(name.name.clone(), name.span));
+                let discriminant = match eval_const_expression(&value.value) {
+                    Some(ConstValue::Int(discriminant)) => discriminant,
+                    _ => return Err(AsgError::InvalidConst(name.name.clone(), name.span)),
+                };
+                if discriminants.contains(&discriminant) {
+                    return Err(AsgError::EnumValueRedefinition(
+                        name.name.clone(),
+                        name.span,
+                    ));
                 }
+                discriminants.push(discriminant);
             }
             if matches!(item, ast::EnumValue::Expression(_)) {
                 last_defined_item = Some(match &value {
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index c7751b3..a497e8d 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -37,6 +37,8 @@ pub enum AsgError {
     EnumDefaultRedefinition(String, Span),
     #[error("enum variant name already in use: '{0}' @ {1}")]
     EnumVariantRedefinition(String, Span),
+    #[error("enum variant has the value of another variant: '{0}' @ {1}")]
+    EnumValueRedefinition(String, Span),
     #[error("value of '{0}' is not a constant @ {1}")]
     InvalidConst(String, Span),
     #[error("bitfield flag name already in use: '{0}' @ {1}, originally declared at {2}")]
-- 
2.43.0


From 03b28c19a2aeae22c142fdfb422206c20ba28f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:10 +0000
Subject: [PATCH 54/70] fix: refuse type arguments of equal names

---
 protospec-build/src/semantics/convert/field.rs | 10 ++++++++++
 protospec-build/src/semantics/error.rs         |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 98982f4..98da6f6 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -16,6 +16,16 @@ impl Scope {
         let mut arguments = vec![];
         if let Some(ast_arguments) = ast_arguments {
             for argument in ast_arguments {
+                if sub_scope
+                    .borrow()
+                    .declared_inputs
+                    .contains_key(&argument.name.name)
+                {
+                    return Err(AsgError::TypeArgumentRedefinition(
+                        argument.name.name.clone(),
+                        argument.name.span,
+                    ));
+                }
                 let target_type = Scope::convert_ast_type(
                     &sub_scope,
                     &argument.type_.raw_type,
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index a497e8d..bec85ea 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -43,6 +43,8 @@ pub enum AsgError {
     InvalidConst(String, Span),
     #[error("bitfield flag name already in use: '{0}' @ {1}, originally declared at {2}")]
     BitfieldFlagRedefinition(String, Span, Span),
+    #[error("type argument name already in use: '{0}' @ {1}")]
+    TypeArgumentRedefinition(String, Span),
     #[error("container field name already in use: '{0}' @ {1}, originally declared at {2}")]
     ContainerFieldRedefinition(String, Span, Span),
     #[error("referenced type '{0}' @ {1} not found")]
-- 
2.43.0


From 8542c4c99ff15be0d796c4134be9e8c8da155d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:10 +0000
Subject: [PATCH 55/70] fix: refuse imports under names already in use, rather
 than overwriting

---
 .../src/semantics/convert/program/import.rs   | 53 +++++++++++++++++--
 1 file changed, 48 insertions(+), 5 deletions(-)

diff --git a/protospec-build/src/semantics/convert/program/import.rs b/protospec-build/src/semantics/convert/program/import.rs
index b0ee0a4..39cb920 100644
--- a/protospec-build/src/semantics/convert/program/import.rs
+++ b/protospec-build/src/semantics/convert/program/import.rs
@@ -2,6 +2,15 @@ use crate::ImportDeclaration;
 
 use super::*;
 
+/// whether both are the same declaration, or the same foreign type
+fn is_same_type(a: &Arc<Field>, b: &Arc<Field>) -> bool {
+    Arc::ptr_eq(a, b)
+        || match (&*a.type_.borrow(), &*b.type_.borrow()) {
+            (Type::Foreign(a), Type::Foreign(b)) => a.name == b.name,
+            _ => false,
+        }
+}
+
 impl Scope {
     pub(super) fn convert_import_declaration<T: ImportResolver + 'static>(
         import: &ImportDeclaration,
@@ -20,21 +29,55 @@ impl Scope {
                 }
             }
             for import_item in import.items.iter() {
-                let imported_name = if let Some(alias) = import_item.alias.as_ref() {
-                    alias.name.clone()
-                } else {
-                    import_item.name.name.clone()
-                };
+                let imported_ident = import_item.alias.as_ref().unwrap_or(&import_item.name);
+                let imported_name = imported_ident.name.clone();
+                let span = imported_ident.span;
                 if let Some(t) = cached.types.get(&import_item.name.name) {
+                    if let Some(defined) = program.borrow().types.get(&imported_name) {
+                        if !is_same_type(defined, t) {
+                            return Err(AsgError::TypeRedefinition(
+                                imported_name,
+                                span,
+                                defined.span,
+                            ));
+                        }
+                    }
                     program.borrow_mut().types.insert(imported_name, t.clone());
                 } else if let Some(t) = cached.consts.get(&import_item.name.name) {
+                    if let Some(defined) = program.borrow().consts.get(&imported_name) {
+                        if !Arc::ptr_eq(defined, t) {
+                            return Err(AsgError::ConstRedefinition(
+                                imported_name,
+                                span,
+                                defined.span,
+                            ));
+                        }
+                    }
                     program.borrow_mut().consts.insert(imported_name, t.clone());
                 } else if let Some(t) = cached.transforms.get(&import_item.name.name) {
+                    if let Some(defined) = program.borrow().transforms.get(&imported_name) {
+                        if defined != t {
+                            return Err(AsgError::TransformRedefinition(
+                                imported_name,
+                                span,
+                                defined.span,
+                            ));
+                        }
+                    }
                     program
                         .borrow_mut()
                         .transforms
                         .insert(imported_name, t.clone());
                 } else if let Some(t) = cached.functions.get(&import_item.name.name) {
+                    if let Some(defined) = program.borrow().functions.get(&imported_name) {
+                        if defined != t {
+                            return Err(AsgError::FunctionRedefinition(
+                                imported_name,
+                                span,
+                                defined.span,
+                            ));
+                        }
+                    }
                     program
                         .borrow_mut()
                         .functions
-- 
2.43.0


From 2990b5fd54b68bd159b5dfc6ce976de196dd6ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 56/70] fix: keep type arguments apart from the names that
 generated code uses

---
 protospec-build/src/compiler/expr.rs | 2 +-
 protospec-build/src/compiler/mod.rs  | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 4c6b883..f16f00c 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -404,7 +404,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             }
         }
         InputRef(c) => {
-            let c = format_ident!("{}", c.name);
+            let c = emit_argument_ident(&c.name);
             quote! {
                 #c
             }
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index ecd804f..3c96666 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -211,7 +211,7 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
     let mut arguments = vec![];
     let mut redefaults = vec![];
     for argument in field.arguments.borrow().iter() {
-        let name = emit_ident(&argument.name);
+        let name = emit_argument_ident(&argument.name);
         let type_ref = emit_type_ref(&argument.type_);
         let opt_type_ref = if argument.default_value.is_some() {
             quote! { Option<#type_ref> }
@@ -285,6 +285,11 @@ fn emit_ident(name: &str) -> TokenStream {
     }
 }
 
+/// type arguments get a prefix, so that none is confused with what generated code names itself
+fn emit_argument_ident(name: &str) -> TokenStream {
+    emit_ident(&format!("arg_{}", name))
+}
+
 fn emit_register(register: usize) -> TokenStream {
     let ident = format_ident!("r_{}", register);
     quote! {
-- 
2.43.0


From 756221bba9a439a340beb8dc789c4b0d0b46a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:18 +0000
Subject: [PATCH 57/70] fix: a field named _pad0 next to padding

---
 protospec-build/src/semantics/convert/type_/container.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/type_/container.rs b/protospec-build/src/semantics/convert/type_/container.rs
index 8691dec..9afb7ce 100644
--- a/protospec-build/src/semantics/convert/type_/container.rs
+++ b/protospec-build/src/semantics/convert/type_/container.rs
@@ -94,7 +94,8 @@ impl Scope {
                     if is_enum {
                         return Err(AsgError::EnumContainerPad(*expr.span()));
                     }
-                    let name = format!("_pad{}", pad_count);
+                    // no identifier, so that no field has it
+                    let name = format!(".pad{}", pad_count);
                     pad_count += 1;
 
                     let len = Scope::convert_expr(
-- 
2.43.0


From 47ec8e283f8ee6474dae3f90ab7c4006fba2a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 58/70] fix: print the registers of an evaluation in a fixed
 order in debug mode

---
 protospec-build/src/coder/decode/instruction.rs | 2 +-
 protospec-build/src/coder/decode/mod.rs         | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index a92cc43..88c8e8a 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -25,7 +25,7 @@ pub enum Constructable {
 
 #[derive(Debug)]
 pub enum Instruction {
-    Eval(usize, Expression, HashMap<String, usize>),
+    Eval(usize, Expression, BTreeMap<String, usize>),
     Construct(usize, Constructable),
     // source, new_stream, len constraint
     Constrict(Target, usize, usize),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 6a5ad49..8ba4f3b 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -1,7 +1,7 @@
 use super::*;
 use crate::asg::*;
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashSet},
     sync::Arc,
 };
 
@@ -20,7 +20,7 @@ pub use container::*;
 #[derive(Debug)]
 pub struct Context {
     pub register_count: usize,
-    pub field_register_map: HashMap<String, usize>,
+    pub field_register_map: BTreeMap<String, usize>,
     pub instructions: Vec<Instruction>,
     pub name: String,
     /// registers of fields that hold an option already
@@ -40,7 +40,7 @@ impl Context {
         Context {
             name: String::new(),
             instructions: vec![],
-            field_register_map: HashMap::new(),
+            field_register_map: BTreeMap::new(),
             register_count: 0,
             optional_registers: HashSet::new(),
         }
-- 
2.43.0


From 972a851c91e05eda78082c8438f08c747e1f6750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:34 +0000
Subject: [PATCH 59/70] fix: hand a sized stream to what follows a conditional
 transform when decoding

---
 protospec-build/src/compiler/decoder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 46de52a..9d24f9f 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -191,27 +191,30 @@ fn prepare_decode(
                 let prelude = prepare_decode(options, context, &prelude[..], is_async, false);
 
                 //todo: would be nicer to use generics here instead of trait object
+                // (the second reference makes a sized stream type, which what follows may ask for)
                 if is_async {
                     statements.push(quote! {
                         let mut r_xform;
-                        let #new_stream_value: &mut (dyn AsyncBufRead + Unpin + Send + Sync) = if #condition {
+                        let mut #new_stream_value: &mut (dyn AsyncBufRead + Unpin + Send + Sync) = if #condition {
                             #prelude
                             r_xform = #transformed;
                             &mut r_xform
                         } else {
                             #input as &mut (dyn AsyncBufRead + Unpin + Send + Sync)
                         };
+                        let #new_stream_value = &mut #new_stream_value;
                     })
                 } else {
                     statements.push(quote! {
                         let mut r_xform;
-                        let #new_stream_value: &mut dyn BufRead = if #condition {
+                        let mut #new_stream_value: &mut dyn BufRead = if #condition {
                             #prelude
                             r_xform = #transformed;
                             &mut r_xform
                         } else {
                             #input as &mut dyn BufRead
                         };
+                        let #new_stream_value = &mut #new_stream_value;
                     })
                 }
             }
-- 
2.43.0


From 3500fb9003a4061f18a10348b8d8fcf1745eda47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:35 +0000
Subject: [PATCH 60/70] fix: end gzip streams on writers that are interrupted
 or accept nothing more

---
 protospec-build/src/prelude/gzip.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/prelude/gzip.rs b/protospec-build/src/prelude/gzip.rs
index 25f8f4f..1f07345 100644
--- a/protospec-build/src/prelude/gzip.rs
+++ b/protospec-build/src/prelude/gzip.rs
@@ -31,8 +31,10 @@ impl ForeignTransform for GzipTransform {
                 async_compression::tokio::write::GzipEncoder::new(#input_stream)
             }
         } else {
+            // when it ends its stream, the encoder never gives up on a writer that accepts nothing more, and gives up on one
+            // that is interrupted; a buffer larger than anything it writes at once handles both
             quote! {
-                flate2::write::GzEncoder::new(#input_stream, flate2::Compression::default())
+                flate2::write::GzEncoder::new(std::io::BufWriter::with_capacity(1 << 16, #input_stream), flate2::Compression::default())
             }
         }
     }
-- 
2.43.0


From 80ce43e7ae25da1fb636fb7a93e7c69665adb84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:35 +0000
Subject: [PATCH 61/70] fix: take exactly the declared length of a bounded
 container from the stream

---
 protospec-build/src/compiler/decoder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 9d24f9f..83feb32 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -156,8 +156,16 @@ fn prepare_decode(
                 let stream = emit_target(stream);
                 let new_stream = emit_register(*new_stream);
                 let len = emit_register(*len);
+                // what is bounded takes exactly its length from the stream, however much of that its contents need
                 statements.push(quote! {
-                    let mut #new_stream = #stream.take(#len as u64);
+                    let mut #new_stream = {
+                        let mut raw: Vec<u8> = Vec::new();
+                        (&mut *#stream).take(#len as u64).read_to_end(&mut raw)#async_?;
+                        if raw.len() as u64 != #len as u64 {
+                            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                        }
+                        Cursor::new(raw)
+                    };
                     let #new_stream = &mut #new_stream;
                 });
             }
-- 
2.43.0


From 1c67cd96fe47ec0d80000a74a299f8d71aa6a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:53 +0000
Subject: [PATCH 62/70] fix: Default of an enum whose only variant is the
 default variant

---
 protospec-build/src/compiler/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 3c96666..3fb29b5 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -554,12 +554,16 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
     let format_string = format!("illegal enum value '{{}}' for enum '{}'", name);
 
     let default_impl = if options.enum_derives.iter().any(|x| x == "Default") {
-        let (default_field, _) = item.items.first().expect("missing enum entry for default");
+        let (default_field, value) = item.items.first().expect("missing enum entry for default");
         let default_field = format_ident!("{}", default_field);
+        let default_value = match value {
+            EnumValue::Value(_) => quote! {},
+            EnumValue::Default => quote! { (Default::default()) },
+        };
         quote! {
             impl Default for #name_ident {
                 fn default() -> Self {
-                    Self::#default_field
+                    Self::#default_field#default_value
                 }
             }
         }
-- 
2.43.0


From 6850f0662aa2f6226a06ceec19e818e1471a09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:55 +0000
Subject: [PATCH 63/70] fix: span of an enum variant reference leaves out the
 variant

---
 protospec-build/src/parser/expression/primary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/parser/expression/primary.rs b/protospec-build/src/parser/expression/primary.rs
index f7dde4c..3a22bdd 100644
--- a/protospec-build/src/parser/expression/primary.rs
+++ b/protospec-build/src/parser/expression/primary.rs
@@ -18,7 +18,7 @@ pub fn parse_primary_expression(t: &mut TokenIter) -> ParseResult<Expression> {
             if t.eat(Token::DoubleColon).is_some() {
                 let variant = t.expect_ident()?;
                 Expression::EnumAccess(EnumAccessExpression {
-                    span: ident.span + ident.span,
+                    span: ident.span + variant.span,
                     name: ident,
                     variant,
                 })
-- 
2.43.0


From c92708da20c5be6535a03dab90e79d4592484b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:03 +0000
Subject: [PATCH 64/70] fix: comparisons and bit operators on bools in constant
 expressions

---
 protospec-build/src/compiler/expr.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index f16f00c..212fb73 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -20,6 +20,7 @@ impl PartialOrd for ConstValue {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         match (self, other) {
             (ConstValue::Int(i1), ConstValue::Int(i2)) => i1.partial_cmp(i2),
+            (ConstValue::Bool(i1), ConstValue::Bool(i2)) => i1.partial_cmp(i2),
             (ConstValue::F32(i1), ConstValue::F32(i2)) => i1.partial_cmp(i2),
             (ConstValue::F64(i1), ConstValue::F64(i2)) => i1.partial_cmp(i2),
             _ => None,
@@ -180,9 +181,18 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
                 BinaryOp::Ne => ConstValue::Bool(left != right),
                 BinaryOp::Or => ConstValue::Bool(left.to_bool()? || right.to_bool()?),
                 BinaryOp::And => ConstValue::Bool(left.to_bool()? && right.to_bool()?),
-                BinaryOp::BitOr => ConstValue::Int((left.to_int()? | right.to_int()?)?),
-                BinaryOp::BitAnd => ConstValue::Int((left.to_int()? & right.to_int()?)?),
-                BinaryOp::BitXor => ConstValue::Int((left.to_int()? ^ right.to_int()?)?),
+                BinaryOp::BitOr => match (left.to_bool(), right.to_bool()) {
+                    (Some(left), Some(right)) => ConstValue::Bool(left | right),
+                    _ => ConstValue::Int((left.to_int()? | right.to_int()?)?),
+                },
+                BinaryOp::BitAnd => match (left.to_bool(), right.to_bool()) {
+                    (Some(left), Some(right)) => ConstValue::Bool(left & right),
+                    _ => ConstValue::Int((left.to_int()? & right.to_int()?)?),
+                },
+                BinaryOp::BitXor => match (left.to_bool(), right.to_bool()) {
+                    (Some(left), Some(right)) => ConstValue::Bool(left ^ right),
+                    _ => ConstValue::Int((left.to_int()? ^ right.to_int()?)?),
+                },
                 BinaryOp::Shr => ConstValue::Int((left.to_int()? >> right.to_int()?)?), // todo: cast signedness to ensure proper shr is used in rust
                 BinaryOp::Shl => ConstValue::Int((left.to_int()? << right.to_int()?)?),
                 BinaryOp::ShrSigned => {
-- 
2.43.0


From 3700aa965e85d8a9f718bd81fbd36cfb00483f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:06 +0000
Subject: [PATCH 65/70] fix: a field named like a type hides a cycle of types

---
 protospec-build/src/asg/types/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 9729e8a..59970d5 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -238,9 +238,7 @@ impl Type {
             }
             Type::Container(interior) => {
                 for (_, field) in &interior.items {
-                    if target.insert(field.name.clone()) {
-                        field.get_indirect_contained_fields(target);
-                    }
+                    field.get_indirect_contained_fields(target);
                 }
             }
             Type::Ref(call) => {
-- 
2.43.0


From 8c8f92707783c30e8cfe9e31da175b72df549ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:07 +0000
Subject: [PATCH 66/70] fix: types used before their declaration were taken for
 bool

---
 .../src/semantics/convert/field.rs            | 22 ++++++------
 .../src/semantics/convert/program/mod.rs      |  7 ++++
 .../src/semantics/convert/type_/mod.rs        | 34 +++++++++++++++++++
 3 files changed, 53 insertions(+), 10 deletions(-)

diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 98da6f6..22262f3 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -144,16 +144,6 @@ impl Scope {
         //     }
         // }
 
-        if into.toplevel {
-            let mut next = asg_type.clone();
-            while let Type::Ref(call) = next {
-                if Arc::ptr_eq(&call.target, into) {
-                    return Err(AsgError::TypeCycle(into.name.clone(), into.span));
-                }
-                next = call.target.type_.borrow().clone();
-            }
-        }
-
         into.type_.replace(asg_type);
         into.condition.replace(condition);
         into.transforms.replace(transforms);
@@ -161,6 +151,18 @@ impl Scope {
         Ok(())
     }
 
+    /// fails if `into` would be nothing but itself when it is declared as `type_`
+    pub fn check_type_cycle(into: &Arc<Field>, type_: &Type) -> AsgResult<()> {
+        let mut next = type_.clone();
+        while let Type::Ref(call) = next {
+            if Arc::ptr_eq(&call.target, into) {
+                return Err(AsgError::TypeCycle(into.name.clone(), into.span));
+            }
+            next = call.target.type_.borrow().clone();
+        }
+        Ok(())
+    }
+
     pub fn convert_ast_field_end(
         sub_scope: &Arc<RefCell<Scope>>,
         field: &ast::Field,
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 6dcf040..00e101e 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -112,6 +112,13 @@ impl Program {
                 }
             }
 
+            // expressions may be converted before the types of what they refer to
+            for (type_, field) in &return_fields {
+                let declared = Scope::declare_type(&scope, &type_.value.type_.raw_type);
+                Scope::check_type_cycle(field, &declared)?;
+                field.type_.replace(declared);
+            }
+
             // convert arguments
             let mut sub_scopes = vec![];
             for (type_, field) in &return_fields {
diff --git a/protospec-build/src/semantics/convert/type_/mod.rs b/protospec-build/src/semantics/convert/type_/mod.rs
index 33694c7..fad563e 100644
--- a/protospec-build/src/semantics/convert/type_/mod.rs
+++ b/protospec-build/src/semantics/convert/type_/mod.rs
@@ -20,6 +20,40 @@ pub enum TypePurpose {
 }
 
 impl Scope {
+    /// what is known of a type before any expression is converted
+    pub fn declare_type(self_: &Arc<RefCell<Scope>>, typ: &ast::RawType) -> Type {
+        match typ {
+            ast::RawType::Container(_) => Type::Container(Box::new(ContainerType {
+                length: None,
+                items: IndexMap::new(),
+                is_enum: Cell::new(false),
+            })),
+            ast::RawType::Scalar(type_) => Type::Scalar(type_.clone()),
+            ast::RawType::Array(type_) => Type::Array(Box::new(ArrayType {
+                element: Box::new(Self::declare_type(
+                    self_,
+                    &type_.interior_type.raw_type,
+                )),
+                length: LengthConstraint {
+                    expandable: type_.length.expandable,
+                    value: None,
+                },
+            })),
+            ast::RawType::F32 => Type::F32,
+            ast::RawType::F64 => Type::F64,
+            ast::RawType::Ref(type_) => {
+                match self_.borrow().program.borrow().types.get(&type_.name.name) {
+                    Some(target) => Type::Ref(TypeRef {
+                        target: target.clone(),
+                        arguments: vec![],
+                    }),
+                    None => Type::Bool,
+                }
+            }
+            ast::RawType::Bool | ast::RawType::Enum(_) | ast::RawType::Bitfield(_) => Type::Bool,
+        }
+    }
+
     pub fn convert_ast_type(
         self_: &Arc<RefCell<Scope>>,
         typ: &ast::RawType,
-- 
2.43.0


From 093de2a788ff0eb7cfd9e4e521cfbabe6bfe1bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:07 +0000
Subject: [PATCH 67/70] fix: values of newtypes in conditions, lengths,
 arguments and calculated fields

---
 protospec-build/src/asg/types/mod.rs          | 11 +++
 .../src/coder/decode/instruction.rs           |  2 +
 protospec-build/src/coder/decode/mod.rs       | 17 ++++-
 protospec-build/src/coder/encode/container.rs |  3 +
 .../src/coder/encode/instruction.rs           |  5 ++
 protospec-build/src/coder/encode/mod.rs       | 23 +++++++
 protospec-build/src/coder/encode/var_ref.rs   |  2 +-
 protospec-build/src/compiler/decoder.rs       |  9 ++-
 protospec-build/src/compiler/encoder.rs       |  9 ++-
 protospec-build/src/compiler/expr.rs          | 67 ++++++++++++-------
 protospec-build/src/compiler/mod.rs           |  5 +-
 11 files changed, 124 insertions(+), 29 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 59970d5..4c7c9c2 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -231,6 +231,17 @@ impl Type {
         }
     }
 
+    /// whether this refers to a type that is generated as a tuple struct around another
+    pub fn is_newtype(&self) -> bool {
+        match self {
+            Type::Ref(call) => !matches!(
+                &*call.target.type_.borrow(),
+                Type::Container(_) | Type::Enum(_) | Type::Bitfield(_) | Type::Foreign(_)
+            ),
+            _ => false,
+        }
+    }
+
     pub(super) fn get_indirect_contained_fields(&self, target: &mut IndexSet<String>) {
         match self {
             Type::Array(interior) => {
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index 88c8e8a..1464ac6 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -26,6 +26,8 @@ pub enum Constructable {
 #[derive(Debug)]
 pub enum Instruction {
     Eval(usize, Expression, BTreeMap<String, usize>),
+    /// dest, source, type of the newtype
+    Wrap(usize, usize, Type),
     Construct(usize, Constructable),
     // source, new_stream, len constraint
     Constrict(Target, usize, usize),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 8ba4f3b..fcc1e13 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -138,14 +138,27 @@ impl Context {
             }
             Type::Ref(r) => {
                 let mut args = vec![];
-                for arg in r.arguments.iter() {
+                let is_foreign = matches!(&*r.target.type_.borrow(), Type::Foreign(_));
+                for (i, arg) in r.arguments.iter().enumerate() {
+                    let target = &r.target;
                     let r = self.alloc_register();
                     self.instructions.push(Instruction::Eval(
                         r,
                         arg.clone(),
                         self.field_register_map.clone(),
                     ));
-                    args.push(r);
+                    let mut value = r;
+                    if let Some(argument) = target.arguments.borrow().get(i) {
+                        if !is_foreign && argument.type_.is_newtype() {
+                            value = self.alloc_register();
+                            self.instructions.push(Instruction::Wrap(
+                                value,
+                                r,
+                                argument.type_.clone(),
+                            ));
+                        }
+                    }
+                    args.push(value);
                 }
                 if let Type::Foreign(f) = &*r.target.type_.borrow() {
                     self.instructions.push(Instruction::DecodeForeign(
diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 4e94b4e..cf07773 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -72,6 +72,8 @@ impl Context {
                 let calculated_register = self.alloc_register();
                 self.instructions
                     .push(Instruction::Eval(calculated_register, calculated.clone()));
+                let calculated_register =
+                    self.borrow_newtype(calculated_register, &field.type_.borrow());
                 self.instructions
                     .push(Instruction::SetRef(name.clone(), calculated_register));
             }
@@ -98,6 +100,7 @@ impl Context {
         let calculated_register = self.alloc_register();
         self.instructions
             .push(Instruction::Eval(calculated_register, calculated));
+        let calculated_register = self.borrow_newtype(calculated_register, &field.type_.borrow());
         self.instructions
             .push(Instruction::SetRef(field.name.clone(), calculated_register));
         calculated_register
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index ad97252..a6639e0 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -9,6 +9,8 @@ use super::*;
 pub enum Instruction {
     /// dest, expression
     Eval(usize, Expression),
+    /// dest, source, type of the newtype
+    Wrap(usize, usize, Type),
     /// dest, source, ops
     GetField(usize, usize, Vec<FieldRef>),
     /// dest, ref name
@@ -89,6 +91,9 @@ impl fmt::Display for Instruction {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Instruction::Eval(dest, expression) => write!(f, "Eval({}, {:?})", dest, expression),
+            Instruction::Wrap(dest, source, type_) => {
+                write!(f, "Wrap({}, {}, {})", dest, source, type_)
+            }
             Instruction::GetField(dest, source, ops) => {
                 write!(f, "GetField({}, {}, {:?})", dest, source, ops)
             }
diff --git a/protospec-build/src/coder/encode/mod.rs b/protospec-build/src/coder/encode/mod.rs
index de56183..354f589 100644
--- a/protospec-build/src/coder/encode/mod.rs
+++ b/protospec-build/src/coder/encode/mod.rs
@@ -63,6 +63,29 @@ impl Context {
         }
     }
 
+    /// wraps a value that is to be of type `type_`
+    pub(super) fn wrap_newtype(&mut self, value: usize, type_: &Type) -> usize {
+        if !type_.is_newtype() {
+            return value;
+        }
+        let wrapped = self.alloc_register();
+        self.instructions
+            .push(Instruction::Wrap(wrapped, value, type_.clone()));
+        wrapped
+    }
+
+    /// like `wrap_newtype`, for a value that is used more than once
+    pub(super) fn borrow_newtype(&mut self, value: usize, type_: &Type) -> usize {
+        let wrapped = self.wrap_newtype(value, type_);
+        if wrapped == value {
+            return value;
+        }
+        let borrowed = self.alloc_register();
+        self.instructions
+            .push(Instruction::GetField(borrowed, wrapped, vec![FieldRef::Ref]));
+        borrowed
+    }
+
     pub fn encode_type(&mut self, type_: &Type, target: Target, source: usize) {
         match type_ {
             Type::Container(_) => {
diff --git a/protospec-build/src/coder/encode/var_ref.rs b/protospec-build/src/coder/encode/var_ref.rs
index a999f30..bb714e8 100644
--- a/protospec-build/src/coder/encode/var_ref.rs
+++ b/protospec-build/src/coder/encode/var_ref.rs
@@ -21,7 +21,7 @@ impl Context {
                 let register = type_.arguments.get(i).map(|arg| {
                     let r = self.alloc_register();
                     self.instructions.push(Instruction::Eval(r, arg.clone()));
-                    r
+                    self.wrap_newtype(r, &argument.type_)
                 });
                 args.push(RefArgument {
                     register,
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 83feb32..20b3e51 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -44,7 +44,7 @@ fn prepare_decode(
         match instruction {
             Instruction::Eval(target, expr, field_register_map) => {
                 let target = emit_register(*target);
-                let value = emit_expression(expr, &|field| {
+                let value = emit_value(expr, &|field| {
                     emit_register(
                         *field_register_map
                             .get(&field.name)
@@ -55,6 +55,13 @@ fn prepare_decode(
                     let #target = #value;
                 });
             }
+            Instruction::Wrap(target, source, type_) => {
+                let target = emit_register(*target);
+                let value = emit_newtype(emit_register(*source), type_);
+                statements.push(quote! {
+                    let #target = #value;
+                });
+            }
             Instruction::Construct(target, Constructable::Tuple(items)) => {
                 let target = emit_register(*target);
                 let items = flatten(
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index c805c58..dc6a70f 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -52,7 +52,7 @@ impl EncoderContext {
             match instruction {
                 Instruction::Eval(target, expr) => {
                     let target = emit_register(*target);
-                    let value = emit_expression(expr, &|f: &Arc<Field>| {
+                    let value = emit_value(expr, &|f: &Arc<Field>| {
                         let register = self
                             .resolved_refs
                             .get(&*f.name)
@@ -120,6 +120,13 @@ impl EncoderContext {
                         let #len = #source.len() #cast;
                     });
                 }
+                Instruction::Wrap(target, source, type_) => {
+                    let target = emit_register(*target);
+                    let value = emit_newtype(emit_register(*source), type_);
+                    statements.push(quote! {
+                        let #target = #value;
+                    });
+                }
                 Instruction::CheckLen(source, len, message) => {
                     let source = emit_register(*source);
                     let len = emit_register(*len);
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 212fb73..9f54870 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -257,29 +257,39 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
     }
 }
 
+/// puts a value into the newtypes that `type_` refers to
+pub fn emit_newtype(value: TokenStream, type_: &Type) -> TokenStream {
+    match type_ {
+        Type::Ref(call) if type_.is_newtype() => {
+            let name = emit_type_ref(type_);
+            let value = emit_newtype(value, &call.target.type_.borrow());
+            quote! { #name(#value) }
+        }
+        _ => value,
+    }
+}
+
 /// like `emit_expression`, but takes the value out of newtypes
-fn emit_value<F: Fn(&Arc<Field>) -> TokenStream>(
+pub fn emit_value<F: Fn(&Arc<Field>) -> TokenStream>(
     expr: &Expression,
     ref_resolver: &F,
 ) -> TokenStream {
-    let mut emitted = emit_expression(expr, ref_resolver);
-    let mut type_ = match expr {
+    let emitted = emit_expression(expr, ref_resolver);
+    match expr {
         Expression::FieldRef(_) | Expression::InputRef(_) | Expression::ArrayIndex(_) => {
-            expr.get_type()
-        }
-        _ => None,
-    };
-    while let Some(Type::Ref(call)) = type_ {
-        let inner = call.target.type_.borrow().clone();
-        match inner {
-            Type::Container(_) | Type::Enum(_) | Type::Bitfield(_) | Type::Foreign(_) => break,
-            inner => {
-                emitted = quote! { (#emitted).0 };
-                type_ = Some(inner);
-            }
+            emit_unwrapped(emitted, expr.get_type())
         }
+        _ => emitted,
     }
-    emitted
+}
+
+/// takes a value of type `type_` out of the newtypes that it refers to
+fn emit_unwrapped(mut value: TokenStream, mut type_: Option<Type>) -> TokenStream {
+    while let Some(Type::Ref(call)) = type_.filter(Type::is_newtype) {
+        value = quote! { (#value).0 };
+        type_ = Some(call.target.type_.borrow().clone());
+    }
+    value
 }
 
 pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
@@ -290,8 +300,12 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
     match expr {
         Binary(c) => {
             if c.op == BinaryOp::Elvis {
-                let left = emit_expression(&c.left, ref_resolver);
-                let right = emit_expression(&c.right, ref_resolver);
+                let mut left = emit_expression(&c.left, ref_resolver);
+                let right = emit_value(&c.right, ref_resolver);
+                if c.left.get_type().map_or(false, |type_| type_.is_newtype()) {
+                    let value = emit_unwrapped(quote! { value }, c.left.get_type());
+                    left = quote! { (#left).as_ref().map(|value| #value) };
+                }
                 quote! {
                     (#left).unwrap_or(#right)
                 }
@@ -336,7 +350,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             }
         }
         Member(c) => {
-            let target = emit_expression(&c.target, ref_resolver);
+            let target = emit_value(&c.target, ref_resolver);
             let get_member = format_ident!("{}", c.member.name.to_snake());
             quote! {
                 (#target).#get_member()
@@ -355,7 +369,10 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         Cast(c) => {
             let inner = emit_value(&c.inner, ref_resolver);
-            let target = emit_type_ref(&c.type_);
+            let target = match &c.type_ {
+                type_ if type_.is_newtype() => emit_type_ref(&type_.resolved()),
+                type_ => emit_type_ref(type_),
+            };
             match &*c.inner.get_type().unwrap().resolved() {
                 Type::Enum(_) => {
                     quote! {
@@ -428,8 +445,8 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         Ternary(c) => {
             let condition = emit_value(&c.condition, ref_resolver);
-            let if_true = emit_expression(&c.if_true, ref_resolver);
-            let if_false = emit_expression(&c.if_false, ref_resolver);
+            let if_true = emit_value(&c.if_true, ref_resolver);
+            let if_false = emit_value(&c.if_false, ref_resolver);
 
             quote! {
                 (if #condition {
@@ -449,7 +466,11 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             for argument in &c.arguments {
                 let expression = emit_value(argument, ref_resolver);
                 arguments.push(FFIArgumentValue {
-                    type_: argument.get_type().expect("missing type in ffi argument"),
+                    type_: argument
+                        .get_type()
+                        .expect("missing type in ffi argument")
+                        .resolved()
+                        .into_owned(),
                     present: true,
                     value: expression,
                 });
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 3fb29b5..ffa527b 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -220,7 +220,10 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
         };
         arguments.push(quote! {, #name: #opt_type_ref});
         if let Some(default_value) = argument.default_value.as_ref() {
-            let emitted = emit_expression(default_value, &ref_resolver);
+            let emitted = emit_newtype(
+                emit_value(default_value, &ref_resolver),
+                &argument.type_,
+            );
             redefaults.push(quote! {
                 let #name: #type_ref = if let Some(#name) = #name {
                     #name
-- 
2.43.0


From d315266a3c17faa0ca419efd80d86386e799d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:27 +0000
Subject: [PATCH 68/70] fix: calculated fields that refer to calculated fields
 behind them

---
 protospec-build/src/coder/encode/container.rs | 83 ++++++++++++++-----
 1 file changed, 63 insertions(+), 20 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index cf07773..446f384 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -57,26 +57,27 @@ impl Context {
 
     /// the calculated fields of conditional containers are up to those, as what they refer to may be absent
     fn encode_container_calculated(&mut self, container: &ContainerType, conditional: bool) {
-        for (name, field) in &container.items {
-            if let Type::Container(inner) = &*field.type_.borrow() {
-                if !conditional && field.condition.borrow().is_none() {
-                    self.encode_container_calculated(inner, false);
-                }
-                continue;
-            }
-            let calculated = field.calculated.borrow();
-            if let Some(calculated) = &*calculated {
-                if !calculated.blen_calls().is_empty() {
-                    continue;
-                }
-                let calculated_register = self.alloc_register();
-                self.instructions
-                    .push(Instruction::Eval(calculated_register, calculated.clone()));
-                let calculated_register =
-                    self.borrow_newtype(calculated_register, &field.type_.borrow());
-                self.instructions
-                    .push(Instruction::SetRef(name.clone(), calculated_register));
-            }
+        let mut pending = vec![];
+        container.calculated_fields(conditional, &mut pending);
+        while !pending.is_empty() {
+            // a calculated field may refer to one that is calculated behind it
+            let next = pending
+                .iter()
+                .position(|(_, field)| {
+                    let calculated = field.calculated.borrow();
+                    let calculated = calculated.as_ref().unwrap();
+                    !pending.iter().any(|(name, _)| calculated.refers_to(name))
+                })
+                .unwrap_or(0);
+            let (name, field) = pending.remove(next);
+            let calculated = field.calculated.borrow().clone().unwrap();
+            let calculated_register = self.alloc_register();
+            self.instructions
+                .push(Instruction::Eval(calculated_register, calculated));
+            let calculated_register =
+                self.borrow_newtype(calculated_register, &field.type_.borrow());
+            self.instructions
+                .push(Instruction::SetRef(name, calculated_register));
         }
     }
 
@@ -418,6 +419,23 @@ impl Context {
 }
 
 impl ContainerType {
+    /// calculated fields that do not depend on byte lengths
+    fn calculated_fields(&self, conditional: bool, output: &mut Vec<(String, Arc<Field>)>) {
+        for (name, field) in &self.items {
+            if let Type::Container(inner) = &*field.type_.borrow() {
+                if !conditional && field.condition.borrow().is_none() {
+                    inner.calculated_fields(false, output);
+                }
+                continue;
+            }
+            if let Some(calculated) = &*field.calculated.borrow() {
+                if calculated.blen_calls().is_empty() {
+                    output.push((name.clone(), field.clone()));
+                }
+            }
+        }
+    }
+
     /// fields whose byte length a sibling asks for
     fn blen_targets(&self) -> Vec<String> {
         let mut out = BTreeSet::new();
@@ -491,6 +509,31 @@ impl Expression {
         }
     }
 
+    fn refers_to(&self, name: &str) -> bool {
+        match self {
+            Expression::Binary(expr) => expr.left.refers_to(name) || expr.right.refers_to(name),
+            Expression::Unary(expr) => expr.inner.refers_to(name),
+            Expression::Cast(expr) => expr.inner.refers_to(name),
+            Expression::ArrayIndex(expr) => {
+                expr.array.refers_to(name) || expr.index.refers_to(name)
+            }
+            Expression::Ternary(expr) => {
+                expr.condition.refers_to(name)
+                    || expr.if_true.refers_to(name)
+                    || expr.if_false.refers_to(name)
+            }
+            Expression::Call(expr) => expr.arguments.iter().any(|x| x.refers_to(name)),
+            Expression::Member(expr) => expr.target.refers_to(name),
+            Expression::FieldRef(field) => field.name == name,
+            Expression::EnumAccess(_)
+            | Expression::Int(_)
+            | Expression::ConstRef(_)
+            | Expression::InputRef(_)
+            | Expression::Str(_)
+            | Expression::Bool(_) => false,
+        }
+    }
+
     fn blen_calls(&self) -> Vec<String> {
         let mut out = BTreeSet::new();
         self.extract_magic_blen_calls(&mut out);
-- 
2.43.0


From 4648b019888000407a2abdacdb8f48f77bd7006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:31 +0000
Subject: [PATCH 69/70] fix: a failing rustfmt left an empty or partial file

---
 protospec-build/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/lib.rs b/protospec-build/src/lib.rs
index 06a21e4..0ac3b31 100644
--- a/protospec-build/src/lib.rs
+++ b/protospec-build/src/lib.rs
@@ -84,9 +84,13 @@ pub fn rustfmt(input: &str) -> String {
         .stderr(Stdio::inherit())
         .spawn()
         .expect("rustfmt failed");
-    let stdin = proc.stdin.as_mut().unwrap();
-    stdin.write_all(input.as_bytes()).unwrap();
-    String::from_utf8_lossy(&proc.wait_with_output().unwrap().stdout).to_string()
+    let written = proc.stdin.take().unwrap().write_all(input.as_bytes());
+    let output = proc.wait_with_output().unwrap();
+    if written.is_err() || !output.status.success() {
+        // code that cannot be formatted is still the code
+        return input.to_string();
+    }
+    String::from_utf8_lossy(&output.stdout).to_string()
 }
 
 pub fn compile_spec(name: &str, spec: &str, options: &Options) -> AsgResult<()> {
-- 
2.43.0


From 0f973e29d86c4359459e5eec2dd91174d50aaaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:28 +0000
Subject: [PATCH 70/70] fix: the right side of ?: was evaluated although the
 left was present

---
 protospec-build/src/compiler/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 9f54870..1fcb417 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -307,7 +307,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                     left = quote! { (#left).as_ref().map(|value| #value) };
                 }
                 quote! {
-                    (#left).unwrap_or(#right)
+                    (#left).unwrap_or_else(|| #right)
                 }
             } else {
                 let left = emit_value(&c.left, ref_resolver);
-- 
2.43.0


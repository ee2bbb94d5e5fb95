//! Foreign types and transforms used by the monitors: non-commuting, argument-taking, buffering and streaming.
use proc_macro2::TokenStream;
use protospec_build::{asg, ffi::ForeignType, *};
use quote::quote;
use std::collections::HashMap;

struct X(&'static str);

fn arg(name: &str, optional: bool) -> FFIArgument {
    FFIArgument { name: name.to_string(), type_: Some(asg::Type::Scalar(ScalarType::U8.into())), optional }
}

impl ForeignTransform for X {
    fn decoding_gen(&self, input: TokenStream, args: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let name = self.0;
        let args = args.into_iter().map(|a| quote! { #a as u8 }).collect::<Vec<_>>();
        match (self.0, is_async) {
            ("sxor", false) | ("sadd", false) => quote! { crate::rt::StreamDec::new(#name, #input, [#(#args),*]) },
            ("sxor", true) | ("sadd", true) => quote! { crate::rt::AStreamDec::new(#name, #input, [#(#args),*]) },
            (_, false) => quote! { crate::rt::buf_dec(#name, #input, &[#(#args),*])? },
            (_, true) => quote! { crate::rt::abuf_dec(#name, #input, &[#(#args),*]).await? },
        }
    }
    fn encoding_gen(&self, output: TokenStream, args: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let name = self.0;
        let args = args.into_iter().map(|a| quote! { #a as u8 }).collect::<Vec<_>>();
        if is_async { quote! { crate::rt::ABufEnc::new(#name, #output, vec![#(#args),*]) } } else { quote! { crate::rt::BufEnc::new(#name, #output, vec![#(#args),*]) } }
    }
    fn arguments(&self) -> Vec<FFIArgument> {
        match self.0 {
            "xadd" => vec![arg("offset", true)],
            "xrot" => vec![arg("rot", false), arg("sub", true)],
            "hexy" => vec![],
            _ => vec![arg("key", false)],
        }
    }
}

fn u32_like(t: &asg::Type) -> bool { matches!(t, asg::Type::Scalar(EndianScalarType { scalar: ScalarType::U32, .. })) }

struct Boxed32;
impl ForeignType for Boxed32 {
    fn assignable_from(&self, t: &asg::Type) -> bool { u32_like(t) }
    fn assignable_to(&self, t: &asg::Type) -> bool { u32_like(t) }
    fn type_ref(&self) -> TokenStream { quote! { Box<u32> } }
    fn decoding_gen(&self, source: TokenStream, out: TokenStream, _a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let aw = map_async(is_async);
        quote! { let #out = Box::new({ let mut scratch = [0u8; 4]; #source.read_exact(&mut scratch[..])#aw?; u32::from_be_bytes(scratch) }); }
    }
    fn encoding_gen(&self, target: TokenStream, field: TokenStream, _a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let aw = map_async(is_async);
        quote! { #target.write_all(&#field.to_be_bytes()[..])#aw?; }
    }
    fn arguments(&self) -> Vec<asg::TypeArgument> { vec![] }
    fn copyable(&self) -> bool { false }
}

/// 24-bit big-endian number, every byte xor-ed with the (required) argument
struct Triple;
impl ForeignType for Triple {
    fn assignable_from(&self, t: &asg::Type) -> bool { u32_like(t) }
    fn assignable_to(&self, t: &asg::Type) -> bool { u32_like(t) }
    fn type_ref(&self) -> TokenStream { quote! { u32 } }
    fn decoding_gen(&self, source: TokenStream, out: TokenStream, a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let aw = map_async(is_async);
        let k = &a[0];
        quote! { let #out = { let mut scratch = [0u8; 4]; #source.read_exact(&mut scratch[1..])#aw?; for x in scratch[1..].iter_mut() { *x ^= #k as u8; } u32::from_be_bytes(scratch) }; }
    }
    fn encoding_gen(&self, target: TokenStream, field: TokenStream, a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let aw = map_async(is_async);
        let k = &a[0];
        quote! { { let mut scratch = #field.to_be_bytes(); if scratch[0] != 0 { return Err(encode_error("triple too big").into()); } for x in scratch[1..].iter_mut() { *x ^= #k as u8; } #target.write_all(&scratch[1..])#aw?; } }
    }
    fn arguments(&self) -> Vec<asg::TypeArgument> {
        vec![asg::TypeArgument { name: "key".to_string(), type_: asg::Type::Scalar(ScalarType::U8.into()), default_value: None, can_resolve_auto: false }]
    }
    fn copyable(&self) -> bool { true }
}

/// files: import path -> source text
#[derive(Clone, Default)]
pub struct Resolver { pub files: HashMap<String, String> }
impl ImportResolver for Resolver {
    fn normalize_import(&self, import: &str) -> Result<String> { Ok(import.to_string()) }
    fn resolve_import(&self, import: &str) -> Result<Option<String>> { Ok(self.files.get(import).cloned()) }
    fn resolve_ffi_transform(&self, t: &str) -> Result<Option<ForeignTransformObj>> {
        Ok(["xadd", "xxor", "xrot", "hexy", "sxor", "sadd"].iter().find(|x| **x == t).map(|x| Box::new(X(x)) as ForeignTransformObj))
    }
    fn resolve_ffi_type(&self, t: &str) -> Result<Option<ForeignTypeObj>> {
        Ok(match t { "boxed32" => Some(Box::new(Boxed32)), "triple" => Some(Box::new(Triple)), _ => None })
    }
    fn resolve_ffi_function(&self, _: &str) -> Result<Option<ForeignFunctionObj>> { Ok(None) }
    fn prelude_ffi_functions(&self) -> Result<HashMap<String, ForeignFunctionObj>> { Ok(HashMap::new()) }
}

pub fn asg_of(text: &str) -> std::result::Result<asg::Program, String> { asg_of_with(text, Resolver::default()) }
pub fn asg_of_with(text: &str, r: Resolver) -> std::result::Result<asg::Program, String> {
    let ast = parse(text).map_err(|e| format!("parse: {}", e))?;
    asg::Program::from_ast(&ast, &PreludeImportResolver(r)).map_err(|e| format!("asg: {}", e))
}

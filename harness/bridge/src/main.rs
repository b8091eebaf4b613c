//! Reads one type tree per line (["opt", ["leaf"]]) and prints how CrubitAbiType spells it:
//! [rust type, rust expression, C++ type, C++ expression].
use crubit_abi_type::*;
use quote::{ToTokens, quote};
use serde_json::{Value, json};
use std::io::BufRead;
use std::rc::Rc;

fn ptr(is_const: bool, is_rust_slice: bool, r: &str, c: &str) -> CrubitAbiType {
    CrubitAbiType::Ptr { is_const, is_rust_slice, is_cref: false, is_cpp_ref: false, rust_type: r.parse().unwrap(), cpp_type: c.parse().unwrap() }
}

fn tree(v: &Value) -> CrubitAbiType {
    let k = v[0].as_str().unwrap();
    let kids: Vec<CrubitAbiType> = v.as_array().unwrap()[1..].iter().map(tree).collect();
    let t = |r: &str, c: &str| CrubitAbiType::transmute(r, c);
    let user = |r: &str, c: &str| CrubitAbiType::Type {
        rust_abi_path: FullyQualifiedPath::new(r),
        cpp_abi_path: FullyQualifiedPath::new(c),
        type_args: Rc::from(kids.clone()),
    };
    match k {
        "u8" => t("u8", "::std::uint8_t"),
        "i16" => t("i16", "::std::int16_t"),
        "i32" => t("i32", "::std::int32_t"),
        "u64" => t("u64", "::std::uint64_t"),
        "f32" => t("f32", "float"),
        "f64" => t("f64", "double"),
        "bool" => t("bool", "bool"),
        "char" => t("char", "::rs_std::char_"),
        "big" => t("crate::Big", "::vt::Big"),
        "ptr" => ptr(true, false, "u8", "::std::uint8_t"),
        "mptr" => ptr(false, false, "u64", "::std::uint64_t"),
        "sl" => ptr(true, true, "u16", "::std::uint16_t"),
        "msl" => ptr(false, true, "u32", "::std::uint32_t"),
        "own" => t("crate::Tk", "::vt::Tk"),
        "box" => CrubitAbiType::new("crate::BoxTk", "::vt::BoxTk"),
        "proto" => CrubitAbiType::ProtoMessage {
            proto_message_rust_bridge: FullyQualifiedPath::new("crate::ProtoBridge"),
            rust_proto_path: FullyQualifiedPath::new("crate::Tk"),
            cpp_proto_path: FullyQualifiedPath::new("::vt::Tk"),
        },
        "opt" => CrubitAbiType::option(kids[0].clone()),
        "pair" => CrubitAbiType::Pair(Rc::new(kids[0].clone()), Rc::new(kids[1].clone())),
        "one" => user("crate::OneAbi", "::vt::OneAbi"),
        "two" => user("crate::TwoAbi", "::vt::TwoAbi"),
        "tup" | "tup0" => {
            let rt: Vec<_> = kids.iter().map(CrubitAbiTypeToRustTokens).collect();
            let re: Vec<_> = kids.iter().map(CrubitAbiTypeToRustExprTokens).collect();
            let ct: Vec<_> = kids.iter().map(CrubitAbiTypeToCppTokens).collect();
            let ce: Vec<_> = kids.iter().map(CrubitAbiTypeToCppExprTokens).collect();
            CrubitAbiType::Callable {
                rust_type_tokens: quote! { (#(#rt,)*) },
                rust_expr_tokens: quote! { (#(#re,)*) },
                cpp_type_tokens: quote! { ::crubit::TupleAbi<#(#ct),*> },
                cpp_expr_tokens: quote! { ::crubit::TupleAbi<#(#ct),*>{std::tuple<#(#ct),*>(#(#ce),*)} },
            }
        }
        _ => panic!("{k}"),
    }
}

fn main() {
    for l in std::io::stdin().lock().lines() {
        let t = tree(&serde_json::from_str(&l.unwrap()).unwrap());
        println!("=> {}", json!([CrubitAbiTypeToRustTokens(&t).to_token_stream().to_string(), CrubitAbiTypeToRustExprTokens(&t).to_token_stream().to_string(),
            CrubitAbiTypeToCppTokens(&t).to_token_stream().to_string(), CrubitAbiTypeToCppExprTokens(&t).to_token_stream().to_string()]));
    }
}

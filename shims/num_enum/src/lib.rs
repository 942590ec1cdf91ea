//! Offline stand-in for `num_enum::FromPrimitive` on `#[repr(u8)]` enums with explicit
//! discriminants and one `#[num_enum(default)]` variant.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(FromPrimitive, attributes(num_enum))]
pub fn derive(item: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut repr = String::from("u8");
    let mut prev = String::new();
    let mut variants: Vec<String> = Vec::new();
    let mut default = None;
    for tt in item {
        match tt {
            TokenTree::Ident(i) => { let s = i.to_string(); if prev == "enum" { name = s.clone(); } prev = s; }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => {
                let s = g.stream().to_string();
                if let Some(r) = s.strip_prefix("repr") { repr = r.trim().trim_matches(|c| c == '(' || c == ')').trim().into(); }
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let mut expect = true; let mut dflt = false;
                for t in g.stream() {
                    match t {
                        TokenTree::Group(a) if a.delimiter() == Delimiter::Bracket => {
                            let s: String = a.stream().to_string().split_whitespace().collect();
                            if s == "num_enum(default)" { dflt = true; }
                        }
                        TokenTree::Ident(i) if expect => {
                            variants.push(i.to_string()); if dflt { default = Some(i.to_string()); dflt = false; } expect = false;
                        }
                        TokenTree::Punct(p) if p.as_char() == ',' => expect = true,
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let arms: String = variants.iter().map(|v| format!("if n == {name}::{v} as {repr} {{ return {name}::{v}; }}\n")).collect();
    let d = default.expect("num_enum: no default");
    format!("impl ::std::convert::From<{repr}> for {name} {{ fn from(n: {repr}) -> Self {{ {arms} {name}::{d} }} }}\n\
             impl {name} {{ #[allow(dead_code)] fn from_primitive(n: {repr}) -> Self {{ n.into() }} }}").parse().unwrap()
}

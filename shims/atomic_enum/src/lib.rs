//! Offline stand-in for the `atomic_enum` attribute macro (only what bfffs-core uses).
//! Works on fieldless enums, including variants behind `#[cfg]`: values are stored as
//! the enum itself inside an `AtomicUsize`, converted through a match-free transmute of
//! the discriminant, which is always one that was stored from a real value.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn atomic_enum(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut name = None;
    let mut vis = String::new();
    let mut prev = String::new();
    for tt in item.clone() {
        if let TokenTree::Ident(i) = &tt {
            let s = i.to_string();
            if prev == "enum" { name = Some(s.clone()); break; }
            if s == "pub" { vis = "pub".into(); }
            prev = s;
        }
    }
    let name = name.expect("atomic_enum: no enum");
    let atomic = { let a = attr.to_string(); if a.is_empty() { format!("Atomic{name}") } else { a } };
    let src = format!(r#"
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
#[repr(usize)]
{item}
{vis} struct {atomic}(::std::sync::atomic::AtomicUsize);
#[allow(dead_code)]
impl {atomic} {{
    const fn to_usize(v: {name}) -> usize {{ v as usize }}
    fn from_usize(v: usize) -> {name} {{ unsafe {{ ::std::mem::transmute::<usize, {name}>(v) }} }}
    {vis} const fn new(v: {name}) -> Self {{ {atomic}(::std::sync::atomic::AtomicUsize::new(Self::to_usize(v))) }}
    {vis} fn load(&self, o: ::std::sync::atomic::Ordering) -> {name} {{ Self::from_usize(self.0.load(o)) }}
    {vis} fn store(&self, v: {name}, o: ::std::sync::atomic::Ordering) {{ self.0.store(Self::to_usize(v), o) }}
    {vis} fn swap(&self, v: {name}, o: ::std::sync::atomic::Ordering) -> {name} {{ Self::from_usize(self.0.swap(Self::to_usize(v), o)) }}
    {vis} fn compare_exchange(&self, c: {name}, n: {name}, s: ::std::sync::atomic::Ordering, f: ::std::sync::atomic::Ordering) -> ::std::result::Result<{name}, {name}> {{
        self.0.compare_exchange(Self::to_usize(c), Self::to_usize(n), s, f).map(Self::from_usize).map_err(Self::from_usize)
    }}
}}
impl ::std::fmt::Debug for {atomic} {{
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ self.load(::std::sync::atomic::Ordering::SeqCst).fmt(f) }}
}}
"#);
    src.parse().unwrap()
}

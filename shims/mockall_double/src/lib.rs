//! Offline stand-in for `mockall_double`: outside of `cfg(test)` the real crate leaves the item alone.
extern crate proc_macro;
#[proc_macro_attribute]
pub fn double(_: proc_macro::TokenStream, item: proc_macro::TokenStream) -> proc_macro::TokenStream { item }

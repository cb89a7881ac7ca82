//! A derive macro of someone else, for its helper attributes
extern crate proc_macro;

use proc_macro::TokenStream;

#[proc_macro_derive(Other, attributes(other))]
pub fn other(_: TokenStream) -> TokenStream {
    TokenStream::new()
}

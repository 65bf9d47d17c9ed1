//! #[wasm_bindgen(...)]: leaves the item as it is, apart from inner #[wasm_bindgen] attributes,
//! which are dropped.
use proc_macro2::{Group, TokenStream, TokenTree};
fn strip(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![]; 
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let is_attr = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '#')
                    && matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(i)) if i == "wasm_bindgen");
                if is_attr { out.pop(); continue; }
                let mut n = Group::new(g.delimiter(), strip(g.stream())); n.set_span(g.span()); out.push(n.into());
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}
#[proc_macro_attribute]
pub fn wasm_bindgen(_a: proc_macro::TokenStream, i: proc_macro::TokenStream) -> proc_macro::TokenStream { strip(i.into()).into() }

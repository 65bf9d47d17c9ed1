//! Derives for the stand-in CanonicalSerialize / CanonicalDeserialize: fields in order.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Index};

fn members(d: &DeriveInput) -> (Vec<proc_macro2::TokenStream>, Vec<syn::Type>, bool) {
    match &d.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => (f.named.iter().map(|x| { let i = x.ident.clone().unwrap(); quote!(#i) }).collect(), f.named.iter().map(|x| x.ty.clone()).collect(), true),
            Fields::Unnamed(f) => ((0..f.unnamed.len()).map(|i| { let i = Index::from(i); quote!(#i) }).collect(), f.unnamed.iter().map(|x| x.ty.clone()).collect(), false),
            Fields::Unit => (vec![], vec![], false),
        },
        _ => panic!("only structs"),
    }
}
#[proc_macro_derive(CanonicalSerialize)]
pub fn ser(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput); let (m, _, _) = members(&d);
    let n = &d.ident; let (ig, tg, wc) = d.generics.split_for_impl();
    quote!(impl #ig ::ark_serialize::CanonicalSerialize for #n #tg #wc {
        #[allow(unused_mut, unused_variables)]
        fn serialize_with_mode<WWW: ::std::io::Write>(&self, mut w: WWW, c: ::ark_serialize::Compress) -> ::std::result::Result<(), ::ark_serialize::SerializationError> { #( ::ark_serialize::CanonicalSerialize::serialize_with_mode(&self.#m, &mut w, c)?; )* Ok(()) }
        #[allow(unused_variables)]
        fn serialized_size(&self, c: ::ark_serialize::Compress) -> usize { 0 #( + ::ark_serialize::CanonicalSerialize::serialized_size(&self.#m, c) )* }
    }).into()
}
#[proc_macro_derive(CanonicalDeserialize)]
pub fn de(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput); let (m, t, named) = members(&d);
    let n = &d.ident; let (ig, tg, wc) = d.generics.split_for_impl();
    let body = if named { quote!(Self { #( #m: <#t as ::ark_serialize::CanonicalDeserialize>::deserialize_with_mode(&mut r, c, v)? ),* }) }
               else { quote!(Self( #( <#t as ::ark_serialize::CanonicalDeserialize>::deserialize_with_mode(&mut r, c, v)? ),* )) };
    quote!(impl #ig ::ark_serialize::Valid for #n #tg #wc { fn check(&self) -> ::std::result::Result<(), ::ark_serialize::SerializationError> { #( ::ark_serialize::Valid::check(&self.#m)?; )* Ok(()) } }
    impl #ig ::ark_serialize::CanonicalDeserialize for #n #tg #wc {
        #[allow(unused_mut, unused_variables)]
        fn deserialize_with_mode<RRR: ::std::io::Read>(mut r: RRR, c: ::ark_serialize::Compress, v: ::ark_serialize::Validate) -> ::std::result::Result<Self, ::ark_serialize::SerializationError> { Ok(#body) }
    }).into()
}

//! derive(CanonicalSerialize, CanonicalDeserialize): every field in order, as arkworks does.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Index};

fn fields(d: &DeriveInput) -> (Vec<proc_macro2::TokenStream>, bool) {
    match &d.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => (n.named.iter().map(|f| { let i = f.ident.as_ref().unwrap(); quote!(#i) }).collect(), true),
            Fields::Unnamed(n) => ((0..n.unnamed.len()).map(|i| { let i = Index::from(i); quote!(#i) }).collect(), false),
            Fields::Unit => (vec![], true),
        },
        _ => panic!("only structs can be serialised"),
    }
}
#[proc_macro_derive(CanonicalSerialize)]
pub fn ser(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (f, _) = fields(&d);
    let n = &d.ident;
    let (g, t, w) = d.generics.split_for_impl();
    quote! {
        impl #g ark_serialize::CanonicalSerialize for #n #t #w {
            #[allow(unused_mut, unused_variables)]
            fn serialize_with_mode<__W: ark_serialize::Write>(&self, mut writer: __W, compress: ark_serialize::Compress) -> ::core::result::Result<(), ark_serialize::SerializationError> {
                #( ark_serialize::CanonicalSerialize::serialize_with_mode(&self.#f, &mut writer, compress)?; )*
                Ok(())
            }
            #[allow(unused_mut, unused_variables)]
            fn serialized_size(&self, compress: ark_serialize::Compress) -> usize {
                let mut size = 0;
                #( size += ark_serialize::CanonicalSerialize::serialized_size(&self.#f, compress); )*
                size
            }
        }
    }.into()
}
#[proc_macro_derive(CanonicalDeserialize)]
pub fn de(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (f, _) = fields(&d);
    let n = &d.ident;
    let (g, t, w) = d.generics.split_for_impl();
    // Fields are built in the order of the struct expression, which is the order of declaration.
    quote! {
        impl #g ark_serialize::CanonicalDeserialize for #n #t #w {
            #[allow(unused_mut, unused_variables)]
            fn deserialize_with_mode<__R: ark_serialize::Read>(mut reader: __R, compress: ark_serialize::Compress, validate: ark_serialize::Validate) -> ::core::result::Result<Self, ark_serialize::SerializationError> {
                Ok(#n { #( #f: ark_serialize::CanonicalDeserialize::deserialize_with_mode(&mut reader, compress, validate)?, )* })
            }
        }
        impl #g ark_serialize::Valid for #n #t #w {
            fn check(&self) -> ::core::result::Result<(), ark_serialize::SerializationError> {
                #( ark_serialize::Valid::check(&self.#f)?; )*
                Ok(())
            }
        }
    }.into()
}
/// wasm-bindgen natively: the item stays as it is.
#[proc_macro_attribute]
pub fn wasm_bindgen(_a: TokenStream, item: TokenStream) -> TokenStream {
    item
}

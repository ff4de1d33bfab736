use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Index};

fn members(d: &DeriveInput) -> Vec<(proc_macro2::TokenStream, syn::Type)> {
    match &d.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => n.named.iter().map(|f| { let i = f.ident.clone().unwrap(); (quote!(#i), f.ty.clone()) }).collect(),
            Fields::Unnamed(u) => u.unnamed.iter().enumerate().map(|(i, f)| { let i = Index::from(i); (quote!(#i), f.ty.clone()) }).collect(),
            Fields::Unit => vec![],
        },
        _ => panic!("only structs"),
    }
}

#[proc_macro_derive(CanonicalSerialize)]
pub fn ser(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let m: Vec<_> = members(&d).into_iter().map(|x| x.0).collect();
    quote! {
        impl #ig ark_serialize::CanonicalSerialize for #name #tg #wc {
            #[allow(unused_mut, unused_variables)]
            fn serialize<SimW: ::std::io::Write>(&self, mut writer: SimW) -> ::core::result::Result<(), ark_serialize::SerializationError> {
                #( ark_serialize::CanonicalSerialize::serialize(&self.#m, &mut writer)?; )* Ok(())
            }
            #[allow(unused_mut, unused_variables)]
            fn serialize_uncompressed<SimW: ::std::io::Write>(&self, mut writer: SimW) -> ::core::result::Result<(), ark_serialize::SerializationError> {
                #( ark_serialize::CanonicalSerialize::serialize_uncompressed(&self.#m, &mut writer)?; )* Ok(())
            }
            #[allow(unused_mut, unused_variables)]
            fn serialize_unchecked<SimW: ::std::io::Write>(&self, mut writer: SimW) -> ::core::result::Result<(), ark_serialize::SerializationError> {
                #( ark_serialize::CanonicalSerialize::serialize_unchecked(&self.#m, &mut writer)?; )* Ok(())
            }
            fn serialized_size(&self) -> usize { 0 #( + ark_serialize::CanonicalSerialize::serialized_size(&self.#m) )* }
            fn uncompressed_size(&self) -> usize { 0 #( + ark_serialize::CanonicalSerialize::uncompressed_size(&self.#m) )* }
        }
    }.into()
}

#[proc_macro_derive(CanonicalDeserialize)]
pub fn de(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let ms = members(&d);
    let m: Vec<_> = ms.iter().map(|x| x.0.clone()).collect();
    quote! {
        impl #ig ark_serialize::CanonicalDeserialize for #name #tg #wc {
            #[allow(unused_mut, unused_variables)]
            fn deserialize<SimR: ::std::io::Read>(mut reader: SimR) -> ::core::result::Result<Self, ark_serialize::SerializationError> {
                Ok(Self { #( #m: ark_serialize::CanonicalDeserialize::deserialize(&mut reader)? ),* })
            }
            #[allow(unused_mut, unused_variables)]
            fn deserialize_uncompressed<SimR: ::std::io::Read>(mut reader: SimR) -> ::core::result::Result<Self, ark_serialize::SerializationError> {
                Ok(Self { #( #m: ark_serialize::CanonicalDeserialize::deserialize_uncompressed(&mut reader)? ),* })
            }
            #[allow(unused_mut, unused_variables)]
            fn deserialize_unchecked<SimR: ::std::io::Read>(mut reader: SimR) -> ::core::result::Result<Self, ark_serialize::SerializationError> {
                Ok(Self { #( #m: ark_serialize::CanonicalDeserialize::deserialize_unchecked(&mut reader)? ),* })
            }
        }
    }.into()
}

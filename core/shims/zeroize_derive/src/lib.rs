//! `#[derive(Zeroize)]` and `#[derive(ZeroizeOnDrop)]` for plain structs and enums.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

fn skipped(f: &syn::Field) -> bool {
    f.attrs.iter().any(|a| {
        a.path().is_ident("zeroize") && {
            let mut s = false;
            let _ = a.parse_nested_meta(|m| {
                s |= m.path.is_ident("skip");
                Ok(())
            });
            s
        }
    })
}

fn arms(d: &DeriveInput, call: impl Fn(&syn::Ident) -> proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    let one = |path: proc_macro2::TokenStream, fields: &Fields| {
        let mut pats = vec![];
        let mut calls = vec![];
        for (i, f) in fields.iter().enumerate() {
            let v = format_ident!("f{}", i);
            match &f.ident {
                Some(id) => pats.push(quote!(#id: #v)),
                None => pats.push(quote!(#v)),
            }
            calls.push(if skipped(f) { quote!(let _ = #v;) } else { call(&v) });
        }
        match fields {
            Fields::Named(_) => quote!(#path { #(#pats),* } => { #(#calls)* }),
            Fields::Unnamed(_) => quote!(#path ( #(#pats),* ) => { #(#calls)* }),
            Fields::Unit => quote!(#path => {}),
        }
    };
    match &d.data {
        Data::Struct(s) => one(quote!(Self), &s.fields),
        Data::Enum(e) => {
            let v: Vec<_> = e.variants.iter().map(|v| { let id = &v.ident; one(quote!(Self::#id), &v.fields) }).collect();
            quote!(#(#v)* _ => {})
        }
        Data::Union(_) => panic!("unions are not supported"),
    }
}

#[proc_macro_derive(Zeroize, attributes(zeroize))]
pub fn zeroize(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let body = arms(&d, |v| quote!(::zeroize::Zeroize::zeroize(#v);));
    quote!(impl #ig ::zeroize::Zeroize for #name #tg #wc {
        #[allow(unreachable_patterns)]
        fn zeroize(&mut self) { match self { #body } }
    }).into()
}

#[proc_macro_derive(ZeroizeOnDrop, attributes(zeroize))]
pub fn zeroize_on_drop(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let body = arms(&d, |v| quote!((&mut &mut *#v).zeroize_or_on_drop();));
    quote!(impl #ig ::core::ops::Drop for #name #tg #wc {
        #[allow(unreachable_patterns)]
        fn drop(&mut self) {
            use ::zeroize::__internal::AssertZeroize as _;
            use ::zeroize::__internal::AssertZeroizeOnDrop as _;
            match self { #body }
        }
    }
    impl #ig ::zeroize::ZeroizeOnDrop for #name #tg #wc {}).into()
}

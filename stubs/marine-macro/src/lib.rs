//! Native stand-in for the `#[marine]` attribute: structs become serde
//! records, functions keep their body and additionally get an exported JSON
//! entry point `__marine_call_<name>(args_json_array) -> result_json`, i.e. the
//! same calling convention the marine runtime gives a host.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{FnArg, Item};

#[proc_macro_attribute]
pub fn marine(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let parsed: Item = syn::parse(item).expect("#[marine] on an unsupported item");
    match parsed {
        Item::Struct(s) => quote! {
            #[derive(::marine_rs_sdk::serde::Serialize, ::marine_rs_sdk::serde::Deserialize)]
            #[serde(crate = "::marine_rs_sdk::serde")]
            #s
        }
        .into(),
        Item::Fn(f) => {
            let name = &f.sig.ident;
            let export = format_ident!("__marine_call_{}", name);
            let tys: Vec<_> = f
                .sig
                .inputs
                .iter()
                .map(|a| match a {
                    FnArg::Typed(t) => (*t.ty).clone(),
                    _ => panic!("self argument"),
                })
                .collect();
            let ids: Vec<_> = (0..tys.len()).map(|i| format_ident!("__a{}", i)).collect();
            let n = tys.len();
            quote! {
                #f
                #[no_mangle]
                #[doc(hidden)]
                pub fn #export(__args: ::std::vec::Vec<::marine_rs_sdk::serde_json::Value>) -> ::marine_rs_sdk::serde_json::Value {
                    assert_eq!(__args.len(), #n, "marine call arity");
                    let mut __it = __args.into_iter();
                    #( let #ids: #tys = ::marine_rs_sdk::serde_json::from_value(__it.next().unwrap()).expect("marine argument"); )*
                    let __r = #name(#(#ids),*);
                    ::marine_rs_sdk::serde_json::to_value(&__r).expect("marine result")
                }
            }
            .into()
        }
        other => quote!(#other).into(),
    }
}

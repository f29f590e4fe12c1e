//! Stand-in for `async-trait`: asynchronous methods return boxed futures.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, FnArg, ImplItem, Item, Lifetime, ReturnType, Signature, TraitItem, TypeReference};

struct Elided(Vec<Lifetime>);
impl Elided {
    fn next(&mut self) -> Lifetime {
        let l = Lifetime::new(&format!("'life{}", self.0.len()), proc_macro2::Span::call_site());
        self.0.push(l.clone());
        l
    }
}
impl VisitMut for Elided {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        if t.lifetime.is_none() {
            t.lifetime = Some(self.next());
        }
        visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident == format_ident!("_") {
            *l = self.next();
        }
    }
}
fn signature(s: &mut Signature) {
    s.asyncness = None;
    let mut e = Elided(vec![]);
    for i in &mut s.inputs {
        match i {
            FnArg::Receiver(r) => {
                if let Some((_, l)) = &mut r.reference {
                    if l.is_none() {
                        let n = e.next();
                        *l = Some(n.clone());
                        if let syn::Type::Reference(t) = &mut *r.ty {
                            t.lifetime = Some(n);
                        }
                    }
                }
            }
            FnArg::Typed(t) => e.visit_type_mut(&mut t.ty),
        }
    }
    let out = match &s.output {
        ReturnType::Default => quote!(()),
        ReturnType::Type(_, t) => quote!(#t),
    };
    s.output = parse_quote!(-> ::core::pin::Pin<::std::boxed::Box<dyn ::core::future::Future<Output = #out> + ::core::marker::Send + 'async_trait>>);
    for l in &e.0 {
        s.generics.params.push(parse_quote!(#l));
    }
    s.generics.params.push(parse_quote!('async_trait));
    let w = s.generics.make_where_clause();
    for l in &e.0 {
        w.predicates.push(parse_quote!(#l: 'async_trait));
    }
    w.predicates.push(parse_quote!(Self: 'async_trait));
}
#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut item: Item = syn::parse_macro_input!(item);
    match &mut item {
        Item::Trait(t) => {
            for i in &mut t.items {
                if let TraitItem::Fn(f) = i {
                    if f.sig.asyncness.is_some() {
                        signature(&mut f.sig);
                        if let Some(b) = &f.default {
                            f.default = Some(parse_quote!({ ::std::boxed::Box::pin(async move #b) }));
                        }
                    }
                }
            }
        }
        Item::Impl(t) => {
            for i in &mut t.items {
                if let ImplItem::Fn(f) = i {
                    if f.sig.asyncness.is_some() {
                        signature(&mut f.sig);
                        let b = &f.block;
                        f.block = parse_quote!({ ::std::boxed::Box::pin(async move #b) });
                    }
                }
            }
        }
        _ => panic!("neither a trait nor an implementation"),
    }
    quote!(#item).into()
}

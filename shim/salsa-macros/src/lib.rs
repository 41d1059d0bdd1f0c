use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::*;

fn fields(s: &ItemStruct) -> Vec<(Visibility, Ident, Type, bool)> {
	s.fields
		.iter()
		.map(|f| {
			let by_ref = f.attrs.iter().any(|a| a.path.is_ident("return_ref"));
			(f.vis.clone(), f.ident.clone().expect("named fields"), f.ty.clone(), by_ref)
		})
		.collect()
}

fn entity(s: ItemStruct, interned: bool) -> TokenStream {
	let (vis, name) = (&s.vis, &s.ident);
	let fs = fields(&s);
	let names: Vec<_> = fs.iter().map(|f| &f.1).collect();
	let tys: Vec<_> = fs.iter().map(|f| &f.2).collect();
	let make = if interned { format_ident!("intern") } else { format_ident!("new_slot") };
	let getters = fs.iter().enumerate().map(|(i, (v, n, t, r))| {
		let i = Index::from(i);
		if *r {
			quote! { #v fn #n<'db>(self, db: &'db <crate::Jar as salsa::Jar<'db>>::DynDb) -> &'db #t {
				&salsa::HasRuntime::v_runtime(db).slot::<Self, (#(#tys,)*)>(self.0).#i } }
		} else {
			quote! { #v fn #n<'db>(self, db: &'db <crate::Jar as salsa::Jar<'db>>::DynDb) -> #t {
				salsa::HasRuntime::v_runtime(db).slot::<Self, (#(#tys,)*)>(self.0).#i.clone() } }
		}
	});
	let setters = fs.iter().enumerate().filter(|_| !interned).map(|(i, (v, n, t, _))| {
		let (i, set) = (Index::from(i), format_ident!("set_{}", n));
		quote! { #v fn #set<'db, D: salsa::HasRuntime + ?Sized>(self, db: &'db mut D) -> salsa::Setter<impl FnOnce(#t) + 'db> {
			salsa::Setter(move |value: #t| salsa::HasRuntime::v_runtime(db).change::<Self, (#(#tys,)*)>(self.0, |f| f.#i = value)) } }
	});
	quote! {
		#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
		#vis struct #name(u32);
		impl #name {
			pub fn new<'db>(db: &'db <crate::Jar as salsa::Jar<'db>>::DynDb, #(#names: #tys),*) -> Self {
				#name(salsa::HasRuntime::v_runtime(db).#make::<Self, (#(#tys,)*)>((#(#names,)*)))
			}
			#(#getters)*
			#(#setters)*
		}
	}
	.into()
}

#[proc_macro_attribute]
pub fn input(_: TokenStream, item: TokenStream) -> TokenStream { entity(parse_macro_input!(item as ItemStruct), false) }
#[proc_macro_attribute]
pub fn interned(_: TokenStream, item: TokenStream) -> TokenStream { entity(parse_macro_input!(item as ItemStruct), true) }

#[proc_macro_attribute]
pub fn tracked(attr: TokenStream, item: TokenStream) -> TokenStream {
	match parse_macro_input!(item as Item) {
		Item::Struct(s) => entity(s, false),
		Item::Fn(f) => function(f, attr.to_string().contains("return_ref")),
		_ => panic!("salsa stand-in: tracked structs and functions only"),
	}
}

fn function(f: ItemFn, by_ref: bool) -> TokenStream {
	let (vis, name) = (&f.vis, &f.sig.ident);
	let mut args = f.sig.inputs.iter().map(|a| match a {
		FnArg::Typed(t) => match &*t.pat {
			Pat::Ident(i) => (i.ident.clone(), (*t.ty).clone()),
			_ => panic!("simple arguments only"),
		},
		_ => panic!("no self"),
	});
	let db = args.next().expect("a database argument").0;
	let rest: Vec<_> = args.collect();
	let names: Vec<_> = rest.iter().map(|a| &a.0).collect();
	let tys: Vec<_> = rest.iter().map(|a| &a.1).collect();
	let out = match &f.sig.output {
		ReturnType::Default => quote! { () },
		ReturnType::Type(_, t) => quote! { #t },
	};
	let body = &f.block;
	let dyn_db = quote! { &'db <crate::Jar as salsa::Jar<'db>>::DynDb };
	let (ret, post) = if by_ref { (quote! { &'db #out }, quote! {}) } else { (quote! { #out }, quote! { .clone() }) };
	quote! {
		#[allow(non_camel_case_types)]
		#vis struct #name {}
		impl #name {
			fn __call<'db>(#db: #dyn_db, #(#names: #tys),*) -> &'db #out {
				salsa::HasRuntime::v_runtime(#db).call::<#name, (#(#tys,)*), #out>((#(#names.clone(),)*), move || #body)
			}
			#vis fn accumulated<'db, A: salsa::Accumulator + 'static>(#db: #dyn_db, #(#names: #tys),*) -> Vec<A::Data> {
				Self::__call(#db, #(#names.clone()),*);
				salsa::HasRuntime::v_runtime(#db).collect::<#name, (#(#tys,)*), A, A::Data>((#(#names,)*))
			}
		}
		#vis fn #name<'db>(#db: #dyn_db, #(#names: #tys),*) -> #ret { #name::__call(#db, #(#names),*)#post }
	}
	.into()
}

#[proc_macro_attribute]
pub fn accumulator(_: TokenStream, item: TokenStream) -> TokenStream {
	let s = parse_macro_input!(item as ItemStruct);
	let (vis, name) = (&s.vis, &s.ident);
	let ty = &s.fields.iter().next().expect("one field").ty;
	quote! {
		#vis struct #name;
		impl salsa::Accumulator for #name {
			type Data = #ty;
		}
		impl #name {
			#vis fn push<'db>(db: &'db <crate::Jar as salsa::Jar<'db>>::DynDb, value: #ty) {
				salsa::HasRuntime::v_runtime(db).push::<#name, #ty>(value)
			}
		}
	}
	.into()
}

#[proc_macro_attribute]
pub fn jar(attr: TokenStream, item: TokenStream) -> TokenStream {
	let s = parse_macro_input!(item as ItemStruct);
	let (vis, name) = (&s.vis, &s.ident);
	let a: MetaNameValueIdent = parse_macro_input!(attr);
	let db = a.1;
	quote! {
		#vis struct #name;
		impl<'db> salsa::Jar<'db> for #name {
			type DynDb = dyn #db + 'db;
		}
	}
	.into()
}
struct MetaNameValueIdent(Ident, Path);
impl parse::Parse for MetaNameValueIdent {
	fn parse(i: parse::ParseStream) -> Result<Self> {
		let n = i.parse()?;
		i.parse::<Token![=]>()?;
		Ok(MetaNameValueIdent(n, i.parse()?))
	}
}

#[proc_macro_attribute]
pub fn db(attr: TokenStream, item: TokenStream) -> TokenStream {
	let s = parse_macro_input!(item as ItemStruct);
	let name = &s.ident;
	let jar: Path = parse_macro_input!(attr);
	quote! {
		#s
		impl salsa::HasRuntime for #name {
			fn v_runtime(&self) -> &salsa::Runtime { &self.storage.runtime }
		}
		impl salsa::DbWithJar<#jar> for #name {}
	}
	.into()
}

//! Proc macros of the mini-FRAME: SCALE derives, `*NoBound` derives, `#[frame_support::pallet]`,
//! `construct_runtime!`, `storage_alias`.
extern crate proc_macro;
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote, ToTokens};
use syn::visit::Visit;
use syn::*;

mod pallet;
mod runtime;

struct Mentions<'a> {
	params: &'a [Ident],
	hit: bool,
}
impl<'a, 'ast> Visit<'ast> for Mentions<'a> {
	fn visit_ident(&mut self, i: &'ast Ident) {
		if self.params.iter().any(|p| p == i) {
			self.hit = true;
		}
	}
}
fn mentions(ty: &Type, params: &[Ident]) -> bool {
	let mut m = Mentions { params, hit: false };
	m.visit_type(ty);
	m.hit
}

fn codec_attr(attrs: &[Attribute], name: &str) -> bool {
	let mut hit = false;
	for a in attrs {
		if a.path().is_ident("codec") {
			let s = a.meta.to_token_stream().to_string();
			if s.contains(name) {
				hit = true;
			}
		}
	}
	hit
}
fn codec_index(attrs: &[Attribute]) -> Option<u8> {
	for a in attrs {
		if a.path().is_ident("codec") {
			let mut r = None;
			let _ = a.parse_nested_meta(|m| {
				if m.path.is_ident("index") {
					let v: LitInt = m.value()?.parse()?;
					r = Some(v.base10_parse::<u8>()?);
				}
				Ok(())
			});
			if r.is_some() {
				return r;
			}
		}
	}
	None
}

fn params_of(g: &Generics) -> Vec<Ident> {
	g.type_params().map(|p| p.ident.clone()).collect()
}

fn with_bounds(input: &DeriveInput, tr: TS, compact: TS) -> Generics {
	let mut g = input.generics.clone();
	let params = params_of(&g);
	if params.is_empty() {
		return g;
	}
	let mut preds: Vec<WherePredicate> = vec![];
	let mut add = |fields: &Fields| {
		for f in fields {
			if codec_attr(&f.attrs, "skip") || !mentions(&f.ty, &params) {
				continue;
			}
			let ty = &f.ty;
			if codec_attr(&f.attrs, "compact") {
				preds.push(parse_quote!(#ty: #compact));
			} else {
				preds.push(parse_quote!(#ty: #tr));
			}
		}
	};
	match &input.data {
		Data::Struct(s) => add(&s.fields),
		Data::Enum(e) => e.variants.iter().for_each(|v| add(&v.fields)),
		_ => {},
	}
	g.make_where_clause().predicates.extend(preds);
	g
}

fn binders(f: &Fields) -> (Vec<Ident>, TS) {
	let names: Vec<Ident> = f
		.iter()
		.enumerate()
		.map(|(i, f)| f.ident.clone().unwrap_or_else(|| format_ident!("f{}", i)))
		.collect();
	let b: Vec<Ident> = names.iter().map(|n| format_ident!("__b_{}", n.to_string().trim_start_matches("r#"))).collect();
	let pat = match f {
		Fields::Named(_) => quote!({ #(#names: #b),* }),
		Fields::Unnamed(_) => quote!(( #(#b),* )),
		Fields::Unit => quote!(),
	};
	(b, pat)
}
fn construct(f: &Fields, vals: Vec<TS>) -> TS {
	match f {
		Fields::Named(n) => {
			let names = n.named.iter().map(|f| f.ident.clone());
			quote!({ #(#names: #vals),* })
		},
		Fields::Unnamed(_) => quote!(( #(#vals),* )),
		Fields::Unit => quote!(),
	}
}

fn variant_indices(e: &DataEnum) -> Vec<u8> {
	let mut next = 0u8;
	e.variants
		.iter()
		.map(|v| {
			let i = codec_index(&v.attrs).or_else(|| match &v.discriminant {
				Some((_, Expr::Lit(ExprLit { lit: Lit::Int(i), .. }))) => i.base10_parse::<u8>().ok(),
				_ => None,
			});
			let i = i.unwrap_or(next);
			next = i.wrapping_add(1);
			i
		})
		.collect()
}

pub(crate) fn encode_impl(input: &DeriveInput, c: TS) -> TS {
	let g = with_bounds(input, quote!(#c::Encode), quote!(#c::HasCompact));
	let (ig, tg, wc) = g.split_for_impl();
	let name = &input.ident;
	let enc_fields = |f: &Fields, b: &[Ident]| -> TS {
		let stm = f.iter().zip(b).map(|(f, b)| {
			if codec_attr(&f.attrs, "skip") {
				quote!(let _ = #b;)
			} else if codec_attr(&f.attrs, "compact") {
				quote!(#c::HasCompact::encode_compact_to(#b, __dest);)
			} else {
				quote!(#c::Encode::encode_to(#b, __dest);)
			}
		});
		quote!(#(#stm)*)
	};
	let body = match &input.data {
		Data::Struct(s) => {
			let (b, pat) = binders(&s.fields);
			let st = enc_fields(&s.fields, &b);
			quote!(let #name #pat = self; #st)
		},
		Data::Enum(e) => {
			let idx = variant_indices(e);
			let arms = e.variants.iter().zip(idx).map(|(v, i)| {
				let (b, pat) = binders(&v.fields);
				let st = enc_fields(&v.fields, &b);
				let vn = &v.ident;
				if codec_attr(&v.attrs, "skip") {
					quote!(#name::#vn #pat => { #(let _ = #b;)* })
				} else {
					quote!(#name::#vn #pat => { __dest.push_byte(#i); #st })
				}
			});
			if e.variants.is_empty() {
				quote!()
			} else {
				quote!(match self { #(#arms),* })
			}
		},
		_ => quote!(),
	};
	quote! {
		#[allow(unused_variables, deprecated, clippy::all)]
		impl #ig #c::Encode for #name #tg #wc {
			fn encode_to<__O: #c::Output + ?Sized>(&self, __dest: &mut __O) { #body }
		}
		impl #ig #c::EncodeLike for #name #tg #wc {}
	}
}

pub(crate) fn decode_impl(input: &DeriveInput, c: TS) -> TS {
	let g = with_bounds(input, quote!(#c::Decode), quote!(#c::HasCompact));
	let mut g = g;
	// skipped fields need Default
	{
		let params = params_of(&g);
		let mut preds: Vec<WherePredicate> = vec![];
		if let Data::Struct(s) = &input.data {
			for f in &s.fields {
				if codec_attr(&f.attrs, "skip") && mentions(&f.ty, &params) {
					let ty = &f.ty;
					preds.push(parse_quote!(#ty: Default));
				}
			}
		}
		if !preds.is_empty() {
			g.make_where_clause().predicates.extend(preds);
		}
	}
	let (ig, tg, wc) = g.split_for_impl();
	let name = &input.ident;
	let dec = |f: &Fields| -> TS {
		let vals: Vec<TS> = f
			.iter()
			.map(|f| {
				if codec_attr(&f.attrs, "skip") {
					quote!(Default::default())
				} else if codec_attr(&f.attrs, "compact") {
					quote!(#c::HasCompact::decode_compact(__input)?)
				} else {
					quote!(#c::Decode::decode(__input)?)
				}
			})
			.collect();
		construct(f, vals)
	};
	let body = match &input.data {
		Data::Struct(s) => {
			let v = dec(&s.fields);
			quote!(Ok(#name #v))
		},
		Data::Enum(e) => {
			let idx = variant_indices(e);
			let arms = e.variants.iter().zip(idx).filter(|(v, _)| !codec_attr(&v.attrs, "skip")).map(|(v, i)| {
				let d = dec(&v.fields);
				let vn = &v.ident;
				quote!(#i => Ok(#name::#vn #d))
			});
			quote!(match #c::Input::read_byte(__input)? { #(#arms,)* _ => Err(#c::Error::from("invalid variant")) })
		},
		_ => quote!(),
	};
	quote! {
		#[allow(unreachable_code, deprecated, clippy::all)]
		impl #ig #c::Decode for #name #tg #wc {
			fn decode<__I: #c::Input>(__input: &mut __I) -> ::core::result::Result<Self, #c::Error> { #body }
		}
	}
}

pub(crate) fn mel_impl(input: &DeriveInput, c: TS) -> TS {
	let g = with_bounds(input, quote!(#c::MaxEncodedLen), quote!(#c::HasCompact));
	let (ig, tg, wc) = g.split_for_impl();
	let name = &input.ident;
	let sum = |f: &Fields| -> TS {
		let s = f.iter().filter(|f| !codec_attr(&f.attrs, "skip")).map(|f| {
			let ty = &f.ty;
			if codec_attr(&f.attrs, "compact") {
				quote!(17usize)
			} else {
				quote!(<#ty as #c::MaxEncodedLen>::max_encoded_len())
			}
		});
		quote!(0usize #(.saturating_add(#s))*)
	};
	let body = match &input.data {
		Data::Struct(s) => sum(&s.fields),
		Data::Enum(e) => {
			let s = e.variants.iter().filter(|v| !codec_attr(&v.attrs, "skip")).map(|v| sum(&v.fields));
			quote!(0usize #(.max(#s))* .saturating_add(1))
		},
		_ => quote!(0),
	};
	quote! {
		impl #ig #c::MaxEncodedLen for #name #tg #wc {
			fn max_encoded_len() -> usize { #body }
		}
	}
}

#[proc_macro_derive(Encode, attributes(codec))]
pub fn derive_encode(i: TokenStream) -> TokenStream {
	encode_impl(&parse_macro_input!(i as DeriveInput), quote!(::parity_scale_codec)).into()
}
#[proc_macro_derive(Decode, attributes(codec))]
pub fn derive_decode(i: TokenStream) -> TokenStream {
	decode_impl(&parse_macro_input!(i as DeriveInput), quote!(::parity_scale_codec)).into()
}
#[proc_macro_derive(MaxEncodedLen, attributes(codec))]
pub fn derive_mel(i: TokenStream) -> TokenStream {
	mel_impl(&parse_macro_input!(i as DeriveInput), quote!(::parity_scale_codec)).into()
}
#[proc_macro_derive(TypeInfo, attributes(scale_info, codec))]
pub fn derive_type_info(i: TokenStream) -> TokenStream {
	let i = parse_macro_input!(i as DeriveInput);
	let name = &i.ident;
	let (ig, tg, wc) = i.generics.split_for_impl();
	quote!(impl #ig ::scale_info::TypeInfo for #name #tg #wc { type Identity = Self; fn type_info() -> ::scale_info::Type { ::scale_info::Type::default() } }).into()
}

fn clone_impl(i: &DeriveInput) -> TS {
	let name = &i.ident;
	let (ig, tg, wc) = i.generics.split_for_impl();
	let arm = |path: TS, f: &Fields| {
		let (b, pat) = binders(f);
		let v = construct(f, b.iter().map(|b| quote!(::core::clone::Clone::clone(#b))).collect());
		quote!(#path #pat => #path #v)
	};
	let body = match &i.data {
		Data::Struct(s) => {
			let a = arm(quote!(#name), &s.fields);
			quote!(match self { #a })
		},
		Data::Enum(e) if e.variants.is_empty() => quote!(match *self {}),
		Data::Enum(e) => {
			let a = e.variants.iter().map(|v| {
				let vn = &v.ident;
				arm(quote!(#name::#vn), &v.fields)
			});
			quote!(match self { #(#a),* })
		},
		_ => quote!(),
	};
	quote!(impl #ig ::core::clone::Clone for #name #tg #wc { fn clone(&self) -> Self { #body } })
}
fn partial_eq_impl(i: &DeriveInput) -> TS {
	let name = &i.ident;
	let (ig, tg, wc) = i.generics.split_for_impl();
	let arm = |path: TS, f: &Fields| {
		let names: Vec<TS> = f
			.iter()
			.enumerate()
			.map(|(k, f)| match &f.ident {
				Some(n) => quote!(#n),
				None => {
					let x = Index::from(k);
					quote!(#x)
				},
			})
			.collect();
		let a: Vec<Ident> = (0..names.len()).map(|k| format_ident!("a{}", k)).collect();
		let b: Vec<Ident> = (0..names.len()).map(|k| format_ident!("b{}", k)).collect();
		quote!((#path { #(#names: #a),* }, #path { #(#names: #b),* }) => true #(&& #a == #b)*)
	};
	let body = match &i.data {
		Data::Struct(s) => {
			let a = arm(quote!(#name), &s.fields);
			quote!(match (self, other) { #a })
		},
		Data::Enum(e) => {
			let a = e.variants.iter().map(|v| {
				let vn = &v.ident;
				arm(quote!(#name::#vn), &v.fields)
			});
			quote!(match (self, other) { #(#a,)* _ => false })
		},
		_ => quote!(),
	};
	quote!(#[allow(unreachable_patterns)] impl #ig ::core::cmp::PartialEq for #name #tg #wc { fn eq(&self, other: &Self) -> bool { #body } })
}
fn debug_impl(i: &DeriveInput) -> TS {
	let name = &i.ident;
	let ns = name.to_string();
	let (ig, tg, wc) = i.generics.split_for_impl();
	let arm = |path: TS, label: String, f: &Fields| {
		let (b, pat) = binders(f);
		match f {
			Fields::Named(n) => {
				let names = n.named.iter().map(|f| f.ident.as_ref().unwrap().to_string());
				quote!(#path #pat => fmt.debug_struct(#label) #(.field(#names, &#b))* .finish())
			},
			_ => quote!(#path #pat => fmt.debug_tuple(#label) #(.field(&#b))* .finish()),
		}
	};
	let body = match &i.data {
		Data::Struct(s) => {
			let a = arm(quote!(#name), ns, &s.fields);
			quote!(match self { #a })
		},
		Data::Enum(e) if e.variants.is_empty() => quote!(match *self {}),
		Data::Enum(e) => {
			let a = e.variants.iter().map(|v| {
				let vn = &v.ident;
				arm(quote!(#name::#vn), vn.to_string(), &v.fields)
			});
			quote!(match self { #(#a),* })
		},
		_ => quote!(),
	};
	quote!(impl #ig ::core::fmt::Debug for #name #tg #wc { fn fmt(&self, fmt: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { #body } })
}
fn default_impl(i: &DeriveInput) -> TS {
	let name = &i.ident;
	let (ig, tg, wc) = i.generics.split_for_impl();
	let body = match &i.data {
		Data::Struct(s) => {
			let v = construct(&s.fields, s.fields.iter().map(|_| quote!(::core::default::Default::default())).collect());
			quote!(#name #v)
		},
		Data::Enum(e) => {
			let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).expect("default variant");
			let vn = &v.ident;
			let c = construct(&v.fields, v.fields.iter().map(|_| quote!(::core::default::Default::default())).collect());
			quote!(#name::#vn #c)
		},
		_ => quote!(),
	};
	quote!(impl #ig ::core::default::Default for #name #tg #wc { fn default() -> Self { #body } })
}

#[proc_macro_derive(CloneNoBound)]
pub fn d1(i: TokenStream) -> TokenStream {
	clone_impl(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(PartialEqNoBound)]
pub fn d2(i: TokenStream) -> TokenStream {
	partial_eq_impl(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(EqNoBound)]
pub fn d3(i: TokenStream) -> TokenStream {
	let i = parse_macro_input!(i as DeriveInput);
	let name = &i.ident;
	let (ig, tg, wc) = i.generics.split_for_impl();
	quote!(impl #ig ::core::cmp::Eq for #name #tg #wc {}).into()
}
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn d4(i: TokenStream) -> TokenStream {
	debug_impl(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(DebugNoBound)]
pub fn d5(i: TokenStream) -> TokenStream {
	debug_impl(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn d6(i: TokenStream) -> TokenStream {
	default_impl(&parse_macro_input!(i as DeriveInput)).into()
}
/// `RuntimeDebug`: as `Debug` with std (bounds on the type parameters).
#[proc_macro_derive(RuntimeDebug)]
pub fn d7(i: TokenStream) -> TokenStream {
	let mut i = parse_macro_input!(i as DeriveInput);
	for p in i.generics.type_params_mut() {
		p.bounds.push(parse_quote!(::core::fmt::Debug));
	}
	debug_impl(&i).into()
}

#[proc_macro_attribute]
pub fn pallet(_a: TokenStream, item: TokenStream) -> TokenStream {
	let m = parse_macro_input!(item as ItemMod);
	pallet::expand(m).into()
}
#[proc_macro]
pub fn construct_runtime(item: TokenStream) -> TokenStream {
	runtime::expand(item.into()).into()
}
/// `#[storage_alias] type X<T: Config> = StorageMap<Pallet<T>, ...>`
#[proc_macro_attribute]
pub fn storage_alias(_a: TokenStream, item: TokenStream) -> TokenStream {
	let t = parse_macro_input!(item as ItemType);
	pallet::storage_alias(t).into()
}
/// `#[transactional]`
#[proc_macro_attribute]
pub fn transactional(_a: TokenStream, item: TokenStream) -> TokenStream {
	let mut f = parse_macro_input!(item as ItemFn);
	let b = &f.block;
	let ret = match &f.sig.output {
		ReturnType::Type(_, t) => quote!(#t),
		_ => quote!(()),
	};
	f.block = parse_quote!({ ::frame_support::storage::with_storage_layer(|| -> #ret #b) });
	f.to_token_stream().into()
}
#[proc_macro_attribute]
pub fn noop_attr(_a: TokenStream, item: TokenStream) -> TokenStream {
	item
}

struct PtItem {
	attrs: Vec<Attribute>,
	vis: Visibility,
	kind: u8, // 0 plain, 1 const, 2 static, 3 storage
	name: Ident,
	generics: Generics,
	ty: Type,
	val: Expr,
}
struct PtItems(Vec<PtItem>);
impl syn::parse::Parse for PtItems {
	fn parse(input: syn::parse::ParseStream) -> Result<Self> {
		let mut v = vec![];
		while !input.is_empty() {
			let attrs = input.call(Attribute::parse_outer)?;
			let vis: Visibility = input.parse()?;
			let kind = if input.peek(Token![const]) {
				input.parse::<Token![const]>()?;
				1
			} else if input.peek(Token![static]) {
				input.parse::<Token![static]>()?;
				2
			} else {
				let f = input.fork();
				let i: Ident = f.parse()?;
				if i == "storage" && f.peek(Ident) {
					input.parse::<Ident>()?;
					3
				} else {
					0
				}
			};
			let name: Ident = input.parse()?;
			let generics: Generics = input.parse()?;
			input.parse::<Token![:]>()?;
			let ty: Type = input.parse()?;
			input.parse::<Token![=]>()?;
			let val: Expr = input.parse()?;
			if input.peek(Token![;]) {
				input.parse::<Token![;]>()?;
			}
			v.push(PtItem { attrs, vis, kind, name, generics, ty, val });
		}
		Ok(PtItems(v))
	}
}
fn screaming(s: &str) -> String {
	let mut o = String::new();
	let cs: Vec<char> = s.chars().collect();
	for (i, c) in cs.iter().enumerate() {
		if c.is_uppercase() && i > 0 && !(cs[i - 1].is_uppercase() && !cs.get(i + 1).map_or(false, |n| n.is_lowercase())) {
			o.push('_');
		}
		o.extend(c.to_uppercase());
	}
	o
}
#[proc_macro]
pub fn parameter_types(item: TokenStream) -> TokenStream {
	let items = parse_macro_input!(item as PtItems);
	let mut out = TS::new();
	for PtItem { attrs, vis, kind, name, generics, ty, val } in items.0 {
		let params = params_of(&generics);
		let (ig, tg, wc) = generics.split_for_impl();
		let st = if params.is_empty() { quote!(;) } else { quote!((::core::marker::PhantomData<(#(#params,)*)>);) };
		out.extend(quote!(#(#attrs)* #vis struct #name #generics #st));
		let mut gi = generics.clone();
		gi.params.push(parse_quote!(__I: ::core::convert::From<#ty>));
		let (gig, _, _) = gi.split_for_impl();
		let get_body = match kind {
			2 => {
				let tl = Ident::new(&screaming(&name.to_string()), name.span());
				out.extend(quote! {
					::std::thread_local! { pub static #tl: ::core::cell::RefCell<#ty> = ::core::cell::RefCell::new(#val); }
					impl #name {
						pub fn set(t: #ty) { #tl.with(|v| *v.borrow_mut() = t); }
						pub fn mutate<R, F: FnOnce(&mut #ty) -> R>(f: F) -> R { let mut c = Self::get(); let r = f(&mut c); Self::set(c); r }
						pub fn take() -> #ty { let c = Self::get(); Self::set(#val); c }
					}
				});
				quote!(#tl.with(|v| v.borrow().clone()))
			},
			_ => quote!(#val),
		};
		let konst = if kind == 1 { quote!(const) } else { quote!() };
		out.extend(quote! {
			impl #ig #name #tg #wc { pub #konst fn get() -> #ty { #get_body } }
			impl #gig ::frame_support::traits::Get<__I> for #name #tg #wc { fn get() -> __I { <__I as ::core::convert::From<#ty>>::from(Self::get()) } }
			impl #ig ::frame_support::traits::TypedGet for #name #tg #wc { type Type = #ty; fn get() -> #ty { Self::get() } }
		});
	}
	out.into()
}

/// `decl_runtime_apis! { #[api_version(n)] pub trait X<..> { fn f(a: A) -> R; } }`: the client side trait.
struct Traits(Vec<ItemTrait>);
impl syn::parse::Parse for Traits {
	fn parse(input: syn::parse::ParseStream) -> Result<Self> {
		let mut v = vec![];
		while !input.is_empty() {
			v.push(input.parse()?);
		}
		Ok(Traits(v))
	}
}
#[proc_macro]
pub fn decl_runtime_apis(item: TokenStream) -> TokenStream {
	let mut out = TS::new();
	for mut t in parse_macro_input!(item as Traits).0 {
		t.attrs.clear();
		t.generics.params.insert(0, parse_quote!(Block: ::sp_runtime::traits::Block));
		for i in t.items.iter_mut() {
			if let TraitItem::Fn(f) = i {
				f.attrs.clear();
				let ret: Type = match &f.sig.output {
					ReturnType::Type(_, t) => (**t).clone(),
					_ => parse_quote!(()),
				};
				f.sig.inputs.insert(0, parse_quote!(__at: <Block as ::sp_runtime::traits::Block>::Hash));
				f.sig.inputs.insert(0, parse_quote!(&self));
				f.sig.output = parse_quote!(-> ::core::result::Result<#ret, ::sp_api::ApiError>);
			}
		}
		out.extend(t.to_token_stream());
	}
	out.into()
}
/// `#[rpc(client, server)] pub trait X`: the server side trait.
#[proc_macro_attribute]
pub fn rpc(_a: TokenStream, item: TokenStream) -> TokenStream {
	let mut t = parse_macro_input!(item as ItemTrait);
	t.attrs.clear();
	t.ident = Ident::new(&format!("{}Server", t.ident), t.ident.span());
	for i in t.items.iter_mut() {
		if let TraitItem::Fn(f) = i {
			f.attrs.clear();
		}
	}
	t.to_token_stream().into()
}

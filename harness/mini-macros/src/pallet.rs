use super::*;
use syn::spanned::Spanned;

fn pallet_attr(attrs: &[Attribute]) -> Vec<(String, Attribute)> {
	attrs
		.iter()
		.filter(|a| a.path().segments.len() >= 2 && a.path().segments[0].ident == "pallet")
		.map(|a| (a.path().segments[1].ident.to_string(), a.clone()))
		.collect()
}
fn strip(attrs: &mut Vec<Attribute>) {
	attrs.retain(|a| !(a.path().segments.len() >= 2 && a.path().segments[0].ident == "pallet"));
}
fn has(a: &[(String, Attribute)], n: &str) -> bool {
	a.iter().any(|x| x.0 == n)
}
fn get<'a>(a: &'a [(String, Attribute)], n: &str) -> Option<&'a Attribute> {
	a.iter().find(|x| x.0 == n).map(|x| &x.1)
}

/// cfg attributes of an item
fn cfgs(attrs: &[Attribute]) -> Vec<Attribute> {
	attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect()
}

fn alias_parts(t: &ItemType) -> (PathSegment, Vec<Type>) {
	if let Type::Path(p) = &*t.ty {
		let seg = p.path.segments.last().unwrap().clone();
		let args = match &seg.arguments {
			PathArguments::AngleBracketed(a) => a
				.args
				.iter()
				.filter_map(|x| match x {
					GenericArgument::Type(t) => Some(t.clone()),
					GenericArgument::AssocType(a) => Some(a.ty.clone()),
					_ => None,
				})
				.collect(),
			_ => vec![],
		};
		(seg, args)
	} else {
		panic!("storage type must be a path")
	}
}

fn is_value_query(q: Option<&Type>) -> bool {
	match q {
		Some(Type::Path(p)) => p.path.segments.last().map(|s| s.ident == "ValueQuery").unwrap_or(false),
		_ => false,
	}
}

pub fn storage_alias(mut t: ItemType) -> TS {
	let (seg, args) = alias_parts(&t);
	let name = t.ident.to_string();
	let vis = &t.vis;
	let prefix = format_ident!("__Alias_{}", t.ident);
	let first = args[0].clone();
	let rest = &args[1..];
	let ident = seg.ident.clone();
	let (ig, tg, _) = t.generics.split_for_impl();
	let params: Vec<Ident> = params_of(&t.generics);
	let _ = tg;
	let phantom = quote!(::core::marker::PhantomData<(#(#params,)*)>);
	let out = quote! {
		#[allow(non_camel_case_types)]
		#vis struct #prefix<#(#params),*>(#phantom);
		impl #ig ::frame_support::traits::StorageInstance for #prefix<#(#params),*> {
			fn pallet_prefix() -> &'static str { <#first as ::frame_support::traits::AliasPrefix>::alias_prefix() }
			const STORAGE_PREFIX: &'static str = #name;
		}
	};
	t.ty = parse_quote!(::frame_support::storage::types::#ident<#prefix<#(#params),*>, #(#rest),*>);
	t.attrs.retain(|a| a.path().is_ident("doc") || a.path().is_ident("cfg"));
	quote!(#out #[allow(type_alias_bounds)] #t)
}

pub fn expand(mut m: ItemMod) -> TS {
	let items = m.content.take().expect("inline module").1;
	let mut out: Vec<TS> = vec![];
	let mut saw_hooks = false;
	let mut saw_event = false;
	let mut saw_call = false;
	let mut saw_error = false;
	let mut saw_freeze = false;
	let mut saw_unsigned = false;
	let mut has_event_type = false;
	let mut version: Option<TS> = None;
	let mut calls: Option<ItemImpl> = None;
	let mut deposit: Option<TS> = None;
	for it in items {
		match it {
			Item::Trait(mut t) => {
				let pa = pallet_attr(&t.attrs);
				if has(&pa, "config") {
					strip(&mut t.attrs);
					for ti in &mut t.items {
						if let TraitItem::Type(tt) = ti {
							if tt.ident == "RuntimeEvent" {
								has_event_type = true;
								// IsType is stated by the source; nothing to add
							}
							strip(&mut tt.attrs);
						}
						if let TraitItem::Const(tt) = ti {
							strip(&mut tt.attrs);
						}
					}
				}
				out.push(t.to_token_stream());
			},
			Item::Struct(mut s) => {
				let pa = pallet_attr(&s.attrs);
				if has(&pa, "pallet") {
					if let Some(a) = get(&pa, "storage_version") {
						let e: Expr = a.parse_args().unwrap();
						version = Some(quote!(#e));
					}
					let vis = &s.vis;
					out.push(quote! {
						#[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound)]
						#vis struct Pallet<T>(::core::marker::PhantomData<T>);
					});
				} else if has(&pa, "genesis_config") {
					strip(&mut s.attrs);
					for f in s.fields.iter_mut() {
						f.attrs.retain(|a| !a.path().is_ident("serde"));
					}
					out.push(s.to_token_stream());
				} else {
					strip(&mut s.attrs);
					out.push(s.to_token_stream());
				}
			},
			Item::Enum(mut e) => {
				let pa = pallet_attr(&e.attrs);
				if has(&pa, "event") {
					saw_event = true;
					if let Some(a) = get(&pa, "generate_deposit") {
						let ts: TS = a.meta.require_list().unwrap().tokens.clone();
						deposit = Some(ts);
					}
					strip(&mut e.attrs);
					let gen = !e.generics.params.is_empty();
					if gen {
						e.variants.push(parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<T>, ::frame_support::Never)));
					}
					for v in &mut e.variants {
						strip(&mut v.attrs);
						for f in v.fields.iter_mut() {
							strip(&mut f.attrs);
						}
					}
					e.attrs.push(parse_quote!(#[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound, ::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode)]));
					out.push(e.to_token_stream());
				} else if has(&pa, "error") {
					saw_error = true;
					strip(&mut e.attrs);
					let names: Vec<Ident> = e.variants.iter().map(|v| v.ident.clone()).collect();
					let pats: Vec<TS> = e
						.variants
						.iter()
						.map(|v| match v.fields {
							Fields::Unit => quote!(),
							Fields::Unnamed(_) => quote!((..)),
							Fields::Named(_) => quote!({ .. }),
						})
						.collect();
					let strs: Vec<String> = names.iter().map(|n| n.to_string()).collect();
					let idx: Vec<u8> = (0..names.len() as u8).collect();
					e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(::core::marker::PhantomData<T>, ::frame_support::Never)));
					out.push(e.to_token_stream());
					out.push(quote! {
						impl<T> Error<T> {
							/// The name of the error
							pub fn as_str(&self) -> &'static str { match self { #(Error::#names #pats => #strs,)* _ => unreachable!() } }
							/// The index of the error
							pub fn as_index(&self) -> u8 { match self { #(Error::#names #pats => #idx,)* _ => unreachable!() } }
						}
						impl<T> ::core::fmt::Debug for Error<T> {
							fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.as_str()) }
						}
						impl<T> From<Error<T>> for &'static str { fn from(e: Error<T>) -> &'static str { e.as_str() } }
						impl<T: Config> From<Error<T>> for ::frame_support::__private::DispatchError {
							fn from(e: Error<T>) -> Self {
								let index = <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Pallet<T>>().unwrap_or(255) as u8;
								::frame_support::__private::DispatchError::Module(::frame_support::__private::ModuleError {
									index, error: [e.as_index(), 0, 0, 0], message: Some(e.as_str()),
								})
							}
						}
					});
				} else if has(&pa, "composite_enum") {
					saw_freeze = true;
					strip(&mut e.attrs);
					e.attrs.push(parse_quote!(#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, ::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode, ::frame_support::__private::codec::MaxEncodedLen, ::frame_support::__private::scale_info::TypeInfo, ::frame_support::__private::RuntimeDebug)]));
					out.push(e.to_token_stream());
				} else {
					out.push(e.to_token_stream());
				}
			},
			Item::Type(mut t) => {
				let pa = pallet_attr(&t.attrs);
				if has(&pa, "storage") {
					let cf = cfgs(&t.attrs);
					let getter: Option<Ident> = get(&pa, "getter").map(|a| {
						let ts: TS = a.meta.require_list().unwrap().tokens.clone();
						let f: Ident = syn::parse2::<GetterIdent>(ts).unwrap().0;
						f
					});
					let mut sname = t.ident.to_string();
					if let Some(a) = get(&pa, "storage_prefix") {
						if let Meta::NameValue(nv) = &a.meta {
							if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
								sname = s.value();
							}
						}
					}
					let (seg, mut args) = alias_parts(&t);
					let ident = seg.ident.clone();
					let prefix = format_ident!("_GeneratedPrefixForStorage{}", t.ident);
					let named = matches!(&seg.arguments, PathArguments::AngleBracketed(a) if a.args.iter().any(|x| matches!(x, GenericArgument::AssocType(_))));
					if named {
						// reorder the named arguments
						let order: &[&str] = match ident.to_string().as_str() {
							"StorageValue" => &["Value", "QueryKind", "OnEmpty"],
							"StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
							"StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"],
							_ => &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
						};
						if let PathArguments::AngleBracketed(a) = &seg.arguments {
							let mut v: Vec<Type> = vec![parse_quote!(_)];
							for n in order {
								for x in &a.args {
									if let GenericArgument::AssocType(at) = x {
										if at.ident == n {
											v.push(at.ty.clone());
										}
									}
								}
							}
							args = v;
						}
					}
					let rest: Vec<Type> = args[1..].to_vec();
					let vis = t.vis.clone();
					let full: TS = quote!(#ident<#prefix<T>, #(#rest),*>);
					out.push(quote! {
						#(#cf)*
						#[doc(hidden)]
						#vis struct #prefix<T>(::core::marker::PhantomData<T>);
						#(#cf)*
						impl<T: Config> ::frame_support::traits::StorageInstance for #prefix<T> {
							fn pallet_prefix() -> &'static str {
								<<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Pallet<T>>().expect("pallet in runtime")
							}
							const STORAGE_PREFIX: &'static str = #sname;
						}
					});
					strip(&mut t.attrs);
					t.ty = parse_quote!(#full);
					out.push(quote!(#[allow(type_alias_bounds)] #t));
					if let Some(g) = getter {
						let tn = &t.ident;
						let f = match ident.to_string().as_str() {
							"StorageValue" => {
								let v = &rest[0];
								let ret = if is_value_query(rest.get(1)) { quote!(#v) } else { quote!(Option<#v>) };
								quote!(pub fn #g() -> #ret { <#tn<T>>::get() })
							},
							"StorageMap" | "CountedStorageMap" => {
								let k = &rest[1];
								let v = &rest[2];
								let ret = if is_value_query(rest.get(3)) { quote!(#v) } else { quote!(Option<#v>) };
								quote!(pub fn #g<KArg: ::frame_support::__private::codec::EncodeLike<#k>>(k: KArg) -> #ret { <#tn<T>>::get(k) })
							},
							"StorageDoubleMap" => {
								let k1 = &rest[1];
								let k2 = &rest[3];
								let v = &rest[4];
								let ret = if is_value_query(rest.get(5)) { quote!(#v) } else { quote!(Option<#v>) };
								quote!(pub fn #g<KArg1: ::frame_support::__private::codec::EncodeLike<#k1>, KArg2: ::frame_support::__private::codec::EncodeLike<#k2>>(k1: KArg1, k2: KArg2) -> #ret { <#tn<T>>::get(k1, k2) })
							},
							_ => {
								let k = &rest[0];
								let v = &rest[1];
								let ret = if is_value_query(rest.get(2)) { quote!(#v) } else { quote!(Option<#v>) };
								quote!(pub fn #g(key: <#k as ::frame_support::storage::types::KeyGenerator>::Key) -> #ret { <#tn<T>>::get(key) })
							},
						};
						out.push(quote!(#(#cf)* #[allow(missing_docs)] impl<T: Config> Pallet<T> { #f }));
					}
				} else {
					strip(&mut t.attrs);
					out.push(t.to_token_stream());
				}
			},
			Item::Fn(mut f) => {
				let pa = pallet_attr(&f.attrs);
				if has(&pa, "type_value") {
					strip(&mut f.attrs);
					let name = &f.sig.ident;
					let b = &f.block;
					let ret = match &f.sig.output {
						ReturnType::Type(_, t) => quote!(#t),
						_ => quote!(()),
					};
					let vis = &f.vis;
					if f.sig.generics.params.is_empty() {
						out.push(quote!(#[allow(missing_docs)] #vis struct #name; impl ::frame_support::traits::Get<#ret> for #name { fn get() -> #ret #b }));
					} else {
						out.push(quote!(#[allow(missing_docs)] #vis struct #name<T>(::core::marker::PhantomData<T>); impl<T: Config> ::frame_support::traits::Get<#ret> for #name<T> { fn get() -> #ret #b }));
					}
				} else {
					out.push(f.to_token_stream());
				}
			},
			Item::Impl(mut i) => {
				let pa = pallet_attr(&i.attrs);
				strip(&mut i.attrs);
				if has(&pa, "call") {
					saw_call = true;
					calls = Some(i);
				} else if has(&pa, "hooks") {
					saw_hooks = true;
					out.push(i.to_token_stream());
				} else if has(&pa, "validate_unsigned") {
					saw_unsigned = true;
					let _ = saw_unsigned;
					out.push(i.to_token_stream());
				} else {
					for x in &mut i.items {
						match x {
							ImplItem::Const(c) => strip(&mut c.attrs),
							ImplItem::Fn(c) => strip(&mut c.attrs),
							_ => {},
						}
					}
					out.push(i.to_token_stream());
				}
			},
			other => out.push(other.to_token_stream()),
		}
	}
	// calls
	if let Some(mut im) = calls {
		let mut variants = vec![];
		let mut infos = vec![];
		let mut disp = vec![];
		let mut ctor = vec![];
		let mut names = vec![];
		for (n, x) in im.items.iter_mut().enumerate() {
			if let ImplItem::Fn(f) = x {
				let pa = pallet_attr(&f.attrs);
				strip(&mut f.attrs);
				let idx: u8 = get(&pa, "call_index").map(|a| a.parse_args::<LitInt>().unwrap().base10_parse().unwrap()).unwrap_or(n as u8);
				let weight: TS = get(&pa, "weight").map(|a| a.meta.require_list().unwrap().tokens.clone()).unwrap_or(quote!(::frame_support::weights::Weight::zero()));
				let name = f.sig.ident.clone();
				let mut fields = vec![];
				let mut argn = vec![];
				let mut argt = vec![];
				for a in f.sig.inputs.iter_mut().skip(1) {
					if let FnArg::Typed(p) = a {
						let compact = has(&pallet_attr(&p.attrs), "compact");
						strip(&mut p.attrs);
						let id = match &*p.pat {
							Pat::Ident(i) => i.ident.clone(),
							_ => format_ident!("_arg"),
						};
						let ty = &p.ty;
						let at = if compact { quote!(#[codec(compact)]) } else { quote!() };
						fields.push(quote!(#[allow(missing_docs)] #at #id: #ty));
						argn.push(id);
						argt.push(quote!(#ty));
					}
				}
				variants.push(quote!(#[codec(index = #idx)] #[allow(missing_docs)] #name { #(#fields),* }));
				infos.push(quote! {
					#[allow(unused_variables, clippy::all)]
					Call::#name { #(ref #argn),* } => {
						let __w = #weight;
						::frame_support::dispatch::DispatchInfo {
							weight: ::frame_support::dispatch::WeighData::weigh(&__w),
							class: ::frame_support::dispatch::ClassifyDispatch::classify(&__w),
							pays_fee: ::frame_support::dispatch::PaysFee::pays(&__w),
						}
					}
				});
				disp.push(quote! {
					Call::#name { #(#argn),* } => <Pallet<T>>::#name(origin, #(#argn),*).map(Into::into).map_err(Into::into)
				});
				let cn = format_ident!("new_call_variant_{}", name);
				ctor.push(quote!(#[allow(missing_docs)] pub fn #cn(#(#argn: #argt),*) -> Self { Call::#name { #(#argn),* } }));
				names.push((name.clone(), name.to_string()));
				let b = &f.block;
				let ret = match &f.sig.output {
					ReturnType::Type(_, t) => quote!(#t),
					_ => quote!(()),
				};
				let _ = b.span();
				f.block = parse_quote!({ ::frame_support::storage::with_storage_layer(move || -> #ret #b) });
			}
		}
		let nn: Vec<_> = names.iter().map(|x| &x.0).collect();
		let ns: Vec<_> = names.iter().map(|x| &x.1).collect();
		out.push(quote! {
			#[allow(non_camel_case_types, missing_docs)]
			#[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound, ::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode)]
			pub enum Call<T: Config> {
				#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<T>, ::frame_support::Never),
				#(#variants,)*
			}
			#[allow(non_snake_case)]
			impl<T: Config> Call<T> { #(#ctor)* 
				/// the name of the call
				pub fn __name(&self) -> &'static str { match self { #(Call::#nn { .. } => #ns,)* _ => "" } }
			}
			impl<T: Config> ::frame_support::dispatch::GetDispatchInfo for Call<T> {
				fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo {
					match *self { #(#infos,)* Call::__Ignore(..) => unreachable!() }
				}
			}
			impl<T: Config> ::frame_support::traits::UnfilteredDispatchable for Call<T> {
				type RuntimeOrigin = ::frame_system::pallet_prelude::OriginFor<T>;
				fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
					match self { #(#disp,)* Call::__Ignore(..) => { let _ = origin; unreachable!() } }
				}
			}
		});
		out.push(im.to_token_stream());
	} else {
		out.push(quote! {
			#[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound, ::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode)]
			/// no calls
			pub enum Call<T: Config> { #[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<T>, ::frame_support::Never) }
			impl<T: Config> ::frame_support::dispatch::GetDispatchInfo for Call<T> {
				fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { unreachable!() }
			}
			impl<T: Config> ::frame_support::traits::UnfilteredDispatchable for Call<T> {
				type RuntimeOrigin = ::frame_system::pallet_prelude::OriginFor<T>;
				fn dispatch_bypass_filter(self, _origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo { unreachable!() }
			}
		});
	}
	let _ = (saw_call, saw_error);
	if !saw_hooks {
		out.push(quote!(impl<T: Config> ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<T> {}));
	}
	if !saw_event {
		out.push(quote!(
			#[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound)]
			/// no events
			pub enum Event<T: Config> { #[doc(hidden)] __Ignore(::core::marker::PhantomData<T>, ::frame_support::Never) }));
	}
	if !saw_freeze {
		out.push(quote!(
			#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug)]
			#[doc(hidden)]
			pub enum FreezeReason {}
			impl ::frame_support::__private::codec::Encode for FreezeReason { fn encode_to<O: ::frame_support::__private::codec::Output + ?Sized>(&self, _: &mut O) {} }
			impl ::frame_support::__private::codec::EncodeLike for FreezeReason {}
			impl ::frame_support::__private::codec::Decode for FreezeReason { fn decode<I: ::frame_support::__private::codec::Input>(_: &mut I) -> Result<Self, ::frame_support::__private::codec::Error> { Err("none".into()) } }
		));
	}
	if let (Some(d), true) = (deposit, has_event_type) {
		// `pub (super) fn deposit_event` or `fn deposit_event`
		out.push(quote! {
			impl<T: Config> Pallet<T> {
				#[allow(missing_docs)]
				#d(event: Event<T>) {
					let event = <<T as Config>::RuntimeEvent as From<Event<T>>>::from(event);
					let event = <<T as Config>::RuntimeEvent as Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
					<::frame_system::Pallet<T>>::deposit_event(event)
				}
			}
		});
	}
	let ver = version.unwrap_or(quote!(::frame_support::traits::StorageVersion::new(0)));
	out.push(quote! {
		impl<T: Config> ::frame_support::traits::GetStorageVersion for Pallet<T> {
			type CurrentStorageVersion = ::frame_support::traits::StorageVersion;
			type InCodeStorageVersion = ::frame_support::traits::StorageVersion;
			fn current_storage_version() -> ::frame_support::traits::StorageVersion { #ver }
			fn in_code_storage_version() -> ::frame_support::traits::StorageVersion { #ver }
			fn on_chain_storage_version() -> ::frame_support::traits::StorageVersion { ::frame_support::traits::StorageVersion::get::<Self>() }
		}
		impl<T: Config> ::frame_support::traits::PalletInfoAccess for Pallet<T> {
			fn index() -> usize { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Self>().expect("in runtime") }
			fn name() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Self>().expect("in runtime") }
		}
		impl<T: Config> ::frame_support::traits::AliasPrefix for Pallet<T> {
			fn alias_prefix() -> &'static str { <Self as ::frame_support::traits::PalletInfoAccess>::name() }
		}
	});
	let vis = &m.vis;
	let attrs = &m.attrs;
	let id = &m.ident;
	quote!(#(#attrs)* #vis mod #id { #(#out)* })
}

struct GetterIdent(Ident);
impl syn::parse::Parse for GetterIdent {
	fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
		i.parse::<Token![fn]>()?;
		Ok(GetterIdent(i.parse()?))
	}
}

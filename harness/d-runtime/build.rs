//! Turns the runtime's source into two modules (mainnet and testnet) over the stand-in SDK.
//! Everything is kept except what needs SDK parts that do not exist here (see the lists).
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::HashSet;
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit_mut::VisitMut;
use syn::*;

const SRC: &str = "/repo/runtime/frequency/src/lib.rs";
const DROP_MACROS: &[&str] = &["include", "impl_opaque_keys", "register_validate_block"];
const DROP_TYPES: &[&str] = &["SignedBlock", "BlockId", "Block", "UncheckedExtrinsic", "Executive", "ConsensusHook"];
const DROP_FNS: &[&str] = &["native_version", "wasm_binary_unwrap"];
const DROP_USES: &[&str] = &[
	"impl_runtime_apis", "OpaqueMetadata", "create_runtime_str", "impl_opaque_keys", "NativeVersion", "RuntimeVersion", "build_config", "create_default_config",
	"RpcEvent", "ApplyExtrinsicResult", "HoldConsideration", "LinearStoragePrice", "PayFromAccount", "UnityAssetBalanceConversion", "EqualPrivilegeOnly", "KeyTypeId",
	"TryStateSelect", "UpgradeCheckSelect", "BuildStorage",
];
const STUBBED: &[&str] = &[
	"pallet_timestamp", "parachain_info", "pallet_sudo", "pallet_preimage", "pallet_democracy", "pallet_scheduler", "pallet_treasury", "pallet_authorship",
	"pallet_collator_selection", "pallet_session", "pallet_aura", "cumulus_pallet_aura_ext", "cumulus_pallet_parachain_system", "pallet_multisig",
];
const APIS: &[&str] = &[
	"CapacityTransactionPaymentRuntimeApi", "MessagesRuntimeApi", "SchemasRuntimeApi", "MsaRuntimeApi", "StatefulStorageRuntimeApi", "HandlesRuntimeApi", "AccountNonceApi",
];

struct Cx {
	on: HashSet<&'static str>,
}
impl Cx {
	fn eval(&self, m: &Meta) -> bool {
		match m {
			Meta::Path(_) => false,
			Meta::NameValue(nv) => {
				if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
					nv.path.is_ident("feature") && self.on.contains(s.value().as_str())
				} else {
					false
				}
			},
			Meta::List(l) => {
				let v: Vec<bool> = Punctuated::<Meta, Token![,]>::parse_terminated.parse2(l.tokens.clone()).unwrap().iter().map(|m| self.eval(m)).collect();
				if l.path.is_ident("any") {
					v.iter().any(|b| *b)
				} else if l.path.is_ident("all") {
					v.iter().all(|b| *b)
				} else {
					!v[0]
				}
			},
		}
	}
	fn holds(&self, attrs: &[Attribute]) -> bool {
		attrs.iter().filter(|a| a.path().is_ident("cfg")).all(|a| self.eval(&a.parse_args::<Meta>().unwrap()))
	}
	/// Evaluates `#[cfg(..)] item ,` inside the tokens of a macro and drops what is off.
	fn tokens(&self, ts: TokenStream, sep: char) -> Vec<Vec<TokenTree>> {
		let mut out: Vec<Vec<TokenTree>> = vec![vec![]];
		for t in ts {
			let end = matches!(&t, TokenTree::Punct(p) if p.as_char() == sep);
			if !end {
				out.last_mut().unwrap().push(t)
			} else {
				out.push(vec![])
			}
		}
		let mut kept = vec![];
		for mut e in out {
			let mut keep = true;
			while e.len() >= 2 && matches!(&e[0], TokenTree::Punct(p) if p.as_char() == '#') {
				if let TokenTree::Group(g) = &e[1] {
					let a: Vec<Attribute> = Attribute::parse_outer.parse2({
						let g = g.clone();
						quote!(# #g)
					}).unwrap();
					keep &= self.holds(&a);
				}
				e.drain(0..2);
			}
			if keep && !e.is_empty() {
				kept.push(e)
			}
		}
		kept
	}
}
impl VisitMut for Cx {
	fn visit_attribute_mut(&mut self, a: &mut Attribute) {
		if a.path().is_ident("cfg") {
			let b = self.eval(&a.parse_args::<Meta>().unwrap());
			*a = if b { parse_quote!(#[cfg(all())]) } else { parse_quote!(#[cfg(any())]) };
		} else if a.path().is_ident("cfg_attr") {
			*a = parse_quote!(#[cfg(all())]);
		}
	}
	fn visit_macro_mut(&mut self, m: &mut Macro) {
		if m.path.is_ident("cfg") {
			let b = self.eval(&parse2::<Meta>(m.tokens.clone()).unwrap());
			m.tokens = if b { quote!(all()) } else { quote!(any()) };
		}
	}
}

fn uses(t: &UseTree) -> Option<UseTree> {
	match t {
		UseTree::Path(p) => {
			if ["sp_version", "sp_api", "system_runtime_api"].contains(&p.ident.to_string().as_str()) {
				return None
			}
			let inner = uses(&p.tree)?;
			let mut p = p.clone();
			p.tree = Box::new(inner);
			Some(UseTree::Path(p))
		},
		UseTree::Name(n) => (!DROP_USES.contains(&n.ident.to_string().as_str())).then(|| t.clone()),
		UseTree::Rename(_) | UseTree::Glob(_) => Some(t.clone()),
		UseTree::Group(g) => {
			let items: Punctuated<UseTree, Token![,]> = g.items.iter().filter_map(uses).collect();
			(!items.is_empty()).then(|| UseTree::Group(UseGroup { brace_token: g.brace_token, items }))
		},
	}
}
fn last(p: &Path) -> String {
	p.segments.last().unwrap().ident.to_string()
}
fn first(p: &Path) -> String {
	p.segments.first().unwrap().ident.to_string()
}
fn assoc(i: &mut ItemImpl, keep: impl Fn(&str) -> bool) {
	i.items.retain(|x| match x {
		ImplItem::Type(t) => keep(&t.ident.to_string()),
		_ => true,
	})
}
fn flat(ts: TokenStream) -> String {
	ts.to_string().replace(' ', "")
}

fn module(on: &[&'static str]) -> String {
	let mut cx = Cx { on: on.iter().cloned().collect() };
	let file = parse_file(&std::fs::read_to_string(SRC).unwrap()).unwrap();
	let mut out = TokenStream::new();
	for mut it in file.items {
		let attrs = match &it {
			Item::Use(x) => &x.attrs,
			Item::Macro(x) => &x.attrs,
			Item::Impl(x) => &x.attrs,
			Item::Mod(x) => &x.attrs,
			Item::Type(x) => &x.attrs,
			Item::Const(x) => &x.attrs,
			Item::Static(x) => &x.attrs,
			Item::Fn(x) => &x.attrs,
			Item::ExternCrate(x) => &x.attrs,
			Item::Struct(x) => &x.attrs,
			Item::Enum(x) => &x.attrs,
			Item::Trait(x) => &x.attrs,
			_ => panic!("unexpected item in the runtime"),
		};
		if !cx.holds(attrs) {
			continue
		}
		match &mut it {
			Item::Use(u) => match uses(&u.tree) {
				Some(t) => u.tree = t,
				None => continue,
			},
			Item::Mod(m) if ["opaque", "benches", "tests"].contains(&m.ident.to_string().as_str()) => continue,
			Item::Type(t) if DROP_TYPES.contains(&t.ident.to_string().as_str()) => continue,
			Item::Const(c) if c.ident == "VERSION" => continue,
			Item::Fn(f) if DROP_FNS.contains(&f.sig.ident.to_string().as_str()) => continue,
			Item::Macro(m) => {
				let name = last(&m.mac.path);
				if DROP_MACROS.contains(&name.as_str()) {
					continue
				}
				if name == "parameter_types" {
					let parts: Vec<TokenStream> = cx
						.tokens(m.mac.tokens.clone(), ';')
						.into_iter()
						.map(|p| p.into_iter().collect::<TokenStream>())
						.filter(|p| {
							let s = p.to_string();
							!["Version :", "PreimageHoldReason :", "TreasuryAccount :"].iter().any(|n| s.contains(n))
						})
						.collect();
					m.mac.tokens = quote!(#(#parts;)*);
				} else if name == "construct_runtime" {
					let mut all: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
					for t in all.iter_mut() {
						if let TokenTree::Group(g) = t {
							if g.delimiter() == Delimiter::Brace {
								let entries: Vec<TokenStream> = cx
									.tokens(g.stream(), ',')
									.into_iter()
									.map(|e| {
										let ts: TokenStream = e.into_iter().collect();
										let s = ts.to_string();
										if flat(ts.clone()).contains("pallet_collective::<Instance") {
											let n = if flat(ts.clone()).contains("<Instance1>") { "council" } else { "technical_committee" };
											let name = s.split(':').next().unwrap().trim().to_string();
											let idx = s.rsplit('=').next().unwrap().trim().to_string();
											return format!("{name}: {n}::{{Pallet}} = {idx}").parse().unwrap()
										}
										ts
									})
									.collect();
								*t = TokenTree::Group(Group::new(Delimiter::Brace, quote!(#(#entries),*)));
							}
						}
					}
					m.mac.tokens = all.into_iter().collect();
				} else if name == "impl_runtime_apis" {
					let parser = |i: syn::parse::ParseStream| {
						let mut v = vec![];
						while !i.is_empty() {
							v.push(i.parse::<ItemImpl>()?);
						}
						Ok(v)
					};
					for mut i in parser.parse2(m.mac.tokens.clone()).unwrap() {
						let api = last(&i.trait_.as_ref().unwrap().1);
						if !cx.holds(&i.attrs) || !APIS.contains(&api.as_str()) {
							continue
						}
						i.trait_ = None;
						let id = quote::format_ident!("{}", api);
						out.extend(quote!(pub struct #id;));
						i.self_ty = Box::new(parse_quote!(#id));
						for x in &mut i.items {
							if let ImplItem::Fn(f) = x {
								f.vis = parse_quote!(pub);
							}
						}
						cx.visit_item_impl_mut(&mut i);
						out.extend(i.to_token_stream());
					}
					continue
				}
			},
			Item::Impl(i) => {
				if let Some((_, mut p, _)) = i.trait_.clone() {
					let p = &mut p;
					if last(p) == "Config" {
						let who = first(p);
						i.items.retain(|x| match x {
							ImplItem::Type(t) => cx.holds(&t.attrs),
							_ => true,
						});
						for x in &mut i.items {
							if let ImplItem::Type(t) = x {
								let v = flat(t.ty.to_token_stream());
								if v.starts_with("weights::") || v.starts_with("pallet_sudo::weights") {
									t.ty = parse_quote!(());
								}
							}
						}
						if who == "frame_system" {
							assoc(i, |n| ["BaseCallFilter", "BlockWeights", "BlockLength", "DbWeight", "MaxConsumers", "AccountId", "RuntimeCall", "Lookup", "Nonce", "Hash", "Hashing", "RuntimeEvent", "RuntimeOrigin", "AccountData", "PalletInfo", "Block", "RuntimeTask"].contains(&n));
							i.items.push(parse_quote!(type BlockHashCount = ConstU32<4096>;));
							i.items.push(parse_quote!(type Version = ();));
							i.items.push(parse_quote!(type OnNewAccount = ();));
							i.items.push(parse_quote!(type OnKilledAccount = ();));
							i.items.push(parse_quote!(type SystemWeightInfo = ();));
							i.items.push(parse_quote!(type SS58Prefix = ();));
							i.items.push(parse_quote!(type OnSetCode = ();));
						} else if who == "pallet_collective" {
							assoc(i, |n| ["RuntimeOrigin", "Proposal", "RuntimeEvent", "SetMembersOrigin"].contains(&n));
							let c = flat(p.to_token_stream());
							*p = if c.contains("Council") || c.contains("Instance1") { parse_quote!(council::Config) } else { parse_quote!(technical_committee::Config) };
						} else if who == "pallet_proxy" {
							assoc(i, |n| ["RuntimeCall", "RuntimeEvent", "ProxyType"].contains(&n));
						} else if STUBBED.contains(&who.as_str()) {
							assoc(i, |n| n.ends_with("Origin") && n != "RuntimeOrigin" && n != "PalletsOrigin");
						}
						i.trait_.as_mut().unwrap().1 = p.clone();
					}
				}
			},
			_ => {},
		}
		cx.visit_item_mut(&mut it);
		out.extend(it.to_token_stream());
	}
	out.to_string()
}
fn main() {
	println!("cargo:rerun-if-changed={SRC}");
	println!("cargo:rerun-if-changed=build.rs");
	let dir = std::env::var("OUT_DIR").unwrap();
	std::fs::write(format!("{dir}/mainnet.rs"), module(&["std", "frequency"])).unwrap();
	std::fs::write(format!("{dir}/testnet.rs"), module(&["std", "frequency-testnet"])).unwrap();
}

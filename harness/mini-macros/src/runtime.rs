use super::*;
use proc_macro2::{Delimiter, TokenTree};

/// construct_runtime!( pub enum Test { Name: path::{...}, Name: path = 3, ... } )
pub fn expand(ts: TS) -> TS {
	let mut name = None;
	let mut body = None;
	let mut it = ts.into_iter().peekable();
	while let Some(t) = it.next() {
		match t {
			TokenTree::Ident(i) if i == "enum" || i == "struct" => {
				if let Some(TokenTree::Ident(n)) = it.next() {
					name = Some(n);
				}
			},
			TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => body = Some(g.stream()),
			_ => {},
		}
	}
	let rt = name.expect("runtime name");
	// split on commas
	let mut entries: Vec<Vec<TokenTree>> = vec![vec![]];
	for t in body.expect("body") {
		match &t {
			TokenTree::Punct(p) if p.as_char() == ',' => entries.push(vec![]),
			_ => entries.last_mut().unwrap().push(t),
		}
	}
	let mut names = vec![];
	let mut paths: Vec<TS> = vec![];
	let mut idxs: Vec<u8> = vec![];
	let mut next = 0u8;
	for e in entries {
		if e.is_empty() {
			continue;
		}
		// drop attributes
		let mut e: Vec<TokenTree> = e;
		while matches!(&e[0], TokenTree::Punct(p) if p.as_char() == '#') {
			e.drain(0..2);
		}
		let n = match &e[0] {
			TokenTree::Ident(i) => i.clone(),
			_ => panic!("pallet name"),
		};
		let mut path: Vec<TokenTree> = vec![];
		let mut k = 2;
		while k < e.len() {
			match &e[k] {
				TokenTree::Group(_) => break,
				TokenTree::Punct(p) if p.as_char() == '=' || p.as_char() == '<' => break,
				TokenTree::Punct(p) if p.as_char() == ':' => {
					// is a group next?
					if matches!(e.get(k + 2), Some(TokenTree::Group(_))) || matches!(e.get(k + 2), Some(TokenTree::Punct(p)) if p.as_char() == '<') {
						break;
					}
					path.push(e[k].clone());
				},
				t => path.push(t.clone()),
			}
			k += 1;
		}
		let mut idx = next;
		for j in k..e.len() {
			if matches!(&e[j], TokenTree::Punct(p) if p.as_char() == '=') {
				if let Some(TokenTree::Literal(l)) = e.get(j + 1) {
					idx = l.to_string().parse().unwrap();
				}
			}
		}
		next = idx + 1;
		names.push(n);
		paths.push(path.into_iter().collect());
		idxs.push(idx);
	}
	let strs: Vec<String> = names.iter().map(|n| n.to_string()).collect();
	let not_system: Vec<usize> = (0..names.len()).filter(|i| names[*i] != "System").collect();
	let sys = (0..names.len()).find(|i| names[*i] == "System").expect("System");
	let sysp = &paths[sys];
	let _ = sysp;
	let cn: Vec<_> = names.iter().collect();
	let cp: Vec<_> = paths.iter().collect();
	let an: Vec<_> = not_system.iter().map(|i| &names[*i]).collect();
	let ap: Vec<_> = not_system.iter().map(|i| &paths[*i]).collect();
	let rev: Vec<_> = cn.iter().rev().collect();
	let _ = (an, rev);
	quote! {
		#[derive(Clone, Copy, PartialEq, Eq, Debug)]
		pub struct #rt;
		#(#[allow(dead_code)] pub type #cn = #cp::Pallet<#rt>;)*
		#[derive(Clone, PartialEq, Eq, Debug)]
		#[allow(clippy::large_enum_variant)]
		pub enum RuntimeEvent { #(#cn(#cp::Event<#rt>)),* }
		#(
			impl From<#cp::Event<#rt>> for RuntimeEvent { fn from(e: #cp::Event<#rt>) -> Self { RuntimeEvent::#cn(e) } }
			impl ::core::convert::TryFrom<RuntimeEvent> for #cp::Event<#rt> { type Error = (); fn try_from(e: RuntimeEvent) -> Result<Self, ()> { #[allow(unreachable_patterns)] match e { RuntimeEvent::#cn(e) => Ok(e), _ => Err(()) } } }
		)*
		#[derive(Clone, PartialEq, Eq, Debug)]
		#[allow(clippy::large_enum_variant)]
		pub enum RuntimeCall { #(#cn(#cp::Call<#rt>)),* }
		impl ::frame_support::__private::codec::Encode for RuntimeCall {
			fn encode_to<O: ::frame_support::__private::codec::Output + ?Sized>(&self, d: &mut O) {
				match self { #(RuntimeCall::#cn(c) => { d.push_byte(#idxs); c.encode_to(d) }),* }
			}
		}
		impl ::frame_support::__private::codec::EncodeLike for RuntimeCall {}
		impl ::frame_support::__private::codec::Decode for RuntimeCall {
			fn decode<I: ::frame_support::__private::codec::Input>(i: &mut I) -> Result<Self, ::frame_support::__private::codec::Error> {
				match i.read_byte()? { #(#idxs => Ok(RuntimeCall::#cn(::frame_support::__private::codec::Decode::decode(i)?)),)* _ => Err("bad call".into()) }
			}
		}
		impl ::frame_support::__private::scale_info::TypeInfo for RuntimeCall { type Identity = Self; fn type_info() -> ::frame_support::__private::scale_info::Type { Default::default() } }
		#(
			impl From<#cp::Call<#rt>> for RuntimeCall { fn from(e: #cp::Call<#rt>) -> Self { RuntimeCall::#cn(e) } }
			impl ::frame_support::traits::IsSubType<#cp::Call<#rt>> for RuntimeCall {
				fn is_sub_type(&self) -> Option<&#cp::Call<#rt>> { #[allow(unreachable_patterns)] match self { RuntimeCall::#cn(c) => Some(c), _ => None } }
			}
		)*
		impl ::frame_support::dispatch::GetDispatchInfo for RuntimeCall {
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { match self { #(RuntimeCall::#cn(c) => c.get_dispatch_info()),* } }
		}
		impl ::frame_support::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, o: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { #(RuntimeCall::#cn(c) => c.dispatch_bypass_filter(o)),* }
			}
		}
		impl ::frame_support::__private::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = RuntimeCall;
			type Info = ::frame_support::dispatch::DispatchInfo;
			type PostInfo = ::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, o: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				if !::frame_support::traits::OriginTrait::filter_call(&o, &self) {
					return Err(::frame_support::__private::call_filtered().into())
				}
				::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, o)
			}
		}
		pub type RuntimeOrigin = ::frame_system::SimpleOrigin<#rt>;
		pub struct PalletInfo;
		impl ::frame_support::traits::PalletInfo for PalletInfo {
			fn index<P: 'static>() -> Option<usize> {
				let t = ::core::any::TypeId::of::<P>();
				#(if t == ::core::any::TypeId::of::<#cn>() { return Some(#idxs as usize) })*
				None
			}
			fn name<P: 'static>() -> Option<&'static str> {
				let t = ::core::any::TypeId::of::<P>();
				#(if t == ::core::any::TypeId::of::<#cn>() { return Some(#strs) })*
				None
			}
		}
		#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
		pub enum RuntimeFreezeReason { #(#cn(#cp::FreezeReason)),* }
		impl ::frame_support::__private::codec::Encode for RuntimeFreezeReason {
			fn encode_to<O: ::frame_support::__private::codec::Output + ?Sized>(&self, d: &mut O) {
				match self { #(RuntimeFreezeReason::#cn(c) => { d.push_byte(#idxs); c.encode_to(d) }),* }
			}
		}
		impl ::frame_support::__private::codec::EncodeLike for RuntimeFreezeReason {}
		impl ::frame_support::__private::codec::Decode for RuntimeFreezeReason {
			fn decode<I: ::frame_support::__private::codec::Input>(i: &mut I) -> Result<Self, ::frame_support::__private::codec::Error> {
				match i.read_byte()? { #(#idxs => Ok(RuntimeFreezeReason::#cn(::frame_support::__private::codec::Decode::decode(i)?)),)* _ => Err("bad reason".into()) }
			}
		}
		impl ::frame_support::__private::codec::MaxEncodedLen for RuntimeFreezeReason { fn max_encoded_len() -> usize { 2 } }
		impl ::frame_support::__private::scale_info::TypeInfo for RuntimeFreezeReason { type Identity = Self; fn type_info() -> ::frame_support::__private::scale_info::Type { Default::default() } }
		#(impl From<#cp::FreezeReason> for RuntimeFreezeReason { fn from(r: #cp::FreezeReason) -> Self { RuntimeFreezeReason::#cn(r) } })*
		pub type RuntimeHoldReason = ();
		pub type RuntimeTask = ();
		/// Hooks of all pallets, in order.
		pub struct AllPalletsWithSystem;
		#[allow(dead_code)]
		impl AllPalletsWithSystem {
			pub fn on_initialize(n: ::frame_system::pallet_prelude::BlockNumberFor<#rt>) { #( let _ = <#ap::Pallet<#rt> as ::frame_support::traits::Hooks<_>>::on_initialize(n); )* }
			pub fn on_finalize(n: ::frame_system::pallet_prelude::BlockNumberFor<#rt>) { #( <#ap::Pallet<#rt> as ::frame_support::traits::Hooks<_>>::on_finalize(n); )* }
			pub fn offchain_worker(n: ::frame_system::pallet_prelude::BlockNumberFor<#rt>) { #( <#ap::Pallet<#rt> as ::frame_support::traits::Hooks<_>>::offchain_worker(n); )* }
		}
		pub type AllPalletsWithoutSystem = AllPalletsWithSystem;
	}
}

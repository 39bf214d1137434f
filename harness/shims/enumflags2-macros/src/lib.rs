extern crate proc_macro;
use quote::quote;
use syn::*;
/// `#[bitflags] #[repr(uN)] enum`: implicit discriminants are consecutive powers of two.
#[proc_macro_attribute]
pub fn bitflags(_a: proc_macro::TokenStream, item: proc_macro::TokenStream) -> proc_macro::TokenStream {
	let mut e = parse_macro_input!(item as ItemEnum);
	let mut repr = quote!(usize);
	for a in &e.attrs { if a.path().is_ident("repr") { let t: Type = a.parse_args().unwrap(); repr = quote!(#t); } }
	let mut used: u128 = 0;
	for v in &e.variants { if let Some((_, Expr::Lit(ExprLit { lit: Lit::Int(i), .. }))) = &v.discriminant { used |= i.base10_parse::<u128>().unwrap(); } }
	for v in e.variants.iter_mut() {
		if v.discriminant.is_none() {
			let mut b = 1u128;
			while used & b != 0 { b <<= 1; }
			used |= b;
			let l = LitInt::new(&b.to_string(), v.ident.span());
			v.discriminant = Some((Default::default(), parse_quote!(#l)));
		}
	}
	let name = &e.ident;
	let names: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
	quote! {
		#e
		impl ::enumflags2::BitFlag for #name {
			type Numeric = #repr;
			const ALL: &'static [Self] = &[#(#name::#names),*];
			const ALL_BITS: u128 = 0 #(| (#name::#names as #repr as u128))*;
			fn bits_of(self) -> u128 { self as #repr as u128 }
		}
		impl ::core::ops::BitOr for #name { type Output = ::enumflags2::BitFlags<#name>; fn bitor(self, o: Self) -> ::enumflags2::BitFlags<#name> { ::enumflags2::BitFlags::from(self) | o } }
		impl ::core::ops::Not for #name { type Output = ::enumflags2::BitFlags<#name>; fn not(self) -> ::enumflags2::BitFlags<#name> { !::enumflags2::BitFlags::from(self) } }
	}.into()
}

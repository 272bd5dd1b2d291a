//! `#[tokio::main]` on the simulation's executor.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
	let mut t: Vec<TokenTree> = item.into_iter().collect();
	if let Some(i) = t.iter().position(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "async")) {
		t.remove(i);
	}
	if let Some(TokenTree::Group(g)) = t.last() {
		let mut call: TokenStream = "return ::tokio::run_main".parse().unwrap();
		let mut arg: TokenStream = "async move".parse().unwrap();
		arg.extend([TokenTree::Group(g.clone())]);
		call.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, arg))]);
		let n = t.len() - 1;
		t[n] = TokenTree::Group(Group::new(Delimiter::Brace, call));
	}
	t.into_iter().collect()
}

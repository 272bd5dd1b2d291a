//! `#[derive(Derivative)] #[derivative(Debug)]` with `#[derivative(Debug = "ignore")]`
//! fields, written without parser crates: enough for enums and structs without generics.
use proc_macro::{Delimiter, TokenStream, TokenTree};

struct Field {
	name: Option<String>,
	ignore: bool,
}

fn is_ident(t: &TokenTree, s: &str) -> bool {
	matches!(t, TokenTree::Ident(i) if i.to_string() == s)
}
fn is_punct(t: &TokenTree, c: char) -> bool {
	matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}

/// Splits at commas outside of angle brackets.
fn split(ts: TokenStream) -> Vec<Vec<TokenTree>> {
	let mut out = vec![vec![]];
	let mut depth = 0i32;
	for t in ts {
		if is_punct(&t, '<') {
			depth += 1
		} else if is_punct(&t, '>') {
			depth -= 1
		} else if is_punct(&t, ',') && depth == 0 {
			out.push(vec![]);
			continue;
		}
		out.last_mut().unwrap().push(t);
	}
	out.retain(|v| !v.is_empty());
	out
}

/// Removes leading attributes; says whether one asked to be ignored.
fn attrs(v: &mut Vec<TokenTree>) -> bool {
	let mut ignore = false;
	while v.first().is_some_and(|t| is_punct(t, '#')) {
		let a = v[1].to_string().replace(' ', "");
		if a.contains("derivative") && a.contains("Debug=\"ignore\"") {
			ignore = true;
		}
		v.drain(..2);
	}
	ignore
}

fn fields(g: &proc_macro::Group) -> Vec<Field> {
	let named = g.delimiter() == Delimiter::Brace;
	split(g.stream())
		.into_iter()
		.map(|mut f| {
			let ignore = attrs(&mut f);
			if f.first().is_some_and(|t| is_ident(t, "pub")) {
				f.remove(0);
				if matches!(f.first(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis) {
					f.remove(0);
				}
			}
			Field {
				name: named.then(|| f[0].to_string()),
				ignore,
			}
		})
		.collect()
}

fn arm(path: &str, name: &str, g: Option<&proc_macro::Group>) -> String {
	let Some(g) = g else { return format!("{path} => f.write_str({name:?}),") };
	let fs = fields(g);
	let named = g.delimiter() == Delimiter::Brace;
	let pat: Vec<String> = fs
		.iter()
		.enumerate()
		.map(|(i, f)| match (&f.name, f.ignore) {
			(Some(n), true) => format!("{n}: _"),
			(Some(n), false) => format!("{n}: f{i}"),
			(None, true) => "_".into(),
			(None, false) => format!("f{i}"),
		})
		.collect();
	let body: String = fs
		.iter()
		.enumerate()
		.filter(|(_, f)| !f.ignore)
		.map(|(i, f)| match &f.name {
			Some(n) => format!(".field({n:?}, f{i})"),
			None => format!(".field(f{i})"),
		})
		.collect();
	let (o, c, b) = if named { ("{", "}", "debug_struct") } else { ("(", ")", "debug_tuple") };
	format!("{path} {o} {} {c} => f.{b}({name:?}){body}.finish(),", pat.join(", "))
}

#[proc_macro_derive(Derivative, attributes(derivative))]
pub fn derive(input: TokenStream) -> TokenStream {
	let ts: Vec<TokenTree> = input.into_iter().collect();
	let kw = ts.iter().position(|t| is_ident(t, "enum") || is_ident(t, "struct")).expect("enum or struct");
	let wants_debug = ts[..kw].iter().any(|t| {
		let s = t.to_string().replace(' ', "");
		s.starts_with("[derivative(") && s.contains("Debug")
	});
	if !wants_debug {
		return TokenStream::new();
	}
	let ty = ts[kw + 1].to_string();
	let group = ts[kw + 2..].iter().find_map(|t| match t {
		TokenTree::Group(g) => Some(g.clone()),
		_ => None,
	});
	let arms = if is_ident(&ts[kw], "struct") {
		arm("Self", &ty, group.as_ref())
	} else {
		split(group.expect("enum body").stream())
			.into_iter()
			.map(|mut v| {
				attrs(&mut v);
				let name = v[0].to_string();
				let g = match v.get(1) {
					Some(TokenTree::Group(g)) => Some(g.clone()),
					_ => None,
				};
				arm(&format!("Self::{name}"), &name, g.as_ref())
			})
			.collect()
	};
	format!("impl ::std::fmt::Debug for {ty} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ match self {{ {arms} }} }} }}")
		.parse()
		.unwrap()
}

//! A small `macro_rules!` expander: enough for the macros this repository defines itself.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};

pub struct Rule {
	pat: Vec<TokenTree>,
	body: Vec<TokenTree>,
}
#[derive(Clone, Debug)]
enum B {
	One(TokenStream),
	Rep(Vec<HashMap<String, B>>),
}
fn v(t: TokenStream) -> Vec<TokenTree> {
	t.into_iter().collect()
}
fn punct(t: &TokenTree, c: char) -> bool {
	matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}
pub fn rules(t: &TokenStream) -> Option<Vec<Rule>> {
	let t = v(t.clone());
	let mut out = vec![];
	let mut i = 0;
	while i < t.len() {
		let p = match &t[i] {
			TokenTree::Group(g) => v(g.stream()),
			_ => return None,
		};
		if !(punct(t.get(i + 1)?, '=') && punct(t.get(i + 2)?, '>')) {
			return None;
		}
		let b = match t.get(i + 3)? {
			TokenTree::Group(g) => v(g.stream()),
			_ => return None,
		};
		out.push(Rule { pat: p, body: b });
		i += 4;
		while i < t.len() && punct(&t[i], ';') {
			i += 1;
		}
	}
	Some(out)
}
pub fn expand(rs: &[Rule], t: &TokenStream) -> Option<TokenStream> {
	for r in rs {
		let mut b = HashMap::new();
		if let Some(rest) = matchp(&r.pat, v(t.clone()), &mut b, None) {
			if rest.is_empty() {
				let mut o = vec![];
				subst(&r.body, &b, &mut o)?;
				return Some(o.into_iter().collect());
			}
		}
	}
	None
}
fn frag(kind: &str, input: &[TokenTree]) -> Option<(TokenStream, Vec<TokenTree>)> {
	if input.is_empty() {
		return None;
	}
	match kind {
		"tt" => return Some((input[0].clone().into(), input[1..].to_vec())),
		"ident" => {
			return match &input[0] {
				TokenTree::Ident(_) => Some((input[0].clone().into(), input[1..].to_vec())),
				_ => None,
			}
		}
		_ => {}
	}
	let ts: TokenStream = input.iter().cloned().collect();
	let k = kind.to_string();
	let p = move |i: ParseStream| -> syn::Result<(TokenStream, TokenStream)> {
		let a = match k.as_str() {
			"expr" => i.parse::<syn::Expr>()?.to_token_stream(),
			"ty" => i.parse::<syn::Type>()?.to_token_stream(),
			"path" => i.parse::<syn::Path>()?.to_token_stream(),
			"literal" => i.parse::<syn::Lit>()?.to_token_stream(),
			"pat" => syn::Pat::parse_multi_with_leading_vert(i)?.to_token_stream(),
			"block" => i.parse::<syn::Block>()?.to_token_stream(),
			"lifetime" => i.parse::<syn::Lifetime>()?.to_token_stream(),
			"vis" => i.parse::<syn::Visibility>()?.to_token_stream(),
			"item" => i.parse::<syn::Item>()?.to_token_stream(),
			"stmt" => i.parse::<syn::Stmt>()?.to_token_stream(),
			_ => return Err(i.error("frag")),
		};
		let rest: TokenStream = i.parse()?;
		Ok((a, rest))
	};
	let (a, rest) = p.parse2(ts).ok()?;
	let a = if kind == "expr" {
		TokenTree::Group(Group::new(Delimiter::None, a)).into()
	} else {
		a
	};
	Some((a, v(rest)))
}
fn same(a: &TokenTree, b: &TokenTree) -> bool {
	a.to_string() == b.to_string()
}
// match pattern tokens against input; returns the unmatched rest
fn matchp(
	pat: &[TokenTree],
	input: Vec<TokenTree>,
	b: &mut HashMap<String, B>,
	_stop: Option<&TokenTree>,
) -> Option<Vec<TokenTree>> {
	let mut i = 0;
	let mut inp = input;
	while i < pat.len() {
		if punct(&pat[i], '$') {
			match pat.get(i + 1)? {
				TokenTree::Ident(name) if pat.get(i + 2).map_or(false, |t| punct(t, ':')) => {
					let kind = pat.get(i + 3)?.to_string();
					let (t, rest) = if kind == "vis" && inp.is_empty() {
						(TokenStream::new(), vec![])
					} else {
						frag(&kind, &inp)?
					};
					b.insert(name.to_string(), B::One(t));
					inp = rest;
					i += 4;
				}
				TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
					let inner = v(g.stream());
					let mut k = i + 2;
					let mut sep: Option<TokenTree> = None;
					let is_op = |t: &TokenTree| punct(t, '*') || punct(t, '+') || punct(t, '?');
					if !is_op(pat.get(k)?) {
						sep = Some(pat[k].clone());
						k += 1;
					}
					let op = pat.get(k)?.to_string();
					let mut reps = vec![];
					loop {
						if inp.is_empty() && !inner.is_empty() {
							break;
						}
						let mut m = HashMap::new();
						let cur = inp.clone();
						let after_sep = if !reps.is_empty() {
							match &sep {
								Some(sp) => {
									if !cur.is_empty() && same(sp, &cur[0]) {
										cur[1..].to_vec()
									} else {
										break;
									}
								}
								None => cur,
							}
						} else {
							cur
						};
						match matchp(&inner, after_sep, &mut m, None) {
							Some(rest) => {
								if rest.len() == inp.len() {
									break;
								}
								inp = rest;
								reps.push(m);
							}
							None => break,
						}
						if op == "?" {
							break;
						}
					}
					if op == "+" && reps.is_empty() {
						return None;
					}
					let mut names = vec![];
					collect_names(&inner, &mut names);
					for n in names {
						b.insert(n, B::Rep(reps.clone()));
					}
					i = k + 1;
				}
				_ => return None,
			}
		} else {
			let t = inp.get(0)?.clone();
			match (&pat[i], &t) {
				(TokenTree::Group(a), TokenTree::Group(c)) => {
					if a.delimiter() != c.delimiter() {
						return None;
					}
					let rest = matchp(&v(a.stream()), v(c.stream()), b, None)?;
					if !rest.is_empty() {
						return None;
					}
				}
				(a, c) => {
					if !same(a, c) {
						return None;
					}
				}
			}
			inp = inp[1..].to_vec();
			i += 1;
		}
	}
	Some(inp)
}
fn collect_names(p: &[TokenTree], out: &mut Vec<String>) {
	let mut i = 0;
	while i < p.len() {
		if punct(&p[i], '$') {
			if let (Some(TokenTree::Ident(n)), Some(c)) = (p.get(i + 1), p.get(i + 2)) {
				if punct(c, ':') {
					out.push(n.to_string());
				}
			}
		}
		if let TokenTree::Group(g) = &p[i] {
			collect_names(&v(g.stream()), out);
		}
		i += 1;
	}
}
fn body_vars(p: &[TokenTree], out: &mut Vec<String>) {
	for i in 0..p.len() {
		if punct(&p[i], '$') {
			if let Some(TokenTree::Ident(n)) = p.get(i + 1) {
				out.push(n.to_string());
			}
		}
		if let TokenTree::Group(g) = &p[i] {
			body_vars(&v(g.stream()), out);
		}
	}
}
fn subst(body: &[TokenTree], b: &HashMap<String, B>, out: &mut Vec<TokenTree>) -> Option<()> {
	let mut i = 0;
	while i < body.len() {
		if punct(&body[i], '$') {
			match body.get(i + 1) {
				Some(TokenTree::Ident(n)) => {
					if n == "crate" {
						out.push(body[i + 1].clone());
						i += 2;
						continue;
					}
					match b.get(&n.to_string()) {
						Some(B::One(t)) => out.extend(t.clone()),
						_ => return None,
					}
					i += 2;
					continue;
				}
				Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
					let inner = v(g.stream());
					let mut k = i + 2;
					let mut sep: Option<TokenTree> = None;
					let is_op = |t: &TokenTree| punct(t, '*') || punct(t, '+') || punct(t, '?');
					if !is_op(body.get(k)?) {
						sep = Some(body[k].clone());
						k += 1;
					}
					let mut vars = vec![];
					body_vars(&inner, &mut vars);
					let reps = vars.iter().find_map(|n| match b.get(n) {
						Some(B::Rep(r)) => Some(r.clone()),
						_ => None,
					})?;
					for (ri, r) in reps.iter().enumerate() {
						if ri > 0 {
							if let Some(sp) = &sep {
								out.push(sp.clone());
							}
						}
						let mut m = b.clone();
						m.extend(r.clone());
						subst(&inner, &m, out)?;
					}
					i = k + 1;
					continue;
				}
				_ => return None,
			}
		}
		match &body[i] {
			TokenTree::Group(g) => {
				let mut o = vec![];
				subst(&v(g.stream()), b, &mut o)?;
				let mut ng = Group::new(g.delimiter(), o.into_iter().collect());
				ng.set_span(g.span());
				out.push(TokenTree::Group(ng));
			}
			t => out.push(t.clone()),
		}
		i += 1;
	}
	Some(())
}

//! rsast: parses Rust crates with syn, resolves the module tree, drops configurations that are
//! not part of the shipped runtime (test, runtime-benchmarks, try-runtime), expands the crate's
//! own `macro_rules!` macros at their use sites and writes the result as JSON.
//!
//! usage: rsast OUT.json REPO ROOT.rs...      (roots relative to REPO)
mod expand;
mod json;

use json::J;
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use syn::parse::{Parse, ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

thread_local! {
	static MACROS: RefCell<HashMap<String, Vec<expand::Rule>>> = RefCell::new(HashMap::new());
	static LINE: Cell<usize> = Cell::new(0); // non-zero: all nodes are attributed to this line
	static DEPTH: Cell<usize> = Cell::new(0);
	static ERRORS: RefCell<Vec<String>> = RefCell::new(vec![]);
}

fn line(s: Span) -> J {
	let o = LINE.with(|l| l.get());
	J::N(if o != 0 { o } else { s.start().line } as i64)
}
fn s(x: impl Into<String>) -> J {
	J::S(x.into())
}
fn arr(x: Vec<J>) -> J {
	J::A(x)
}
macro_rules! j { ($($e:expr),* $(,)?) => { J::A(vec![$($e),*]) } }

// ---- cfg ----------------------------------------------------------------------------------
// three-valued: Some(true/false) or None = either
fn cfg_eval(m: &Meta) -> Option<bool> {
	match m {
		Meta::Path(p) if p.is_ident("test") => Some(false),
		Meta::Path(_) => None,
		Meta::NameValue(nv) if nv.path.is_ident("feature") => {
			let v = nv.value.to_token_stream().to_string();
			match v.trim_matches('"') {
				"runtime-benchmarks" | "try-runtime" | "testing" | "fuzz" | "fuzzing" | "proptest" | "runtime-integration-tests" => {
					Some(false)
				}
				_ => None,
			}
		}
		Meta::NameValue(_) => None,
		Meta::List(l) => {
			let subs = l.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated).ok()?;
			let v: Vec<Option<bool>> = subs.iter().map(cfg_eval).collect();
			if l.path.is_ident("not") {
				v.get(0).copied().flatten().map(|x| !x)
			} else if l.path.is_ident("all") {
				if v.iter().any(|x| *x == Some(false)) {
					Some(false)
				} else if v.iter().all(|x| *x == Some(true)) {
					Some(true)
				} else {
					None
				}
			} else if l.path.is_ident("any") {
				if v.iter().any(|x| *x == Some(true)) {
					Some(true)
				} else if v.iter().all(|x| *x == Some(false)) {
					Some(false)
				} else {
					None
				}
			} else {
				None
			}
		}
	}
}
fn keep(attrs: &[Attribute]) -> bool {
	attrs.iter().all(|a| {
		if a.path().is_ident("cfg") {
			match a.parse_args::<Meta>() {
				Ok(m) => cfg_eval(&m) != Some(false),
				Err(_) => true,
			}
		} else if a.path().is_ident("test") {
			false
		} else {
			true
		}
	})
}
fn attrs_j(attrs: &[Attribute]) -> J {
	arr(attrs
		.iter()
		.filter(|a| !a.path().is_ident("doc"))
		.map(|a| {
			let p = path_str(a.path());
			let t = match &a.meta {
				Meta::Path(_) => String::new(),
				Meta::List(l) => l.tokens.to_string(),
				Meta::NameValue(nv) => nv.value.to_token_stream().to_string(),
			};
			j![s(p), s(t)]
		})
		.collect())
}

// ---- types and paths ----------------------------------------------------------------------
fn path_str(p: &syn::Path) -> String {
	let v: Vec<String> = p.segments.iter().map(|x| x.ident.to_string()).collect();
	v.join("::")
}
fn gargs(a: &PathArguments) -> J {
	match a {
		PathArguments::None => arr(vec![]),
		PathArguments::AngleBracketed(a) => arr(a.args.iter().map(garg).collect()),
		PathArguments::Parenthesized(p) => {
			let mut v: Vec<J> = p.inputs.iter().map(ty).collect();
			if let ReturnType::Type(_, t) = &p.output {
				v.push(ty(t));
			}
			arr(v)
		}
	}
}
fn garg(g: &GenericArgument) -> J {
	match g {
		GenericArgument::Type(t) => ty(t),
		GenericArgument::Const(e) => j![s("tconst"), expr(e)],
		GenericArgument::AssocType(a) => j![s("tassoc"), s(a.ident.to_string()), ty(&a.ty)],
		o => j![s("tother"), s(o.to_token_stream().to_string())],
	}
}
fn segs(p: &syn::Path) -> J {
	arr(p
		.segments
		.iter()
		.map(|x| j![s(x.ident.to_string()), gargs(&x.arguments)])
		.collect())
}
fn ty(t: &Type) -> J {
	match t {
		Type::Path(p) => {
			let q = match &p.qself {
				Some(q) => j![ty(&q.ty), J::N(q.position as i64)],
				None => J::Null,
			};
			j![s("tp"), q, segs(&p.path)]
		}
		Type::Tuple(t) => j![s("ttup"), arr(t.elems.iter().map(ty).collect())],
		Type::Reference(r) => j![s("tref"), J::B(r.mutability.is_some()), ty(&r.elem)],
		Type::Array(a) => j![s("tarr"), ty(&a.elem), expr(&a.len)],
		Type::Slice(a) => j![s("tslice"), ty(&a.elem)],
		Type::Paren(p) => ty(&p.elem),
		Type::Group(p) => ty(&p.elem),
		Type::Infer(_) => j![s("tinfer")],
		Type::Never(_) => j![s("tnever")],
		o => j![s("tother"), s(o.to_token_stream().to_string())],
	}
}

// ---- patterns -----------------------------------------------------------------------------
fn pat(p: &Pat) -> J {
	match p {
		Pat::Ident(i) => j![
			s("pid"),
			s(i.ident.to_string()),
			J::B(i.by_ref.is_some()),
			J::B(i.mutability.is_some()),
			match &i.subpat {
				Some((_, p)) => pat(p),
				None => J::Null,
			}
		],
		Pat::Wild(_) => j![s("pwild")],
		Pat::Tuple(t) => j![s("ptup"), arr(t.elems.iter().map(pat).collect())],
		Pat::TupleStruct(t) => j![s("pts"), segs(&t.path), arr(t.elems.iter().map(pat).collect())],
		Pat::Struct(t) => j![
			s("pstruct"),
			segs(&t.path),
			arr(t
				.fields
				.iter()
				.map(|f| j![s(f.member.to_token_stream().to_string()), pat(&f.pat)])
				.collect()),
			J::B(t.rest.is_some())
		],
		Pat::Lit(l) => j![s("plit"), expr(&Expr::Lit(l.clone()))],
		Pat::Path(p) => j![s("ppath"), segs(&p.path)],
		Pat::Or(o) => j![s("por"), arr(o.cases.iter().map(pat).collect())],
		Pat::Reference(r) => pat(&r.pat),
		Pat::Paren(r) => pat(&r.pat),
		Pat::Type(t) => j![s("ptyped"), pat(&t.pat), ty(&t.ty)],
		Pat::Rest(_) => j![s("prest")],
		Pat::Slice(t) => j![s("pslice"), arr(t.elems.iter().map(pat).collect())],
		Pat::Range(r) => j![
			s("prange"),
			r.start.as_ref().map(|e| expr(e)).unwrap_or(J::Null),
			r.end.as_ref().map(|e| expr(e)).unwrap_or(J::Null),
			J::B(matches!(r.limits, RangeLimits::Closed(_)))
		],
		Pat::Const(c) => j![s("pother"), s(c.to_token_stream().to_string())],
		Pat::Macro(m) => {
			let name = m.mac.path.segments.last().unwrap().ident.to_string();
			if let Some(ts) = try_expand(&name, &m.mac.tokens) {
				if let Ok(p) = Pat::parse_multi.parse2(ts) {
					return pat(&p);
				}
			}
			j![s("pother"), s(m.to_token_stream().to_string())]
		}
		o => j![s("pother"), s(o.to_token_stream().to_string())],
	}
}

// ---- macros -------------------------------------------------------------------------------
fn try_expand(name: &str, toks: &TokenStream) -> Option<TokenStream> {
	MACROS.with(|m| {
		let m = m.borrow();
		let rules = m.get(name)?;
		match expand::expand(rules, toks) {
			Some(t) => Some(t),
			None => {
				ERRORS.with(|e| e.borrow_mut().push(format!("cannot expand macro {name}")));
				None
			}
		}
	})
}
fn tokens_j(ts: &TokenStream) -> J {
	arr(ts
		.clone()
		.into_iter()
		.map(|t| match t {
			TokenTree::Group(g) => {
				let d = match g.delimiter() {
					Delimiter::Parenthesis => "(",
					Delimiter::Brace => "{",
					Delimiter::Bracket => "[",
					Delimiter::None => "",
				};
				j![s(d), tokens_j(&g.stream())]
			}
			o => s(o.to_string()),
		})
		.collect())
}
fn with_line<R>(l: usize, f: impl FnOnce() -> R) -> R {
	let old = LINE.with(|c| c.get());
	if old == 0 {
		LINE.with(|c| c.set(l));
	}
	DEPTH.with(|d| d.set(d.get() + 1));
	let r = f();
	DEPTH.with(|d| d.set(d.get() - 1));
	LINE.with(|c| c.set(old));
	r
}
struct Blk(Vec<Stmt>);
impl Parse for Blk {
	fn parse(i: ParseStream) -> Result<Self> {
		Ok(Blk(Block::parse_within(i)?))
	}
}
struct MatchesArgs(Expr, Pat, Option<Expr>);
impl Parse for MatchesArgs {
	fn parse(i: ParseStream) -> Result<Self> {
		let e: Expr = i.parse()?;
		i.parse::<Token![,]>()?;
		let p = Pat::parse_multi_with_leading_vert(i)?;
		let g = if i.peek(Token![if]) {
			i.parse::<Token![if]>()?;
			Some(i.parse()?)
		} else {
			None
		};
		if i.peek(Token![,]) {
			i.parse::<Token![,]>()?;
		}
		Ok(MatchesArgs(e, p, g))
	}
}
struct VecRep(Expr, Expr);
impl Parse for VecRep {
	fn parse(i: ParseStream) -> Result<Self> {
		let e: Expr = i.parse()?;
		i.parse::<Token![;]>()?;
		Ok(VecRep(e, i.parse()?))
	}
}
/// `for_tuples!` of impl_trait_for_tuples, written out for a tuple of TUPLE elements
const TUPLE: usize = 3;
fn element(ts: TokenStream, i: usize) -> TokenStream {
	let mut out: Vec<TokenTree> = vec![];
	for t in ts {
		match t {
			TokenTree::Ident(ref id) if id == "Tuple" => {
				let field = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '.');
				if field {
					out.push(TokenTree::Literal(proc_macro2::Literal::usize_unsuffixed(i)));
				} else {
					out.push(TokenTree::Ident(proc_macro2::Ident::new(&format!("Tuple{i}"), id.span())));
				}
			}
			TokenTree::Group(g) => {
				let mut n = proc_macro2::Group::new(g.delimiter(), element(g.stream(), i));
				n.set_span(g.span());
				out.push(TokenTree::Group(n));
			}
			o => out.push(o),
		}
	}
	out.into_iter().collect()
}
fn tuples(ts: TokenStream) -> Option<TokenStream> {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out: Vec<TokenTree> = vec![];
	let mut i = 0;
	while i < v.len() {
		match &v[i] {
			TokenTree::Punct(p) if p.as_char() == '#' => {
				let Some(TokenTree::Group(g)) = v.get(i + 1) else { return None };
				let (sep, n) = match (v.get(i + 2), v.get(i + 3)) {
					(Some(TokenTree::Punct(a)), _) if a.as_char() == '*' => (None, 3),
					(Some(x @ TokenTree::Punct(_)), Some(TokenTree::Punct(b))) if b.as_char() == '*' => (Some(x.clone()), 4),
					_ => return None,
				};
				for k in 0..TUPLE {
					if k > 0 {
						out.extend(sep.clone());
					}
					out.extend(element(g.stream(), k));
				}
				i += n;
			}
			TokenTree::Group(g) => {
				let mut n = proc_macro2::Group::new(g.delimiter(), tuples(g.stream())?);
				n.set_span(g.span());
				out.push(TokenTree::Group(n));
				i += 1;
			}
			o => {
				out.push(o.clone());
				i += 1;
			}
		}
	}
	Some(out.into_iter().collect())
}
fn tuple_stmts(m: &Macro) -> Option<Vec<Stmt>> {
	if m.path.segments.last().unwrap().ident != "for_tuples" {
		return None;
	}
	parse2::<Blk>(tuples(m.tokens.clone())?).ok().map(|b| b.0)
}
fn mac(m: &Macro) -> J {
	let name = m.path.segments.last().unwrap().ident.to_string();
	let l = m.path.span();
	if name == "for_tuples" {
		if let Some(e) = tuples(m.tokens.clone()).and_then(|t| parse2::<Expr>(t).ok()) {
			return expr(&e);
		}
	}
	if DEPTH.with(|d| d.get()) < 24 {
		if let Some(ts) = try_expand(&name, &m.tokens) {
			let ln = l.start().line;
			if let Ok(b) = parse2::<Blk>(ts.clone()) {
				return with_line(ln, || {
					if b.0.len() == 1 {
						if let Stmt::Expr(e, None) = &b.0[0] {
							return expr(e);
						}
					}
					j![s("block"), line(l), stmts(&b.0), J::Null]
				});
			}
			ERRORS.with(|e| e.borrow_mut().push(format!("cannot parse expansion of {name}")));
		}
	}
	let toks = m.tokens.clone();
	if name == "matches" {
		if let Ok(MatchesArgs(e, p, g)) = parse2::<MatchesArgs>(toks.clone()) {
			return j![s("matches"), line(l), expr(&e), pat(&p), g.map(|g| expr(&g)).unwrap_or(J::Null)];
		}
	}
	if name == "vec" {
		if let Ok(VecRep(a, b)) = parse2::<VecRep>(toks.clone()) {
			return j![s("macro"), line(l), s("vec_rep"), j![expr(&a), expr(&b)], J::Null];
		}
	}
	let args = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(toks.clone());
	match args {
		Ok(a) => j![s("macro"), line(l), s(name), arr(a.iter().map(expr).collect()), J::Null],
		Err(_) => j![s("macro"), line(l), s(name), J::Null, tokens_j(&toks)],
	}
}

// ---- expressions --------------------------------------------------------------------------
fn lit(l: &Lit) -> J {
	match l {
		Lit::Int(i) => j![s("lit"), line(l.span()), s("int"), s(i.base10_digits()), s(i.suffix())],
		Lit::Float(i) => j![s("lit"), line(l.span()), s("float"), s(i.base10_digits()), s(i.suffix())],
		Lit::Bool(b) => j![s("lit"), line(l.span()), s("bool"), J::B(b.value), s("")],
		Lit::Str(b) => j![s("lit"), line(l.span()), s("str"), s(b.value()), s("")],
		Lit::ByteStr(b) => j![
			s("lit"),
			line(l.span()),
			s("bstr"),
			arr(b.value().iter().map(|x| J::N(*x as i64)).collect()),
			s("")
		],
		Lit::Byte(b) => j![s("lit"), line(l.span()), s("int"), s(b.value().to_string()), s("u8")],
		Lit::Char(b) => j![s("lit"), line(l.span()), s("char"), s(b.value().to_string()), s("")],
		o => j![s("lit"), line(l.span()), s("other"), s(o.to_token_stream().to_string()), s("")],
	}
}
fn opt(e: &Option<Box<Expr>>) -> J {
	match e {
		Some(e) => expr(e),
		None => J::Null,
	}
}
fn lbl(l: &Option<Lifetime>) -> J {
	match l {
		Some(l) => s(l.ident.to_string()),
		None => J::Null,
	}
}
fn label(l: &Option<Label>) -> J {
	match l {
		Some(l) => s(l.name.ident.to_string()),
		None => J::Null,
	}
}
fn expr(e: &Expr) -> J {
	let l = line(e.span());
	match e {
		Expr::Lit(x) => lit(&x.lit),
		Expr::Path(p) => match &p.qself {
			Some(q) => j![s("path"), l, segs(&p.path), j![ty(&q.ty), J::N(q.position as i64)]],
			None => j![s("path"), l, segs(&p.path), J::Null],
		},
		Expr::Paren(p) => expr(&p.expr),
		Expr::Group(p) => expr(&p.expr),
		Expr::Call(c) => j![s("call"), l, expr(&c.func), exprs(&c.args)],
		Expr::MethodCall(c) => j![
			s("mcall"),
			line(c.method.span()),
			expr(&c.receiver),
			s(c.method.to_string()),
			c.turbofish
				.as_ref()
				.map(|t| arr(t.args.iter().map(garg).collect()))
				.unwrap_or(arr(vec![])),
			exprs(&c.args)
		],
		Expr::Binary(b) => {
			let op = b.op.to_token_stream().to_string();
			match op.as_str() {
				"+=" | "-=" | "*=" | "/=" | "%=" | "^=" | "&=" | "|=" | "<<=" | ">>=" => {
					j![s("opassign"), l, s(op.trim_end_matches('=')), expr(&b.left), expr(&b.right)]
				}
				_ => j![s("bin"), l, s(op), expr(&b.left), expr(&b.right)],
			}
		}
		Expr::Unary(u) => j![s("un"), l, s(u.op.to_token_stream().to_string()), expr(&u.expr)],
		Expr::Assign(a) => j![s("assign"), l, expr(&a.left), expr(&a.right)],
		Expr::Reference(r) => j![s("ref"), l, J::B(r.mutability.is_some()), expr(&r.expr)],
		Expr::Field(f) => j![s("field"), l, expr(&f.base), s(f.member.to_token_stream().to_string())],
		Expr::Index(i) => j![s("index"), l, expr(&i.expr), expr(&i.index)],
		Expr::Try(t) => j![s("try"), l, expr(&t.expr)],
		Expr::Block(b) => j![s("block"), l, stmts(&b.block.stmts), label(&b.label)],
		Expr::Unsafe(b) => j![s("unsafe"), l, stmts(&b.block.stmts), J::Null],
		Expr::Const(b) => j![s("block"), l, stmts(&b.block.stmts), J::Null],
		Expr::If(i) => j![
			s("if"),
			l,
			expr(&i.cond),
			j![s("block"), line(i.then_branch.span()), stmts(&i.then_branch.stmts), J::Null],
			match &i.else_branch {
				Some((_, e)) => expr(e),
				None => J::Null,
			}
		],
		Expr::Let(x) => j![s("let"), l, pat(&x.pat), expr(&x.expr)],
		Expr::Match(m) => j![
			s("match"),
			l,
			expr(&m.expr),
			arr(m
				.arms
				.iter()
				.filter(|a| keep(&a.attrs))
				.map(|a| j![
					pat(&a.pat),
					match &a.guard {
						Some((_, g)) => expr(g),
						None => J::Null,
					},
					expr(&a.body)
				])
				.collect())
		],
		Expr::Loop(x) => j![s("loop"), l, blk(&x.body), label(&x.label)],
		Expr::While(x) => j![s("while"), l, expr(&x.cond), blk(&x.body), label(&x.label)],
		Expr::ForLoop(x) => j![s("for"), l, pat(&x.pat), expr(&x.expr), blk(&x.body), label(&x.label)],
		Expr::Break(b) => j![s("break"), l, lbl(&b.label), opt(&b.expr)],
		Expr::Continue(b) => j![s("continue"), l, lbl(&b.label)],
		Expr::Return(b) => j![s("return"), l, opt(&b.expr)],
		Expr::Closure(c) => j![
			s("closure"),
			l,
			arr(c.inputs.iter().map(pat).collect()),
			expr(&c.body),
			match &c.output {
				ReturnType::Default => J::Null,
				ReturnType::Type(_, t) => ty(t),
			}
		],
		Expr::Struct(x) => j![
			s("struct"),
			l,
			segs(&x.path),
			arr(x
				.fields
				.iter()
				.filter(|f| keep(&f.attrs))
				.map(|f| j![s(f.member.to_token_stream().to_string()), expr(&f.expr)])
				.collect()),
			opt(&x.rest)
		],
		Expr::Tuple(t) => j![s("tuple"), l, exprs(&t.elems)],
		Expr::Array(t) => j![s("array"), l, exprs(&t.elems)],
		Expr::Repeat(t) => j![s("repeat"), l, expr(&t.expr), expr(&t.len)],
		Expr::Range(r) => j![
			s("range"),
			l,
			opt(&r.start),
			opt(&r.end),
			J::B(matches!(r.limits, RangeLimits::Closed(_)))
		],
		Expr::Cast(c) => j![s("cast"), l, expr(&c.expr), ty(&c.ty)],
		Expr::Macro(m) => mac(&m.mac),
		Expr::Async(_) | Expr::Await(_) => j![s("other"), l, s("async")],
		o => j![s("other"), l, s(o.to_token_stream().to_string())],
	}
}
fn exprs(p: &Punctuated<Expr, Token![,]>) -> J {
	arr(p.iter().map(expr).collect())
}
fn blk(b: &Block) -> J {
	j![s("block"), line(b.span()), stmts(&b.stmts), J::Null]
}
fn expr_attrs(e: &Expr) -> &[Attribute] {
	match e {
		Expr::Block(x) => &x.attrs,
		Expr::Call(x) => &x.attrs,
		Expr::MethodCall(x) => &x.attrs,
		Expr::If(x) => &x.attrs,
		Expr::Match(x) => &x.attrs,
		Expr::Macro(x) => &x.attrs,
		Expr::Assign(x) => &x.attrs,
		Expr::ForLoop(x) => &x.attrs,
		Expr::Return(x) => &x.attrs,
		Expr::Try(x) => &x.attrs,
		_ => &[],
	}
}
fn stmts(v: &[Stmt]) -> J {
	let mut out = vec![];
	for st in v {
		match st {
			Stmt::Local(x) => {
				if !keep(&x.attrs) {
					continue;
				}
				let (init, els) = match &x.init {
					Some(i) => (
						expr(&i.expr),
						match &i.diverge {
							Some((_, e)) => expr(e),
							None => J::Null,
						},
					),
					None => (J::Null, J::Null),
				};
				let (p, t) = match &x.pat {
					Pat::Type(pt) => (pat(&pt.pat), ty(&pt.ty)),
					o => (pat(o), J::Null),
				};
				out.push(j![s("local"), line(x.span()), p, t, init, els]);
			}
			Stmt::Expr(e, semi) => {
				if keep(expr_attrs(e)) {
					out.push(j![s("expr"), line(e.span()), expr(e), J::B(semi.is_some())]);
				}
			}
			Stmt::Item(i) => {
				if let Some(x) = item(i, None) {
					out.push(j![s("item"), line(i.span()), x]);
				}
			}
			Stmt::Macro(m) => {
				if let (true, Some(b)) = (keep(&m.attrs), tuple_stmts(&m.mac)) {
					if let J::A(v) = stmts(&b) {
						out.extend(v);
					}
				} else if keep(&m.attrs) {
					out.push(j![
						s("expr"),
						line(m.span()),
						mac(&m.mac),
						J::B(m.semi_token.is_some())
					]);
				}
			}
		}
	}
	arr(out)
}

// ---- items --------------------------------------------------------------------------------
struct Ctx {
	file: String,
	dir: PathBuf,
	repo: PathBuf,
}
fn o(v: Vec<(&str, J)>) -> J {
	J::O(v.into_iter().map(|(a, b)| (a.to_string(), b)).collect())
}
fn generics(g: &Generics) -> J {
	let mut v = vec![];
	for p in &g.params {
		match p {
			GenericParam::Type(t) => v.push(j![
				s(t.ident.to_string()),
				s(t.bounds.to_token_stream().to_string())
			]),
			GenericParam::Const(c) => v.push(j![s(c.ident.to_string()), s("const")]),
			_ => {}
		}
	}
	let w = g
		.where_clause
		.as_ref()
		.map(|w| w.to_token_stream().to_string())
		.unwrap_or_default();
	j![arr(v), s(w)]
}
fn func(sig: &Signature, attrs: &[Attribute], vis: &str, body: Option<&Block>, sp: Span) -> J {
	let mut ps = vec![];
	for a in &sig.inputs {
		match a {
			FnArg::Receiver(r) => ps.push(j![
				j![s("pid"), s("self"), J::B(false), J::B(r.mutability.is_some()), J::Null],
				j![s("tself"), J::B(r.reference.is_some()), J::B(r.mutability.is_some())]
			]),
			FnArg::Typed(t) => ps.push(j![pat(&t.pat), ty(&t.ty)]),
		}
	}
	let ret = match &sig.output {
		ReturnType::Default => J::Null,
		ReturnType::Type(_, t) => ty(t),
	};
	o(vec![
		("k", s("fn")),
		("name", s(sig.ident.to_string())),
		("line", line(sig.ident.span())),
		("end", J::N(sp.end().line as i64)),
		("vis", s(vis)),
		("attrs", attrs_j(attrs)),
		("generics", generics(&sig.generics)),
		("params", arr(ps)),
		("ret", ret),
		("body", body.map(blk).unwrap_or(J::Null)),
	])
}
fn vis(v: &Visibility) -> String {
	v.to_token_stream().to_string()
}
fn use_tree(t: &UseTree, pre: Vec<String>, out: &mut Vec<J>) {
	match t {
		UseTree::Path(p) => {
			let mut pre = pre;
			pre.push(p.ident.to_string());
			use_tree(&p.tree, pre, out)
		}
		UseTree::Name(n) => {
			let mut pre = pre;
			let name = n.ident.to_string();
			if name == "self" {
				let last = pre.last().cloned().unwrap_or_default();
				out.push(j![s(last), s(pre.join("::"))]);
			} else {
				pre.push(name.clone());
				out.push(j![s(name), s(pre.join("::"))]);
			}
		}
		UseTree::Rename(n) => {
			let mut pre = pre;
			if n.ident != "self" {
				pre.push(n.ident.to_string());
			}
			out.push(j![s(n.rename.to_string()), s(pre.join("::"))]);
		}
		UseTree::Glob(_) => out.push(j![s("*"), s(pre.join("::"))]),
		UseTree::Group(g) => {
			for t in &g.items {
				use_tree(t, pre.clone(), out)
			}
		}
	}
}
fn fields(f: &Fields) -> J {
	arr(f
		.iter()
		.enumerate()
		.filter(|(_, x)| keep(&x.attrs))
		.map(|(i, x)| {
			j![
				s(x.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string())),
				ty(&x.ty),
				attrs_j(&x.attrs),
				s(vis(&x.vis))
			]
		})
		.collect())
}
fn mac_items(m: &Macro, ctx: Option<&Ctx>) -> Option<Vec<J>> {
	let name = m.path.segments.last().unwrap().ident.to_string();
	if DEPTH.with(|d| d.get()) < 24 {
		if let Some(ts) = try_expand(&name, &m.tokens) {
			if let Ok(f) = parse2::<File>(ts) {
				let ln = m.path.span().start().line;
				return Some(with_line(ln, || f.items.iter().filter_map(|i| item(i, ctx)).collect()));
			}
		}
	}
	None
}
fn item(i: &Item, ctx: Option<&Ctx>) -> Option<J> {
	match i {
		Item::Fn(f) => {
			if !keep(&f.attrs) {
				return None;
			}
			Some(func(&f.sig, &f.attrs, &vis(&f.vis), Some(&f.block), f.span()))
		}
		Item::Impl(x) => {
			if !keep(&x.attrs) {
				return None;
			}
			let mut v = vec![];
			for it in &x.items {
				match it {
					ImplItem::Fn(f) if keep(&f.attrs) => {
						v.push(func(&f.sig, &f.attrs, &vis(&f.vis), Some(&f.block), f.span()))
					}
					ImplItem::Const(c) if keep(&c.attrs) => v.push(o(vec![
						("k", s("const")),
						("name", s(c.ident.to_string())),
						("line", line(c.span())),
						("ty", ty(&c.ty)),
						("expr", expr(&c.expr)),
						("attrs", attrs_j(&c.attrs)),
					])),
					ImplItem::Type(c) if keep(&c.attrs) => v.push(o(vec![
						("k", s("type")),
						("name", s(c.ident.to_string())),
						("line", line(c.span())),
						("ty", ty(&c.ty)),
						("attrs", attrs_j(&c.attrs)),
					])),
					ImplItem::Macro(m) if keep(&m.attrs) => v.push(o(vec![
						("k", s("macro")),
						("name", s(path_str(&m.mac.path))),
						("line", line(m.span())),
						("tokens", tokens_j(&m.mac.tokens)),
						("attrs", attrs_j(&m.attrs)),
					])),
					_ => {}
				}
			}
			Some(o(vec![
				("k", s("impl")),
				("line", line(x.impl_token.span())),
				("attrs", attrs_j(&x.attrs)),
				("generics", generics(&x.generics)),
				(
					"trait",
					match &x.trait_ {
						Some((_, p, _)) => segs(p),
						None => J::Null,
					},
				),
				("self", ty(&x.self_ty)),
				("items", arr(v)),
			]))
		}
		Item::Mod(m) => {
			if !keep(&m.attrs) {
				return None;
			}
			let name = m.ident.to_string();
			let items = match &m.content {
				Some((_, items)) => {
					let sub = ctx.map(|c| Ctx {
						file: c.file.clone(),
						dir: c.dir.join(&name),
						repo: c.repo.clone(),
					});
					arr(items.iter().filter_map(|i| item(i, sub.as_ref())).collect())
				}
				None => {
					let c = ctx?;
					let mut cands = vec![c.dir.join(format!("{name}.rs")), c.dir.join(&name).join("mod.rs")];
					for a in &m.attrs {
						if a.path().is_ident("path") {
							if let Meta::NameValue(nv) = &a.meta {
								let p = nv.value.to_token_stream().to_string();
								let base = c.repo.join(&c.file);
								cands.insert(0, base.parent().unwrap().join(p.trim_matches('"')));
							}
						}
					}
					let f = cands.iter().find(|p| p.exists());
					match f {
						Some(f) => {
							let d = c.dir.join(&name);
							return Some(o(vec![
								("k", s("mod")),
								("name", s(name)),
								("line", line(m.span())),
								("attrs", attrs_j(&m.attrs)),
								("vis", s(vis(&m.vis))),
								("file", s(rel(f, &c.repo))),
								("items", file_items(f, &d, &c.repo)),
							]));
						}
						None => {
							ERRORS.with(|e| e.borrow_mut().push(format!("module file not found: {name} in {}", c.file)));
							arr(vec![])
						}
					}
				}
			};
			Some(o(vec![
				("k", s("mod")),
				("name", s(m.ident.to_string())),
				("line", line(m.span())),
				("attrs", attrs_j(&m.attrs)),
				("vis", s(vis(&m.vis))),
				("items", items),
			]))
		}
		Item::Struct(x) if keep(&x.attrs) => Some(o(vec![
			("k", s("struct")),
			("name", s(x.ident.to_string())),
			("line", line(x.ident.span())),
			("vis", s(vis(&x.vis))),
			("attrs", attrs_j(&x.attrs)),
			("generics", generics(&x.generics)),
			("fields", fields(&x.fields)),
		])),
		Item::Enum(x) if keep(&x.attrs) => Some(o(vec![
			("k", s("enum")),
			("name", s(x.ident.to_string())),
			("line", line(x.ident.span())),
			("vis", s(vis(&x.vis))),
			("attrs", attrs_j(&x.attrs)),
			("generics", generics(&x.generics)),
			(
				"variants",
				arr(x
					.variants
					.iter()
					.filter(|v| keep(&v.attrs))
					.map(|v| {
						j![
							s(v.ident.to_string()),
							fields(&v.fields),
							attrs_j(&v.attrs),
							match &v.discriminant {
								Some((_, e)) => expr(e),
								None => J::Null,
							},
							line(v.ident.span())
						]
					})
					.collect()),
			),
		])),
		Item::Trait(x) if keep(&x.attrs) => {
			let mut v = vec![];
			for it in &x.items {
				match it {
					TraitItem::Fn(f) if keep(&f.attrs) => {
						v.push(func(&f.sig, &f.attrs, "pub", f.default.as_ref(), f.span()))
					}
					TraitItem::Type(t) if keep(&t.attrs) => v.push(o(vec![
						("k", s("type")),
						("name", s(t.ident.to_string())),
						("line", line(t.span())),
						("bounds", s(t.bounds.to_token_stream().to_string())),
						("attrs", attrs_j(&t.attrs)),
					])),
					TraitItem::Const(c) if keep(&c.attrs) => v.push(o(vec![
						("k", s("const")),
						("name", s(c.ident.to_string())),
						("line", line(c.span())),
						("ty", ty(&c.ty)),
						("expr", c.default.as_ref().map(|(_, e)| expr(e)).unwrap_or(J::Null)),
						("attrs", attrs_j(&c.attrs)),
					])),
					_ => {}
				}
			}
			Some(o(vec![
				("k", s("trait")),
				("name", s(x.ident.to_string())),
				("line", line(x.ident.span())),
				("attrs", attrs_j(&x.attrs)),
				("generics", generics(&x.generics)),
				("super", s(x.supertraits.to_token_stream().to_string())),
				("items", arr(v)),
			]))
		}
		Item::Const(c) if keep(&c.attrs) => Some(o(vec![
			("k", s("const")),
			("name", s(c.ident.to_string())),
			("line", line(c.span())),
			("vis", s(vis(&c.vis))),
			("ty", ty(&c.ty)),
			("expr", expr(&c.expr)),
			("attrs", attrs_j(&c.attrs)),
		])),
		Item::Static(c) if keep(&c.attrs) => Some(o(vec![
			("k", s("static")),
			("name", s(c.ident.to_string())),
			("line", line(c.span())),
			("ty", ty(&c.ty)),
			("expr", expr(&c.expr)),
			("attrs", attrs_j(&c.attrs)),
		])),
		Item::Type(c) if keep(&c.attrs) => Some(o(vec![
			("k", s("type")),
			("name", s(c.ident.to_string())),
			("line", line(c.span())),
			("vis", s(vis(&c.vis))),
			("ty", ty(&c.ty)),
			("generics", generics(&c.generics)),
			("attrs", attrs_j(&c.attrs)),
		])),
		Item::Use(u) if keep(&u.attrs) => {
			let mut v = vec![];
			use_tree(&u.tree, vec![], &mut v);
			Some(o(vec![
				("k", s("use")),
				("line", line(u.span())),
				("vis", s(vis(&u.vis))),
				("uses", arr(v)),
			]))
		}
		Item::Macro(m) if keep(&m.attrs) => {
			if m.ident.is_some() {
				return None;
			}
			if let Some(v) = mac_items(&m.mac, ctx) {
				return Some(o(vec![("k", s("group")), ("items", arr(v))]));
			}
			Some(o(vec![
				("k", s("macro")),
				("name", s(path_str(&m.mac.path))),
				("line", line(m.span())),
				("attrs", attrs_j(&m.attrs)),
				("tokens", tokens_j(&m.mac.tokens)),
				("params", param_types(&m.mac)),
			]))
		}
		_ => None,
	}
}

// parameter_types! { pub [const|storage|static] NAME: TY = EXPR; ... }
struct PT(Vec<(String, String, Type, Expr, usize)>);
impl Parse for PT {
	fn parse(i: ParseStream) -> Result<Self> {
		let mut v = vec![];
		while !i.is_empty() {
			let _ = Attribute::parse_outer(i)?;
			let _: Visibility = i.parse()?;
			let kind = if i.peek(Token![const]) {
				i.parse::<Token![const]>()?;
				"const"
			} else if i.peek(Token![static]) {
				i.parse::<Token![static]>()?;
				"static"
			} else {
				let f = i.fork();
				let id: Ident = f.parse()?;
				if id == "storage" && f.peek(Ident) {
					let _: Ident = i.parse()?;
					"storage"
				} else {
					"fn"
				}
			};
			let id: Ident = i.parse()?;
			if i.peek(Token![<]) {
				let _: Generics = i.parse()?;
			}
			i.parse::<Token![:]>()?;
			let t: Type = i.parse()?;
			i.parse::<Token![=]>()?;
			let e: Expr = i.parse()?;
			i.parse::<Token![;]>()?;
			v.push((kind.to_string(), id.to_string(), t, e, id.span().start().line));
		}
		Ok(PT(v))
	}
}
fn param_types(m: &Macro) -> J {
	let name = m.path.segments.last().unwrap().ident.to_string();
	if name != "parameter_types" {
		return J::Null;
	}
	match parse2::<PT>(m.tokens.clone()) {
		Ok(p) => arr(p
			.0
			.iter()
			.map(|(k, n, t, e, l)| j![s(k.clone()), s(n.clone()), ty(t), expr(e), J::N(*l as i64)])
			.collect()),
		Err(e) => {
			ERRORS.with(|x| x.borrow_mut().push(format!("parameter_types: {e}")));
			J::Null
		}
	}
}

fn rel(p: &Path, repo: &Path) -> String {
	p.strip_prefix(repo).unwrap_or(p).to_string_lossy().to_string()
}
fn load(f: &Path) -> Option<File> {
	let src = match std::fs::read_to_string(f) {
		Ok(s) => s,
		Err(e) => {
			ERRORS.with(|x| x.borrow_mut().push(format!("{}: {e}", f.display())));
			return None;
		}
	};
	match parse_file(&src) {
		Ok(f) => Some(f),
		Err(e) => {
			ERRORS.with(|x| x.borrow_mut().push(format!("{}: parse error {e}", f.display())));
			None
		}
	}
}
fn file_items(f: &Path, dir: &Path, repo: &Path) -> J {
	let ctx = Ctx {
		file: rel(f, repo),
		dir: dir.to_path_buf(),
		repo: repo.to_path_buf(),
	};
	match load(f) {
		Some(file) => arr(file.items.iter().filter_map(|i| item(i, Some(&ctx))).collect()),
		None => arr(vec![]),
	}
}
// collect macro_rules of a crate (kept configurations only)
fn collect(items: &[Item], file: &Path, dir: &Path) {
	for i in items {
		match i {
			Item::Macro(m) if keep(&m.attrs) => {
				if let (Some(id), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) {
					if let Some(r) = expand::rules(&m.mac.tokens) {
						MACROS.with(|x| x.borrow_mut().insert(id.to_string(), r));
					}
				}
			}
			Item::Mod(m) if keep(&m.attrs) => {
				let d = dir.join(m.ident.to_string());
				match &m.content {
					Some((_, v)) => collect(v, file, &d),
					None => {
						let n = m.ident.to_string();
						for c in [dir.join(format!("{n}.rs")), dir.join(&n).join("mod.rs")] {
							if c.exists() {
								if let Some(f) = load(&c) {
									collect(&f.items, &c, &d);
								}
								break;
							}
						}
					}
				}
			}
			_ => {}
		}
	}
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let out = &a[1];
	let repo = PathBuf::from(&a[2]);
	let mut crates = vec![];
	for root in &a[3..] {
		let f = repo.join(root);
		let dir = f.parent().unwrap().to_path_buf();
		MACROS.with(|m| m.borrow_mut().clear());
		if let Some(file) = load(&f) {
			collect(&file.items, &f, &dir);
		}
		ERRORS.with(|e| e.borrow_mut().clear());
		let items = file_items(&f, &dir, &repo);
		let errs = ERRORS.with(|e| arr(e.borrow().iter().map(|x| s(x.clone())).collect()));
		crates.push((root.clone(), o(vec![("items", items), ("errors", errs)])));
	}
	let mut buf = String::new();
	J::O(crates).write(&mut buf);
	std::fs::write(out, buf).unwrap();
}

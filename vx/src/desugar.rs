//! The desugarings: each replaces a construct Verus does not accept by an equivalent one.
use proc_macro2::Span as PSpan;
use quote::{format_ident, quote, ToTokens};
use syn::{
    parse::Parser, parse_quote, punctuated::Punctuated, visit::Visit, visit_mut, visit_mut::VisitMut, *,
};

use crate::items::Consts;

// ---------------------------------------------------------------- types

pub struct Types {
    pub prost: bool,
}

impl VisitMut for Types {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if s.len() > 2 && s[0] == "std" && s[1] == "path" {
            let rest: Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(1).cloned().collect();
            *p = parse_quote!(crate::vxp::#rest);
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let s = p.path.to_token_stream().to_string().replace(' ', "");
            let last = p.path.segments.last().unwrap();
            if last.ident == "Cow" {
                let inner = last.arguments.to_token_stream().to_string();
                *t = if inner.contains("[u8]") || inner.contains("[u8 ]") || inner.contains('[') {
                    parse_quote!(crate::vx::CowBytes)
                } else {
                    parse_quote!(crate::vx::CowStr)
                };
                return;
            }
            if last.ident == "Box" && s.contains("dynstd::error::Error") {
                *t = parse_quote!(crate::vxp::BoxError);
                return;
            }
            if last.ident == "Formatter" {
                *t = parse_quote!(crate::vx::Formatter);
                return;
            }
            if s.contains("::prost::alloc::") || s.contains("::core::option") {
                let mut segs = p.path.segments.clone();
                let last = segs.pop().unwrap().into_value();
                *t = parse_quote!(#last);
                return;
            }
            if last.ident == "Lexer" {
                let sub = match &last.arguments {
                    PathArguments::AngleBracketed(a) => a.args.iter().find_map(|g| match g {
                        GenericArgument::Type(Type::Path(q)) if q.path.segments.last().unwrap().ident != "Token" => Some(q.clone()),
                        _ => None,
                    }),
                    _ => None,
                };
                *t = match sub {
                    Some(c) => parse_quote!(crate::lex::VxSub<'a, #c>),
                    None => parse_quote!(crate::lex::VxLexer<'a>),
                };
            }
        }
    }
    fn visit_type_param_bound_mut(&mut self, b: &mut TypeParamBound) {
        visit_mut::visit_type_param_bound_mut(self, b);
        if let TypeParamBound::Trait(tb) = b {
            let last = tb.path.segments.last().unwrap().clone();
            if last.ident == "Into" {
                let args = &last.arguments;
                tb.path = parse_quote!(crate::vx::VxInto #args);
            } else if last.ident == "ToString" {
                tb.path = parse_quote!(crate::vx::VxDisplay);
            } else if last.ident == "Iterator" {
                let lt = last.arguments.to_token_stream().to_string().replace(' ', "");
                if let Some((_, r)) = lt.split_once("Component<") {
                    let l = Lifetime::new(r.split('>').next().unwrap(), PSpan::call_site());
                    tb.path = parse_quote!(crate::vxp::VxCompIter<#l>);
                }
            } else if last.ident == "AsRef" && last.arguments.to_token_stream().to_string().contains("Path") {
                tb.path = parse_quote!(crate::vxp::VxAsPath);
            } else if last.ident == "FnMut" {
                // stronger on the argument; the callers' closures capture nothing mutably (else: type error)
                tb.path.segments.last_mut().unwrap().ident = format_ident!("Fn");
            }
        }
    }
}

// ---------------------------------------------------------------- macros

struct MacroExpand {
    unsupported: Vec<String>,
}

enum Piece {
    Lit(String),
    Arg(String, String), // argument name or "", format spec
}

fn pieces(fmt: &str) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut it = fmt.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                cur.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                cur.push('}');
            }
            '{' => {
                if !cur.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut cur)));
                }
                let mut spec = String::new();
                for d in it.by_ref() {
                    if d == '}' {
                        break;
                    }
                    spec.push(d);
                }
                let (n, s) = spec.split_once(':').unwrap_or((&spec, ""));
                out.push(Piece::Arg(n.to_owned(), s.to_owned()));
            }
            '}' => return None,
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        out.push(Piece::Lit(cur));
    }
    Some(out)
}

impl MacroExpand {
    fn fmt_stmts(&mut self, dst: &Expr, args: &[Expr], newline: bool) -> Option<Vec<Stmt>> {
        let lit = match args.first() {
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
            None => String::new(),
            _ => return None,
        };
        let mut ps = pieces(&lit)?;
        if newline {
            ps.push(Piece::Lit("\n".into()));
        }
        let mut next = 1;
        let mut out = vec![];
        for p in ps {
            match p {
                Piece::Lit(s) => out.push(parse_quote!(#dst.vx_lit(#s);)),
                Piece::Arg(n, spec) => {
                    let arg: Expr = if n.is_empty() {
                        let a = args.get(next)?.clone();
                        next += 1;
                        a
                    } else if let Ok(i) = n.parse::<usize>() {
                        args.get(i + 1)?.clone()
                    } else {
                        let id = Ident::new(&n, PSpan::call_site());
                        parse_quote!(#id)
                    };
                    let arg: Expr = match arg {
                        Expr::Reference(r) => *r.expr,
                        a => a,
                    };
                    let m = match spec.as_str() {
                        "" => "vx_disp",
                        "03o" => "vx_oct3",
                        ".1" => "vx_fix1",
                        "02x" => "vx_hex2",
                        "o" => "vx_oct",
                        "x" => "vx_hex",
                        "?" => "vx_debug",
                        _ => return None,
                    };
                    let m = format_ident!("{}", m);
                    out.push(parse_quote!(#dst.#m(&#arg);));
                }
            }
        }
        Some(out)
    }

    fn expand(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        let list = |m: &Macro| -> Option<Vec<Expr>> {
            m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                .ok()
                .map(|p| p.into_iter().collect())
        };
        match name.as_str() {
            "matches" => {
                let p = |input: syn::parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = input.parse()?;
                    input.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(Token![if]) {
                        input.parse::<Token![if]>()?;
                        Some(input.parse()?)
                    } else {
                        None
                    };
                    let _ = input.parse::<Option<Token![,]>>()?;
                    Ok((e, p, g))
                };
                let (e, p, g) = p.parse2(mac.tokens.clone()).ok()?;
                Some(match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                })
            }
            "vec" => {
                let l = list(mac)?;
                if l.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                Some(parse_quote!({ let mut vx_v = Vec::new(); #(vx_v.push(#l);)* vx_v }))
            }
            "format" => {
                let l = list(mac)?;
                let dst: Expr = parse_quote!(vx_s);
                let st = self.fmt_stmts(&dst, &l, false)?;
                Some(parse_quote!({ let mut vx_s = ::std::string::String::new(); #(#st)* vx_s }))
            }
            "write" | "writeln" => {
                let mut l = list(mac)?;
                let mut paren = false;
                if let Expr::Reference(r) = &l[0] {
                    l[0] = (*r.expr).clone();
                    paren = true;
                }
                let st = self.fmt_stmts(&l[0], &l[1..], name == "writeln")?;
                if paren {
                    Some(parse_quote!(({ #(#st)* crate::vx::fmt_ok() })))
                } else {
                    Some(parse_quote!({ #(#st)* crate::vx::fmt_ok() }))
                }
            }
            "debug_assert" | "assert" => {
                let l = list(mac)?;
                let c = &l[0];
                Some(parse_quote!(crate::vx::vx_assert(#c)))
            }
            "debug_assert_eq" | "assert_eq" => {
                let l = list(mac)?;
                let (a, b) = (&l[0], &l[1]);
                Some(parse_quote!(crate::vx::vx_assert(#a == #b)))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(crate::vx::vx_unreachable())),
            _ => None,
        }
    }
}

impl VisitMut for MacroExpand {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            match self.expand(&m.mac) {
                Some(x) => *e = x,
                None => self.unsupported.push(m.mac.path.to_token_stream().to_string()),
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            match self.expand(&m.mac) {
                Some(x) => *s = Stmt::Expr(x, m.semi_token),
                None => self.unsupported.push(m.mac.path.to_token_stream().to_string()),
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

// ---------------------------------------------------------------- or-patterns under a guard

/// All or-free alternatives of a pattern, in the order they are tried.
fn alternatives(p: &Pat) -> Vec<Pat> {
    fn many<'p>(ps: impl Iterator<Item = &'p Pat>) -> Vec<Vec<Pat>> {
        let mut acc: Vec<Vec<Pat>> = vec![vec![]];
        for p in ps {
            let alts = alternatives(p);
            acc = acc
                .iter()
                .flat_map(|pre| alts.iter().map(move |a| { let mut v = pre.clone(); v.push(a.clone()); v }))
                .collect();
        }
        acc
    }
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(alternatives).collect(),
        Pat::Paren(x) => alternatives(&x.pat),
        Pat::Tuple(t) => many(t.elems.iter())
            .into_iter()
            .map(|v| { let mut t = t.clone(); t.elems = v.into_iter().collect(); Pat::Tuple(t) })
            .collect(),
        Pat::TupleStruct(t) => many(t.elems.iter())
            .into_iter()
            .map(|v| { let mut t = t.clone(); t.elems = v.into_iter().collect(); Pat::TupleStruct(t) })
            .collect(),
        Pat::Struct(t) => many(t.fields.iter().map(|f| &*f.pat))
            .into_iter()
            .map(|v| {
                let mut t = t.clone();
                for (f, x) in t.fields.iter_mut().zip(v) {
                    *f.pat = x;
                }
                Pat::Struct(t)
            })
            .collect(),
        _ => vec![p.clone()],
    }
}

/// Raw identifiers as names of variables (`r#type`) reach the SMT solver unquoted: `vx_type`.
pub struct RawLocals;
fn unraw(i: &Ident) -> Option<Ident> {
    let s = i.to_string();
    s.strip_prefix("r#").map(|n| Ident::new(&format!("vx_{n}"), i.span()))
}
impl VisitMut for RawLocals {
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            if let Member::Named(i) = &f.member {
                if unraw(i).is_some() {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            if let Member::Named(i) = &f.member {
                if unraw(i).is_some() {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = unraw(&p.ident) {
            p.ident = n;
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            if let Some(n) = unraw(&p.path.segments[0].ident) {
                p.path.segments[0].ident = n;
            }
        }
    }
}

/// Verus rejects an arm with both an or-pattern and a guard: one arm per alternative.
struct SplitGuards;
impl VisitMut for SplitGuards {
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        visit_mut::visit_expr_match_mut(self, m);
        let mut arms = vec![];
        for a in std::mem::take(&mut m.arms) {
            let alts = if a.guard.is_some() { alternatives(&a.pat) } else { vec![] };
            if alts.len() > 1 {
                for p in alts {
                    let mut b = a.clone();
                    b.pat = p;
                    arms.push(b);
                }
            } else {
                arms.push(a);
            }
        }
        m.arms = arms;
        guards_to_ifs(m);
    }
}

/// A guarded arm that binds by mutable reference (`match v.last_mut()`) is not supported: where no
/// other arm but a final `_` can take the value after the guard fails, test the guard inside the arm.
fn guards_to_ifs(m: &mut ExprMatch) {
    let scrut = { let s = &m.expr; quote::quote!(#s).to_string() };
    if !scrut.contains("last_mut") || m.arms.iter().all(|a| a.guard.is_none()) {
        return;
    }
    let Some(last) = m.arms.last() else { return };
    if !matches!(last.pat, Pat::Wild(_)) || last.guard.is_some() {
        return;
    }
    fn head(p: &Pat) -> Option<String> {
        match p {
            Pat::TupleStruct(t) if t.elems.len() == 1 && t.path.is_ident("Some") => match &t.elems[0] {
                Pat::Struct(s) => { let p = &s.path; Some(quote::quote!(#p).to_string()) }
                Pat::TupleStruct(s) => { let p = &s.path; Some(quote::quote!(#p).to_string()) }
                _ => None,
            },
            _ => None,
        }
    }
    let n = m.arms.len() - 1;
    let heads: Vec<_> = m.arms[..n].iter().map(|a| head(&a.pat)).collect();
    if heads.iter().any(|h| h.is_none()) {
        return;
    }
    let mut sorted: Vec<_> = heads.iter().collect();
    sorted.sort();
    sorted.dedup();
    if sorted.len() != n {
        return;
    }
    let rest = m.arms[n].body.clone();
    for a in &mut m.arms[..n] {
        if let Some((_, g)) = a.guard.take() {
            let body = &a.body;
            a.body = parse_quote!({ if #g { #body } else { #rest } });
        }
    }
}

// ---------------------------------------------------------------- combinators

/// A closure body that leaves the closure early cannot be put in place of the call.
struct Leaves(bool);
impl<'ast> Visit<'ast> for Leaves {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn leaves(e: &Expr) -> bool {
    let mut l = Leaves(false);
    l.visit_expr(e);
    l.0
}

/// Does the method chain still denote an iterator (as opposed to an `Option` or a `Result`)?
fn iterish(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => iterish(&p.expr),
        Expr::Range(_) => true,
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "iter" | "iter_mut" | "into_iter" | "chars" | "bytes" | "char_indices" | "files" | "lines" | "split"
            | "components" | "windows" | "chunks" | "drain" | "keys" | "values" | "match_indices" | "ancestors"
            | "split_whitespace" | "rsplit" | "splitn" | "char_ranges" => true,
            "map" | "filter" | "skip" | "rev" | "enumerate" | "cloned" | "copied" | "as_ref" | "as_deref" | "as_mut"
            | "inspect" | "zip" | "chain" | "by_ref" | "peekable" | "filter_map" | "flat_map" | "flatten"
            | "skip_while" | "take_while" | "step_by" => iterish(&m.receiver),
            "take" => !m.args.is_empty() && iterish(&m.receiver),
            _ => false,
        },
        _ => false,
    }
}

/// The closure-taking combinators of `Option`, `Result` and `bool` as the `match` or `if` they
/// stand for, so that the closure's body is checked in place.
struct Combinators {
    lexcb: bool,
    n: usize,
}
impl Combinators {
    fn rewrite(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let r = &m.receiver;
        if m.turbofish.is_some() || iterish(r) {
            return None;
        }
        let name = m.method.to_string();
        let cl = |i: usize, n: usize| -> Option<(Vec<Pat>, Expr)> {
            match m.args.get(i)? {
                Expr::Closure(c) if c.inputs.len() == n && !leaves(&c.body) => {
                    Some((c.inputs.iter().map(|p| match p {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    }).collect(), (*c.body).clone()))
                }
                _ => None,
            }
        };
        self.n += 1;
        let v = format_ident!("vx_cv_{}", self.n);
        let w = format_ident!("vx_cw_{}", self.n);
        let args: Vec<&Expr> = m.args.iter().collect();
        Some(match (name.as_str(), args.as_slice()) {
            ("filter", [_]) => {
                let (p, b) = cl(0, 1)?;
                let p = &p[0];
                parse_quote!(match #r { Some(#v) => if { let #p = &#v; #b } { Some(#v) } else { None }, None => None })
            }
            ("is_some_and", [_]) => {
                let (p, b) = cl(0, 1)?;
                let p = &p[0];
                parse_quote!((match #r { Some(#p) => #b, None => false }))
            }
            ("is_none_or", [_]) => {
                let (p, b) = cl(0, 1)?;
                let p = &p[0];
                parse_quote!((match #r { Some(#p) => #b, None => true }))
            }
            ("is_ok_and", [_]) => {
                let (p, b) = cl(0, 1)?;
                let p = &p[0];
                parse_quote!((match #r { Ok(#p) => #b, Err(_) => false }))
            }
            ("map_or", [d, _]) => {
                let (p, b) = cl(1, 1)?;
                let p = &p[0];
                parse_quote!({ let #v = #r; let #w = #d; match #v { Some(#p) => #b, None => #w } })
            }
            ("map_or_else", [_, _]) => {
                let (_, d) = cl(0, 0)?;
                let (p, b) = cl(1, 1)?;
                let p = &p[0];
                parse_quote!((match #r { Some(#p) => #b, None => #d }))
            }
            ("or_else", [_]) if !self.lexcb => match cl(0, 0) {
                Some((_, b)) => parse_quote!((match #r { Some(#v) => Some(#v), None => #b })),
                None => {
                    let (p, b) = cl(0, 1)?;
                    let p = &p[0];
                    parse_quote!((match #r { Ok(#v) => Ok(#v), Err(#p) => #b }))
                }
            },
            ("unwrap_or_else", [_]) if !self.lexcb => match cl(0, 0) {
                Some((_, b)) => parse_quote!((match #r { Some(#v) => #v, None => #b })),
                None => {
                    let (p, b) = cl(0, 1)?;
                    let p = &p[0];
                    parse_quote!((match #r { Ok(#v) => #v, Err(#p) => #b }))
                }
            },
            ("ok_or_else", [_]) if !self.lexcb => {
                let (_, b) = cl(0, 0)?;
                parse_quote!((match #r { Some(#v) => Ok(#v), None => Err(#b) }))
            }
            ("then", [_]) => {
                let (_, b) = cl(0, 0)?;
                parse_quote!((if #r { Some(#b) } else { None }))
            }
            ("copied", []) => parse_quote!((match #r { Some(#v) => Some(*#v), None => None })),
            ("then_some", [x]) => parse_quote!({ let #v = #r; let #w = #x; if #v { Some(#w) } else { None } }),
            ("or", [x]) => parse_quote!({ let #v = #r; let #w = #x; match #v { Some(#v) => Some(#v), None => #w } }),
            _ => None?,
        })
    }
}
impl VisitMut for Combinators {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                // `(a..b).contains(&x)`
                if let (true, Expr::Paren(p), Some(Expr::Reference(x))) = (m.method == "contains", &*m.receiver, m.args.first()) {
                    if let Expr::Range(g) = &*p.expr {
                        let x = &x.expr;
                        if matches!(&**x, Expr::Path(_) | Expr::Field(_) | Expr::Lit(_) | Expr::Unary(_)) {
                            let lo: Option<Expr> = g.start.as_ref().map(|a| parse_quote!((#a) <= (#x)));
                            let hi: Option<Expr> = g.end.as_ref().map(|b| match g.limits {
                                RangeLimits::HalfOpen(_) => parse_quote!((#x) < (#b)),
                                _ => parse_quote!((#x) <= (#b)),
                            });
                            match (lo, hi) {
                                (Some(a), Some(b)) => *e = parse_quote!((#a && #b)),
                                (Some(a), None) => *e = parse_quote!((#a)),
                                (None, Some(b)) => *e = parse_quote!((#b)),
                                _ => {}
                            }
                            return;
                        }
                    }
                }
                if let Some(x) = self.rewrite(m) {
                    *e = x;
                }
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                let a: Vec<&Expr> = c.args.iter().collect();
                if let [x, y] = a.as_slice() {
                    let n: Expr = match f.as_str() {
                        "std::cmp::max" | "cmp::max" | "core::cmp::max" => parse_quote!({ let vx_a = #x; let vx_b = #y; if vx_b >= vx_a { vx_b } else { vx_a } }),
                        "std::cmp::min" | "cmp::min" | "core::cmp::min" => parse_quote!({ let vx_a = #x; let vx_b = #y; if vx_a <= vx_b { vx_a } else { vx_b } }),
                        "std::mem::replace" | "mem::replace" | "core::mem::replace" => parse_quote!(crate::vx::vx_replace(#x, #y)),
                        _ => return,
                    };
                    *e = n;
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- numbering

struct Number<'v> {
    loops: &'v mut Vec<String>,
    closures: &'v mut usize,
}

impl VisitMut for Number<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let n = self.loops.len();
        let marker = format_ident!("__vx_loop_{}", n);
        match e {
            Expr::ForLoop(l) => {
                self.loops.push("for".into());
                let it = format_ident!("__vx_it_{}", n);
                let x = &l.expr;
                *l.expr = parse_quote!(#it(#x));
                l.body.stmts.insert(0, parse_quote!(#marker();));
            }
            Expr::While(l) => {
                self.loops.push("while".into());
                l.body.stmts.insert(0, parse_quote!(#marker();));
            }
            Expr::Loop(l) => {
                self.loops.push("loop".into());
                l.body.stmts.insert(0, parse_quote!(#marker();));
            }
            Expr::Closure(_) => {
                let id = format_ident!("__vx_closure_{}", *self.closures);
                *self.closures += 1;
                let c = e.clone();
                *e = parse_quote!(#id(#c));
                if let Expr::Call(call) = e {
                    if let Expr::Closure(c) = &mut call.args[0] {
                        visit_mut::visit_expr_closure_mut(self, c);
                    }
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- main pass

pub struct Desugar<'a> {
    consts: &'a Consts,
    floatneg: bool,
    pub loops: Vec<String>,
    pub closures: usize,
    pub unsupported: Vec<String>,
    /// parameters of type `&mut T`
    pub refs: Vec<String>,
    /// `?` converts the error
    pub tryfrom: bool,
    /// has a parameter of a resolver's type
    pub resolver: bool,
    /// a lexer callback
    pub lexcb: bool,
    fresh: usize,
}

const RENAMES: &[(&str, &str)] = &[
    ("clone", "vclone"),
    ("to_string", "vx_to_string"),
    ("to_owned", "vx_to_owned"),
    ("into", "vx_into"),
    ("cmp", "vx_cmp"),
    ("into_owned", "vx_into_owned"),
    ("is_ascii_alphabetic", "vx_is_ascii_alphabetic"),
    ("is_ascii_alphanumeric", "vx_is_ascii_alphanumeric"),
    ("is_ascii_uppercase", "vx_is_ascii_uppercase"),
    ("is_ascii_lowercase", "vx_is_ascii_lowercase"),
    ("is_ascii_digit", "vx_is_ascii_digit"),
    ("to_ascii_uppercase", "vx_to_ascii_uppercase"),
    ("to_ascii_lowercase", "vx_to_ascii_lowercase"),
    ("make_ascii_lowercase", "vx_make_ascii_lowercase"),
    ("starts_with", "vx_starts_with"),
    ("ends_with", "vx_ends_with"),
    ("contains", "vx_contains"),
    ("write_str", "vx_write_str"),
    ("write_char", "vx_write_char"),
    ("fmt", "vx_fmt"),
    ("as_bytes", "vx_as_bytes"),
    ("transpose", "vx_transpose"),
    ("as_deref", "vx_as_deref"),
    ("fract", "vx_fract"),
    ("is_nan", "vx_is_nan"),
    ("binary_search", "vx_binary_search"),
    ("unwrap_or_default", "vx_unwrap_or_default"),
    ("extend_from_slice", "vx_extend_slice"),
    ("resize", "vx_resize"),
];

fn closure_of(e: &Expr) -> Option<ExprClosure> {
    match e {
        Expr::Closure(c) => Some(c.clone()),
        Expr::Call(c) => match (&*c.func, c.args.first()) {
            (Expr::Path(p), Some(Expr::Closure(cl)))
                if p.path.segments.last().unwrap().ident.to_string().starts_with("__vx_closure_") =>
            {
                Some(cl.clone())
            }
            _ => None,
        },
        _ => None,
    }
}

fn method<'e>(e: &'e Expr, name: &str) -> Option<&'e ExprMethodCall> {
    match e {
        Expr::MethodCall(m) if m.method == name => Some(m),
        _ => None,
    }
}

fn slice_of(e: &Expr) -> Expr {
    match e {
        Expr::Index(_) => parse_quote!(&#e),
        _ => parse_quote!(#e.vx_slice()),
    }
}

/// The base of an iterator chain, as a Vec.
fn iter_base(e: &Expr) -> Option<Expr> {
    if let Some(m) = method(e, "match_indices") {
        let (r, a) = (&m.receiver, &m.args[0]);
        return Some(parse_quote!(crate::vx::vx_match_indices(#r, #a)));
    }
    if let Some(m) = method(e, "chars") {
        let r = &m.receiver;
        return Some(parse_quote!(crate::vx::vx_chars(#r)));
    }
    if let Some(m) = method(e, "split") {
        let (r, a) = (&m.receiver, &m.args[0]);
        return Some(parse_quote!(crate::vx::vx_split(#r, #a)));
    }
    if let Some(m) = method(e, "components") {
        let r = &m.receiver;
        return Some(parse_quote!(#r.vx_components()));
    }
    if let Some(m) = method(e, "enumerate") {
        if let Some(it) = method(&m.receiver, "iter") {
            let s = slice_of(&it.receiver);
            return Some(parse_quote!(crate::vx::vx_enumerate(#s)));
        }
    }
    if let Some(m) = method(e, "files") {
        if m.args.is_empty() {
            return Some(e.clone());
        }
    }
    if let Some(m) = method(e, "filter") {
        let b = iter_base(&m.receiver).unwrap_or_else(|| (*m.receiver).clone());
        let c = &m.args[0];
        return Some(parse_quote!(crate::vx::vx_filter(#b, #c)));
    }
    None
}

struct HasCall(bool);
impl<'ast> Visit<'ast> for HasCall {
    fn visit_expr_call(&mut self, _: &'ast ExprCall) {
        self.0 = true;
    }
    fn visit_expr_method_call(&mut self, _: &'ast ExprMethodCall) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
}

struct BreakVal {
    depth: usize,
    found: bool,
    var: Ident,
    rewrite: bool,
}
impl VisitMut for BreakVal {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
            }
            Expr::Closure(_) => {}
            Expr::Break(b) if b.expr.is_some() && self.depth == 0 && b.label.is_none() => {
                visit_mut::visit_expr_break_mut(self, b);
                self.found = true;
                if self.rewrite {
                    let v = &self.var;
                    let x = b.expr.take().unwrap();
                    *e = parse_quote!({ #v = #x; break; });
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

// ---------------------------------------------------------------- continue in for loops

struct ForContinue;
impl ForContinue {
    fn is_cont(e: &Expr) -> bool {
        match e {
            Expr::Continue(c) => c.label.is_none(),
            Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, _)) if Self::is_cont(e)),
            _ => false,
        }
    }
    fn block(b: &mut Block) {
        // `if c { ..; continue; } rest` => `if c { .. } else { rest }`
        for i in 0..b.stmts.len().saturating_sub(1) {
            if let Stmt::Expr(Expr::If(x), _) = &b.stmts[i] {
                if x.else_branch.is_none() && matches!(x.then_branch.stmts.last(), Some(Stmt::Expr(e, _)) if Self::is_cont(e)) {
                    let rest = b.stmts.split_off(i + 1);
                    if let Stmt::Expr(Expr::If(x), _) = &mut b.stmts[i] {
                        x.else_branch = Some((Default::default(), parse_quote!({ #(#rest)* })));
                    }
                    break;
                }
            }
        }
        match b.stmts.last_mut() {
            Some(Stmt::Expr(e, _)) if Self::is_cont(e) && matches!(e, Expr::Continue(_)) => {
                b.stmts.pop();
            }
            Some(Stmt::Expr(e, _)) => Self::tail(e),
            _ => {}
        }
    }
    fn tail(e: &mut Expr) {
        match e {
            Expr::Continue(c) if c.label.is_none() => *e = parse_quote!({}),
            Expr::Block(b) if b.label.is_none() => Self::block(&mut b.block),
            Expr::If(x) => {
                Self::block(&mut x.then_branch);
                if let Some((_, e)) = &mut x.else_branch {
                    Self::tail(e);
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| Self::tail(&mut a.body)),
            _ => {}
        }
    }
}
impl VisitMut for ForContinue {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        Self::block(&mut f.body);
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
}

fn loop_no(b: &Block) -> Option<String> {
    if let Some(Stmt::Expr(Expr::Call(c), _)) = b.stmts.first() {
        let s = c.func.to_token_stream().to_string();
        return s.strip_prefix("__vx_loop_").map(|s| s.to_owned());
    }
    None
}

impl<'a> Desugar<'a> {
    pub fn new(consts: &'a Consts, floatneg: bool) -> Self {
        Desugar { consts, floatneg, loops: vec![], closures: 0, unsupported: vec![], refs: vec![], tryfrom: false, resolver: false, lexcb: false, fresh: 0 }
    }

    pub fn run(&mut self, b: &mut Block) {
        let mut m = MacroExpand { unsupported: vec![] };
        m.visit_block_mut(b);
        self.unsupported.extend(m.unsupported.iter().map(|m| format!("macro {m}!")));
        RawLocals.visit_block_mut(b);
        SplitGuards.visit_block_mut(b);
        ForContinue.visit_block_mut(b);
        Combinators { lexcb: self.lexcb, n: 0 }.visit_block_mut(b);
        Number { loops: &mut self.loops, closures: &mut self.closures }.visit_block_mut(b);
        self.visit_block_mut(b);
    }

    fn const_of(&self, p: &Path) -> Option<&Expr> {
        let n = p.segments.len();
        if n >= 2 {
            let k = format!("{}::{}", p.segments[n - 2].ident, p.segments[n - 1].ident);
            return self.consts.assoc.get(&k);
        }
        None
    }

    fn fresh(&mut self, s: &str) -> Ident {
        self.fresh += 1;
        format_ident!("vx_{}_{}", s, self.fresh)
    }

    fn rewrite_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        // `x @ P => body` (at the top of an arm): bind the scrutinee first
        if m.arms.iter().any(|a| matches!(&a.pat, Pat::Ident(i) if i.subpat.is_some())) {
            if m.arms.iter().any(|a| a.guard.is_some()) {
                self.unsupported.push("@ pattern with a guard".into());
                return None;
            }
            let mut m = m.clone();
            let id = self.fresh("m");
            for a in m.arms.iter_mut() {
                if let Pat::Ident(i) = &a.pat {
                    if let Some((_, p)) = &i.subpat {
                        let (name, p, b) = (&i.ident, p.clone(), &a.body);
                        let b: Expr = parse_quote!({ let #name = #id; #b });
                        a.body = Box::new(b);
                        a.pat = match *p {
                            Pat::Paren(x) => *x.pat,
                            p => p,
                        };
                    }
                }
            }
            let x = std::mem::replace(&mut *m.expr, parse_quote!(#id));
            return Some(parse_quote!({ let #id = #x; #m }));
        }
        let is_bytes = |p: &Pat| matches!(p, Pat::Lit(PatLit { lit: Lit::ByteStr(_), .. }));
        let is_slice = |p: &Pat| matches!(p, Pat::Slice(_));
        if m.arms.iter().any(|a| is_bytes(&a.pat)) {
            let x = &m.expr;
            let mut out: Option<Expr> = None;
            for a in m.arms.iter().rev() {
                let body = &a.body;
                let next = match &a.pat {
                    Pat::Lit(PatLit { lit: Lit::ByteStr(b), .. }) => {
                        let bytes = b.value();
                        let rest = out?;
                        parse_quote!(if crate::vx::vx_bytes_eq(vx_m, &[#(#bytes),*]) { #body } else { #rest })
                    }
                    Pat::Ident(id) if a.guard.is_none() => {
                        let id = &id.ident;
                        parse_quote!({ let #id = vx_m; #body })
                    }
                    Pat::Wild(_) if a.guard.is_none() => parse_quote!({ #body }),
                    _ => return None,
                };
                out = Some(next);
            }
            let out = out?;
            return Some(parse_quote!({ let vx_m = #x; #out }));
        }
        if m.arms.iter().any(|a| is_slice(&a.pat)) {
            if m.arms.len() == 2 {
                if let (Pat::Slice(s), Pat::Wild(_)) = (&m.arms[0].pat, &m.arms[1].pat) {
                    if s.elems.len() == 1 && !matches!(s.elems[0], Pat::Rest(_)) {
                        let x = &m.expr;
                        let p = &s.elems[0];
                        let g = m.arms[0].guard.as_ref().map(|(_, g)| quote!(if #g));
                        let (a, b) = (&m.arms[0].body, &m.arms[1].body);
                        return Some(parse_quote!({
                            let vx_m = #x;
                            if vx_m.len() == 1 { match &vx_m[0] { #p #g => #a, _ => #b } } else { #b }
                        }));
                    }
                }
            }
            self.unsupported.push("slice pattern".into());
        }
        None
    }

    /// Operations on text that only the lexer callbacks use.
    fn rewrite_lexcb(&mut self, e: &Expr) -> Option<Expr> {
        let text = |e: &Expr| e.to_token_stream().to_string().replace(' ', "");
        match e {
            Expr::Reference(r) if r.mutability.is_none() => {
                let Expr::Index(i) = &*r.expr else { return None };
                let b = &i.expr;
                match &*i.index {
                    Expr::Range(g) => {
                        if !matches!(g.limits, RangeLimits::HalfOpen(_)) {
                            return None;
                        }
                        Some(match (&g.start, &g.end) {
                            (Some(x), Some(y)) => parse_quote!(#b.vx_sub(#x, #y)),
                            (Some(x), None) => parse_quote!(#b.vx_from(#x)),
                            (None, Some(y)) => parse_quote!(#b.vx_sub(0, #y)),
                            (None, None) => parse_quote!(#b.vx_from(0)),
                        })
                    }
                    x => {
                        let t = text(b);
                        if [".source()", ".slice()", ".remainder()"].iter().any(|m| t.ends_with(m)) {
                            Some(parse_quote!(#b.vx_sub_range(#x)))
                        } else {
                            None
                        }
                    }
                }
            }
            Expr::Call(c) => {
                let s = text(&c.func);
                let args = &c.args;
                match s.as_str() {
                    "u64::from_str_radix" => Some(parse_quote!(vx_u64_from_str_radix(#args))),
                    "u32::from_str_radix" => Some(parse_quote!(vx_u32_from_str_radix(#args))),
                    "char::from_u32" => Some(parse_quote!(vx_char_from_u32(#args))),
                    "Cow::Borrowed" => Some(parse_quote!(vx_borrowed(#args))),
                    "Cow::Owned" => Some(parse_quote!(vx_owned(#args))),
                    "Default::default" => Some(parse_quote!(vx_default())),
                    _ if s.ends_with("::lexer") => {
                        let t = s.trim_end_matches("::lexer");
                        let id: Path = syn::parse_str(t).ok()?;
                        Some(parse_quote!(crate::lex::VxSub::<#id>::vx_new(#args)))
                    }
                    _ => None,
                }
            }
            Expr::MethodCall(m) => {
                let (r, a) = (&m.receiver, &m.args);
                let a0 = a.first();
                match m.method.to_string().as_str() {
                    "len" => Some(parse_quote!(#r.vx_len())),
                    "next" => {
                        if let Some(c) = method(r, "chars") {
                            let r = &c.receiver;
                            return Some(parse_quote!(#r.vx_first_char()));
                        }
                        if let Some(c) = method(r, "bytes") {
                            let r = &c.receiver;
                            return Some(parse_quote!(#r.vx_first_byte()));
                        }
                        None
                    }
                    "encode_utf8" => Some(parse_quote!(vx_encode_utf8(#r, #a))),
                    "get_or_insert_with" if a0.map(text).as_deref() == Some("Cow::default") => Some(parse_quote!(#r.vx_get_or_default())),
                    "get_or_insert_with" if a0.map(text).as_deref() == Some("Default::default") => Some(parse_quote!(#r.vx_get_or_default())),
                    "get_or_insert_default" => Some(parse_quote!(#r.vx_get_or_default())),
                    "last_mut" => Some(parse_quote!(vx_last_mut(&mut #r))),
                    "or_else" => {
                        let c = closure_of(a0?)?;
                        let b = &c.body;
                        Some(parse_quote!(match #r { Some(vx_v) => Some(vx_v), None => #b }))
                    }
                    "into" => Some(parse_quote!(vx_borrowed(#r))),
                    "strip_prefix" => Some(parse_quote!(#r.vx_strip_prefix(#a))),
                    "try_into" => Some(parse_quote!(#r.vx_try_u8())),
                    "parse" => Some(parse_quote!(#r.vx_parse_f64())),
                    "replace" => Some(parse_quote!(#r.vx_replace(#a))),
                    "trim_start_matches" => Some(parse_quote!(#r.vx_trim_start_matches(&#a))),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn rewrite(&mut self, e: Expr) -> Expr {
        if self.lexcb {
            if let Some(x) = self.rewrite_lexcb(&e) {
                return x;
            }
        }
        match &e {
            Expr::Path(p) => {
                if let Some(c) = self.const_of(&p.path) {
                    let mut c = c.clone();
                    self.visit_expr_mut(&mut c);
                    return c;
                }
                let s = p.path.to_token_stream().to_string().replace(' ', "");
                match s.as_str() {
                    "f64::NAN" => return parse_quote!(crate::vx::vx_f64_nan()),
                    "f64::INFINITY" => return parse_quote!(crate::vx::vx_f64_infinity()),
                    _ => {}
                }
                e
            }
            Expr::Cast(c) => {
                if let Type::Infer(_) = &*c.ty {
                    let x = &c.expr;
                    return parse_quote!(#x as i32);
                }
                if c.ty.to_token_stream().to_string() == "f64" {
                    let x = &c.expr;
                    return parse_quote!(crate::vx::vx_u64_as_f64(#x));
                }
                e
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) && self.floatneg => {
                let x = &u.expr;
                parse_quote!(crate::vx::vx_f64_neg(#x))
            }
            Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, Expr::Array(a) if (1..=3).contains(&a.elems.len())) => {
                let Expr::Array(a) = &*r.expr else { unreachable!() };
                let f = format_ident!("vx_arr{}", a.elems.len());
                let el = &a.elems;
                parse_quote!(&crate::vx::#f(#el))
            }
            // `x.fract() == 0.0`
            Expr::Binary(b)
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_))
                    && b.right.to_token_stream().to_string() == "0.0"
                    && method(&b.left, "vx_fract").is_some() =>
            {
                let x = &method(&b.left, "vx_fract").unwrap().receiver;
                match b.op {
                    BinOp::Eq(_) => parse_quote!(crate::vx::vx_fract_is_zero(#x)),
                    _ => parse_quote!(!crate::vx::vx_fract_is_zero(#x)),
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) => {
                if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = &*b.right {
                    let (l, r) = (&b.left, &b.right);
                    return parse_quote!(crate::vx::vx_str_add(#l, #r));
                }
                e
            }
            Expr::Try(t) if self.tryfrom => {
                let x = &t.expr;
                parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_e) => return Err(crate::px_error::VxFrom::vx_from(vx_e)) })
            }
            // a resolver as a trait object
            Expr::Call(c) if self.resolver && c.func.to_token_stream().to_string() == "Box :: new" => {
                let a = &c.args[0];
                parse_quote!(crate::px_file::vx_box(#a))
            }
            // indexing a map by the name of a file
            Expr::Index(i) if method(&i.index, "name").is_some() => {
                let (m, k) = (&i.expr, &i.index);
                parse_quote!((*#m.vx_at(#k)))
            }
            Expr::Match(m) => self.rewrite_match(m).unwrap_or(e),
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x) = (&l.pat, &l.expr);
                    let mut st = w.body.stmts.clone();
                    let mark = st.remove(0);
                    return parse_quote!(loop { #mark match #x { #p => { #(#st)* } _ => { break; } } });
                }
                e
            }
            Expr::Loop(l) => {
                let var = format_ident!("vx_brk_{}", loop_no(&l.body).unwrap_or_default());
                let mut bv = BreakVal { depth: 0, found: false, var: var.clone(), rewrite: true };
                let mut body = l.body.clone();
                bv.visit_block_mut(&mut body);
                if bv.found {
                    return parse_quote!({ let #var; loop #body #var });
                }
                e
            }
            Expr::ForLoop(f) => {
                let mut f = f.clone();
                // the iterated expression
                if let Expr::Call(c) = &mut *f.expr {
                    let inner = c.args[0].clone();
                    if let Some(b) = iter_base(&inner) {
                        c.args[0] = b;
                    } else if let Some(m) = method(&inner, "iter") {
                        c.args[0] = slice_of(&m.receiver);
                    } else if self.refs.contains(&inner.to_token_stream().to_string()) {
                        // `for x in v` with v: &mut Vec: read only (a write is a type error here)
                        c.args[0] = slice_of(&inner);
                    }
                }
                if let Pat::Reference(r) = &*f.pat {
                    let p = r.pat.clone();
                    let id = self.fresh("r");
                    f.pat = parse_quote!(#id);
                    let at = 1.min(f.body.stmts.len());
                    f.body.stmts.insert(at, parse_quote!(let #p = *#id;));
                }
                Expr::ForLoop(f)
            }
            Expr::Closure(c) => {
                let mut c = c.clone();
                let mut pre: Vec<Stmt> = vec![];
                for p in c.inputs.iter_mut() {
                    match p.clone() {
                        Pat::Reference(r) => {
                            let q = &r.pat;
                            let id = self.fresh("p");
                            pre.push(parse_quote!(let #q = *#id;));
                            *p = parse_quote!(#id);
                        }
                        Pat::Tuple(t) => {
                            let id = self.fresh("p");
                            pre.push(parse_quote!(let #t = #id;));
                            *p = parse_quote!(#id);
                        }
                        _ => {}
                    }
                }
                let b = &c.body;
                if !pre.is_empty() {
                    *c.body = parse_quote!({ #(#pre)* #b });
                } else if !matches!(&**b, Expr::Block(_)) {
                    *c.body = parse_quote!({ #b });
                }
                Expr::Closure(c)
            }
            Expr::Call(c) => {
                let s = c.func.to_token_stream().to_string().replace(' ', "");
                let args = &c.args;
                match s.as_str() {
                    "String::from_utf8" | "std::string::String::from_utf8" => {
                        return parse_quote!(crate::vx::vx_from_utf8(#args))
                    }
                    "String::from_utf8_lossy" => return parse_quote!(crate::vx::vx_from_utf8_lossy(#args)),
                    "String::with_capacity" => return parse_quote!(String::new()),
                    "Vec::with_capacity" => return parse_quote!(Vec::new()),
                    "i32::try_from" => return parse_quote!((#args).vx_try_i32()),
                    "u32::try_from" => return parse_quote!((#args).vx_try_u32()),
                    "i64::try_from" => return parse_quote!((#args).vx_try_i64()),
                    "Span::default" => return parse_quote!(crate::vx::vx_span_default()),
                    "take" | "mem::take" | "std::mem::take" => return parse_quote!(crate::vx::vx_take(#args)),
                    "Token::lexer" => return parse_quote!(crate::lex::VxLexer::new(#args)),
                    "ascii::escape_default" => return parse_quote!(crate::lex::vx_escape_default(#args)),
                    "fmt_expected" => return parse_quote!(crate::vx::vx_opaque_string()),
                    _ => {}
                }
                self.hoist_fresh(e)
            }
            Expr::MethodCall(m) => self.rewrite_method(m.clone()),
            Expr::Let(_) => e,
            _ => e,
        }
    }

    fn hoist_fresh(&mut self, mut e: Expr) -> Expr {
        let mut pre: Vec<Stmt> = vec![];
        {
            let args = match &mut e {
                Expr::Call(c) => &mut c.args,
                Expr::MethodCall(c) => &mut c.args,
                _ => return e,
            };
            for a in args.iter_mut() {
                if let Expr::Reference(r) = a {
                    if r.mutability.is_some() && r.expr.to_token_stream().to_string().replace(' ', "") == "Vec::new()" {
                        self.fresh += 1;
                        let id = format_ident!("vx_fresh_{}", self.fresh);
                        pre.push(parse_quote!(let mut #id = Vec::new();));
                        *r.expr = parse_quote!(#id);
                    }
                }
            }
        }
        if pre.is_empty() {
            e
        } else {
            parse_quote!({ #(#pre)* #e })
        }
    }

    fn rewrite_method(&mut self, mut m: ExprMethodCall) -> Expr {
        let name = m.method.to_string();
        let recv = (*m.receiver).clone();
        let arg0 = m.args.first().cloned();
        let chain = iter_base(&recv);
        match name.as_str() {
            "map" | "and_then" if chain.is_none() && method(&recv, "iter").is_none() => {
                if let Some(c) = arg0.as_ref().and_then(closure_of) {
                    if c.inputs.len() == 1 && !leaves(&c.body) {
                        let p = &c.inputs[0];
                        let b = &c.body;
                        return if name == "map" {
                            parse_quote!(match #recv { Some(#p) => Some(#b), None => None })
                        } else {
                            parse_quote!(match #recv { Some(#p) => #b, None => None })
                        };
                    }
                }
            }
            "map_err" => {
                if let Some(c) = arg0.as_ref().and_then(closure_of) {
                    let p = &c.inputs[0];
                    let b = &c.body;
                    return parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) });
                }
                if let Some(Expr::Path(f)) = &arg0 {
                    if f.path.is_ident("drop") {
                        return parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(_) => Err(()) });
                    }
                }
                if let Some(f @ Expr::Path(_)) = &arg0 {
                    return parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(#f(vx_e)) });
                }
            }
            "any" | "all" | "find" | "position" => {
                if let Some(it) = method(&recv, "iter") {
                    let s = slice_of(&it.receiver);
                    let f = format_ident!("vx_{}", name);
                    return parse_quote!(crate::vx::#f(#s, #arg0));
                }
                if let Some(b) = chain {
                    let f = format_ident!("vx_{}", name);
                    return parse_quote!(crate::vx::#f((#b).vx_slice(), #arg0));
                }
            }
            "count" => {
                if let Some(fl) = method(&recv, "filter") {
                    if let Some(it) = method(&fl.receiver, "iter") {
                        let s = slice_of(&it.receiver);
                        let c = &fl.args[0];
                        return parse_quote!(crate::vx::vx_count(#s, #c));
                    }
                }
            }
            "collect" => {
                if let Some(mp) = method(&recv, "map") {
                    let c = &mp.args[0];
                    if let Some(b) = iter_base(&mp.receiver) {
                        return parse_quote!(crate::vx::vx_map_collect(#b, #c));
                    }
                    if let Some(it) = method(&mp.receiver, "into_iter") {
                        let r = &it.receiver;
                        return parse_quote!(crate::vx::vx_map_collect(#r, #c));
                    }
                }
            }
            "next" => {
                if let Some(b) = chain {
                    return parse_quote!(crate::vx::vx_iter_next(#b));
                }
            }
            "sort_unstable_by" | "sort_by" => {
                return parse_quote!(crate::vx::vx_sort_by(&mut #recv, #arg0));
            }
            "extend" => match arg0.as_ref() {
                Some(Expr::Array(a)) => {
                    let f = format_ident!("vx_extend{}", a.elems.len());
                    let el = &a.elems;
                    if (1..=3).contains(&el.len()) {
                        return parse_quote!(crate::vx::#f(&mut #recv, #el));
                    }
                    return parse_quote!(#recv.vx_extend_slice(&#a))
                },
                Some(Expr::MethodCall(t)) if t.method == "take" => {
                    let t: Expr = Expr::MethodCall(t.clone());
                    return parse_quote!({ let vx_t = #t; crate::vx::vx_extend_opt(&mut #recv, vx_t) });
                }
                Some(Expr::MethodCall(t)) if t.method == "as_ref" => {
                    let t: Expr = Expr::MethodCall(t.clone());
                    return parse_quote!(#recv.vx_extend_slice(#t));
                }
                _ => {}
            },
            "len" => {
                let t = recv.to_token_stream().to_string().replace(' ', "");
                if ["source", "source()", "slice()", "remainder()"].iter().any(|x| t == *x || t.ends_with(&format!(".{x}"))) {
                    m.method = format_ident!("vx_len");
                }
            }
            "is_absolute" => {
                if let Expr::Call(c) = &recv {
                    if c.func.to_token_stream().to_string().replace(' ', "") == "Path::new" {
                        let a = &c.args;
                        return parse_quote!(crate::vx::vx_path_is_absolute(#a));
                    }
                }
            }
            "push" => {
                let mut h = HasCall(false);
                if let Some(a) = &arg0 {
                    h.visit_expr(a);
                }
                if h.0 {
                    return parse_quote!({ let vx_t = #arg0; #recv.push(vx_t) });
                }
            }
            _ => {}
        }
        if let Some((_, n)) = RENAMES.iter().find(|(o, _)| *o == name) {
            m.method = format_ident!("{}", n);
        }
        self.hoist_fresh(Expr::MethodCall(m))
    }
}

impl VisitMut for Desugar<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let x = std::mem::replace(e, Expr::Verbatim(Default::default()));
        *e = self.rewrite(x);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Path(x) = p {
            if let Some(c) = self.const_of(&x.path) {
                let t = c.to_token_stream();
                *p = Pat::parse_single.parse2(t).unwrap();
                return;
            }
        }
        if let Pat::Range(r) = p {
            for end in [&mut r.start, &mut r.end].into_iter().flatten() {
                if let Expr::Path(x) = &**end {
                    if let Some(c) = x.path.get_ident().and_then(|i| self.consts.plain.get(&i.to_string())) {
                        **end = c.clone();
                    }
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    // `int` and `nat` are types in Verus
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "int" || i == "nat" {
            *i = format_ident!("vx_{}", i);
        }
    }
    // nested items (functions and enums inside a body) are not part of the skeleton
    fn visit_item_mut(&mut self, i: &mut Item) {
        if matches!(i, Item::Use(_)) {
            return;
        }
        self.unsupported.push("nested item".into());
    }
}

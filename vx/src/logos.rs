//! The regular expressions and callbacks of `#[derive(Logos)]` enums, as specifications.
//!
//! For every enum: the language of every attribute as a predicate over the characters of a token,
//! and one wrapper per callback, so that the callback can be checked for every text its pattern accepts.
use quote::{format_ident, quote, ToTokens};
use regex_syntax::hir::{Class, Hir, HirKind};
use syn::*;

#[derive(Clone, PartialEq)]
struct Piece {
    class: Vec<(u32, u32)>,
    min: u32,
    max: Option<u32>,
}

pub struct Pattern {
    pub text: String,
    pub variant: Ident,
    pub payload: Option<Type>,
    pub callback: Option<Expr>,
    pub unsupported: bool,
}

fn seqs(h: &Hir) -> Option<Vec<Vec<Piece>>> {
    Some(match h.kind() {
        HirKind::Empty => vec![vec![]],
        HirKind::Literal(l) => {
            let s = std::str::from_utf8(&l.0).ok()?;
            vec![s.chars().map(|c| Piece { class: vec![(c as u32, c as u32)], min: 1, max: Some(1) }).collect()]
        }
        HirKind::Class(Class::Unicode(c)) => {
            vec![vec![Piece { class: c.iter().map(|r| (r.start() as u32, r.end() as u32)).collect(), min: 1, max: Some(1) }]]
        }
        HirKind::Class(Class::Bytes(c)) => {
            if c.iter().any(|r| r.end() > 127) {
                return None;
            }
            vec![vec![Piece { class: c.iter().map(|r| (r.start() as u32, r.end() as u32)).collect(), min: 1, max: Some(1) }]]
        }
        HirKind::Look(_) => return None,
        HirKind::Capture(c) => seqs(&c.sub)?,
        HirKind::Concat(hs) => {
            let mut out = vec![vec![]];
            for h in hs {
                let s = seqs(h)?;
                out = out.iter().flat_map(|a: &Vec<Piece>| s.iter().map(move |b| [a.clone(), b.clone()].concat())).collect();
                if out.len() > 64 {
                    return None;
                }
            }
            out
        }
        HirKind::Alternation(hs) => {
            let mut out = vec![];
            for h in hs {
                out.extend(seqs(h)?);
            }
            out
        }
        HirKind::Repetition(r) => {
            let s = seqs(&r.sub)?;
            if s.len() == 1 && s[0].len() == 1 && s[0][0].min == 1 && s[0][0].max == Some(1) {
                vec![vec![Piece { class: s[0][0].class.clone(), min: r.min, max: r.max }]]
            } else if r.min == 0 && r.max == Some(1) {
                let mut out = vec![vec![]];
                out.extend(s);
                out
            } else if Some(r.min) == r.max && r.min <= 16 {
                let mut out = vec![vec![]];
                for _ in 0..r.min {
                    out = out.iter().flat_map(|a: &Vec<Piece>| s.iter().map(move |b| [a.clone(), b.clone()].concat())).collect();
                }
                out
            } else {
                return None;
            }
        }
    })
}

fn merge(s: Vec<Piece>) -> Vec<Piece> {
    let mut out: Vec<Piece> = vec![];
    for p in s {
        match out.last_mut() {
            Some(q) if q.class == p.class => {
                q.min += p.min;
                q.max = match (q.max, p.max) {
                    (Some(a), Some(b)) => Some(a + b),
                    _ => None,
                };
            }
            _ => out.push(p),
        }
    }
    out
}

fn class(c: &[(u32, u32)], e: &str) -> String {
    let v: Vec<String> = c
        .iter()
        .map(|&(a, b)| if a == b { format!("{e} as int == {a}") } else if b == 0x10ffff { format!("{e} as int >= {a}") } else { format!("{a} <= {e} as int <= {b}") })
        .collect();
    if v.is_empty() {
        "false".into()
    } else {
        format!("({})", v.join(" || "))
    }
}

fn plus(at: &str, n: u32) -> String {
    match (at.parse::<u32>(), n) {
        (Ok(a), n) => (a + n).to_string(),
        (_, 0) => at.to_owned(),
        (_, n) => format!("{at} + {n}"),
    }
}

/// The characters of `s` from `at` on match the pieces.
fn formula(ps: &[Piece], at: &str, off: u32, depth: usize) -> String {
    let i = plus(at, off);
    let Some(p) = ps.first() else {
        return format!("s.len() == {i}");
    };
    if p.max == Some(p.min) {
        let mut v = vec![format!("s.len() >= {}", plus(at, off + p.min))];
        for k in 0..p.min {
            v.push(class(&p.class, &format!("s[{}]", plus(at, off + k))));
        }
        v.push(formula(&ps[1..], at, off + p.min, depth));
        return v.join(" && ");
    }
    let mut v = vec![format!("s.len() >= {}", plus(at, off + p.min))];
    if ps.len() == 1 {
        if let Some(m) = p.max {
            v.push(format!("s.len() <= {}", plus(at, off + m)));
        }
        v.push(format!("(forall|x: int| {i} <= x < s.len() ==> {})", class(&p.class, "(#[trigger] s[x])")));
        return v.join(" && ");
    }
    let j = format!("j{depth}");
    let mut w = vec![format!("{} <= {j} <= s.len()", plus(at, off + p.min))];
    if let Some(m) = p.max {
        w.push(format!("{j} <= {}", plus(at, off + m)));
    }
    w.push(format!("(forall|x: int| {i} <= x < {j} ==> {})", class(&p.class, "(#[trigger] s[x])")));
    w.push(formula(&ps[1..], &j, 0, depth + 1));
    v.push(format!("(exists|{j}: int| #[trigger] vx_cut({j}) && {})", w.join(" && ")));
    v.join(" && ")
}

pub fn is_logos(e: &ItemEnum) -> bool {
    e.attrs.iter().any(|a| a.path().is_ident("derive") && a.meta.to_token_stream().to_string().contains("Logos"))
}

struct RegexArgs {
    lit: LitStr,
    cb: Option<Expr>,
    other: bool,
}
impl parse::Parse for RegexArgs {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let lit = i.parse()?;
        let mut cb = None;
        let mut other = false;
        while i.peek(Token![,]) {
            i.parse::<Token![,]>()?;
            if i.is_empty() {
                break;
            }
            if i.peek(Ident) && i.peek2(Token![=]) {
                let k: Ident = i.parse()?;
                i.parse::<Token![=]>()?;
                let e: Expr = i.parse()?;
                if k == "callback" {
                    cb = Some(e);
                } else {
                    other = true;
                }
            } else {
                cb = Some(i.parse()?);
            }
        }
        Ok(RegexArgs { lit, cb, other })
    }
}

/// Reads the patterns of an enum; gives them with their language written as a formula over `s`.
pub fn patterns(e: &ItemEnum) -> (Vec<Pattern>, Vec<String>) {
    let mut subs: Vec<(String, String)> = vec![];
    let mut skips = vec![];
    for a in &e.attrs {
        if a.path().is_ident("logos") {
            let t = match &a.meta {
                Meta::List(l) => l.tokens.clone(),
                _ => continue,
            };
            let v: Vec<proc_macro2::TokenTree> = t.into_iter().collect();
            let lit = v.last().and_then(|t| syn::parse2::<LitStr>(t.clone().into()).ok());
            match (v.first().map(|t| t.to_string()).as_deref(), lit) {
                (Some("subpattern"), Some(l)) => subs.push((v[1].to_string(), l.value())),
                (Some("skip"), Some(l)) => skips.push(l.value()),
                _ => {}
            }
        }
    }
    let mut out = vec![];
    for v in &e.variants {
        let payload = match &v.fields {
            Fields::Unnamed(f) if f.unnamed.len() == 1 => Some(f.unnamed[0].ty.clone()),
            _ => None,
        };
        for a in &v.attrs {
            let is_re = a.path().is_ident("regex");
            if !is_re && !a.path().is_ident("token") {
                continue;
            }
            let Ok(args) = a.parse_args::<RegexArgs>() else {
                out.push(Pattern { text: String::new(), variant: v.ident.clone(), payload: payload.clone(), callback: None, unsupported: true });
                continue;
            };
            let mut re = args.lit.value();
            if is_re {
                for (n, p) in subs.iter().rev() {
                    re = re.replace(&format!("(?&{n})"), &format!("(?:{p})"));
                }
            } else {
                re = regex_syntax::escape(&re);
            }
            let f = regex_syntax::Parser::new().parse(&re).ok().and_then(|h| seqs(&h)).map(|v| {
                v.into_iter().map(|s| format!("({})", formula(&merge(s), "0", 0, 0))).collect::<Vec<_>>().join(" || ")
            });
            out.push(Pattern {
                unsupported: f.is_none() || args.other,
                text: f.unwrap_or_default(),
                variant: v.ident.clone(),
                payload: payload.clone(),
                callback: args.cb,
            });
        }
    }
    (out, skips)
}

/// The wrapper that runs the callback of one pattern.
pub fn wrapper(name: &str, lexty: &Type, p: &Pattern, ret: &dyn Fn(&str) -> Option<Type>) -> Option<ItemFn> {
    let cb = p.callback.as_ref()?;
    let (call, f): (Expr, String) = match cb {
        Expr::Path(q) => {
            let id = q.path.segments.last()?.ident.to_string();
            (parse_quote!(#cb(lex)), id)
        }
        Expr::Closure(c) => {
            let arg = match c.inputs.first()? {
                Pat::Ident(i) => i.ident.to_string(),
                _ => return None,
            };
            if arg != "lex" {
                return None;
            }
            match &*c.body {
                Expr::Call(k) => match &*k.func {
                    Expr::Path(q) => (Expr::Call(k.clone()), q.path.segments.last()?.ident.to_string()),
                    _ => return None,
                },
                _ => return None,
            }
        }
        _ => return None,
    };
    let id = format_ident!("{}", name);
    let pay: Type = p.payload.clone().unwrap_or(parse_quote!(()));
    let r = ret(&f)?;
    let rs = r.to_token_stream().to_string();
    let body: Expr = if rs.starts_with("Result") {
        parse_quote!(match #call { Ok(vx_v) => Ok(vx_v), Err(_) => Err(()) })
    } else if rs.starts_with("Option") {
        parse_quote!(match #call { Some(vx_v) => Ok(vx_v), None => Err(()) })
    } else if rs.starts_with("bool") {
        return None;
    } else {
        parse_quote!(Ok(#call))
    };
    let t = quote!(fn #id<'a>(lex: &mut #lexty) -> Result<#pay, ()> { #body });
    syn::parse2(t).ok()
}

//! Item level: what is kept, what is dropped, how structs and impls are emitted.
use std::collections::HashMap;

use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use syn::{parse_quote, visit::{self, Visit}, visit_mut::{self, VisitMut}, *};

use crate::{desugar, logos};

/// Renames the items nested in a function body once they are moved out of it.
struct Hoist(HashMap<String, String>);
impl VisitMut for Hoist {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(s) = p.segments.first_mut() {
            if let Some(n) = self.0.get(&s.ident.to_string()) {
                s.ident = Ident::new(n, s.ident.span());
            }
        }
    }
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        // a lone lower-case name in expression position is a local, except where it is called
        if e.path.segments.len() == 1 && e.path.segments[0].ident.to_string().chars().next().map_or(false, |c| c.is_lowercase()) {
            return;
        }
        visit_mut::visit_expr_path_mut(self, e);
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if let Expr::Path(p) = &mut *c.func {
            self.visit_path_mut(&mut p.path);
        }
        visit_mut::visit_expr_call_mut(self, c);
    }
}

#[derive(Default)]
pub struct Consts {
    /// `Token::SYNTAX` -> its expression
    pub assoc: HashMap<String, Expr>,
    /// module level constants with literal-like values
    pub plain: HashMap<String, Expr>,
}

impl Consts {
    pub fn collect(&mut self, items: &[Item]) {
        for it in items {
            match it {
                Item::Impl(im) if im.trait_.is_none() => {
                    if let Type::Path(p) = &*im.self_ty {
                        let ty = p.path.segments.last().unwrap().ident.to_string();
                        for ii in &im.items {
                            if let ImplItem::Const(c) = ii {
                                self.assoc.insert(format!("{ty}::{}", c.ident), c.expr.clone());
                            }
                        }
                    }
                }
                Item::Const(c) => {
                    self.plain.insert(c.ident.to_string(), (*c.expr).clone());
                }
                _ => {}
            }
        }
    }
}

pub struct Cx<'a> {
    pub module: String,
    pub path: String,
    pub consts: &'a Consts,
    pub cfg: &'a Value,
    pub mcfg: Value,
    pub fns: Vec<Value>,
    pub dropped: Vec<Value>,
    pub prost: bool,
    /// specification text generated for the module
    pub extra: String,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string().replace(' ', "");
        a.path().is_ident("test") || (a.path().is_ident("cfg") && (t.contains("test") || t == "#[cfg(windows)]"))
    })
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                out.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    out
}

impl Cx<'_> {
    fn opt<'v>(&'v self, f: &str, key: &str) -> &'v Value {
        &self.cfg["fns"][f][key]
    }

    fn drop_item(&mut self, what: String) {
        self.dropped.push(json!({"module": self.module, "item": what}));
    }

    /// The functions of a lexer module with the items nested in them, and its patterns.
    pub fn logos_items(&mut self, items: Vec<Item>, module: &str) -> Vec<Item> {
        let mut out: Vec<Item> = vec![];
        let mut fns: Vec<ItemFn> = vec![];
        let mut enums: Vec<(ItemEnum, bool)> = vec![];
        for it in items {
            match it {
                Item::Enum(e) if logos::is_logos(&e) => enums.push((e, false)),
                Item::Fn(mut f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let outer = f.sig.ident.to_string();
                    let mut h = Hoist(HashMap::new());
                    let mut inner = vec![];
                    f.block.stmts.retain(|s| match s {
                        Stmt::Item(i) => {
                            inner.push(i.clone());
                            false
                        }
                        _ => true,
                    });
                    for i in &inner {
                        let n = match i {
                            Item::Fn(g) => &g.sig.ident,
                            Item::Enum(e) => &e.ident,
                            _ => continue,
                        };
                        h.0.insert(n.to_string(), format!("{outer}_{n}"));
                    }
                    h.visit_block_mut(&mut f.block);
                    if outer == "int" || outer == "nat" {
                        f.sig.ident = format_ident!("vx_{}", outer);
                    }
                    fns.push(f);
                    for i in inner {
                        match i {
                            Item::Fn(mut g) => {
                                g.sig.ident = Ident::new(&h.0[&g.sig.ident.to_string()], g.sig.ident.span());
                                h.visit_signature_mut(&mut g.sig);
                                h.visit_block_mut(&mut g.block);
                                fns.push(g);
                            }
                            Item::Enum(mut e) => {
                                e.ident = Ident::new(&h.0[&e.ident.to_string()], e.ident.span());
                                for v in e.variants.iter_mut() {
                                    for a in v.attrs.iter_mut() {
                                        if let Meta::List(l) = &mut a.meta {
                                            // callbacks named by a path
                                            l.tokens = l
                                                .tokens
                                                .clone()
                                                .into_iter()
                                                .map(|t| match &t {
                                                    proc_macro2::TokenTree::Ident(i) => match h.0.get(&i.to_string()) {
                                                        Some(n) => proc_macro2::TokenTree::Ident(Ident::new(n, i.span())),
                                                        None => t,
                                                    },
                                                    _ => t,
                                                })
                                                .collect();
                                        }
                                    }
                                }
                                enums.push((e, true));
                            }
                            other => {
                                let t = other.to_token_stream().to_string();
                                self.drop_item(t.chars().take(60).collect());
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let rets: HashMap<String, Type> = fns
            .iter()
            .map(|f| {
                let t = match &f.sig.output {
                    ReturnType::Type(_, t) => (**t).clone(),
                    _ => parse_quote!(()),
                };
                (f.sig.ident.to_string().trim_start_matches("vx_").to_owned(), t)
            })
            .collect();
        let mut x = String::new();
        for (e, nested) in &enums {
            let name = e.ident.to_string();
            let generics = &e.generics;
            let (pats, skips) = logos::patterns(e);
            let mut all = vec![];
            let mut unsup = false;
            let lexty: Type = if *nested {
                let id = &e.ident;
                let g = if generics.params.is_empty() { quote!() } else { quote!(<'a>) };
                parse_quote!(crate::lex::VxSub<'a, #id #g>)
            } else {
                parse_quote!(crate::lex::VxLexer<'a>)
            };
            let mut rel = vec![];
            let mut errs = vec![];
            let mut kk: HashMap<String, usize> = HashMap::new();
            for p in &pats {
                let k = kk.entry(p.variant.to_string()).or_insert(0);
                let l = format!("lang_{name}_{}__k{}", p.variant, *k);
                let w = format!("vxcb_{name}_{}__k{}", p.variant, *k);
                *k += 1;
                unsup |= p.unsupported;
                if p.unsupported {
                    x.push_str(&format!("pub uninterp spec fn {l}(s: Seq<char>) -> bool;\n"));
                } else {
                    x.push_str(&format!("#[verifier::opaque]\npub open spec fn {l}(s: Seq<char>) -> bool {{ {} }}\n", p.text));
                }
                all.push(format!("{l}(s)"));
                if p.callback.is_some() {
                    match logos::wrapper(&w, &lexty, p, &|f| rets.get(f).cloned()) {
                        Some(f) => fns.push(f),
                        None => {
                            unsup = true;
                            self.drop_item(format!("callback {w}"))
                        }
                    }
                }
            }
            for v in &e.variants {
                let ps: Vec<&logos::Pattern> = pats.iter().filter(|p| p.variant == v.ident).collect();
                let Some(p) = ps.first() else { continue };
                let v = &p.variant;
                let l = format!("lang_{name}_{v}(s)");
                let cbs = ps.iter().filter(|p| p.callback.is_some()).count();
                if cbs == ps.len() {
                    let pat = if p.payload.is_some() { "(x)" } else { "" };
                    let val = if p.payload.is_some() { "x" } else { "()" };
                    rel.push(format!("Ok({name}::{v}{pat}) => {l} && rel_{name}_{v}(s, Ok({val})),"));
                    errs.push(format!("({l} && rel_{name}_{v}(s, Err(())))"));
                } else if cbs == 0 {
                    match &p.payload {
                        Some(_) => rel.push(format!("Ok({name}::{v}(x)) => {l} && x@ == s,")),
                        None => rel.push(format!("Ok({name}::{v}) => {l},")),
                    }
                } else {
                    unsup = true;
                }
            }
            let mut reveals: Vec<String> = pats.iter().zip(all.iter()).filter(|(p, _)| !p.unsupported).map(|(_, l)| format!("reveal({});", l.trim_end_matches("(s)"))).collect();
            let mut vs: Vec<&String> = kk.keys().collect();
            vs.sort();
            for v in vs {
                let t: Vec<String> = (0..kk[v]).map(|k| format!("lang_{name}_{v}__k{k}(s)")).collect();
                reveals.push(format!("reveal(lang_{name}_{v});"));
                x.push_str(&format!("#[verifier::opaque]\npub open spec fn lang_{name}_{v}(s: Seq<char>) -> bool {{ {} }}\n", t.join(" || ")));
                // every other pattern
                let o: Vec<String> = kk.iter().filter(|(w, _)| *w != v).flat_map(|(w, n)| (0..*n).map(move |k| (w.clone(), k))).map(|(w, k)| format!("lang_{name}_{w}__k{k}(s)")).collect();
                let mut o = o;
                o.sort();
                if o.is_empty() {
                    o.push("false".into());
                }
                reveals.push(format!("reveal(lang_{name}_not_{v});"));
                x.push_str(&format!("#[verifier::opaque]\npub open spec fn lang_{name}_not_{v}(s: Seq<char>) -> bool {{ {} }}\n", o.join(" || ")));
            }
            let mut vs: Vec<&String> = kk.keys().collect();
            vs.sort();
            let t: Vec<String> = vs.iter().map(|v| format!("lang_{name}_{v}(s)")).collect();
            x.push_str(&format!("pub open spec fn lang_{name}(s: Seq<char>) -> bool {{ {} }}\n", t.join(" || ")));
            x.push_str(&format!("//@reveal {name} {}\n", reveals.join(" ")));
            let _ = skips;
            if *nested {
                let g = if generics.params.is_empty() { "" } else { "<'a>" };
                let rel: Vec<String> = rel.into_iter().collect();
                errs.push("false".into());
                x.push_str(&format!(
                    "impl{g} crate::lex::VxLogos for {name}{g} {{\n    open spec fn lang(s: Seq<char>) -> bool {{ lang_{name}(s) }}\n    open spec fn rel(s: Seq<char>, r: Result<Self, ()>) -> bool {{ match r {{\n      {}\n      Err(_) => {},\n      _ => false }} }}\n}}\n",
                    rel.join("\n      "),
                    errs.join("\n      || ")
                ));
            }
            let id = format_ident!("vxlang_{}", name);
            let f: ItemFn = if unsup { parse_quote!(fn #id() { vx_unsupported_pattern() }) } else { parse_quote!(fn #id() {}) };
            fns.push(f);
            if *nested {
                out.extend(self.enumm(e.clone()));
            }
        }
        self.extra = x;
        for f in fns {
            let path = format!("{module}::{}", f.sig.ident);
            let sig_line = f.sig.ident.span().start().line;
            let (sig, block, attrs) = self.func(path, f.sig, *f.block, sig_line);
            out.push(Item::Fn(ItemFn { attrs, vis: parse_quote!(pub), sig, block: Box::new(block) }));
        }
        out
    }

    pub fn module_items(&mut self, items: Vec<Item>, module: &str) -> Vec<Item> {
        if self.mcfg["kind"] == "logos" {
            return self.logos_items(items, module);
        }
        let mut out: Vec<Item> = vec![];
        let skip: Vec<String> = self.mcfg["skip"]
            .as_array()
            .map(|a| a.iter().map(|v| v.as_str().unwrap().to_owned()).collect())
            .unwrap_or_default();
        let only: Option<Vec<String>> = self.mcfg["only"]
            .as_array()
            .map(|a| a.iter().map(|v| v.as_str().unwrap().to_owned()).collect());
        // names of nested modules' items are written `module::Name`
        let rel = match module.split_once("::") {
            Some((_, r)) => format!("{r}::"),
            None => String::new(),
        };
        let keep = |n: &str| {
            let q = format!("{rel}{n}");
            !skip.iter().any(|s| *s == q) && only.as_ref().map_or(true, |o| o.iter().any(|s| *s == q))
        };
        for it in items {
            match it {
                Item::Use(_) | Item::ExternCrate(_) | Item::Macro(_) => {}
                Item::Struct(s) => {
                    if is_test(&s.attrs) {
                        continue;
                    }
                    if !keep(&s.ident.to_string()) {
                        self.drop_item(format!("struct {}", s.ident));
                        continue;
                    }
                    out.extend(self.strukt(s));
                }
                Item::Enum(e) => {
                    if !keep(&e.ident.to_string()) {
                        self.drop_item(format!("enum {}", e.ident));
                        continue;
                    }
                    out.extend(self.enumm(e));
                }
                Item::Const(mut c) => {
                    if !keep(&c.ident.to_string()) {
                        continue;
                    }
                    c.attrs.clear();
                    c.vis = parse_quote!(pub);
                    out.push(Item::Const(c));
                }
                Item::Mod(mut m) => {
                    if is_test(&m.attrs) || !keep(&m.ident.to_string()) {
                        continue;
                    }
                    if let Some((b, its)) = m.content.take() {
                        let name = format!("{module}::{}", m.ident);
                        let its = self.module_items(its, &name);
                        if its.is_empty() {
                            continue;
                        }
                        m.attrs.clear();
                        m.vis = parse_quote!(pub);
                        let mut its2: Vec<Item> = vec![];
                        its2.push(parse_quote!(use __vx_mod_prelude;));
                        its2.extend(its);
                        m.content = Some((b, its2));
                        out.push(Item::Mod(m));
                    }
                }
                Item::Fn(f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let path = format!("{module}::{}", f.sig.ident);
                    if !keep(&f.sig.ident.to_string()) {
                        self.drop_item(format!("fn {path}"));
                        continue;
                    }
                    let sig_line = f.sig.ident.span().start().line;
                    let (sig, block, attrs) = self.func(path, f.sig, *f.block, sig_line);
                    out.push(Item::Fn(ItemFn {
                        attrs,
                        vis: parse_quote!(pub),
                        sig,
                        block: Box::new(block),
                    }));
                }
                Item::Impl(im) => {
                    if is_test(&im.attrs) {
                        continue;
                    }
                    out.extend(self.implx(im, module));
                }
                other => {
                    let t = other.to_token_stream().to_string();
                    self.drop_item(t.chars().take(60).collect());
                }
            }
        }
        out
    }

    fn strukt(&mut self, mut s: ItemStruct) -> Vec<Item> {
        let der = derives(&s.attrs);
        s.attrs.clear();
        if der.iter().any(|d| d == "Copy") {
            s.attrs.push(parse_quote!(#[derive(Clone, Copy)]));
        }
        s.vis = parse_quote!(pub);
        for f in s.fields.iter_mut() {
            f.attrs.clear();
            f.vis = parse_quote!(pub);
        }
        desugar::Types { prost: self.prost }.visit_item_struct_mut(&mut s);
        let mut out = vec![];
        if (self.prost || der.iter().any(|d| d == "Default")) && matches!(s.fields, Fields::Named(_)) {
            let name = &s.ident;
            let gen = &s.generics;
            let (ig, tg, wc) = gen.split_for_impl();
            let mut inits = vec![];
            let mut ens = vec![];
            for f in &s.fields {
                let id = f.ident.as_ref().unwrap();
                let t = f.ty.to_token_stream().to_string().replace(' ', "");
                let rid = quote!(#id).to_string();
                let bare = t.rsplit("::").next().unwrap_or("").to_string();
                let _ = bare;
                let head = t.split('<').next().unwrap().to_string();
                if head.ends_with("Option") {
                    inits.push(quote!(#id: ::core::option::Option::None));
                    ens.push(format!("res.{rid} is None"));
                } else if head.ends_with("Vec") {
                    inits.push(quote!(#id: Vec::new()));
                    ens.push(format!("res.{rid}@.len() == 0"));
                } else if head.ends_with("String") {
                    inits.push(quote!(#id: ::std::string::String::new()));
                    ens.push(format!("res.{rid}@.len() == 0"));
                } else if head == "bool" {
                    inits.push(quote!(#id: false));
                    ens.push(format!("!res.{rid}"));
                } else if head == "Span" {
                    inits.push(quote!(#id: 0..0));
                    ens.push(format!("res.{rid}.start == 0 && res.{rid}.end == 0"));
                } else if ["i32", "i64", "u32", "u64", "usize", "u8"].contains(&head.as_str()) {
                    inits.push(quote!(#id: 0));
                    ens.push(format!("res.{rid} == 0"));
                } else {
                    let ty = &f.ty;
                    inits.push(quote!(#id: <#ty as Default>::default()));
                }
            }
            let lit = ens.join(" ;; ");
            out.push(parse_quote! {
                impl #ig Default for #name #tg #wc {
                    fn default() -> VxRet<Self> { __vx_ens(#lit); #name { #(#inits),* } }
                }
            });
        }
        out.insert(0, Item::Struct(s));
        out
    }

    fn enumm(&mut self, mut e: ItemEnum) -> Vec<Item> {
        let der = derives(&e.attrs);
        let copy = der.iter().any(|d| d == "Copy");
        let unit = e.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
        e.attrs.clear();
        e.vis = parse_quote!(pub);
        let mut default = None;
        for v in e.variants.iter_mut() {
            if v.attrs.iter().any(|a| a.path().is_ident("default")) {
                default = Some(v.ident.clone());
            }
            v.attrs.clear();
            for f in v.fields.iter_mut() {
                f.attrs.clear();
            }
        }
        if unit && !self.prost {
            if copy {
                e.attrs.push(parse_quote!(#[derive(Clone, Copy, PartialEq, Eq, Structural)]));
            } else {
                e.attrs.push(parse_quote!(#[derive(PartialEq, Eq, Structural)]));
            }
        } else if copy || (self.prost && unit) {
            e.attrs.push(parse_quote!(#[derive(Clone, Copy)]));
        }
        desugar::Types { prost: self.prost }.visit_item_enum_mut(&mut e);
        let mut out = vec![];
        if let Some(d) = default {
            let name = &e.ident;
            let ens = format!("res is {d}");
            out.push(parse_quote! {
                impl Default for #name {
                    fn default() -> VxRet<Self> { __vx_ens(#ens); #name::#d }
                }
            });
        }
        out.insert(0, Item::Enum(e));
        out
    }

    fn implx(&mut self, im: ItemImpl, module: &str) -> Vec<Item> {
        if self.prost {
            return vec![];
        }
        let ty = match &*im.self_ty {
            Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            _ => return vec![],
        };
        let tr = im
            .trait_
            .as_ref()
            .map(|t| t.1.segments.last().unwrap().ident.to_string());
        let only = self.mcfg["only"].as_array().cloned();
        if let Some(o) = &only {
            if !o.iter().any(|s| s == ty.as_str()) {
                return vec![];
            }
        }
        let mut out_items: Vec<ImplItem> = vec![];
        let traits_kept: Vec<String> = self.mcfg["traits"]
            .as_array()
            .map(|a| a.iter().map(|v| v.as_str().unwrap().to_owned()).collect())
            .unwrap_or_default();
        match tr.as_deref() {
            None | Some("Display") => {}
            Some("From") => {
                // emitted as a free function `from_<Arg>_for_<Ty>`
                let arg = match &im.trait_.as_ref().unwrap().1.segments.last().unwrap().arguments {
                    PathArguments::AngleBracketed(a) => a.args.first().to_token_stream().to_string(),
                    _ => return vec![],
                };
                let tag: String = arg.chars().filter(|c| c.is_alphanumeric()).collect();
                let mut res = vec![];
                for ii in im.items {
                    if let ImplItem::Fn(mut f) = ii {
                        let id = format_ident!("from_{}_for_{}", tag, ty);
                        f.sig.ident = id;
                        let sty = &im.self_ty;
                        f.sig.output = parse_quote!(-> #sty);
                        let path = format!("{module}::{}", f.sig.ident);
                        let line = f.sig.fn_token.span.start().line;
                        let (sig, block, attrs) = self.func(path, f.sig, f.block, line);
                        res.push(Item::Fn(ItemFn {
                            attrs,
                            vis: parse_quote!(pub),
                            sig,
                            block: Box::new(block),
                        }));
                    }
                }
                return res;
            }
            Some(t) if self.mcfg["inherent"].as_array().map_or(false, |a| a.iter().any(|v| v.as_str() == Some(&format!("{t} for {ty}")))) => {}
            Some(t) if traits_kept.iter().any(|k| k == &format!("{t} for {ty}")) => {}
            Some(t) => {
                self.drop_item(format!("impl {t} for {ty}"));
                return vec![];
            }
        }
        let display = tr.as_deref() == Some("Display");
        // a trait implementation extracted as plain methods (its contracts may name preconditions)
        let inherent = tr.as_deref().map_or(false, |t| {
            self.mcfg["inherent"].as_array().map_or(false, |a| a.iter().any(|v| v.as_str() == Some(&format!("{t} for {ty}"))))
        });
        let flat = display || inherent;
        for ii in im.items {
            match ii {
                ImplItem::Fn(mut f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    if display {
                        f.sig.ident = format_ident!("vx_fmt");
                        f.sig.output = parse_quote!(-> ::core::result::Result<(), crate::vx::FmtError>);
                    }
                    let path = match &tr {
                        Some(t) if !flat => format!("{module}::<{t} for {ty}>::{}", f.sig.ident),
                        _ => format!("{module}::{ty}::{}", f.sig.ident),
                    };
                    let line = f.sig.ident.span().start().line;
                    let (sig, block, attrs) = self.func(path, f.sig, f.block, line);
                    out_items.push(ImplItem::Fn(ImplItemFn {
                        attrs,
                        vis: if tr.is_some() && !flat {
                            Visibility::Inherited
                        } else {
                            parse_quote!(pub)
                        },
                        defaultness: None,
                        sig,
                        block,
                    }));
                }
                _ => {}
            }
        }
        if out_items.is_empty() {
            return vec![];
        }
        vec![Item::Impl(ItemImpl {
            attrs: vec![],
            trait_: if flat { None } else { im.trait_ },
            items: out_items,
            ..im
        })]
    }

    fn func(
        &mut self,
        path: String,
        mut sig: Signature,
        mut block: Block,
        line: usize,
    ) -> (Signature, Block, Vec<Attribute>) {
        let end_line = block.brace_token.span.close().end().line;
        let mut nm = Names::default();
        nm.visit_signature(&sig);
        nm.visit_block(&block);
        let opaque = self.opt(&path, "opaque").as_bool().unwrap_or(false);
        let floatneg = self.opt(&path, "floatneg").as_bool().unwrap_or(false);
        let tail = self.opt(&path, "tail").as_bool().unwrap_or(false);

        // parameters given by a pattern
        let mut k = 0usize;
        let mut at = 0;
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if !matches!(&*t.pat, Pat::Ident(_)) {
                    let p = (*t.pat).clone();
                    let id = format_ident!("vx_arg_{}", k);
                    k += 1;
                    t.pat = Box::new(parse_quote!(#id));
                    if !opaque {
                        block.stmts.insert(at, parse_quote!(let #p = #id;));
                        at += 1;
                    }
                }
            }
        }
        let mut d = desugar::Desugar::new(self.consts, floatneg);
        d.lexcb = self.mcfg["kind"] == "logos";
        d.refs = sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) if matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) => {
                    Some(t.pat.to_token_stream().to_string())
                }
                _ => None,
            })
            .collect();
        d.resolver = sig.generics.to_token_stream().to_string().contains("FileResolver")
            || sig.generics.where_clause.to_token_stream().to_string().contains("FileResolver");
        if self.mcfg["tryfrom"].as_bool() == Some(true) {
            if let ReturnType::Type(_, t) = &sig.output {
                let t = t.to_token_stream().to_string().replace(' ', "");
                d.tryfrom = t.starts_with("Result<") && t.ends_with(",Error>");
            }
        }
        // a returned iterator is given as the list of its items
        if let ReturnType::Type(a, t) = &sig.output {
            if let Type::ImplTrait(it) = &**t {
                let item = it.bounds.iter().find_map(|b| match b {
                    TypeParamBound::Trait(tb) => {
                        let l = tb.path.segments.last().unwrap();
                        match &l.arguments {
                            PathArguments::AngleBracketed(aa) if l.ident.to_string().ends_with("Iterator") => aa.args.iter().find_map(|g| match g {
                                GenericArgument::AssocType(at) if at.ident == "Item" => Some(at.ty.clone()),
                                _ => None,
                            }),
                            _ => None,
                        }
                    }
                    _ => None,
                });
                if let Some(item) = item {
                    sig.output = ReturnType::Type(*a, Box::new(parse_quote!(Vec<#item>)));
                    if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
                        let e2 = e.clone();
                        *e = parse_quote!(#e2.collect());
                    }
                }
            }
        }
        let mut calls = Calls::default();
        desugar::Types { prost: false }.visit_signature_mut(&mut sig);
        desugar::RawLocals.visit_signature_mut(&mut sig);
        sig.constness = None;
        if !opaque {
            d.run(&mut block);
            calls.visit_block(&block);
            desugar::Types { prost: false }.visit_block_mut(&mut block);
        }
        let id = self.fns.len();
        let uid = format!("{}__{}", self.module.replace("::", "_"), id);
        let has_ret = matches!(sig.output, ReturnType::Type(..));
        if let ReturnType::Type(a, t) = &sig.output {
            let t = t.clone();
            sig.output = ReturnType::Type(*a, Box::new(parse_quote!(VxRet<#t>)));
        }
        let mut attrs: Vec<Attribute> = vec![];
        let marker = format_ident!("__vx_fn_{}", uid);
        if opaque {
            attrs.push(parse_quote!(#[verifier::external_body]));
            block.stmts = vec![parse_quote!(#marker();)];
            block.stmts.push(Stmt::Expr(parse_quote!(unimplemented!()), None));
            // `mut` parameters have no meaning on an opaque body
        } else {
            if tail {
                let endm = format_ident!("__vx_end_{}", uid);
                match block.stmts.pop() {
                    Some(Stmt::Expr(e, None)) if has_ret => {
                        block.stmts.push(parse_quote!(let res = #e;));
                        block.stmts.push(parse_quote!(#endm();));
                        block.stmts.push(Stmt::Expr(parse_quote!(res), None));
                    }
                    Some(Stmt::Expr(e, None)) => {
                        block.stmts.push(Stmt::Expr(e, Some(Default::default())));
                        block.stmts.push(parse_quote!(#endm();));
                    }
                    Some(s) => {
                        block.stmts.push(s);
                        block.stmts.push(parse_quote!(#endm();));
                    }
                    None => block.stmts.push(parse_quote!(#endm();)),
                }
            }
            block.stmts.insert(0, parse_quote!(#marker();));
        }
        self.fns.push(json!({
            "path": path, "id": uid, "file": self.path, "line": line, "end_line": end_line,
            "module": self.module,
            "loops": d.loops, "closures": d.closures, "opaque": opaque, "calls": calls.0, "names": nm.0,
            "unsupported": d.unsupported,
        }));
        (sig, block, attrs)
    }
}

#[derive(Default)]
struct Calls(Vec<String>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            self.0.push(s.join("::"));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        self.0.push(format!(".{}", c.method));
        visit::visit_expr_method_call(self, c);
    }
}

/// Every binding of a function, in source order (parameters, then locals).
#[derive(Default)]
struct Names(Vec<String>);
impl<'ast> Visit<'ast> for Names {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.0.push(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'ast Item) {}
}

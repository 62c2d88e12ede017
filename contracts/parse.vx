@use
use crate::vx::*;
use crate::vx::Span;
use crate::lex::*;
use crate::comments::*;
use crate::root::*;
use crate::ast;
use crate::ast::{full_ident_ok, type_name_ok, option_ok, part_ok, full_ident_span, type_name_span, part_span, value_span, option_span};
use crate::generate::{sp, few, ok_fi, ok_tn, ok_ob, ok_opts, ok_obs, ok_olist, ok_range, ok_ev, ok_reserved1, ok_reserved, ok_evs, ok_enum, ok_method, ok_methods, ok_service, ok_ty, ok_field, ok_fields, ok_oneof, ok_extend, ok_message, ok_item, ok_ext1, ok_body, ok_fitem, ok_import, ok_file, ranges_of, names_of, fields_of, nested_of, exts_of, extranges_of, fnested, fexts, nest_fields, nest_field};
use crate::case::*;
use crate::error::ParseErrorKind;
use vstd::utf8::*;
@items
// ------------------------------------------------------------ the tokens that matter to the grammar
pub open spec fn trivia(t: Token<'_>) -> bool { t is LineComment || t is BlockComment || t is Newline }
pub open spec fn sigt(t: LTok<'_>) -> bool { !(t.tok matches Ok(x) && trivia(x)) }
// ------------------------------------------------------------ comments
/// The token after `p`'s line break, if there is one.
pub open spec fn c_nl(s: Seq<LTok<'_>>, p: int) -> int { if 0 <= p < s.len() && (s[p].tok matches Ok(Token::Newline)) { p + 1 } else { p } }
/// What the comments from token `p` on add to `c`, up to the next significant token.
#[verifier::opaque]
pub open spec fn c_loop(s: Seq<LTok<'_>>, p: int, c: CV) -> CV
    decreases s.len() - p
{
    if p < 0 || p >= s.len() { cv_flush(c) } else {
        match s[p].tok {
            Ok(Token::LineComment(t)) => c_loop(s, p + 1, cv_line(c, t@)),
            Ok(Token::BlockComment(t)) => c_loop(s, c_nl(s, p + 1), cv_block(c, t@)),
            Ok(Token::Newline) => c_loop(s, p + 1, cv_detach(cv_flush(c))),
            Ok(Token::RightBrace) => cv_flush(c), Ok(Token::RightBracket) => cv_flush(c), Ok(Token::RightParen) => cv_flush(c),
            _ => c,
        }
    }
}
/// The comments after token `p - 1`. One on the same line is the trailing comment of what ends there; a block comment with something
/// behind it on its line belongs to nobody.
#[verifier::opaque]
pub open spec fn c_at(s: Seq<LTok<'_>>, p: int) -> CV {
    if p <= 0 { c_loop(s, 0, cv_new()) } else if p >= s.len() { cv_reset() } else {
        match s[p].tok {
            Ok(Token::LineComment(t)) => c_loop(s, p + 1, cv_flush(cv_line(cv_reset(), t@))),
            Ok(Token::BlockComment(t)) => if c_nl(s, p + 1) > p + 1 { c_loop(s, p + 2, cv_flush(cv_block(cv_reset(), t@))) } else { cv_reset() },
            Ok(Token::Newline) => c_loop(s, p + 1, cv_reset()),
            _ => cv_reset(),
        }
    }
}
/// The token after the last significant one before `n`.
#[verifier::opaque]
pub open spec fn prevr(s: Seq<LTok<'_>>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else if sigt(s[n - 1]) { n } else { prevr(s, n - 1) } }
pub proof fn lemma_c_loop(s: Seq<LTok<'_>>, p: int)
    ensures forall|c: CV| #[trigger] c_loop(s, p, c) == (if p < 0 || p >= s.len() { cv_flush(c) } else {
        match s[p].tok {
            Ok(Token::LineComment(t)) => c_loop(s, p + 1, cv_line(c, t@)),
            Ok(Token::BlockComment(t)) => c_loop(s, c_nl(s, p + 1), cv_block(c, t@)),
            Ok(Token::Newline) => c_loop(s, p + 1, cv_detach(cv_flush(c))),
            Ok(Token::RightBrace) => cv_flush(c), Ok(Token::RightBracket) => cv_flush(c), Ok(Token::RightParen) => cv_flush(c),
            _ => c,
        }
    })
{ reveal_with_fuel(c_loop, 2); }
pub proof fn lemma_prevr(s: Seq<LTok<'_>>, p: int)
    ensures prevr(s, p) == if p <= 0 { 0 } else if sigt(s[p - 1]) { p } else { prevr(s, p - 1) }
{ reveal_with_fuel(prevr, 2); }
pub proof fn lemma_c_at0(s: Seq<LTok<'_>>)
    ensures c_at(s, 0) == c_loop(s, 0, cv_new())
{ reveal(c_at); }
/// Token `i` with the comments around it.
pub open spec fn dec<'a>(s: Seq<LTok<'a>>, i: int) -> LTok<'a> { LTok { cb: c_at(s, prevr(s, i)), ca: c_at(s, i + 1), ..s[i] } }
/// The comments of a declaration that starts at token `i` and takes its trailing comment after token `b - 1`.
#[verifier::opaque]
pub open spec fn v_lead(g: Seq<LTok<'_>>, i: int, d: Seq<String>, l: std::option::Option<String>) -> bool { texts(d) == g[i].cb.det && text(l) == g[i].cb.lead }
#[verifier::opaque]
pub open spec fn v_trail(g: Seq<LTok<'_>>, b: int, t: std::option::Option<String>) -> bool { text(t) == g[b - 1].ca.trail }
pub open spec fn v_com(g: Seq<LTok<'_>>, i: int, b: int, x: ast::Comments) -> bool { v_lead(g, i, x.leading_detached_comments@, x.leading_comment) && v_trail(g, b, x.trailing_comment) }
/// The significant tokens among the first `n`.
#[verifier::opaque]
pub open spec fn sig<'a>(s: Seq<LTok<'a>>, n: int) -> Seq<LTok<'a>>
    decreases n
{ if n <= 0 { seq![] } else if sigt(s[n - 1]) { sig(s, n - 1).push(dec(s, n - 1)) } else { sig(s, n - 1) } }
pub proof fn lemma_sig(s: Seq<LTok<'_>>, i: int, n: int)
    requires 0 <= i <= n
    ensures sig(s, i).len() <= sig(s, n).len(), sig(s, i).len() <= i, forall|j: int| 0 <= j < sig(s, i).len() ==> #[trigger] sig(s, n)[j] == sig(s, i)[j],
    decreases n
{
    reveal_with_fuel(sig, 2);
    if i < n { lemma_sig(s, i, n - 1); } else if i > 0 { lemma_sig(s, i - 1, i - 1); }
}
/// A significant token is where it belongs.
pub proof fn lemma_sig_at(s: Seq<LTok<'_>>, i: int)
    requires 0 <= i < s.len(), sigt(s[i])
    ensures sig(s, i).len() < sig(s, s.len() as int).len(), sig(s, s.len() as int)[sig(s, i).len() as int] == dec(s, i), sig(s, i + 1).len() == sig(s, i).len() + 1,
{
    reveal_with_fuel(sig, 2);
    lemma_sig(s, i + 1, s.len() as int);
    assert(sig(s, i + 1) == sig(s, i).push(dec(s, i)));
    assert(sig(s, i + 1)[sig(s, i).len() as int] == dec(s, i));
}
pub proof fn lemma_sig_span(s: Seq<LTok<'_>>, n: int, len: nat)
    requires lex_wf(s, len), 0 <= n <= s.len(), len <= i32::MAX
    ensures forall|j: int| 0 <= j < sig(s, n).len() ==> sp((#[trigger] sig(s, n)[j]).span)
    decreases n
{
    reveal_with_fuel(sig, 2); reveal(lex_wf);
    if n > 0 { lemma_sig_span(s, n - 1, len); }
}
pub open spec fn is(g: Seq<LTok<'_>>, i: int, t: Token<'_>) -> bool { 0 <= i < g.len() && (g[i].tok matches Ok(x) && teq(x, t)) }

pub open spec fn badt(t: LTok<'_>) -> bool { t.tok is Err || t.bad || t.tfbad }
#[verifier::opaque]
pub open spec fn lexb(s: Seq<LTok<'_>>, n: int) -> bool { exists|j: int| 0 <= j < n && badt(#[trigger] s[j]) }
/// The first `n` tokens are read without complaint.
#[verifier::opaque]
pub open spec fn readok(s: Seq<LTok<'_>>, n: int) -> bool { forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).tok is Ok && !s[j].bad }
impl<'a> Parser<'a> {
    pub open spec fn all(&self) -> Seq<LTok<'a>> { self.lexer.all@ }
    pub open spec fn g(&self) -> Seq<LTok<'a>> { sig(self.all(), self.all().len() as int) }
    /// How many tokens were taken (a peeked one is not).
    pub open spec fn cur(&self) -> int { self.lexer.pos@ - (if self.peek is Some { 1int } else { 0 }) }
    pub open spec fn rem(&self) -> int { self.all().len() - self.cur() }
    pub open spec fn k(&self) -> int { sig(self.all(), self.cur()).len() as int }
    pub open spec fn errs(&self) -> nat { self.lexer.extras.errors@.len() }
    pub open spec fn cv(&self) -> CV { self.comments.cv() }
    pub open spec fn inv(&self) -> bool {
        let n = encode_utf8(self.lexer.src@).len();
        &&& lex_wf(self.all(), n) && n <= i32::MAX && self.lexer.pos@ <= self.all().len() && (self.lexer.done@ ==> self.lexer.pos@ == self.all().len())
        &&& cv_ok(self.cv())
        &&& match self.peek {
            None => true,
            Some(Ok((t, s))) => sp(s) && self.lexer.pos@ > 0 && self.all()[self.lexer.pos@ - 1].tok == Ok::<Token, ()>(t) && self.all()[self.lexer.pos@ - 1].span == s,
            Some(Err(_)) => self.lexer.pos@ > 0 && self.errs() > 0 && self.all()[self.lexer.pos@ - 1].tok is Err,
        }
        &&& self.errs() == 0 ==> readok(self.all(), self.lexer.pos@ as int)
        &&& self.message_depth <= 31
    }
    /// Right behind a significant token, nothing read since (or at the start of the text).
    pub open spec fn fresh(&self) -> bool {
        self.peek is None && if self.cur() <= 0 { self.cv() == cv_new() } else { self.cv() == cv_reset() && sigt(self.all()[self.cur() - 1]) }
    }
    /// The next significant token is in view, and the comments before it are collected.
    pub open spec fn settled(&self) -> bool {
        let c = c_at(self.all(), prevr(self.all(), self.cur()));
        &&& (self.peek matches Some(Ok((t, _))) && !trivia(t)) || (self.peek is None && self.cur() == self.all().len())
        &&& self.cv().det == c.det && self.cv().lead == c.lead
    }
    pub open spec fn rdy(&self) -> bool { self.clean() ==> self.fresh() || self.settled() }
    /// Outside text format, as far as it matters.
    pub open spec fn calm(&self) -> bool { self.errs() == 0 ==> !self.lexer.extras.text_format_mode }
    pub open spec fn clean(&self) -> bool { self.errs() == 0 }
    /// Some token read so far is one the lexer may complain about.
    pub open spec fn lexbad(&self) -> bool { lexb(self.all(), self.lexer.pos@ as int) }
    /// The next significant token.
    pub open spec fn nextis(&self, t: Token<'_>, s: Span) -> bool {
        0 <= self.k() < self.g().len() && self.g()[self.k()].tok == Ok::<Token, ()>(t) && self.g()[self.k()].span == s
    }
    /// The peeked token.
    pub open spec fn at(&self, t: Token<'_>) -> bool { self.peek matches Some(Ok((x, _))) && teq(x, t) }
}
/// What every step of the parser leaves alone.
pub open spec fn pf(a: Parser<'_>, b: Parser<'_>) -> bool { pfm(a, b) && (b.lexer.extras.text_format_mode == a.lexer.extras.text_format_mode || b.errs() > 0) }
pub open spec fn pfm(a: Parser<'_>, b: Parser<'_>) -> bool {
    &&& b.lexer.src == a.lexer.src && b.all() == a.all() && b.message_depth == a.message_depth
    &&& b.errs() >= a.errs() && b.cur() >= a.cur() && b.k() >= a.k() && b.lexer.pos@ >= a.lexer.pos@ && (a.lexbad() ==> b.lexbad())
}
/// What `peek` and its kin answer.
pub open spec fn peeked<'a>(f: Parser<'a>, r: Result<Option<(Token<'a>, Span)>, ()>) -> bool {
    match r {
        Ok(Some((t, s))) => f.peek == Some(Ok::<(Token, Span), ()>((t, s))),
        Ok(None) => f.peek is None && f.cur() == f.all().len(),
        Err(_) => f.peek matches Some(Err(_)) && f.errs() > 0,
    }
}
pub proof fn lemma_lexbad_at(f: Parser<'_>, j: int)
    requires 0 <= j < f.lexer.pos@, badt(f.all()[j])
    ensures f.lexbad()
{ reveal(lexb); }
/// Only the lexer has raised an error.
pub open spec fn lexonly(a: Parser<'_>, b: Parser<'_>) -> bool { a.clean() && !b.clean() ==> b.lexbad() }
pub open spec fn nextok<'a>(f: Parser<'a>, r: Result<Option<(Token<'a>, Span)>, ()>) -> bool {
    match r { Ok(Some((t, s))) => f.nextis(t, s) && !trivia(t), Ok(None) => f.k() == f.g().len(), Err(_) => f.lexbad() }
}
/// A peeked token is the next one.
pub broadcast proof fn lemma_next(f: Parser<'_>, t: Token<'_>, s: Span)
    requires f.inv(), f.peek == Some(Ok::<(Token, Span), ()>((t, s))), !trivia(t)
    ensures #[trigger] f.nextis(t, s)
{ lemma_sig_at(f.all(), f.cur()); }
pub open spec fn nextc<'a>(f: Parser<'a>, r: Result<Option<(Token<'a>, Span)>, ()>) -> bool {
    match r { Ok(Some((t, s))) => trivia(t) || f.nextis(t, s), Ok(None) => f.k() == f.g().len(), Err(_) => f.lexbad() }
}
/// The outcome of a step against the grammar: `e` is where the construct ends in the token sequence, negative if it is not there.
pub open spec fn out(a: Parser<'_>, b: Parser<'_>, ok: bool, e: int) -> bool {
    a.clean() ==> if ok && b.clean() { e == b.k() } else { e < 0 || b.lexbad() }
}
/// Half way through a construct that ends at `e`: as far as the rest of the text says.
pub open spec fn part(a: Parser<'_>, b: Parser<'_>, e: int, rest: int) -> bool { a.clean() ==> if b.clean() { e == rest } else { e < 0 || b.lexbad() } }
pub open spec fn lexonly_ok(a: Parser<'_>, b: Parser<'_>, ok: bool) -> bool { ok ==> lexonly(a, b) }
// ------------------------------------------------------------ the grammar: where a construct starting at token i ends (-1: it is not there), and what it denotes
pub open spec fn spn(g: Seq<LTok<'_>>, i: int, e: int) -> Span { Span { start: g[i].span.start, end: g[e - 1].span.end } }
pub open spec fn e_tok(g: Seq<LTok<'_>>, i: int, t: Token<'_>) -> int { if is(g, i, t) { i + 1 } else { -1 } }
pub open spec fn is_ident(g: Seq<LTok<'_>>, i: int) -> bool { 0 <= i < g.len() && (g[i].tok matches Ok(Token::Ident(_))) }
pub open spec fn ident_at(g: Seq<LTok<'_>>, i: int) -> Seq<char> { (g[i].tok->Ok_0)->Ident_0@ }
pub open spec fn is_int(g: Seq<LTok<'_>>, i: int) -> bool { 0 <= i < g.len() && (g[i].tok matches Ok(Token::IntLiteral(_))) }
pub open spec fn is_str(g: Seq<LTok<'_>>, i: int) -> bool { 0 <= i < g.len() && (g[i].tok matches Ok(Token::StringLiteral(_))) }
pub open spec fn str_at(g: Seq<LTok<'_>>, i: int) -> Seq<u8> { (g[i].tok->Ok_0)->StringLiteral_0@ }
pub open spec fn e_ident(g: Seq<LTok<'_>>, i: int) -> int { if is_ident(g, i) { i + 1 } else { -1 } }
pub open spec fn v_ident(g: Seq<LTok<'_>>, i: int, x: ast::Ident) -> bool { is_ident(g, i) && x.value@ == ident_at(g, i) && x.span == g[i].span }
/// [-] integer
pub open spec fn e_int(g: Seq<LTok<'_>>, i: int) -> int { let j = if is(g, i, Token::Minus) { i + 1 } else { i }; if is_int(g, j) { j + 1 } else { -1 } }
pub open spec fn v_int(g: Seq<LTok<'_>>, i: int, x: ast::Int) -> bool {
    let j = if is(g, i, Token::Minus) { i + 1 } else { i };
    x.negative == is(g, i, Token::Minus) && x.value == (g[j].tok->Ok_0)->IntLiteral_0 && x.span == spn(g, i, j + 1)
}
/// string literals, joined
pub open spec fn e_str(g: Seq<LTok<'_>>, i: int) -> int
    decreases g.len() - i
{ if is_str(g, i) { if is_str(g, i + 1) { e_str(g, i + 1) } else { i + 1 } } else { -1 } }
pub open spec fn bytes_of(g: Seq<LTok<'_>>, i: int, e: int) -> Seq<u8>
    decreases e - i
{ if e <= i { seq![] } else { bytes_of(g, i, e - 1) + str_at(g, e - 1) } }
pub open spec fn v_str(g: Seq<LTok<'_>>, i: int, x: ast::String) -> bool { let e = e_str(g, i); x.value@ == bytes_of(g, i, e) && x.span == spn(g, i, e) }
pub open spec fn e_utf8(g: Seq<LTok<'_>>, i: int) -> int { let e = e_str(g, i); if e >= 0 && valid_utf8(bytes_of(g, i, e)) { e } else { -1 } }
pub open spec fn v_utf8(g: Seq<LTok<'_>>, i: int, x: String, s: Span) -> bool { let e = e_str(g, i); encode_utf8(x@) == bytes_of(g, i, e) && s == spn(g, i, e) }
/// A text format message: its tokens up to the brace that closes it (or the end of the text) ...
pub open spec fn agg_end(g: Seq<LTok<'_>>, i: int, level: int) -> int
    decreases g.len() - i
{
    if i < 0 || i >= g.len() { i }
    else if is(g, i, Token::LeftBrace) { agg_end(g, i + 1, level + 1) }
    else if is(g, i, Token::RightBrace) { if level <= 0 { i } else { agg_end(g, i + 1, level - 1) } }
    else { agg_end(g, i + 1, level) }
}
/// ... written again, with a space between them.
pub open spec fn agg(g: Seq<LTok<'_>>, i: int, e: int) -> Seq<char>
    decreases e - i
{
    if e <= i { seq![] } else {
        let p = agg(g, i, e - 1);
        if p.len() == 0 { tok_text(g[e - 1].tok->Ok_0) } else { p + " "@ + tok_text(g[e - 1].tok->Ok_0) }
    }
}
/// What may follow a name.
pub open spec fn tm(e: ExpectedToken, t: Token<'_>) -> bool { match e { ExpectedToken::Token(x) => teq(x, t), ExpectedToken::Ident => t is Ident } }
// ------------------------------------------------------------ names
/// Token `i` is one that may follow a name.
pub open spec fn term(g: Seq<LTok<'_>>, i: int, ts: Seq<ExpectedToken>) -> bool {
    0 <= i < g.len() && (g[i].tok matches Ok(t) && exists|q: int| 0 <= q < ts.len() && tm(#[trigger] ts[q], t))
}
pub open spec fn t1(t: Token<'static>) -> Seq<ExpectedToken> { seq![ExpectedToken::Token(t)] }
/// a.b.c, followed by one of `ts`
#[verifier::opaque]
pub open spec fn e_fir(g: Seq<LTok<'_>>, k: int, ts: Seq<ExpectedToken>) -> int
    decreases g.len() - k
{ if is(g, k, Token::Dot) { if is_ident(g, k + 1) { e_fir(g, k + 2, ts) } else { -1 } } else if term(g, k, ts) { k } else { -1 } }
#[verifier::opaque]
pub open spec fn e_fi(g: Seq<LTok<'_>>, i: int, ts: Seq<ExpectedToken>) -> int { if is_ident(g, i) { e_fir(g, i + 1, ts) } else { -1 } }
#[verifier::opaque]
pub open spec fn v_fi(g: Seq<LTok<'_>>, i: int, e: int, x: Seq<ast::Ident>) -> bool {
    x.len() > 0 && e == i + 2 * x.len() - 1 && forall|j: int| 0 <= j < x.len() ==> v_ident(g, i + 2 * j, #[trigger] x[j])
}
#[verifier::opaque]
pub open spec fn e_tn(g: Seq<LTok<'_>>, i: int, ts: Seq<ExpectedToken>) -> int { if is(g, i, Token::Dot) { e_fi(g, i + 1, ts) } else { e_fi(g, i, ts) } }
#[verifier::opaque]
pub open spec fn v_tn(g: Seq<LTok<'_>>, i: int, e: int, x: ast::TypeName) -> bool {
    if is(g, i, Token::Dot) { x.leading_dot == Some(g[i].span) && v_fi(g, i + 1, e, x.name.parts@) } else { x.leading_dot is None && v_fi(g, i, e, x.name.parts@) }
}
pub open spec fn scalar(s: Seq<char>) -> std::option::Option<ast::Ty> {
    if s == "double"@ { Some(ast::Ty::Double) } else if s == "float"@ { Some(ast::Ty::Float) }
    else if s == "int32"@ { Some(ast::Ty::Int32) } else if s == "int64"@ { Some(ast::Ty::Int64) }
    else if s == "uint32"@ { Some(ast::Ty::Uint32) } else if s == "uint64"@ { Some(ast::Ty::Uint64) }
    else if s == "sint32"@ { Some(ast::Ty::Sint32) } else if s == "sint64"@ { Some(ast::Ty::Sint64) }
    else if s == "fixed32"@ { Some(ast::Ty::Fixed32) } else if s == "fixed64"@ { Some(ast::Ty::Fixed64) }
    else if s == "sfixed32"@ { Some(ast::Ty::Sfixed32) } else if s == "sfixed64"@ { Some(ast::Ty::Sfixed64) }
    else if s == "bool"@ { Some(ast::Ty::Bool) } else if s == "string"@ { Some(ast::Ty::String) }
    else if s == "bytes"@ { Some(ast::Ty::Bytes) } else { None }
}
pub open spec fn is_scalar(g: Seq<LTok<'_>>, i: int) -> bool { is_ident(g, i) && scalar(ident_at(g, i)) is Some }
#[verifier::opaque]
pub open spec fn e_ty(g: Seq<LTok<'_>>, i: int, ts: Seq<ExpectedToken>) -> int { if is_scalar(g, i) { i + 1 } else { e_tn(g, i, ts) } }
#[verifier::opaque]
pub open spec fn v_ty(g: Seq<LTok<'_>>, i: int, e: int, x: ast::Ty) -> bool {
    if is_scalar(g, i) { Some(x) == scalar(ident_at(g, i)) } else { x matches ast::Ty::Named(n) && v_tn(g, i, e, n) }
}
// ------------------------------------------------------------ syntax, package, import
pub open spec fn b_proto2() -> Seq<u8> { seq![112u8, 114u8, 111u8, 116u8, 111u8, 50u8] }
pub open spec fn b_proto3() -> Seq<u8> { seq![112u8, 114u8, 111u8, 116u8, 111u8, 51u8] }
pub open spec fn b_syntax(b: Seq<u8>) -> std::option::Option<ast::Syntax> { if b == b_proto2() { Some(ast::Syntax::Proto2) } else if b == b_proto3() { Some(ast::Syntax::Proto3) } else { None } }
#[verifier::opaque]
pub open spec fn e_syntax(g: Seq<LTok<'_>>, i: int) -> int {
    let j = e_tok(g, e_tok(g, i, Token::Ident("syntax")), Token::Equals);
    let e = e_str(g, j);
    if e >= 0 && b_syntax(bytes_of(g, j, e)) is Some { e_tok(g, e, Token::Semicolon) } else { -1 }
}
#[verifier::opaque]
pub open spec fn v_syntax(g: Seq<LTok<'_>>, i: int, x: ast::Syntax) -> bool { b_syntax(bytes_of(g, i + 2, e_str(g, i + 2))) == Some(x) }
pub open spec fn ts_semi() -> Seq<ExpectedToken> { t1(Token::Semicolon) }
#[verifier::opaque]
pub open spec fn e_package(g: Seq<LTok<'_>>, i: int) -> int { e_tok(g, e_fi(g, e_tok(g, i, Token::Ident("package")), ts_semi()), Token::Semicolon) }
#[verifier::opaque]
pub open spec fn v_package(g: Seq<LTok<'_>>, i: int, x: ast::Package) -> bool {
    v_fi(g, i + 1, e_fi(g, i + 1, ts_semi()), x.name.parts@) && x.span == spn(g, i, e_package(g, i)) && v_com(g, i, e_package(g, i), x.comments)
}
/// The path of an import: components of at least one character, none of them `.` or `..`, no backslash, not absolute.
pub open spec fn comp_ok(c: Seq<char>) -> bool { c.len() > 0 && !c.contains('\\') && c != "."@ && c != ".."@ }
pub open spec fn import_ok(s: Seq<char>) -> bool {
    (forall|i: int| 0 <= i < split_seq(s, '/').len() ==> comp_ok(#[trigger] split_seq(s, '/')[i])) && !(s.len() > 0 && s[0] == '/')
}
pub open spec fn is_ikind(g: Seq<LTok<'_>>, i: int) -> bool { is(g, i, Token::Ident("weak")) || is(g, i, Token::Ident("public")) }
pub open spec fn import_at(g: Seq<LTok<'_>>, i: int) -> int { if is_ikind(g, i + 1) { i + 2 } else { i + 1 } }
#[verifier::opaque]
pub open spec fn e_import(g: Seq<LTok<'_>>, i: int) -> int {
    if is(g, i, Token::Ident("import")) {
        let j = import_at(g, i);
        let e = e_utf8(g, j);
        if e >= 0 && import_ok(decode_utf8(bytes_of(g, j, e))) { e_tok(g, e, Token::Semicolon) } else { -1 }
    } else { -1 }
}
#[verifier::opaque]
pub open spec fn v_import_kind(g: Seq<LTok<'_>>, i: int, x: ast::Import) -> bool {
    if is(g, i + 1, Token::Ident("weak")) { x.kind == Some((ast::ImportKind::Weak, g[i + 1].span)) }
    else if is(g, i + 1, Token::Ident("public")) { x.kind == Some((ast::ImportKind::Public, g[i + 1].span)) }
    else { x.kind is None }
}
#[verifier::opaque]
pub open spec fn v_import(g: Seq<LTok<'_>>, i: int, x: ast::Import) -> bool {
    v_import_kind(g, i, x) && v_utf8(g, import_at(g, i), x.value, x.value_span) && x.span == spn(g, i, e_import(g, i)) && v_com(g, i, e_import(g, i), x.comments)
}
// ------------------------------------------------------------ options
pub open spec fn ts_paren() -> Seq<ExpectedToken> { t1(Token::RightParen) }
#[verifier::opaque]
pub open spec fn e_part(g: Seq<LTok<'_>>, i: int) -> int {
    if is_ident(g, i) { i + 1 } else if is(g, i, Token::LeftParen) { e_tok(g, e_tn(g, i + 1, ts_paren()), Token::RightParen) } else { -1 }
}
#[verifier::opaque]
pub open spec fn v_part(g: Seq<LTok<'_>>, i: int, x: ast::OptionNamePart) -> bool {
    if is_ident(g, i) { x matches ast::OptionNamePart::Ident(n) && v_ident(g, i, n) }
    else { x matches ast::OptionNamePart::Extension(n, s) && v_tn(g, i + 1, e_tn(g, i + 1, ts_paren()), n) && s == spn(g, i, e_part(g, i)) }
}
#[verifier::opaque]
pub open spec fn e_obnr(g: Seq<LTok<'_>>, k: int) -> int
    decreases (if k < g.len() { g.len() - k } else { 0 })
{
    if is(g, k, Token::Dot) { let e = e_part(g, k + 1); if e <= k + 1 { -1 } else { e_obnr(g, e) } }
    else if is(g, k, Token::Equals) { k + 1 } else { -1 }
}
/// name =
#[verifier::opaque]
pub open spec fn e_obn(g: Seq<LTok<'_>>, i: int) -> int { let e = e_part(g, i); if i < 0 || e <= i { -1 } else { e_obnr(g, e) } }
/// Where part `j` of an option name starts.
#[verifier::opaque]
pub open spec fn p_obn(g: Seq<LTok<'_>>, i: int, j: int) -> int
    decreases j
{ if j <= 0 { i } else { e_part(g, p_obn(g, i, j - 1)) + 1 } }
#[verifier::opaque]
pub open spec fn v_obn(g: Seq<LTok<'_>>, i: int, x: Seq<ast::OptionNamePart>) -> bool { forall|j: int| 0 <= j < x.len() ==> v_part(g, p_obn(g, i, j), #[trigger] x[j]) }
pub open spec fn is_float(g: Seq<LTok<'_>>, i: int) -> bool { 0 <= i < g.len() && (g[i].tok matches Ok(Token::FloatLiteral(_))) }
pub open spec fn float_at(g: Seq<LTok<'_>>, i: int) -> f64 { (g[i].tok->Ok_0)->FloatLiteral_0.0 }
pub open spec fn int_at(g: Seq<LTok<'_>>, i: int) -> u64 { (g[i].tok->Ok_0)->IntLiteral_0 }
#[verifier::opaque]
pub open spec fn e_val(g: Seq<LTok<'_>>, i: int) -> int {
    if is(g, i, Token::Minus) { if is_ident(g, i + 1) || is_int(g, i + 1) || is_float(g, i + 1) { i + 2 } else { -1 } }
    else if is_ident(g, i) || is_int(g, i) || is_float(g, i) { i + 1 }
    else if is_str(g, i) { e_str(g, i) }
    else if is(g, i, Token::LeftBrace) { e_tok(g, agg_end(g, i + 1, 0), Token::RightBrace) }
    else { -1 }
}
#[verifier::opaque]
pub open spec fn v_val(g: Seq<LTok<'_>>, i: int, x: ast::OptionValue) -> bool {
    let m = is(g, i, Token::Minus);
    let j = if m { i + 1 } else { i };
    let s = spn(g, i, e_val(g, i));
    if is_ident(g, j) { x matches ast::OptionValue::Ident { negative, ident, span } && negative == m && v_ident(g, j, ident) && span == s }
    else if is_int(g, j) { x matches ast::OptionValue::Int(n) && n.negative == m && n.value == int_at(g, j) && n.span == s }
    else if is_float(g, j) { x matches ast::OptionValue::Float(f) && f.value == (if m { f64_neg(float_at(g, j)) } else { float_at(g, j) }) && f.span == s }
    else if is_str(g, j) { x matches ast::OptionValue::String(t) && v_str(g, i, t) }
    else { x matches ast::OptionValue::Aggregate(t, sp) && t@ == agg(g, i + 1, agg_end(g, i + 1, 0)) && sp == s }
}
/// name = value
#[verifier::opaque]
pub open spec fn e_ob(g: Seq<LTok<'_>>, i: int) -> int { e_val(g, e_obn(g, i)) }
#[verifier::opaque]
pub open spec fn v_ob(g: Seq<LTok<'_>>, i: int, x: ast::OptionBody) -> bool {
    &&& x.name@.len() > 0 && p_obn(g, i, x.name@.len() as int) == e_obn(g, i) && v_obn(g, i, x.name@)
    &&& v_val(g, e_obn(g, i), x.value)
}
#[verifier::opaque]
pub open spec fn e_option(g: Seq<LTok<'_>>, i: int) -> int { e_tok(g, e_ob(g, e_tok(g, i, Token::Ident("option"))), Token::Semicolon) }
#[verifier::opaque]
pub open spec fn v_option(g: Seq<LTok<'_>>, i: int, x: ast::Option) -> bool { v_ob(g, i + 1, x.body) && x.span == spn(g, i, e_option(g, i)) && v_com(g, i, e_option(g, i), x.comments) }
#[verifier::opaque]
pub open spec fn e_obsr(g: Seq<LTok<'_>>, k: int) -> int
    decreases (if k < g.len() { g.len() - k } else { 0 })
{
    if is(g, k, Token::Comma) { let e = e_ob(g, k + 1); if e <= k + 1 { -1 } else { e_obsr(g, e) } }
    else if is(g, k, Token::RightBracket) { k + 1 } else { -1 }
}
/// [ a = 1, b = 2 ]
#[verifier::opaque]
pub open spec fn e_olist(g: Seq<LTok<'_>>, i: int) -> int { if is(g, i, Token::LeftBracket) { let e = e_ob(g, i + 1); if e <= i + 1 { -1 } else { e_obsr(g, e) } } else { -1 } }
#[verifier::opaque]
pub open spec fn p_ob(g: Seq<LTok<'_>>, i: int, j: int) -> int
    decreases j
{ if j <= 0 { i } else { e_ob(g, p_ob(g, i, j - 1)) + 1 } }
#[verifier::opaque]
pub open spec fn v_obs(g: Seq<LTok<'_>>, i: int, x: Seq<ast::OptionBody>) -> bool { forall|j: int| 0 <= j < x.len() ==> v_ob(g, p_ob(g, i, j), #[trigger] x[j]) }
#[verifier::opaque]
pub open spec fn v_olist(g: Seq<LTok<'_>>, i: int, x: ast::OptionList) -> bool {
    x.options@.len() > 0 && p_ob(g, i + 1, x.options@.len() as int) == e_olist(g, i) && v_obs(g, i + 1, x.options@) && x.span == spn(g, i, e_olist(g, i))
}
/// An option list that may be left out, and the token after it.
#[verifier::opaque]
pub open spec fn e_olo(g: Seq<LTok<'_>>, i: int, t: Token<'_>) -> int { if is(g, i, Token::LeftBracket) { e_tok(g, e_olist(g, i), t) } else { e_tok(g, i, t) } }
#[verifier::opaque]
pub open spec fn v_olo(g: Seq<LTok<'_>>, i: int, x: std::option::Option<ast::OptionList>) -> bool { if is(g, i, Token::LeftBracket) { x is Some && v_olist(g, i, x->0) } else { x is None } }
// ------------------------------------------------------------ reserved and extension ranges
#[verifier::opaque]
pub open spec fn e_rng(g: Seq<LTok<'_>>, i: int) -> int {
    let e = e_int(g, i);
    if is(g, e, Token::Ident("to")) { if is_int(g, e + 1) || is(g, e + 1, Token::Minus) { e_int(g, e + 1) } else if is(g, e + 1, Token::Ident("max")) { e + 2 } else { -1 } }
    else if is(g, e, Token::Comma) || is(g, e, Token::Semicolon) || is(g, e, Token::LeftBracket) { e } else { -1 }
}
#[verifier::opaque]
pub open spec fn v_rng(g: Seq<LTok<'_>>, i: int, x: ast::ReservedRange) -> bool {
    let e = e_int(g, i);
    &&& v_int(g, i, x.start)
    &&& match x.end {
        ast::ReservedRangeEnd::None => !(is(g, e, Token::Ident("to"))),
        ast::ReservedRangeEnd::Int(n) => is(g, e, Token::Ident("to")) && v_int(g, e + 1, n) && e_int(g, e + 1) >= 0,
        ast::ReservedRangeEnd::Max(s) => is(g, e, Token::Ident("to")) && is(g, e + 1, Token::Ident("max")) && s == g[e + 1].span,
    }
}
#[verifier::opaque]
pub open spec fn e_rngr(g: Seq<LTok<'_>>, k: int, ts: Seq<ExpectedToken>) -> int
    decreases (if k < g.len() { g.len() - k } else { 0 })
{ if is(g, k, Token::Comma) { let e = e_rng(g, k + 1); if e <= k + 1 { -1 } else { e_rngr(g, e, ts) } } else if term(g, k, ts) { k } else { -1 } }
#[verifier::opaque]
pub open spec fn e_rngs(g: Seq<LTok<'_>>, i: int, ts: Seq<ExpectedToken>) -> int { let e = e_rng(g, i); if i < 0 || e <= i { -1 } else { e_rngr(g, e, ts) } }
#[verifier::opaque]
pub open spec fn p_rng(g: Seq<LTok<'_>>, i: int, j: int) -> int
    decreases j
{ if j <= 0 { i } else { e_rng(g, p_rng(g, i, j - 1)) + 1 } }
#[verifier::opaque]
pub open spec fn v_rngs(g: Seq<LTok<'_>>, i: int, e: int, x: Seq<ast::ReservedRange>) -> bool {
    x.len() > 0 && p_rng(g, i, x.len() as int) == e + 1 && forall|j: int| 0 <= j < x.len() ==> v_rng(g, p_rng(g, i, j), #[trigger] x[j])
}
/// A name in quotes.
#[verifier::opaque]
pub open spec fn e_idstr(g: Seq<LTok<'_>>, i: int) -> int { let e = e_utf8(g, i); if e >= 0 && crate::case::is_ident(bytes_of(g, i, e)) { e } else { -1 } }
#[verifier::opaque]
pub open spec fn v_idstr(g: Seq<LTok<'_>>, i: int, x: ast::Ident) -> bool { v_utf8(g, i, x.value, x.span) }
#[verifier::opaque]
pub open spec fn e_namer(g: Seq<LTok<'_>>, k: int) -> int
    decreases (if k < g.len() { g.len() - k } else { 0 })
{ if is(g, k, Token::Comma) { let e = e_idstr(g, k + 1); if e <= k + 1 { -1 } else { e_namer(g, e) } } else if is(g, k, Token::Semicolon) { k + 1 } else { -1 } }
#[verifier::opaque]
pub open spec fn e_names(g: Seq<LTok<'_>>, i: int) -> int { let e = e_idstr(g, i); if i < 0 || e <= i { -1 } else { e_namer(g, e) } }
#[verifier::opaque]
pub open spec fn p_name(g: Seq<LTok<'_>>, i: int, j: int) -> int
    decreases j
{ if j <= 0 { i } else { e_idstr(g, p_name(g, i, j - 1)) + 1 } }
#[verifier::opaque]
pub open spec fn v_names(g: Seq<LTok<'_>>, i: int, e: int, x: Seq<ast::Ident>) -> bool {
    x.len() > 0 && p_name(g, i, x.len() as int) == e && forall|j: int| 0 <= j < x.len() ==> v_idstr(g, p_name(g, i, j), #[trigger] x[j])
}
pub open spec fn is_num(g: Seq<LTok<'_>>, i: int) -> bool { is_int(g, i) || is(g, i, Token::Minus) }
#[verifier::opaque]
pub open spec fn e_reserved(g: Seq<LTok<'_>>, i: int) -> int {
    if is(g, i, Token::Ident("reserved")) {
        if is_num(g, i + 1) { e_tok(g, e_rngs(g, i + 1, ts_semi()), Token::Semicolon) } else if is_str(g, i + 1) { e_names(g, i + 1) } else { -1 }
    } else { -1 }
}
#[verifier::opaque]
pub open spec fn v_reserved(g: Seq<LTok<'_>>, i: int, x: ast::Reserved) -> bool {
    &&& x.span == spn(g, i, e_reserved(g, i)) && v_com(g, i, e_reserved(g, i), x.comments)
    &&& match x.kind {
        ast::ReservedKind::Ranges(r) => is_num(g, i + 1) && v_rngs(g, i + 1, e_rngs(g, i + 1, ts_semi()), r@),
        ast::ReservedKind::Names(n) => is_str(g, i + 1) && v_names(g, i + 1, e_reserved(g, i), n@),
    }
}
pub open spec fn ts_ext() -> Seq<ExpectedToken> { seq![ExpectedToken::Token(Token::Semicolon), ExpectedToken::Token(Token::LeftBracket)] }
#[verifier::opaque]
pub open spec fn e_extensions(g: Seq<LTok<'_>>, i: int) -> int { e_olo(g, e_rngs(g, e_tok(g, i, Token::Ident("extensions")), ts_ext()), Token::Semicolon) }
#[verifier::opaque]
pub open spec fn v_extensions(g: Seq<LTok<'_>>, i: int, x: ast::Extensions) -> bool {
    let e = e_rngs(g, i + 1, ts_ext());
    v_rngs(g, i + 1, e, x.ranges@) && v_olo(g, e, x.options) && x.span == spn(g, i, e_extensions(g, i)) && v_com(g, i, e_extensions(g, i), x.comments)
}
// ------------------------------------------------------------ enum values
pub open spec fn at_ev(g: Seq<LTok<'_>>, i: int) -> int { e_int(g, e_tok(g, e_ident(g, i), Token::Equals)) }
#[verifier::opaque]
pub open spec fn e_ev(g: Seq<LTok<'_>>, i: int) -> int { e_olo(g, at_ev(g, i), Token::Semicolon) }
#[verifier::opaque]
pub open spec fn v_ev(g: Seq<LTok<'_>>, i: int, x: ast::EnumValue) -> bool {
    v_ident(g, i, x.name) && v_int(g, i + 2, x.number) && v_olo(g, at_ev(g, i), x.options) && x.span == spn(g, i, e_ev(g, i)) && v_com(g, i, e_ev(g, i), x.comments)
}
/// Nothing starts before the text.
pub broadcast proof fn lemma_n_fi(g: Seq<LTok<'_>>, i: int, ts: Seq<ExpectedToken>) requires i < 0 ensures #[trigger] e_fi(g, i, ts) == -1 { reveal(e_fi); }
pub broadcast proof fn lemma_n_ob(g: Seq<LTok<'_>>, i: int) requires i < 0 ensures #[trigger] e_ob(g, i) == -1 { reveal(e_ob); reveal(e_obn); reveal(e_part); reveal(e_val); }
pub broadcast proof fn lemma_n_val(g: Seq<LTok<'_>>, i: int) requires i < 0 ensures #[trigger] e_val(g, i) == -1 { reveal(e_val); }
pub broadcast proof fn lemma_n_olist(g: Seq<LTok<'_>>, i: int) requires i < 0 ensures #[trigger] e_olist(g, i) == -1 { reveal(e_olist); }
pub broadcast proof fn lemma_n_olo(g: Seq<LTok<'_>>, i: int, t: Token<'_>) requires i < 0 ensures #[trigger] e_olo(g, i, t) == -1 { reveal(e_olo); }
pub broadcast proof fn lemma_n_rngs(g: Seq<LTok<'_>>, i: int, ts: Seq<ExpectedToken>) requires i < 0 ensures #[trigger] e_rngs(g, i, ts) == -1 { reveal(e_rngs); reveal(e_rng); }
pub broadcast group group_neg { lemma_n_fi, lemma_n_ob, lemma_n_val, lemma_n_olist, lemma_n_olo, lemma_n_rngs }
// ------------------------------------------------------------ fields, messages and the rest of the file
pub open spec fn rest(g: Seq<LTok<'_>>, i: int) -> int { if i < g.len() { g.len() - i } else { 0 } }
pub open spec fn is_name(g: Seq<LTok<'_>>, i: int) -> bool { is(g, i, Token::Dot) || is_ident(g, i) }
pub open spec fn is_label(g: Seq<LTok<'_>>, i: int) -> bool { is(g, i, Token::Ident("optional")) || is(g, i, Token::Ident("required")) || is(g, i, Token::Ident("repeated")) }
pub open spec fn v_label(g: Seq<LTok<'_>>, i: int, x: std::option::Option<(ast::FieldLabel, Span)>) -> bool {
    if is(g, i, Token::Ident("optional")) { x == Some((ast::FieldLabel::Optional, g[i].span)) }
    else if is(g, i, Token::Ident("required")) { x == Some((ast::FieldLabel::Required, g[i].span)) }
    else if is(g, i, Token::Ident("repeated")) { x == Some((ast::FieldLabel::Repeated, g[i].span)) }
    else { x is None }
}
/// Where the type of a field is.
pub open spec fn ty_at(g: Seq<LTok<'_>>, i: int) -> int { if is_label(g, i) { i + 1 } else if is_name(g, i) { i } else { -1 } }
pub open spec fn ts_ident() -> Seq<ExpectedToken> { seq![ExpectedToken::Ident] }
pub open spec fn ts_comma() -> Seq<ExpectedToken> { t1(Token::Comma) }
pub open spec fn ts_angle() -> Seq<ExpectedToken> { t1(Token::RightAngleBracket) }
pub open spec fn ts_brace() -> Seq<ExpectedToken> { t1(Token::LeftBrace) }
/// name = number [options], after the type
pub open spec fn v_tail(g: Seq<LTok<'_>>, n: int, x: ast::Field) -> bool { v_ident(g, n, x.name) && v_int(g, n + 2, x.number) && v_olo(g, at_ev(g, n), x.options) }
/// map < key , value > name = number [options] ;
pub open spec fn map_key(g: Seq<LTok<'_>>, j: int) -> int { e_tok(g, e_tok(g, j, Token::Ident("map")), Token::LeftAngleBracket) }
pub open spec fn map_value(g: Seq<LTok<'_>>, j: int) -> int { e_tok(g, e_ty(g, map_key(g, j), ts_comma()), Token::Comma) }
pub open spec fn map_name(g: Seq<LTok<'_>>, j: int) -> int { e_tok(g, e_ty(g, map_value(g, j), ts_angle()), Token::RightAngleBracket) }
#[verifier::opaque]
pub open spec fn e_map(g: Seq<LTok<'_>>, j: int) -> int { e_ev(g, map_name(g, j)) }
#[verifier::opaque]
pub open spec fn v_map(g: Seq<LTok<'_>>, j: int, x: ast::FieldKind) -> bool {
    x matches ast::FieldKind::Map { ty_span, key_ty, key_ty_span, value_ty, value_ty_span } && {
        let (k, v, n) = (map_key(g, j), map_value(g, j), map_name(g, j));
        &&& ty_span == spn(g, j, n)
        &&& v_ty(g, k, v - 1, key_ty) && key_ty_span == spn(g, k, v - 1)
        &&& v_ty(g, v, n - 1, value_ty) && value_ty_span == spn(g, v, n - 1)
    }
}
#[verifier::opaque]
pub open spec fn e_nf(g: Seq<LTok<'_>>, j: int) -> int { e_ev(g, e_ty(g, j, ts_ident())) }
#[verifier::opaque]
pub open spec fn v_nf(g: Seq<LTok<'_>>, j: int, x: ast::FieldKind) -> bool {
    x matches ast::FieldKind::Normal { ty, ty_span } && { let e = e_ty(g, j, ts_ident()); v_ty(g, j, e, ty) && ty_span == spn(g, j, e) }
}
/// group Name = number [options] {
#[verifier::opaque]
pub open spec fn group_body(g: Seq<LTok<'_>>, j: int) -> int {
    if is(g, j, Token::Ident("group")) && is_ident(g, j + 1) && crate::case::is_group_name(encode_utf8(ident_at(g, j + 1))) { e_olo(g, at_ev(g, j + 1), Token::LeftBrace) } else { -1 }
}
pub open spec fn maxd() -> int { crate::root::MAX_MESSAGE_NESTING as int }
// rpc name ( stream In ) returns ( stream Out )
pub open spec fn strm(g: Seq<LTok<'_>>, i: int) -> int { if is(g, i, Token::Ident("stream")) { i + 1 } else if is_name(g, i) { i } else { -1 } }
pub open spec fn v_strm(g: Seq<LTok<'_>>, i: int, x: std::option::Option<Span>) -> bool { if is(g, i, Token::Ident("stream")) { x == Some(g[i].span) } else { x is None } }
#[verifier::opaque]
pub open spec fn rpc_in(g: Seq<LTok<'_>>, i: int) -> int { if is(g, i, Token::Ident("rpc")) && is_ident(g, i + 1) && is(g, i + 2, Token::LeftParen) { i + 3 } else { -1 } }
#[verifier::opaque]
pub open spec fn rpc_ine(g: Seq<LTok<'_>>, i: int) -> int { e_tn(g, strm(g, rpc_in(g, i)), ts_paren()) }
#[verifier::opaque]
pub open spec fn rpc_out(g: Seq<LTok<'_>>, i: int) -> int { let k = rpc_ine(g, i); if k >= 0 && is(g, k, Token::RightParen) && is(g, k + 1, Token::Ident("returns")) && is(g, k + 2, Token::LeftParen) { k + 3 } else { -1 } }
#[verifier::opaque]
pub open spec fn rpc_oute(g: Seq<LTok<'_>>, i: int) -> int { e_tn(g, strm(g, rpc_out(g, i)), ts_paren()) }
#[verifier::opaque]
pub open spec fn rpc_tail(g: Seq<LTok<'_>>, i: int) -> int { e_tok(g, rpc_oute(g, i), Token::RightParen) }
pub proof fn lemma_rpc(g: Seq<LTok<'_>>, i: int)
    ensures
        rpc_in(g, i) == (if is(g, i, Token::Ident("rpc")) && is_ident(g, i + 1) && is(g, i + 2, Token::LeftParen) { i + 3 } else { -1 }),
        rpc_in(g, i) < 0 ==> rpc_ine(g, i) == -1, rpc_in(g, i) >= 0 ==> rpc_ine(g, i) == e_tn(g, strm(g, rpc_in(g, i)), ts_paren()),
        rpc_ine(g, i) >= 0 && is(g, rpc_ine(g, i), Token::RightParen) && is(g, rpc_ine(g, i) + 1, Token::Ident("returns")) && is(g, rpc_ine(g, i) + 2, Token::LeftParen) ==> rpc_out(g, i) == rpc_ine(g, i) + 3,
        !(rpc_ine(g, i) >= 0 && is(g, rpc_ine(g, i), Token::RightParen) && is(g, rpc_ine(g, i) + 1, Token::Ident("returns")) && is(g, rpc_ine(g, i) + 2, Token::LeftParen)) ==> rpc_out(g, i) == -1,
        rpc_out(g, i) < 0 ==> rpc_oute(g, i) == -1, rpc_out(g, i) >= 0 ==> rpc_oute(g, i) == e_tn(g, strm(g, rpc_out(g, i)), ts_paren()),
        strm(g, rpc_in(g, i)) < 0 ==> rpc_ine(g, i) == -1, strm(g, rpc_out(g, i)) < 0 ==> rpc_oute(g, i) == -1, rpc_oute(g, i) < 0 ==> rpc_tail(g, i) == -1,
        rpc_tail(g, i) == e_tok(g, rpc_oute(g, i), Token::RightParen),
{ broadcast use group_neg; reveal(rpc_in); reveal(rpc_ine); reveal(rpc_out); reveal(rpc_oute); reveal(rpc_tail); reveal(e_tn); reveal(e_fi); }
// What may stand in a block: 0 message, 1 enum, 2 service, 3 rpc, 4 oneof, 5 extend, 6 file.
/// 0 nothing, 1 option, 2 reserved, 3 extensions, 4 field, 5 enum, 6 message, 7 extend, 8 oneof, 9 service, 10 enum value, 11 rpc, 12 import, 13 package
pub open spec fn kindof(b: int, g: Seq<LTok<'_>>, i: int) -> int {
    if is(g, i, Token::Semicolon) { 0 }
    else if b == 0 {
        if is(g, i, Token::Ident("oneof")) { 8 } else if is(g, i, Token::Ident("enum")) { 5 } else if is(g, i, Token::Ident("message")) { 6 }
        else if is(g, i, Token::Ident("extend")) { 7 } else if is(g, i, Token::Ident("option")) { 1 } else if is(g, i, Token::Ident("reserved")) { 2 }
        else if is(g, i, Token::Ident("extensions")) { 3 } else if is_name(g, i) { 4 } else { -1 }
    }
    else if b == 1 { if is(g, i, Token::Ident("option")) { 1 } else if is(g, i, Token::Ident("reserved")) { 2 } else if is_ident(g, i) { 10 } else { -1 } }
    else if b == 2 { if is(g, i, Token::Ident("rpc")) { 11 } else if is(g, i, Token::Ident("option")) { 1 } else { -1 } }
    else if b == 3 { if is(g, i, Token::Ident("option")) { 1 } else { -1 } }
    else if b == 4 { if is(g, i, Token::Ident("option")) { 1 } else if is_name(g, i) { 4 } else { -1 } }
    else if b == 5 { if is_name(g, i) { 4 } else { -1 } }
    else {
        if is(g, i, Token::Ident("import")) { 12 } else if is(g, i, Token::Ident("package")) { 13 } else if is(g, i, Token::Ident("option")) { 1 }
        else if is(g, i, Token::Ident("extend")) { 7 } else if is(g, i, Token::Ident("message")) { 6 } else if is(g, i, Token::Ident("enum")) { 5 }
        else if is(g, i, Token::Ident("service")) { 9 } else { -1 }
    }
}
/// Where the statement at `i` of a block ends; `d` messages are open.
#[verifier::opaque]
pub open spec fn e_stmt(b: int, g: Seq<LTok<'_>>, i: int, d: int) -> int
    decreases 32 - d, rest(g, i), 4int
{
    let k = kindof(b, g, i);
    if k == 0 { i + 1 } else if k == 1 { e_option(g, i) } else if k == 2 { e_reserved(g, i) } else if k == 3 { e_extensions(g, i) }
    else if k == 4 { e_field(g, i, d) } else if k == 5 { e_enum(g, i, d) } else if k == 6 { e_message(g, i, d) } else if k == 7 { e_extend(g, i, d) }
    else if k == 8 { e_oneof(g, i, d) } else if k == 9 { e_service(g, i, d) } else if k == 10 { e_ev(g, i) } else if k == 11 { e_rpc(g, i, d) }
    else if k == 12 { e_import(g, i) } else if k == 13 { e_package(g, i) } else { -1 }
}
/// Where the block ends, from the statement at `i` on: after its brace.
#[verifier::opaque]
pub open spec fn e_block(b: int, g: Seq<LTok<'_>>, i: int, d: int) -> int
    decreases 32 - d, rest(g, i), 5int
{
    if is(g, i, Token::RightBrace) { i + 1 }
    else { let e = e_stmt(b, g, i, d); if 0 <= i < e && i < g.len() { e_block(b, g, e, d) } else { -1 } }
}
#[verifier::opaque]
pub open spec fn e_group(g: Seq<LTok<'_>>, j: int, d: int) -> int
    decreases 32 - d, rest(g, j), 1int
{ if d >= maxd() { -1 } else { e_block(0, g, group_body(g, j), d + 1) } }
#[verifier::opaque]
pub open spec fn e_field(g: Seq<LTok<'_>>, i: int, d: int) -> int
    decreases 32 - d, rest(g, i), 2int
{
    let j = ty_at(g, i);
    if is(g, j, Token::Ident("map")) { e_map(g, j) } else if is(g, j, Token::Ident("group")) { if i <= j { e_group(g, j, d) } else { -1 } } else { e_nf(g, j) }
}
pub open spec fn blk(g: Seq<LTok<'_>>, i: int, kw: &'static str) -> int { e_tok(g, e_ident(g, e_tok(g, i, Token::Ident(kw))), Token::LeftBrace) }
#[verifier::opaque]
pub open spec fn e_message(g: Seq<LTok<'_>>, i: int, d: int) -> int
    decreases 32 - d, rest(g, i), 3int
{ if d >= maxd() { -1 } else { e_block(0, g, blk(g, i, "message"), d + 1) } }
#[verifier::opaque]
pub open spec fn e_enum(g: Seq<LTok<'_>>, i: int, d: int) -> int
    decreases 32 - d, rest(g, i), 3int
{ let p = blk(g, i, "enum"); if p <= i { -1 } else { e_block(1, g, p, d) } }
#[verifier::opaque]
pub open spec fn e_service(g: Seq<LTok<'_>>, i: int, d: int) -> int
    decreases 32 - d, rest(g, i), 3int
{ let p = blk(g, i, "service"); if p <= i { -1 } else { e_block(2, g, p, d) } }
#[verifier::opaque]
pub open spec fn e_oneof(g: Seq<LTok<'_>>, i: int, d: int) -> int
    decreases 32 - d, rest(g, i), 3int
{ let p = blk(g, i, "oneof"); if p <= i { -1 } else { e_block(4, g, p, d) } }
#[verifier::opaque]
pub open spec fn ext_type(g: Seq<LTok<'_>>, i: int) -> int { e_tn(g, e_tok(g, i, Token::Ident("extend")), ts_brace()) }
#[verifier::opaque]
pub open spec fn e_extend(g: Seq<LTok<'_>>, i: int, d: int) -> int
    decreases 32 - d, rest(g, i), 3int
{ let p = e_tok(g, ext_type(g, i), Token::LeftBrace); if 0 <= i < p && i < g.len() { e_block(5, g, p, d) } else { -1 } }
#[verifier::opaque]
pub open spec fn e_rpc(g: Seq<LTok<'_>>, i: int, d: int) -> int
    decreases 32 - d, rest(g, i), 3int
{
    let p = rpc_tail(g, i);
    if is(g, p, Token::Semicolon) { p + 1 } else if is(g, p, Token::LeftBrace) && 0 <= i < p && i < g.len() { e_block(3, g, p + 1, d) } else { -1 }
}
/// The statements of kinds `lo..=hi` from `i` to `k`.
#[verifier::opaque]
pub open spec fn st(b: int, g: Seq<LTok<'_>>, i: int, k: int, d: int, lo: int, hi: int) -> Seq<int>
    decreases (if i < k { k - i } else { 0 })
{
    if i >= k { seq![] } else {
        let e = e_stmt(b, g, i, d);
        (if lo <= kindof(b, g, i) <= hi { seq![i] } else { seq![] }) + (if e <= i { seq![] } else { st(b, g, e, k, d, lo, hi) })
    }
}
/// Statements go from `i` to `k`.
#[verifier::opaque]
pub open spec fn reach(b: int, g: Seq<LTok<'_>>, i: int, k: int, d: int) -> bool
    decreases (if i < k { k - i } else { 0 })
{ i == k || (0 <= i < k && i < g.len() && !(is(g, i, Token::RightBrace)) && i < e_stmt(b, g, i, d) && reach(b, g, e_stmt(b, g, i, d), k, d)) }
pub proof fn lemma_reach0(b: int, g: Seq<LTok<'_>>, i: int, d: int)
    ensures reach(b, g, i, i, d), forall|lo: int, hi: int| #[trigger] st(b, g, i, i, d, lo, hi) == Seq::<int>::empty()
{ reveal_with_fuel(reach, 2); reveal_with_fuel(st, 2); }
proof fn lemma_st1(b: int, g: Seq<LTok<'_>>, i: int, k: int, d: int, lo: int, hi: int)
    requires reach(b, g, i, k, d), k < g.len(), e_stmt(b, g, k, d) > k
    ensures st(b, g, i, e_stmt(b, g, k, d), d, lo, hi) == st(b, g, i, k, d, lo, hi) + if lo <= kindof(b, g, k) <= hi { seq![k] } else { seq![] },
    decreases k - i
{
    reveal_with_fuel(reach, 2); reveal_with_fuel(st, 3);
    let e = e_stmt(b, g, k, d);
    if i == k {
        assert(st(b, g, k, e, d, lo, hi) =~= st(b, g, k, k, d, lo, hi) + if lo <= kindof(b, g, k) <= hi { seq![k] } else { seq![] });
    } else {
        lemma_st1(b, g, e_stmt(b, g, i, d), k, d, lo, hi);
        lemma_reach_le(b, g, e_stmt(b, g, i, d), k, d);
        assert(st(b, g, i, e, d, lo, hi) =~= st(b, g, i, k, d, lo, hi) + if lo <= kindof(b, g, k) <= hi { seq![k] } else { seq![] });
    }
}
proof fn lemma_reach_le(b: int, g: Seq<LTok<'_>>, i: int, k: int, d: int)
    requires reach(b, g, i, k, d)
    ensures i <= k
{ reveal_with_fuel(reach, 2); }
proof fn lemma_reach1(b: int, g: Seq<LTok<'_>>, i: int, k: int, d: int)
    requires reach(b, g, i, k, d), 0 <= i
    ensures e_block(b, g, i, d) == e_block(b, g, k, d),
        0 <= k < g.len() && e_stmt(b, g, k, d) > k && !(is(g, k, Token::RightBrace)) ==> reach(b, g, i, e_stmt(b, g, k, d), d),
    decreases k - i
{
    reveal_with_fuel(reach, 3);
    if i < k { lemma_u_block(b, g, i, d); lemma_reach1(b, g, e_stmt(b, g, i, d), k, d); lemma_reach_le(b, g, e_stmt(b, g, i, d), k, d); }
}
/// One more statement.
pub proof fn lemma_step(b: int, g: Seq<LTok<'_>>, i: int, k: int, d: int)
    ensures
        reach(b, g, i, k, d) ==> e_block(b, g, i, d) == e_block(b, g, k, d),
        is(g, k, Token::RightBrace) ==> e_block(b, g, k, d) == k + 1,
        !(is(g, k, Token::RightBrace)) && !(0 <= k < e_stmt(b, g, k, d) && k < g.len()) ==> e_block(b, g, k, d) == -1,
        !(is(g, k, Token::RightBrace)) && 0 <= k < e_stmt(b, g, k, d) && k < g.len() ==> e_block(b, g, k, d) == e_block(b, g, e_stmt(b, g, k, d), d),
        reach(b, g, i, k, d) && 0 <= k < g.len() && e_stmt(b, g, k, d) > k && !(is(g, k, Token::RightBrace)) ==> reach(b, g, i, e_stmt(b, g, k, d), d)
            && forall|lo: int, hi: int| #[trigger] st(b, g, i, e_stmt(b, g, k, d), d, lo, hi) == if lo <= kindof(b, g, k) <= hi { st(b, g, i, k, d, lo, hi).push(k) } else { st(b, g, i, k, d, lo, hi) },
{
    lemma_u_block(b, g, k, d);
    if i < 0 { reveal_with_fuel(reach, 2); }
    if reach(b, g, i, k, d) && 0 <= i {
        lemma_reach1(b, g, i, k, d);
        if 0 <= k < g.len() && e_stmt(b, g, k, d) > k {
            assert forall|lo: int, hi: int| #[trigger] st(b, g, i, e_stmt(b, g, k, d), d, lo, hi) == if lo <= kindof(b, g, k) <= hi { st(b, g, i, k, d, lo, hi).push(k) } else { st(b, g, i, k, d, lo, hi) } by {
                lemma_st1(b, g, i, k, d, lo, hi);
                assert(st(b, g, i, e_stmt(b, g, k, d), d, lo, hi) =~= if lo <= kindof(b, g, k) <= hi { st(b, g, i, k, d, lo, hi).push(k) } else { st(b, g, i, k, d, lo, hi) });
            }
        }
    }
}
// ------------------------------------------------------------ what they denote
pub open spec fn w_opts(g: Seq<LTok<'_>>, s: Seq<int>, x: Seq<ast::Option>) -> bool { x.len() == s.len() && forall|j: int| 0 <= j < x.len() ==> v_option(g, s[j], #[trigger] x[j]) }
pub open spec fn w_reserved(g: Seq<LTok<'_>>, s: Seq<int>, x: Seq<ast::Reserved>) -> bool { x.len() == s.len() && forall|j: int| 0 <= j < x.len() ==> v_reserved(g, s[j], #[trigger] x[j]) }
pub open spec fn w_exts(g: Seq<LTok<'_>>, s: Seq<int>, x: Seq<ast::Extensions>) -> bool { x.len() == s.len() && forall|j: int| 0 <= j < x.len() ==> v_extensions(g, s[j], #[trigger] x[j]) }
pub open spec fn w_evs(g: Seq<LTok<'_>>, s: Seq<int>, x: Seq<ast::EnumValue>) -> bool { x.len() == s.len() && forall|j: int| 0 <= j < x.len() ==> v_ev(g, s[j], #[trigger] x[j]) }
pub open spec fn w_rpcs(g: Seq<LTok<'_>>, s: Seq<int>, x: Seq<ast::Method>, d: int) -> bool { x.len() == s.len() && forall|j: int| 0 <= j < x.len() ==> v_rpc(g, s[j], #[trigger] x[j], d) }
pub open spec fn w_imports(g: Seq<LTok<'_>>, s: Seq<int>, x: Seq<ast::Import>) -> bool { x.len() == s.len() && forall|j: int| 0 <= j < x.len() ==> v_import(g, s[j], #[trigger] x[j]) }
pub open spec fn rpc_opts(g: Seq<LTok<'_>>, i: int, d: int) -> Seq<int> { let p = rpc_tail(g, i); if is(g, p, Token::Semicolon) { seq![] } else { st(3, g, p + 1, e_rpc(g, i, d) - 1, d, 1, 1) } }
#[verifier::opaque]
pub open spec fn v_rpc(g: Seq<LTok<'_>>, i: int, x: ast::Method, d: int) -> bool {
    &&& v_ident(g, i + 1, x.name)
    &&& v_strm(g, i + 3, x.client_streaming) && v_tn(g, strm(g, i + 3), rpc_ine(g, i), x.input_ty)
    &&& v_strm(g, rpc_out(g, i), x.server_streaming) && v_tn(g, strm(g, rpc_out(g, i)), rpc_oute(g, i), x.output_ty)
    &&& w_opts(g, rpc_opts(g, i, d), x.options@) && x.span == spn(g, i, e_rpc(g, i, d)) && v_com(g, i, e_rpc(g, i, d), x.comments)
}
#[verifier::opaque]
pub open spec fn v_enum(g: Seq<LTok<'_>>, i: int, x: ast::Enum, d: int) -> bool {
    let e = e_enum(g, i, d);
    &&& v_ident(g, i + 1, x.name) && x.span == spn(g, i, e) && v_com(g, i, i + 3, x.comments)
    &&& w_opts(g, st(1, g, i + 3, e - 1, d, 1, 1), x.options@) && w_reserved(g, st(1, g, i + 3, e - 1, d, 2, 2), x.reserved@) && w_evs(g, st(1, g, i + 3, e - 1, d, 10, 10), x.values@)
}
#[verifier::opaque]
pub open spec fn v_service(g: Seq<LTok<'_>>, i: int, x: ast::Service, d: int) -> bool {
    let e = e_service(g, i, d);
    &&& v_ident(g, i + 1, x.name) && x.span == spn(g, i, e) && v_com(g, i, i + 3, x.comments)
    &&& w_opts(g, st(2, g, i + 3, e - 1, d, 1, 1), x.options@) && w_rpcs(g, st(2, g, i + 3, e - 1, d, 11, 11), x.methods@, d)
}
/// The body of a message, from the token after its brace; `d` messages are open inside.
#[verifier::opaque]
pub open spec fn v_body(g: Seq<LTok<'_>>, i: int, e: int, x: ast::MessageBody, d: int) -> bool
    decreases 32 - d, 5int
{
    &&& w_opts(g, st(0, g, i, e - 1, d, 1, 1), x.options@) && w_reserved(g, st(0, g, i, e - 1, d, 2, 2), x.reserved@) && w_exts(g, st(0, g, i, e - 1, d, 3, 3), x.extensions@)
    &&& w_items(g, st(0, g, i, e - 1, d, 4, 8), x.items@, d)
}
#[verifier::opaque]
pub open spec fn w_items(g: Seq<LTok<'_>>, s: Seq<int>, x: Seq<ast::MessageItem>, d: int) -> bool
    decreases 32 - d, 4int
{ x.len() == s.len() && forall|j: int| 0 <= j < x.len() ==> v_item(g, s[j], #[trigger] x[j], d) }
#[verifier::opaque]
pub open spec fn v_item(g: Seq<LTok<'_>>, i: int, x: ast::MessageItem, d: int) -> bool
    decreases 32 - d, 3int
{
    let k = kindof(0, g, i);
    match x {
        ast::MessageItem::Field(f) => k == 4 && v_field(g, i, f, d), ast::MessageItem::Enum(f) => k == 5 && v_enum(g, i, f, d), ast::MessageItem::Message(f) => k == 6 && v_message(g, i, f, d),
        ast::MessageItem::Extend(f) => k == 7 && v_extend(g, i, f, d), ast::MessageItem::Oneof(f) => k == 8 && v_oneof(g, i, f, d),
    }
}
/// After what a field's trailing comment is looked for: the whole of it, or the brace of a group.
pub open spec fn b_field(g: Seq<LTok<'_>>, i: int, d: int) -> int { if is(g, ty_at(g, i), Token::Ident("group")) { group_body(g, ty_at(g, i)) } else { e_field(g, i, d) } }
#[verifier::opaque]
pub open spec fn v_field(g: Seq<LTok<'_>>, i: int, x: ast::Field, d: int) -> bool
    decreases 32 - d, 0int
{
    let j = ty_at(g, i);
    &&& v_label(g, i, x.label) && x.span == spn(g, i, e_field(g, i, d)) && v_com(g, i, b_field(g, i, d), x.comments)
    &&& if is(g, j, Token::Ident("map")) { v_map(g, j, x.kind) && v_tail(g, map_name(g, j), x) }
        else if is(g, j, Token::Ident("group")) { d < 31 && v_group(g, j, e_field(g, i, d), x.kind, d) && v_tail(g, j + 1, x) }
        else { v_nf(g, j, x.kind) && v_tail(g, e_ty(g, j, ts_ident()), x) }
}
#[verifier::opaque]
pub open spec fn v_group(g: Seq<LTok<'_>>, j: int, e: int, x: ast::FieldKind, d: int) -> bool
    decreases 31 - d, 6int
{ x matches ast::FieldKind::Group { ty_span, body } && ty_span == g[j].span && d < 31 && v_body(g, group_body(g, j), e, body, d + 1) }
#[verifier::opaque]
pub open spec fn w_fields(g: Seq<LTok<'_>>, s: Seq<int>, x: Seq<ast::Field>, d: int) -> bool
    decreases 32 - d, 1int
{ x.len() == s.len() && forall|j: int| 0 <= j < x.len() ==> v_field(g, s[j], #[trigger] x[j], d) }
#[verifier::opaque]
pub open spec fn v_oneof(g: Seq<LTok<'_>>, i: int, x: ast::Oneof, d: int) -> bool
    decreases 32 - d, 2int
{
    let e = e_oneof(g, i, d);
    &&& v_ident(g, i + 1, x.name) && x.span == spn(g, i, e) && v_com(g, i, i + 3, x.comments)
    &&& w_opts(g, st(4, g, i + 3, e - 1, d, 1, 1), x.options@) && w_fields(g, st(4, g, i + 3, e - 1, d, 4, 4), x.fields@, d)
}
#[verifier::opaque]
pub open spec fn v_extend(g: Seq<LTok<'_>>, i: int, x: ast::Extend, d: int) -> bool
    decreases 32 - d, 2int
{
    let e = e_extend(g, i, d);
    &&& v_tn(g, i + 1, ext_type(g, i), x.extendee) && x.span == spn(g, i, e) && v_com(g, i, ext_type(g, i) + 1, x.comments)
    &&& w_fields(g, st(5, g, ext_type(g, i) + 1, e - 1, d, 4, 4), x.fields@, d)
}
#[verifier::opaque]
pub open spec fn v_message(g: Seq<LTok<'_>>, i: int, x: ast::Message, d: int) -> bool
    decreases 32 - d, 2int
{ v_ident(g, i + 1, x.name) && x.span == spn(g, i, e_message(g, i, d)) && v_com(g, i, i + 3, x.comments) && d < 31 && v_body(g, i + 3, e_message(g, i, d), x.body, d + 1) }
pub proof fn lemma_neg_field(g: Seq<LTok<'_>>)
    ensures e_map(g, -1) == -1, e_nf(g, -1) == -1
{ broadcast use group_neg; reveal(e_map); reveal(e_nf); reveal(e_ev); reveal(e_olo); reveal(e_ty); reveal(e_tn); reveal(e_fi); }
pub proof fn lemma_neg_block(b: int, g: Seq<LTok<'_>>, d: int)
    ensures e_block(b, g, -1, d) == -1
{ lemma_u_block(b, g, -1, d); lemma_u_stmt(b, g, -1, d); }
// the definitions, unfolded once
pub proof fn lemma_u_block(b: int, g: Seq<LTok<'_>>, i: int, d: int)
    ensures e_block(b, g, i, d) == ({ if is(g, i, Token::RightBrace) { i + 1 }
    else { let e = e_stmt(b, g, i, d); if 0 <= i < e && i < g.len() { e_block(b, g, e, d) } else { -1 } } })
{ reveal(e_block); reveal(e_stmt); reveal(e_group); reveal(e_field); reveal(e_message); reveal(e_enum); reveal(e_service); reveal(e_oneof); reveal(e_extend); reveal(e_rpc); }
pub proof fn lemma_u_stmt(b: int, g: Seq<LTok<'_>>, i: int, d: int)
    ensures e_stmt(b, g, i, d) == ({ let k = kindof(b, g, i);
    if k == 0 { i + 1 } else if k == 1 { e_option(g, i) } else if k == 2 { e_reserved(g, i) } else if k == 3 { e_extensions(g, i) }
    else if k == 4 { e_field(g, i, d) } else if k == 5 { e_enum(g, i, d) } else if k == 6 { e_message(g, i, d) } else if k == 7 { e_extend(g, i, d) }
    else if k == 8 { e_oneof(g, i, d) } else if k == 9 { e_service(g, i, d) } else if k == 10 { e_ev(g, i) } else if k == 11 { e_rpc(g, i, d) }
    else if k == 12 { e_import(g, i) } else if k == 13 { e_package(g, i) } else { -1 } })
{ reveal(e_block); reveal(e_stmt); reveal(e_group); reveal(e_field); reveal(e_message); reveal(e_enum); reveal(e_service); reveal(e_oneof); reveal(e_extend); reveal(e_rpc); }
pub proof fn lemma_u_group(g: Seq<LTok<'_>>, j: int, d: int)
    ensures e_group(g, j, d) == ({ if d >= maxd() { -1 } else { e_block(0, g, group_body(g, j), d + 1) } })
{ reveal(e_block); reveal(e_stmt); reveal(e_group); reveal(e_field); reveal(e_message); reveal(e_enum); reveal(e_service); reveal(e_oneof); reveal(e_extend); reveal(e_rpc); }
pub proof fn lemma_u_field(g: Seq<LTok<'_>>, i: int, d: int)
    ensures e_field(g, i, d) == ({ let j = ty_at(g, i);
    if is(g, j, Token::Ident("map")) { e_map(g, j) } else if is(g, j, Token::Ident("group")) { if i <= j { e_group(g, j, d) } else { -1 } } else { e_nf(g, j) } })
{ reveal(e_block); reveal(e_stmt); reveal(e_group); reveal(e_field); reveal(e_message); reveal(e_enum); reveal(e_service); reveal(e_oneof); reveal(e_extend); reveal(e_rpc); }
pub proof fn lemma_u_message(g: Seq<LTok<'_>>, i: int, d: int)
    ensures e_message(g, i, d) == ({ if d >= maxd() { -1 } else { e_block(0, g, blk(g, i, "message"), d + 1) } })
{ reveal(e_block); reveal(e_stmt); reveal(e_group); reveal(e_field); reveal(e_message); reveal(e_enum); reveal(e_service); reveal(e_oneof); reveal(e_extend); reveal(e_rpc); }
pub proof fn lemma_u_enum(g: Seq<LTok<'_>>, i: int, d: int)
    ensures e_enum(g, i, d) == ({ let p = blk(g, i, "enum"); if p <= i { -1 } else { e_block(1, g, p, d) } })
{ reveal(e_block); reveal(e_stmt); reveal(e_group); reveal(e_field); reveal(e_message); reveal(e_enum); reveal(e_service); reveal(e_oneof); reveal(e_extend); reveal(e_rpc); }
pub proof fn lemma_u_service(g: Seq<LTok<'_>>, i: int, d: int)
    ensures e_service(g, i, d) == ({ let p = blk(g, i, "service"); if p <= i { -1 } else { e_block(2, g, p, d) } })
{ reveal(e_block); reveal(e_stmt); reveal(e_group); reveal(e_field); reveal(e_message); reveal(e_enum); reveal(e_service); reveal(e_oneof); reveal(e_extend); reveal(e_rpc); }
pub proof fn lemma_u_oneof(g: Seq<LTok<'_>>, i: int, d: int)
    ensures e_oneof(g, i, d) == ({ let p = blk(g, i, "oneof"); if p <= i { -1 } else { e_block(4, g, p, d) } })
{ reveal(e_block); reveal(e_stmt); reveal(e_group); reveal(e_field); reveal(e_message); reveal(e_enum); reveal(e_service); reveal(e_oneof); reveal(e_extend); reveal(e_rpc); }
pub proof fn lemma_u_extend(g: Seq<LTok<'_>>, i: int, d: int)
    ensures e_extend(g, i, d) == ({ let p = e_tok(g, ext_type(g, i), Token::LeftBrace); if 0 <= i < p && i < g.len() { e_block(5, g, p, d) } else { -1 } })
{ reveal(e_block); reveal(e_stmt); reveal(e_group); reveal(e_field); reveal(e_message); reveal(e_enum); reveal(e_service); reveal(e_oneof); reveal(e_extend); reveal(e_rpc); }
pub proof fn lemma_u_rpc(g: Seq<LTok<'_>>, i: int, d: int)
    ensures e_rpc(g, i, d) == ({ let p = rpc_tail(g, i);
    if is(g, p, Token::Semicolon) { p + 1 } else if is(g, p, Token::LeftBrace) && 0 <= i < p && i < g.len() { e_block(3, g, p + 1, d) } else { -1 } })
{ reveal(e_block); reveal(e_stmt); reveal(e_group); reveal(e_field); reveal(e_message); reveal(e_enum); reveal(e_service); reveal(e_oneof); reveal(e_extend); reveal(e_rpc); }
pub proof fn lemma_v_field(g: Seq<LTok<'_>>, i: int, d: int)
    ensures forall|x: ast::Field| #[trigger] v_field(g, i, x, d) == ({ let j = ty_at(g, i);
    &&& v_label(g, i, x.label) && x.span == spn(g, i, e_field(g, i, d)) && v_com(g, i, b_field(g, i, d), x.comments)
    &&& if is(g, j, Token::Ident("map")) { v_map(g, j, x.kind) && v_tail(g, map_name(g, j), x) }
        else if is(g, j, Token::Ident("group")) { d < 31 && v_group(g, j, e_field(g, i, d), x.kind, d) && v_tail(g, j + 1, x) }
        else { v_nf(g, j, x.kind) && v_tail(g, e_ty(g, j, ts_ident()), x) } })
{ reveal(v_body); reveal(w_items); reveal(v_item); reveal(v_field); reveal(v_group); reveal(w_fields); reveal(v_oneof); reveal(v_extend); reveal(v_message); }
pub proof fn lemma_v_oneof(g: Seq<LTok<'_>>, i: int, d: int)
    ensures forall|x: ast::Oneof| #[trigger] v_oneof(g, i, x, d) == ({ let e = e_oneof(g, i, d);
    &&& v_ident(g, i + 1, x.name) && x.span == spn(g, i, e) && v_com(g, i, i + 3, x.comments)
    &&& w_opts(g, st(4, g, i + 3, e - 1, d, 1, 1), x.options@) && w_fields(g, st(4, g, i + 3, e - 1, d, 4, 4), x.fields@, d) })
{ reveal(v_body); reveal(w_items); reveal(v_item); reveal(v_field); reveal(v_group); reveal(w_fields); reveal(v_oneof); reveal(v_extend); reveal(v_message); }
pub proof fn lemma_v_extend(g: Seq<LTok<'_>>, i: int, d: int)
    ensures forall|x: ast::Extend| #[trigger] v_extend(g, i, x, d) == ({ let e = e_extend(g, i, d);
    &&& v_tn(g, i + 1, ext_type(g, i), x.extendee) && x.span == spn(g, i, e) && v_com(g, i, ext_type(g, i) + 1, x.comments)
    &&& w_fields(g, st(5, g, ext_type(g, i) + 1, e - 1, d, 4, 4), x.fields@, d) })
{ reveal(v_body); reveal(w_items); reveal(v_item); reveal(v_field); reveal(v_group); reveal(w_fields); reveal(v_oneof); reveal(v_extend); reveal(v_message); }
pub proof fn lemma_v_message(g: Seq<LTok<'_>>, i: int, d: int)
    ensures forall|x: ast::Message| #[trigger] v_message(g, i, x, d) == ({ v_ident(g, i + 1, x.name) && x.span == spn(g, i, e_message(g, i, d)) && v_com(g, i, i + 3, x.comments) && d < 31 && v_body(g, i + 3, e_message(g, i, d), x.body, d + 1) })
{ reveal(v_body); reveal(w_items); reveal(v_item); reveal(v_field); reveal(v_group); reveal(w_fields); reveal(v_oneof); reveal(v_extend); reveal(v_message); }
pub proof fn lemma_v_group(g: Seq<LTok<'_>>, j: int, e: int, d: int)
    ensures forall|x: ast::FieldKind| #[trigger] v_group(g, j, e, x, d) == ({ x matches ast::FieldKind::Group { ty_span, body } && ty_span == g[j].span && d < 31 && v_body(g, group_body(g, j), e, body, d + 1) })
{ reveal(v_body); reveal(w_items); reveal(v_item); reveal(v_field); reveal(v_group); reveal(w_fields); reveal(v_oneof); reveal(v_extend); reveal(v_message); }
pub proof fn lemma_v_body(g: Seq<LTok<'_>>, i: int, e: int, d: int)
    ensures forall|x: ast::MessageBody| #[trigger] v_body(g, i, e, x, d) == ({ &&& w_opts(g, st(0, g, i, e - 1, d, 1, 1), x.options@) && w_reserved(g, st(0, g, i, e - 1, d, 2, 2), x.reserved@) && w_exts(g, st(0, g, i, e - 1, d, 3, 3), x.extensions@)
    &&& w_items(g, st(0, g, i, e - 1, d, 4, 8), x.items@, d) })
{ reveal(v_body); reveal(w_items); reveal(v_item); reveal(v_field); reveal(v_group); reveal(w_fields); reveal(v_oneof); reveal(v_extend); reveal(v_message); }
pub proof fn lemma_v_item(g: Seq<LTok<'_>>, i: int, d: int)
    ensures
        forall|f: ast::Field| #[trigger] v_item(g, i, ast::MessageItem::Field(f), d) == (kindof(0, g, i) == 4 && v_field(g, i, f, d)),
        forall|f: ast::Enum| #[trigger] v_item(g, i, ast::MessageItem::Enum(f), d) == (kindof(0, g, i) == 5 && v_enum(g, i, f, d)),
        forall|f: ast::Message| #[trigger] v_item(g, i, ast::MessageItem::Message(f), d) == (kindof(0, g, i) == 6 && v_message(g, i, f, d)),
        forall|f: ast::Extend| #[trigger] v_item(g, i, ast::MessageItem::Extend(f), d) == (kindof(0, g, i) == 7 && v_extend(g, i, f, d)),
        forall|f: ast::Oneof| #[trigger] v_item(g, i, ast::MessageItem::Oneof(f), d) == (kindof(0, g, i) == 8 && v_oneof(g, i, f, d)),
{ reveal(v_body); reveal(w_items); reveal(v_item); reveal(v_field); reveal(v_group); reveal(w_fields); reveal(v_oneof); reveal(v_extend); reveal(v_message); }
/// Lists grow by pushing.
pub proof fn lemma_w_push(g: Seq<LTok<'_>>, d: int)
    ensures
        forall|s: Seq<int>, k: int, x: Seq<ast::MessageItem>, y: ast::MessageItem| w_items(g, s, x, d) && v_item(g, k, y, d) ==> #[trigger] w_items(g, s.push(k), x.push(y), d),
        forall|s: Seq<int>, k: int, x: Seq<ast::Field>, y: ast::Field| w_fields(g, s, x, d) && v_field(g, k, y, d) ==> #[trigger] w_fields(g, s.push(k), x.push(y), d),
        w_items(g, seq![], seq![], d), w_fields(g, seq![], seq![], d),
{ reveal(v_body); reveal(w_items); reveal(v_item); reveal(v_field); reveal(v_group); reveal(w_fields); reveal(v_oneof); reveal(v_extend); reveal(v_message); }
// ------------------------------------------------------------ files
#[verifier::opaque]
pub open spec fn v_fitem(g: Seq<LTok<'_>>, i: int, x: ast::FileItem) -> bool {
    let k = kindof(6, g, i);
    match x {
        ast::FileItem::Enum(f) => k == 5 && v_enum(g, i, f, 0), ast::FileItem::Message(f) => k == 6 && v_message(g, i, f, 0),
        ast::FileItem::Extend(f) => k == 7 && v_extend(g, i, f, 0), ast::FileItem::Service(f) => k == 9 && v_service(g, i, f, 0),
    }
}
pub open spec fn w_fitems(g: Seq<LTok<'_>>, s: Seq<int>, x: Seq<ast::FileItem>) -> bool { x.len() == s.len() && forall|j: int| 0 <= j < x.len() ==> v_fitem(g, s[j], #[trigger] x[j]) }
pub open spec fn w_package(g: Seq<LTok<'_>>, s: Seq<int>, x: std::option::Option<ast::Package>) -> bool { match x { Some(p) => s.len() == 1 && v_package(g, s[0], p), None => s.len() == 0 } }
/// Statement of a file.
#[verifier::opaque]
pub open spec fn v_st(g: Seq<LTok<'_>>, i: int, x: Statement, d: int) -> bool {
    let k = kindof(6, g, i);
    &&& st_span(x) == spn(g, i, e_stmt(6, g, i, d))
    &&& match x {
        Statement::Empty(_) => k == 0, Statement::Option(f) => k == 1 && v_option(g, i, f), Statement::Import(f) => k == 12 && v_import(g, i, f), Statement::Package(f) => k == 13 && v_package(g, i, f),
        Statement::Enum(f) => k == 5 && v_enum(g, i, f, d), Statement::Message(f) => k == 6 && v_message(g, i, f, d), Statement::Extend(f) => k == 7 && v_extend(g, i, f, d), Statement::Service(f) => k == 9 && v_service(g, i, f, d),
    }
}
/// The statements from `k` to the end of the text, at most one `package` among them (none if there was one already).
#[verifier::opaque]
pub open spec fn e_fseq(g: Seq<LTok<'_>>, k: int, pkg: bool) -> int
    decreases rest(g, k)
{
    if k == g.len() { k } else {
        let e = e_stmt(6, g, k, 0);
        if !(0 <= k < e && k < g.len()) || (pkg && kindof(6, g, k) == 13) { -1 } else { e_fseq(g, e, pkg || kindof(6, g, k) == 13) }
    }
}
/// Where the statements of a file start: after `syntax = ..;`.
#[verifier::opaque]
pub open spec fn f_start(g: Seq<LTok<'_>>) -> int { if is(g, 0, Token::Ident("syntax")) { e_syntax(g, 0) } else { 0 } }
/// Whether the tokens are a file.
#[verifier::opaque]
pub open spec fn e_file(g: Seq<LTok<'_>>) -> int { e_fseq(g, f_start(g), false) }
pub open spec fn v_file_syntax(g: Seq<LTok<'_>>, x: ast::File) -> bool {
    if is(g, 0, Token::Ident("syntax")) { v_syntax(g, 0, x.syntax) && x.syntax_span is Some && (x.syntax_span->0).0 == spn(g, 0, f_start(g)) }
    else { x.syntax is Proto2 && x.syntax_span is None }
}
pub open spec fn v_file_span(g: Seq<LTok<'_>>, len: int, x: ast::File) -> bool { x.span.start == (if g.len() > 0 { g[0].span.start as int } else { len }) && (g.len() > 0 ==> x.span.end == g.last().span.end) && (g.len() == 0 ==> x.span.end == 0) }
/// The file the tokens denote.
#[verifier::opaque]
pub open spec fn v_file(g: Seq<LTok<'_>>, len: int, x: ast::File) -> bool {
    let (i, e) = (f_start(g), g.len() as int);
    &&& v_file_syntax(g, x) && v_file_span(g, len, x) && (x.syntax_span is Some ==> v_com(g, 0, f_start(g), (x.syntax_span->0).1))
    &&& w_package(g, st(6, g, i, e, 0, 13, 13), x.package) && w_imports(g, st(6, g, i, e, 0, 12, 12), x.imports@)
    &&& w_opts(g, st(6, g, i, e, 0, 1, 1), x.options@) && w_fitems(g, st(6, g, i, e, 0, 5, 9), x.items@)
}
pub proof fn lemma_f0(g: Seq<LTok<'_>>)
    ensures e_fseq(g, -1, false) == -1
{ reveal_with_fuel(e_fseq, 2); }
/// One more statement of the file.
pub proof fn lemma_fstep(g: Seq<LTok<'_>>, i: int, k: int)
    ensures
        reach(6, g, i, k, 0) && 0 <= k < g.len() && k < e_stmt(6, g, k, 0) ==> reach(6, g, i, e_stmt(6, g, k, 0), 0)
            && forall|lo: int, hi: int| #[trigger] st(6, g, i, e_stmt(6, g, k, 0), 0, lo, hi) == if lo <= kindof(6, g, k) <= hi { st(6, g, i, k, 0, lo, hi).push(k) } else { st(6, g, i, k, 0, lo, hi) },
        k < g.len() && e_stmt(6, g, k, 0) < 0 ==> e_fseq(g, k, true) == -1 && e_fseq(g, k, false) == -1,
{
    reveal_with_fuel(e_fseq, 2);
    lemma_step(6, g, i, k, 0);
    lemma_u_stmt(6, g, k, 0);
}
// ------------------------------------------------------------ the sizes of lists built by pushing
pub broadcast proof fn lemma_ranges_push(s: Seq<ast::Reserved>, x: ast::Reserved, n: int)
    requires 0 <= n <= s.len() + 1
    ensures (#[trigger] ranges_of(s.push(x), n)).len() == if n <= s.len() { ranges_of(s, n).len() } else { ranges_of(s, n - 1).len() + (match x.kind { ast::ReservedKind::Ranges(v) => v@.len(), _ => 0 }) }
    decreases n
{ reveal_with_fuel(ranges_of, 2); if n > 0 { lemma_ranges_push(s, x, n - 1); } }
pub broadcast proof fn lemma_names_push(s: Seq<ast::Reserved>, x: ast::Reserved, n: int)
    requires 0 <= n <= s.len() + 1
    ensures (#[trigger] names_of(s.push(x), n)).len() == if n <= s.len() { names_of(s, n).len() } else { names_of(s, n - 1).len() + (match x.kind { ast::ReservedKind::Names(v) => v@.len(), _ => 0 }) }
    decreases n
{ reveal_with_fuel(names_of, 2); if n > 0 { lemma_names_push(s, x, n - 1); } }
pub broadcast proof fn lemma_extranges_push(s: Seq<ast::Extensions>, x: ast::Extensions, n: int)
    requires 0 <= n <= s.len() + 1
    ensures (#[trigger] extranges_of(s.push(x), n)).len() == if n <= s.len() { extranges_of(s, n).len() } else { extranges_of(s, n - 1).len() + x.ranges@.len() }
    decreases n
{ reveal_with_fuel(extranges_of, 2); if n > 0 { lemma_extranges_push(s, x, n - 1); } }
pub proof fn lemma_nest_len(s: Seq<ast::Field>, n: int)
    requires 0 <= n <= s.len()
    ensures nest_fields(s, n).len() <= n
    decreases n
{ reveal_with_fuel(nest_fields, 2); if n > 0 { lemma_nest_len(s, n - 1); } }
/// How many fields an item holds.
pub open spec fn item_size(x: ast::MessageItem) -> nat { match x { ast::MessageItem::Oneof(o) => o.fields@.len(), ast::MessageItem::Extend(e) => e.fields@.len(), _ => 1 } }
pub open spec fn fitem_size(x: ast::FileItem) -> nat { match x { ast::FileItem::Extend(e) => e.fields@.len(), _ => 1 } }
pub broadcast proof fn lemma_nested_push(s: Seq<ast::MessageItem>, x: ast::MessageItem, n: int)
    requires 0 <= n <= s.len() + 1
    ensures (#[trigger] nested_of(s.push(x), n)).len() <= if n <= s.len() { nested_of(s, n).len() } else { nested_of(s, n - 1).len() + item_size(x) }
    decreases n
{
    reveal_with_fuel(nested_of, 2);
    match x { ast::MessageItem::Oneof(o) => { lemma_nest_len(o.fields@, o.fields@.len() as int); }, ast::MessageItem::Extend(e) => { lemma_nest_len(e.fields@, e.fields@.len() as int); }, _ => {} }
    if n > 0 { lemma_nested_push(s, x, n - 1); }
}
pub broadcast proof fn lemma_exts_push(s: Seq<ast::MessageItem>, x: ast::MessageItem, n: int)
    requires 0 <= n <= s.len() + 1
    ensures (#[trigger] exts_of(s.push(x), n)).len() <= if n <= s.len() { exts_of(s, n).len() } else { exts_of(s, n - 1).len() + item_size(x) }
    decreases n
{ reveal_with_fuel(exts_of, 2); if n > 0 { lemma_exts_push(s, x, n - 1); } }
pub broadcast proof fn lemma_fields_push(s: Seq<ast::MessageItem>, x: ast::MessageItem, n: int)
    requires 0 <= n <= s.len() + 1
    ensures (#[trigger] fields_of(ast::Syntax::Proto2, 0, s.push(x), n)).len() <= if n <= s.len() { fields_of(ast::Syntax::Proto2, 0, s, n).len() } else { fields_of(ast::Syntax::Proto2, 0, s, n - 1).len() + item_size(x) }
    decreases n
{ reveal_with_fuel(fields_of, 2); if n > 0 { lemma_fields_push(s, x, n - 1); } }
pub broadcast proof fn lemma_fnested_push(s: Seq<ast::FileItem>, x: ast::FileItem, n: int)
    requires 0 <= n <= s.len() + 1
    ensures (#[trigger] fnested(s.push(x), n)).len() <= if n <= s.len() { fnested(s, n).len() } else { fnested(s, n - 1).len() + fitem_size(x) }
    decreases n
{
    reveal_with_fuel(fnested, 2);
    match x { ast::FileItem::Extend(e) => { lemma_nest_len(e.fields@, e.fields@.len() as int); }, _ => {} }
    if n > 0 { lemma_fnested_push(s, x, n - 1); }
}
pub broadcast proof fn lemma_fexts_push(s: Seq<ast::FileItem>, x: ast::FileItem, n: int)
    requires 0 <= n <= s.len() + 1
    ensures (#[trigger] fexts(s.push(x), n)).len() <= if n <= s.len() { fexts(s, n).len() } else { fexts(s, n - 1).len() + fitem_size(x) }
    decreases n
{ reveal_with_fuel(fexts, 2); if n > 0 { lemma_fexts_push(s, x, n - 1); } }
// the lists the parser fills: `n` bounds their sizes
pub open spec fn l_opts(s: Seq<ast::Option>, n: int) -> bool { s.len() <= n && forall|i: int| 0 <= i < s.len() ==> ok_ob((#[trigger] s[i]).body) && sp(s[i].span) }
pub open spec fn l_methods(s: Seq<ast::Method>, n: int) -> bool { s.len() <= n && forall|i: int| 0 <= i < s.len() ==> ok_method(#[trigger] s[i]) }
pub open spec fn l_fields(s: Seq<ast::Field>, n: int) -> bool { s.len() <= n && forall|i: int| 0 <= i < s.len() ==> ok_field(#[trigger] s[i]) }
pub open spec fn l_evs(s: Seq<ast::EnumValue>, n: int) -> bool { s.len() <= n && forall|i: int| 0 <= i < s.len() ==> ok_ev(#[trigger] s[i]) }
pub open spec fn l_reserved(s: Seq<ast::Reserved>, n: int) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> ok_reserved1(#[trigger] s[i])) && ranges_of(s, s.len() as int).len() <= n && names_of(s, s.len() as int).len() <= n
}
pub open spec fn l_exts(s: Seq<ast::Extensions>, n: int) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> ok_ext1(#[trigger] s[i])) && extranges_of(s, s.len() as int).len() <= n
}
pub open spec fn l_items(s: Seq<ast::MessageItem>, n: int) -> bool {
    &&& s.len() <= n && forall|i: int| 0 <= i < s.len() ==> ok_item(#[trigger] s[i])
    &&& fields_of(ast::Syntax::Proto2, 0, s, s.len() as int).len() <= n && nested_of(s, s.len() as int).len() <= n && exts_of(s, s.len() as int).len() <= n
}
/// How many ranges or names a reserved statement gives.
pub open spec fn res1(r: ast::Reserved) -> nat { match r.kind { ast::ReservedKind::Ranges(v) => v@.len(), ast::ReservedKind::Names(v) => v@.len() } }
pub open spec fn st_span(s: Statement) -> Span {
    match s { Statement::Empty(x) => x, Statement::Package(x) => x.span, Statement::Import(x) => x.span, Statement::Option(x) => x.span,
        Statement::Message(x) => x.span, Statement::Enum(x) => x.span, Statement::Service(x) => x.span, Statement::Extend(x) => x.span }
}
pub open spec fn l_fitems(s: Seq<ast::FileItem>, n: int) -> bool {
    &&& s.len() <= n && forall|i: int| 0 <= i < s.len() ==> ok_fitem(#[trigger] s[i])
    &&& fnested(s, s.len() as int).len() <= n && fexts(s, s.len() as int).len() <= n
}
pub open spec fn l_imports(s: Seq<ast::Import>, n: int) -> bool { s.len() <= n && forall|i: int| 0 <= i < s.len() ==> ok_import(#[trigger] s[i]) }
pub open spec fn ok_st(s: Statement, n: int) -> bool {
    sp(st_span(s)) && match s { Statement::Empty(x) => true, Statement::Package(x) => ok_fi(x.name), Statement::Import(x) => ok_import(x), Statement::Option(x) => ok_ob(x.body),
        Statement::Message(x) => ok_message(x), Statement::Enum(x) => ok_enum(x), Statement::Service(x) => ok_service(x), Statement::Extend(x) => ok_extend(x) && x.fields@.len() <= n }
}
/// The keywords a file can be picked up again at.
pub open spec fn stop(t: Token<'_>) -> bool {
    t matches Token::Ident(x) && (x@ == "enum"@ || x@ == "extend"@ || x@ == "import"@ || x@ == "message"@ || x@ == "option"@ || x@ == "service"@ || x@ == "package"@)
}
@def STD
requires
- [C01] old(self).inv()
- [C21] old(self).calm()
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self)) && (res is Ok ==> final(self).cur() > old(self).cur() && final(self).k() > old(self).k())
- [C02] res is Err ==> final(self).errs() > 0
@end
@def COM
requires
- [C16] old(self).rdy()
ensures
- [C16] res is Ok ==> final(self).rdy()
- [C16] res is Ok && final(self).clean() ==> v_com(old(self).g(), old(self).k(), %1, %2)
@end
@def COMX
requires
- [C16] old(self).rdy()
ensures
- [C16] res is Ok ==> final(self).rdy()
@end
@def COMF
ensures
- [C16] res is Ok ==> final(self).rdy()
- [C16] res is Ok ==> (res->Ok_0).comments.leading_detached_comments == leading_comments.0 && (res->Ok_0).comments.leading_comment == leading_comments.1
- [C16] res is Ok && final(self).clean() ==> v_trail(old(self).g(), %1, (res->Ok_0).comments.trailing_comment)
@end
@def STDX
requires
- [C01] old(self).inv()
- [C21] old(self).calm()
- %1
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self)) && (res is Ok ==> final(self).cur() > old(self).cur() && final(self).k() > old(self).k())
- [C02] res is Err ==> final(self).errs() > 0
@end
@def DEC
decreases
- 31 - old(self).message_depth, %1int
@end
@def KW
- [C01] old(self).at(%1) ==> final(self).cur() > old(self).cur()
@end
@def BRK
ensures
- sp(vx_brk_0)
decreases
- self.rem()
@end
@def LEN
@ghost start
 proof { lemma_lex_len(self.all(), encode_utf8(self.lexer.src@).len(), self.all().len()); }
@end
@def LI
@loop %1
invariant
- self.inv()
- self.calm() && pf(*old(self), *self) && self.cur() > old(self).cur() && self.k() > old(self).k()
@end
@fn parse::Parser::new [C01]
requires
- [C01] encode_utf8(source@).len() <= i32::MAX
ensures
- [C01] res.inv()
- [C02] res.errs() == 0
- res.lexer.src == source && res.all() == lexed(source) && res.lexer.pos@ == 0 && res.peek is None && res.message_depth == 0
- [C21] !res.lexer.extras.text_format_mode
- [C16] res.cv() == cv_new()
@ghost start
 reveal(readok);
@fn parse::Parser::add_error [C02]
ensures
- [C02] final(self).errs() == old(self).errs() + 1
- final(self).lexer.src == old(self).lexer.src && final(self).lexer.all == old(self).lexer.all && final(self).lexer.pos == old(self).lexer.pos && final(self).lexer.done == old(self).lexer.done && final(self).lexer.extras.text_format_mode == old(self).lexer.extras.text_format_mode
- final(self).peek == old(self).peek && final(self).comments == old(self).comments && final(self).message_depth == old(self).message_depth
- [C01] old(self).inv() ==> final(self).inv()
@fn parse::Parser::eof [C02]
requires
- [C01] old(self).inv() && expected.disp_ok()
ensures
- [C02] final(self).errs() == old(self).errs() + 1
- final(self).lexer.src == old(self).lexer.src && final(self).lexer.all == old(self).lexer.all && final(self).lexer.pos == old(self).lexer.pos && final(self).lexer.done == old(self).lexer.done && final(self).lexer.extras.text_format_mode == old(self).lexer.extras.text_format_mode
- final(self).peek == old(self).peek && final(self).comments == old(self).comments && final(self).message_depth == old(self).message_depth
- [C01] final(self).inv()
@fn parse::Parser::next [C01]
requires
- [C01] old(self).inv() && old(self).peek is None
ensures
- final(self).lexer.src == old(self).lexer.src && final(self).lexer.all == old(self).lexer.all && final(self).message_depth == old(self).message_depth && final(self).peek is None
- final(self).lexer.extras.text_format_mode == old(self).lexer.extras.text_format_mode
- [C02] final(self).errs() >= old(self).errs()
- [C01] final(self).inv()
- [C16] !(res is Err) ==> final(self).comments == old(self).comments
- [C02] match res { Ok(Some((t, s))) => ({
      let p = old(self).lexer.pos@ as int;
      &&& p < old(self).all().len() && final(self).lexer.pos@ == p + 1 && old(self).all()[p].tok == Ok::<Token, ()>(t)
      &&& old(self).all()[p].span == s && sp(s)
      }), Ok(None) => final(self).lexer.pos@ == old(self).lexer.pos@ == old(self).all().len(),
      Err(_) => final(self).errs() > 0 && old(self).lexer.pos@ < old(self).all().len() && final(self).lexer.pos@ == old(self).lexer.pos@ + 1 }
- lexonly(*old(self), *final(self)) && (res is Err ==> final(self).lexbad() && final(self).all()[final(self).lexer.pos@ - 1].tok is Err)
@ghost start
 reveal(lexb); reveal(readok); reveal(lex_wf);
@fn parse::Parser::bump [C01]
requires
- [C01] old(self).inv() && old(self).peek matches Some(Ok(_))
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self))
- final(self).errs() == old(self).errs() && final(self).lexer.extras.text_format_mode == old(self).lexer.extras.text_format_mode
- [C01] final(self).peek is None && final(self).cur() == old(self).cur() + 1
- [C09] old(self).peek->0->Ok_0.1 == res
- [C16] trivia(old(self).peek->0->Ok_0.0) ==> final(self).comments == old(self).comments
- [C16] !trivia(old(self).peek->0->Ok_0.0) ==> final(self).cv() == cv_reset()
- final(self).k() == old(self).k() + if trivia(old(self).peek->0->Ok_0.0) { 0int } else { 1 }
- [C16] !trivia(old(self).peek->0->Ok_0.0) ==> final(self).fresh()
- final(self).lexer.pos == old(self).lexer.pos
@ghost start
 reveal_with_fuel(sig, 2); reveal(lexb);
@fn parse::Parser::peek_comments [C01]
requires
- [C01] old(self).inv()
ensures
- [C01] final(self).inv() && peeked(*final(self), res)
- pf(*old(self), *final(self)) && final(self).cur() == old(self).cur()
- final(self).lexer.extras.text_format_mode == old(self).lexer.extras.text_format_mode
- old(self).peek is Some ==> final(self).peek == old(self).peek && final(self).errs() == old(self).errs() && final(self).comments == old(self).comments && final(self).lexer.pos == old(self).lexer.pos
- [C16] res is Ok ==> final(self).comments == old(self).comments
- final(self).lexer.pos@ > 0 || final(self).all().len() == 0
- nextc(*final(self), res) && lexonly(*old(self), *final(self))
@ghost start
 reveal(lexb); reveal_with_fuel(sig, 2);
@ghost end
 proof { if self.peek is Some && self.peek->0 is Ok && !trivia(self.peek->0->Ok_0.0) { lemma_next(*self, self.peek->0->Ok_0.0, self.peek->0->Ok_0.1); } }
@fn parse::Parser::peek_skip_comments [C01]
requires
- [C01] old(self).inv()
ensures
- [C01] final(self).inv() && peeked(*final(self), res)
- pf(*old(self), *final(self)) && final(self).k() == old(self).k()
- final(self).lexer.extras.text_format_mode == old(self).lexer.extras.text_format_mode
- nextok(*final(self), res)
- lexonly(*old(self), *final(self))
- (old(self).peek matches Some(Ok((t, s))) && !trivia(t)) ==> final(self).peek == old(self).peek && final(self).errs() == old(self).errs() && final(self).comments == old(self).comments && final(self).lexer.pos == old(self).lexer.pos
- [C16] res is Ok ==> final(self).comments == old(self).comments
- [C16] prevr(final(self).all(), final(self).cur()) == prevr(old(self).all(), old(self).cur()) || !final(self).clean()
@loop 0
invariant
- self.inv()
- pf(*old(self), *self)
- self.k() == old(self).k()
- lexonly(*old(self), *self)
- self.lexer.extras.text_format_mode == old(self).lexer.extras.text_format_mode
- (old(self).peek matches Some(Ok((t, s))) && !trivia(t)) ==> self.peek == old(self).peek && self.errs() == old(self).errs() && self.comments == old(self).comments && self.lexer.pos == old(self).lexer.pos
- [C16] self.comments == old(self).comments
- [C16] self.clean() ==> prevr(self.all(), self.cur()) == prevr(old(self).all(), old(self).cur())
decreases
- self.rem()
@ghost loop 0 start
 proof { lemma_prevr(self.all(), self.cur() + 1); }
@fn parse::Parser::peek [C01]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).inv()
ensures
- [C01] final(self).inv() && peeked(*final(self), res)
- pf(*old(self), *final(self)) && final(self).k() == old(self).k()
- final(self).lexer.extras.text_format_mode == old(self).lexer.extras.text_format_mode
- nextok(*final(self), res)
- lexonly(*old(self), *final(self))
- (old(self).peek matches Some(Ok((t, s))) && !trivia(t)) ==> final(self).peek == old(self).peek && final(self).errs() == old(self).errs() && final(self).lexer.pos == old(self).lexer.pos
- [C16] old(self).clean() && old(self).rdy() && final(self).clean() ==> final(self).settled()
- [C16] old(self).fresh() && final(self).clean() ==> final(self).cv() == c_at(old(self).all(), old(self).cur()) || (old(self).cur() == 0 && final(self).k() == 0)
- [C16] (old(self).peek matches Some(Ok((t, s))) && !trivia(t)) ==> final(self).comments == old(self).comments
@ghost start
 reveal(lex_wf); reveal(c_at); proof { let (a, p) = (self.all(), self.cur()); lemma_prevr(a, p); lemma_prevr(a, p + 1); lemma_prevr(a, p + 2); lemma_c_loop(a, 0); }
@loop 0
invariant
- self.inv()
- pf(*old(self), *self)
- self.k() == old(self).k()
- lexonly(*old(self), *self)
- self.lexer.extras.text_format_mode == old(self).lexer.extras.text_format_mode
- (old(self).peek matches Some(Ok((t, s))) && !trivia(t)) ==> self.peek == old(self).peek && self.errs() == old(self).errs() && self.lexer.pos == old(self).lexer.pos
- [C16] !(old(self).peek matches Some(Ok((t, s))) && !trivia(t))
- [C16] old(self).fresh() && self.clean() ==> c_loop(self.all(), self.cur(), self.cv()) == c_at(self.all(), old(self).cur()) && prevr(self.all(), self.cur()) == old(self).cur()
- [C16] old(self).clean() && old(self).settled() && self.clean() ==> self.all().len() == 0 && self.cv().det == cv_new().det && self.cv().lead is None
decreases
- self.rem()
@ghost loop 0 start
 reveal(lex_wf); proof { let (a, p) = (self.all(), self.cur()); lemma_c_at0(a); lemma_c_loop(a, p); lemma_prevr(a, p); lemma_prevr(a, p + 1); lemma_prevr(a, p + 2); }
@fn parse::Parser::unexpected_token [C02]
requires
- [C01] old(self).inv() && expected.disp_ok()
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self)) && final(self).k() == old(self).k()
- [C02] res is Err && final(self).errs() > 0
- final(self).peek is Some || final(self).cur() == final(self).all().len()
- (old(self).peek matches Some(Ok((t, s))) && !trivia(t)) ==> final(self).peek == old(self).peek && final(self).lexer.pos == old(self).lexer.pos
@fn parse::Parser::expect_eq [C01]
requires
- [C01] old(self).inv()
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self)) && lexonly_ok(*old(self), *final(self), res is Ok)
- [C02] res is Err ==> final(self).errs() > 0
- [C18] out(*old(self), *final(self), res is Ok, e_tok(old(self).g(), old(self).k(), t))
- res is Ok ==> is(old(self).g(), old(self).k(), t) && final(self).k() == old(self).k() + 1 && final(self).cur() > old(self).cur()
- [C01] old(self).at(t) && !trivia(t) ==> res is Ok
- [C09] res is Ok ==> res->Ok_0 == old(self).g()[old(self).k()].span
- [C01] res is Ok ==> sp(res->Ok_0)
- [C16] res is Ok ==> final(self).cv() == cv_reset()
- res is Ok ==> final(self).peek is None
- [C16] res is Ok ==> final(self).fresh()
@fn parse::Parser::expect [C18]
requires
- [C01] old(self).inv() && expected.disp_ok()
- [C01] forall|t: Token<'_>, s: Span| call_requires(f, (t, s))
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self)) && lexonly_ok(*old(self), *final(self), res is Ok)
- [C02] res is Err ==> final(self).errs() > 0
- [C18] match res {
   Ok(v) => old(self).k() < old(self).g().len() && old(self).g()[old(self).k()].tok is Ok && call_ensures(f, (old(self).g()[old(self).k()].tok->Ok_0, old(self).g()[old(self).k()].span), Some(v)),
   Err(_) => final(self).lexbad() || old(self).k() >= old(self).g().len() || old(self).g()[old(self).k()].tok is Err || call_ensures(f, (old(self).g()[old(self).k()].tok->Ok_0, old(self).g()[old(self).k()].span), None) }
- res is Ok ==> final(self).k() == old(self).k() + 1 && final(self).cur() > old(self).cur() && final(self).peek is None
- [C16] res is Ok ==> final(self).cv() == cv_reset()
@fn parse::Parser::skip_until [C01]
requires
- [C01] old(self).inv()
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self))
- [C01] (old(self).peek matches Some(Err(_))) ==> final(self).cur() > old(self).cur()
- [C01] (old(self).peek matches Some(Ok((t, s))) && !trivia(t) && (forall|i: int| 0 <= i < tokens@.len() ==> !teq(#[trigger] tokens@[i], t))) ==> final(self).cur() > old(self).cur()
@loop 0
invariant
- self.inv()
- pf(*old(self), *self)
- (old(self).peek matches Some(Err(_))) ==> self.cur() > old(self).cur() || self.peek == old(self).peek
- (old(self).peek matches Some(Ok((t, s))) && !trivia(t) && (forall|i: int| 0 <= i < tokens@.len() ==> !teq(#[trigger] tokens@[i], t))) ==> self.cur() > old(self).cur() || self.peek == old(self).peek
decreases
- self.rem()
@ghost loop 0 start
 reveal_with_fuel(sig, 2); reveal(lexb);
@fn parse::Parser::parse_leading_comments [C16]
requires
- [C01] old(self).inv()
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self)) && final(self).k() == old(self).k() && lexonly(*old(self), *final(self))
- (old(self).peek matches Some(Ok((t, s))) && !trivia(t)) ==> final(self).peek == old(self).peek && final(self).errs() == old(self).errs() && final(self).lexer.pos == old(self).lexer.pos
- [C16] old(self).clean() && old(self).rdy() && final(self).clean() && final(self).k() < final(self).g().len() ==> v_lead(final(self).g(), old(self).k(), res.0@, res.1)
@ghost end
 proof { reveal(v_lead); if self.k() < self.g().len() && self.cur() < self.all().len() && sigt(self.all()[self.cur()]) { lemma_sig_at(self.all(), self.cur()); } }
@fn parse::Parser::parse_trailing_comment [C16]
requires
- [C01] old(self).inv()
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self)) && final(self).k() == old(self).k() && lexonly(*old(self), *final(self))
- [C16] res.leading_detached_comments == vx_arg_0.0 && res.leading_comment == vx_arg_0.1
- [C16] old(self).clean() && old(self).fresh() && final(self).clean() ==> final(self).settled() && (old(self).k() > 0 ==> v_trail(final(self).g(), old(self).k(), res.trailing_comment))
@ghost start
 proof { reveal(v_trail); reveal_with_fuel(sig, 2); if 0 < self.cur() <= self.all().len() && sigt(self.all()[self.cur() - 1]) { lemma_sig_at(self.all(), self.cur() - 1); } }
@fn parse::ExpectedToken::matches [C18]
ensures
- [C18] res == tm(*self, *t)
@fn parse::Parser::parse_ident [C18]
requires
- [C01] old(self).inv()
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self)) && (res is Ok ==> final(self).cur() > old(self).cur() && final(self).k() > old(self).k())
- [C02] res is Err ==> final(self).errs() > 0
- [C18] out(*old(self), *final(self), res is Ok, e_ident(old(self).g(), old(self).k()))
- [C18] res is Ok ==> v_ident(old(self).g(), old(self).k(), res->Ok_0)
- [C01] res is Ok ==> sp((res->Ok_0).span)
@ghost start
 proof { lemma_sig_span(self.all(), self.all().len() as int, encode_utf8(self.lexer.src@).len()); }
@closure 0
(Token, Span) -> (b: Option<ast::Ident>) ensures match $1 { Token::Ident(v) => b is Some && b->0.value@ == v@ && b->0.span == $2, _ => b is None }
@fn parse::Parser::parse_int [C04]
requires
- [C01] old(self).inv()
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self)) && (res is Ok ==> final(self).cur() > old(self).cur() && final(self).k() > old(self).k())
- [C02] res is Err ==> final(self).errs() > 0
- [C04,C05] out(*old(self), *final(self), res is Ok, e_int(old(self).g(), old(self).k()))
- [C04,C05] res is Ok && final(self).clean() ==> v_int(old(self).g(), old(self).k(), res->Ok_0)
- [C01] res is Ok ==> sp((res->Ok_0).span)
@fn parse::Parser::parse_string [C07]
requires
- [C01] old(self).inv()
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self)) && (res is Ok ==> final(self).cur() > old(self).cur() && final(self).k() > old(self).k())
- [C02] res is Err ==> final(self).errs() > 0
- [C07] out(*old(self), *final(self), res is Ok, e_str(old(self).g(), old(self).k()))
- [C07] res is Ok && final(self).clean() ==> v_str(old(self).g(), old(self).k(), res->Ok_0)
- [C01] res is Ok ==> sp((res->Ok_0).span)
@ghost before loop 0
 proof { reveal_with_fuel(bytes_of, 2); assert(bytes_of(self.g(), self.k() - 1, self.k()) =~= result.value@); }
@loop 0
invariant
- self.inv()
- pf(*old(self), *self) && self.cur() > old(self).cur()
- old(self).k() < self.k() && lexonly(*old(self), *self)
- self.k() <= self.g().len()
- self.clean() ==> is_str(self.g(), self.k() - 1) && e_str(self.g(), old(self).k()) == e_str(self.g(), self.k() - 1)
- self.clean() ==> result.value@ == bytes_of(self.g(), old(self).k(), self.k()) && result.span == spn(self.g(), old(self).k(), self.k())
- sp(result.span)
ensures
- self.clean() ==> !is_str(self.g(), self.k())
decreases
- self.rem()
@fn parse::Parser::parse_utf8_string [C07]
requires
- [C01] old(self).inv()
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self)) && (res is Ok ==> final(self).cur() > old(self).cur() && final(self).k() > old(self).k())
- [C02] res is Err ==> final(self).errs() > 0
- [C07] out(*old(self), *final(self), res is Ok, e_utf8(old(self).g(), old(self).k()))
- [C07] res is Ok && final(self).clean() ==> v_utf8(old(self).g(), old(self).k(), (res->Ok_0).0, (res->Ok_0).1)
- [C01] res is Ok ==> sp((res->Ok_0).1)
@fn parse::Parser::parse_full_ident [C18]
@put STD
- [C01] res is Ok ==> ok_fi(res->Ok_0)
- [C18] out(*old(self), *final(self), res is Ok, e_fi(old(self).g(), old(self).k(), terminators@))
- [C18] res is Ok && final(self).clean() ==> v_fi(old(self).g(), old(self).k(), final(self).k(), (res->Ok_0).parts@)
@put LI 0
- result@.len() > 0 && forall|i: int| 0 <= i < result@.len() ==> sp((#[trigger] result@[i]).span)
- part(*old(self), *self, e_fi(self.g(), old(self).k(), terminators@), e_fir(self.g(), self.k(), terminators@))
- self.clean() ==> v_fi(self.g(), old(self).k(), self.k(), result@)
decreases
- self.rem()
@closure 0
(&ExpectedToken) -> (b: bool) ensures b == tm(*$1, tok)
@ghost start
 broadcast use group_neg; reveal(e_fi); reveal(v_fi); reveal_with_fuel(e_fir, 2);
@ghost loop 0 start
 broadcast use group_neg; reveal(e_fi); reveal(v_fi); reveal_with_fuel(e_fir, 2);
@fn parse::Parser::parse_type_name [C18]
@put STD
- [C01] res is Ok ==> ok_tn(res->Ok_0)
- [C18] out(*old(self), *final(self), res is Ok, e_tn(old(self).g(), old(self).k(), terminators@))
- [C18] res is Ok && final(self).clean() ==> v_tn(old(self).g(), old(self).k(), final(self).k(), (res->Ok_0))
@ghost start
 broadcast use group_neg; reveal(e_tn); reveal(v_tn); reveal(e_fi); 
@fn parse::Parser::parse_field_type [C18]
@put STD
- [C01] res is Ok ==> ok_ty((res->Ok_0).0) && sp((res->Ok_0).1)
- [C18] out(*old(self), *final(self), res is Ok, e_ty(old(self).g(), old(self).k(), terminators@))
- [C18] res is Ok && final(self).clean() ==> v_ty(old(self).g(), old(self).k(), final(self).k(), (res->Ok_0).0)
- [C09,C10] res is Ok && final(self).clean() ==> (res->Ok_0).1 == spn(old(self).g(), old(self).k(), final(self).k())
@ghost start
 broadcast use group_neg; reveal(e_ty); reveal(v_ty); reveal(e_tn); reveal(v_tn); reveal(v_fi); reveal(e_fi); 
@fn parse::Parser::parse_syntax [C19]
@put STD
@put COM final(self).k() ; (res->Ok_0).2
- [C01] res is Ok ==> sp((res->Ok_0).1)
- [C19] out(*old(self), *final(self), res is Ok, e_syntax(old(self).g(), old(self).k()))
- [C19] res is Ok && final(self).clean() ==> v_syntax(old(self).g(), old(self).k(), (res->Ok_0).0)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).1 == spn(old(self).g(), old(self).k(), final(self).k())
@ghost start
 broadcast use group_neg; reveal(e_syntax); reveal(v_syntax); 
@fn parse::Parser::parse_package [C19]
@put STD
@put COM final(self).k() ; (res->Ok_0).comments
- [C01] res is Ok ==> sp((res->Ok_0).span) && ok_fi((res->Ok_0).name)
- [C19] out(*old(self), *final(self), res is Ok, e_package(old(self).g(), old(self).k()))
- [C19] res is Ok && final(self).clean() ==> v_package(old(self).g(), old(self).k(), (res->Ok_0))
@put KW Token::Ident("package")
@ghost start
 broadcast use group_neg; reveal(e_package); reveal(v_package); 
@fn parse::Parser::parse_import [C15]
@put STD
@put COM final(self).k() ; (res->Ok_0).comments
- [C01] res is Ok ==> ok_import(res->Ok_0)
- [C15] out(*old(self), *final(self), res is Ok, e_import(old(self).g(), old(self).k()))
- [C15] res is Ok && final(self).clean() ==> v_import_kind(old(self).g(), old(self).k(), (res->Ok_0))
- [C15] res is Ok && final(self).clean() ==> v_utf8(old(self).g(), import_at(old(self).g(), old(self).k()), (res->Ok_0).value, (res->Ok_0).value_span)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span == spn(old(self).g(), old(self).k(), final(self).k())
@put KW Token::Ident("import")
@ghost start
 broadcast use group_neg; reveal(e_import); reveal(v_import_kind);  proof { assert forall|s: Seq<char>| decode_utf8(#[trigger] encode_utf8(s)) == s by { vstd::utf8::encode_utf8_decode_utf8(s); } }
@fn parse::Parser::parse_option_name_part [C17]
@put STD
- [C01] res is Ok ==> part_ok(res->Ok_0) && sp(part_span(res->Ok_0))
- [C17] out(*old(self), *final(self), res is Ok, e_part(old(self).g(), old(self).k()))
- [C17] res is Ok && final(self).clean() ==> v_part(old(self).g(), old(self).k(), (res->Ok_0))
@ghost start
 broadcast use group_neg; reveal(e_part); reveal(v_part); reveal(e_tn); reveal(e_fi); 
@fn parse::Parser::parse_option_body [C17]
@opt floatneg
@put STD
- [C01] res is Ok ==> ok_ob(res->Ok_0)
- [C17] out(*old(self), *final(self), res is Ok, e_ob(old(self).g(), old(self).k()))
- [C17] res is Ok && final(self).clean() ==> (res->Ok_0).name@.len() > 0 && p_obn(old(self).g(), old(self).k(), (res->Ok_0).name@.len() as int) == e_obn(old(self).g(), old(self).k()) && v_obn(old(self).g(), old(self).k(), (res->Ok_0).name@)
- [C17] res is Ok && final(self).clean() ==> v_val(old(self).g(), e_obn(old(self).g(), old(self).k()), (res->Ok_0).value)
@put LI 0
- name@.len() > 0 && forall|i: int| 0 <= i < name@.len() ==> part_ok(#[trigger] name@[i]) && sp(part_span(name@[i]))
invariant_except_break
- part(*old(self), *self, e_obn(self.g(), old(self).k()), e_obnr(self.g(), self.k()))
- self.clean() ==> self.k() == e_part(self.g(), p_obn(self.g(), old(self).k(), name@.len() - 1)) && v_obn(self.g(), old(self).k(), name@)
ensures
- self.clean() ==> v_obn(self.g(), old(self).k(), name@)
- part(*old(self), *self, e_obn(self.g(), old(self).k()), self.k())
- self.clean() ==> self.k() == p_obn(self.g(), old(self).k(), name@.len() as int)
decreases
- self.rem()
@ghost start
 broadcast use group_neg; reveal(e_ob); reveal(e_obn); reveal(v_obn); reveal(e_val); reveal(v_val); reveal_with_fuel(p_obn, 2); reveal_with_fuel(e_obnr, 2);
@ghost loop 0 start
 broadcast use group_neg; reveal(e_ob); reveal(e_obn); reveal(v_obn); reveal(e_val); reveal(v_val); reveal_with_fuel(p_obn, 2); reveal_with_fuel(e_obnr, 2);
@fn parse::Parser::parse_option [C17]
@put STD
@put COM final(self).k() ; (res->Ok_0).comments
- [C01] res is Ok ==> ok_ob((res->Ok_0).body) && sp((res->Ok_0).span)
- [C17] out(*old(self), *final(self), res is Ok, e_option(old(self).g(), old(self).k()))
- [C17] res is Ok && final(self).clean() ==> v_ob(old(self).g(), old(self).k() + 1, (res->Ok_0).body)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span == spn(old(self).g(), old(self).k(), final(self).k())
@put KW Token::Ident("option")
@ghost start
 broadcast use group_neg; reveal(e_option); reveal(v_ob); 
@fn parse::Parser::parse_options_list [C17]
@put STD
- [C01] res is Ok ==> sp((res->Ok_0).span) && ok_obs((res->Ok_0).options@)
- [C17] out(*old(self), *final(self), res is Ok, e_olist(old(self).g(), old(self).k()))
- [C17] res is Ok && final(self).clean() ==> (res->Ok_0).options@.len() > 0 && p_ob(old(self).g(), old(self).k() + 1, (res->Ok_0).options@.len() as int) == e_olist(old(self).g(), old(self).k()) && v_obs(old(self).g(), old(self).k() + 1, (res->Ok_0).options@)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span == spn(old(self).g(), old(self).k(), final(self).k())
@put LI 0
- options@.len() <= self.cur() && forall|i: int| 0 <= i < options@.len() ==> ok_ob(#[trigger] options@[i])
invariant_except_break
- part(*old(self), *self, e_olist(self.g(), old(self).k()), e_obsr(self.g(), self.k()))
- self.clean() ==> options@.len() > 0 && self.k() == e_ob(self.g(), p_ob(self.g(), old(self).k() + 1, options@.len() - 1)) && v_obs(self.g(), old(self).k() + 1, options@)
ensures
- sp(vx_brk_0)
- part(*old(self), *self, e_olist(self.g(), old(self).k()), self.k())
- self.clean() ==> options@.len() > 0 && self.k() == p_ob(self.g(), old(self).k() + 1, options@.len() as int) && v_obs(self.g(), old(self).k() + 1, options@)
- self.clean() ==> vx_brk_0 == self.g()[self.k() - 1].span
decreases
- self.rem()
@put LEN
@ghost start
 broadcast use group_neg; reveal(v_ob); reveal(e_olist); reveal(v_obs); reveal_with_fuel(p_ob, 2); reveal_with_fuel(e_obsr, 2);
@ghost loop 0 start
 broadcast use group_neg; reveal(v_ob); reveal(e_olist); reveal(v_obs); reveal_with_fuel(p_ob, 2); reveal_with_fuel(e_obsr, 2);
@fn parse::Parser::parse_text_format_message [C21]
requires
- [C01] old(self).inv() && old(self).peek is None
- [C21] old(self).calm()
ensures
- [C01] final(self).inv()
- pf(*old(self), *final(self))
- [C02] res is Err ==> final(self).errs() > 0
- [C21] out(*old(self), *final(self), res is Ok, agg_end(old(self).g(), old(self).k(), 0))
- [C21] res is Ok && final(self).clean() ==> res->Ok_0@ =~= agg(old(self).g(), old(self).k(), final(self).k())
@loop 0
invariant
- self.inv()
- pfm(*old(self), *self) && lexonly(*old(self), *self)
- [C01] brace_level <= self.cur()
- self.errs() > 0 || (old(self).errs() == 0 && self.lexer.extras.text_format_mode)
- [C21] self.clean() ==> agg_end(self.g(), old(self).k(), 0) == agg_end(self.g(), self.k(), brace_level as int)
- [C21] self.clean() ==> result@ =~= agg(self.g(), old(self).k(), self.k())
ensures
- [C21] self.clean() ==> agg_end(self.g(), self.k(), brace_level as int) == self.k()
decreases
- self.rem()
@ghost loop 0 start
 proof { lemma_lex_len(self.all(), encode_utf8(self.lexer.src@).len(), self.all().len()); reveal_with_fuel(agg_end, 2); reveal_with_fuel(agg, 2); reveal_strlit(" "); }
@ghost start
 reveal_with_fuel(agg, 2);
@fn parse::Parser::parse_ident_string [C05]
@put STD
- [C01] res is Ok ==> sp((res->Ok_0).span)
- [C05] out(*old(self), *final(self), res is Ok, e_idstr(old(self).g(), old(self).k()))
- [C05] res is Ok && final(self).clean() ==> v_idstr(old(self).g(), old(self).k(), (res->Ok_0))
@ghost start
 broadcast use group_neg; reveal(e_idstr); reveal(v_idstr); 
@fn parse::Parser::parse_reserved_names [C05]
@put STD
- [C16] res is Ok && final(self).clean() ==> final(self).fresh()
- [C01] res is Ok ==> sp((res->Ok_0).1) && (forall|i: int| 0 <= i < (res->Ok_0).0@.len() ==> sp((#[trigger] (res->Ok_0).0@[i]).span)) && (res->Ok_0).0@.len() <= final(self).cur() - old(self).cur()
- [C05] out(*old(self), *final(self), res is Ok, e_names(old(self).g(), old(self).k()))
- [C05] res is Ok && final(self).clean() ==> v_names(old(self).g(), old(self).k(), final(self).k(), (res->Ok_0).0@)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).1 == old(self).g()[final(self).k() - 1].span
@put LI 0
- names@.len() <= self.cur() - old(self).cur() && forall|i: int| 0 <= i < names@.len() ==> sp((#[trigger] names@[i]).span)
invariant_except_break
- part(*old(self), *self, e_names(self.g(), old(self).k()), e_namer(self.g(), self.k()))
- self.clean() ==> self.k() == e_idstr(self.g(), p_name(self.g(), old(self).k(), names@.len() - 1)) && names@.len() > 0 && forall|j: int| 0 <= j < names@.len() ==> v_idstr(self.g(), p_name(self.g(), old(self).k(), j), #[trigger] names@[j])
ensures
- [C16] self.clean() ==> self.fresh()
- sp(vx_brk_0)
- part(*old(self), *self, e_names(self.g(), old(self).k()), self.k())
- self.clean() ==> v_names(self.g(), old(self).k(), self.k(), names@)
- self.clean() ==> vx_brk_0 == self.g()[self.k() - 1].span
decreases
- self.rem()
@put LEN
@ghost start
 broadcast use group_neg; reveal(e_names); reveal(v_names); reveal_with_fuel(p_name, 2); reveal_with_fuel(e_namer, 2);
@ghost loop 0 start
 broadcast use group_neg; reveal(e_names); reveal(v_names); reveal_with_fuel(p_name, 2); reveal_with_fuel(e_namer, 2);
@fn parse::Parser::parse_reserved_range [C05]
@put STD
- [C01] res is Ok ==> ok_range(res->Ok_0)
- [C05] out(*old(self), *final(self), res is Ok, e_rng(old(self).g(), old(self).k()))
- [C05] res is Ok && final(self).clean() ==> v_rng(old(self).g(), old(self).k(), (res->Ok_0))
@ghost start
 broadcast use group_neg; reveal(e_rng); reveal(v_rng); 
@fn parse::Parser::parse_reserved_ranges [C05]
@put STD
- [C01] res is Ok ==> (forall|i: int| 0 <= i < (res->Ok_0)@.len() ==> ok_range(#[trigger] (res->Ok_0)@[i])) && (res->Ok_0)@.len() <= final(self).cur() - old(self).cur()
- [C05] out(*old(self), *final(self), res is Ok, e_rngs(old(self).g(), old(self).k(), terminators@))
- [C05] res is Ok && final(self).clean() ==> v_rngs(old(self).g(), old(self).k(), final(self).k(), (res->Ok_0)@)
@put LI 0
- ranges@.len() <= self.cur() - old(self).cur() && forall|i: int| 0 <= i < ranges@.len() ==> ok_range(#[trigger] ranges@[i])
invariant_except_break
- part(*old(self), *self, e_rngs(self.g(), old(self).k(), terminators@), e_rngr(self.g(), self.k(), terminators@))
- self.clean() ==> self.k() == e_rng(self.g(), p_rng(self.g(), old(self).k(), ranges@.len() - 1)) && ranges@.len() > 0 && forall|j: int| 0 <= j < ranges@.len() ==> v_rng(self.g(), p_rng(self.g(), old(self).k(), j), #[trigger] ranges@[j])
ensures
- part(*old(self), *self, e_rngs(self.g(), old(self).k(), terminators@), self.k())
- self.clean() ==> v_rngs(self.g(), old(self).k(), self.k(), ranges@)
decreases
- self.rem()
@closure 0
(&ExpectedToken) -> (b: bool) ensures b == tm(*$1, tok)
@ghost start
 broadcast use group_neg; reveal(e_rngs); reveal(v_rngs); reveal_with_fuel(p_rng, 2); reveal_with_fuel(e_rngr, 2);
@ghost loop 0 start
 broadcast use group_neg; reveal(e_rngs); reveal(v_rngs); reveal_with_fuel(p_rng, 2); reveal_with_fuel(e_rngr, 2);
@fn parse::Parser::parse_reserved [C05]
@put STD
@put COM final(self).k() ; (res->Ok_0).comments
- [C01] res is Ok ==> ok_reserved1(res->Ok_0) && res1(res->Ok_0) <= final(self).cur() - old(self).cur()
- [C05] out(*old(self), *final(self), res is Ok, e_reserved(old(self).g(), old(self).k()))
- [C05] res is Ok && final(self).clean() ==> match (res->Ok_0).kind { ast::ReservedKind::Ranges(r) => is_num(old(self).g(), old(self).k() + 1) && v_rngs(old(self).g(), old(self).k() + 1, e_rngs(old(self).g(), old(self).k() + 1, ts_semi()), r@),
        ast::ReservedKind::Names(n) => is_str(old(self).g(), old(self).k() + 1) && v_names(old(self).g(), old(self).k() + 1, e_reserved(old(self).g(), old(self).k()), n@) }
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span == spn(old(self).g(), old(self).k(), final(self).k())
@ghost start
 broadcast use group_neg; reveal(e_reserved); 
@fn parse::Parser::parse_extensions [C05]
@put STD
@put COM final(self).k() ; (res->Ok_0).comments
- [C01] res is Ok ==> ok_ext1(res->Ok_0) && (res->Ok_0).ranges@.len() <= final(self).cur() - old(self).cur()
- [C05] out(*old(self), *final(self), res is Ok, e_extensions(old(self).g(), old(self).k()))
- [C05] res is Ok && final(self).clean() ==> v_rngs(old(self).g(), old(self).k() + 1, e_rngs(old(self).g(), old(self).k() + 1, ts_ext()), (res->Ok_0).ranges@)
- [C17] res is Ok && final(self).clean() ==> v_olo(old(self).g(), e_rngs(old(self).g(), old(self).k() + 1, ts_ext()), (res->Ok_0).options)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span == spn(old(self).g(), old(self).k(), final(self).k())
@ghost start
 broadcast use group_neg; reveal(v_olist); reveal(e_extensions); reveal(e_olo); reveal(v_olo); 
@fn parse::Parser::parse_enum_value [C04]
@put STD
@put COM final(self).k() ; (res->Ok_0).comments
- [C01] res is Ok ==> ok_ev(res->Ok_0)
- [C04,C18] out(*old(self), *final(self), res is Ok, e_ev(old(self).g(), old(self).k()))
- [C18] res is Ok && final(self).clean() ==> v_ident(old(self).g(), old(self).k(), (res->Ok_0).name)
- [C04] res is Ok && final(self).clean() ==> v_int(old(self).g(), old(self).k() + 2, (res->Ok_0).number)
- [C17] res is Ok && final(self).clean() ==> v_olo(old(self).g(), at_ev(old(self).g(), old(self).k()), (res->Ok_0).options)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span == spn(old(self).g(), old(self).k(), final(self).k())
@ghost start
 broadcast use group_neg; reveal(v_olist); reveal(e_ev); reveal(e_olo); reveal(v_olo); 
@fn parse::Parser::parse_enum [C18]
@attr #[verifier::spinoff_prover]
@put STD
@put COM old(self).k() + 3 ; (res->Ok_0).comments
- [C01] res is Ok ==> ok_enum(res->Ok_0)
- [C18] out(*old(self), *final(self), res is Ok, e_enum(old(self).g(), old(self).k(), (old(self).message_depth as int)))
- [C18] res is Ok && final(self).clean() ==> v_ident(old(self).g(), old(self).k() + 1, (res->Ok_0).name)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span == spn(old(self).g(), old(self).k(), final(self).k())
- [C17] res is Ok && final(self).clean() ==> w_opts(old(self).g(), st(1, old(self).g(), old(self).k() + 3, final(self).k() - 1, (old(self).message_depth as int), 1, 1), (res->Ok_0).options@)
- [C05] res is Ok && final(self).clean() ==> w_reserved(old(self).g(), st(1, old(self).g(), old(self).k() + 3, final(self).k() - 1, (old(self).message_depth as int), 2, 2), (res->Ok_0).reserved@)
- [C18] res is Ok && final(self).clean() ==> w_evs(old(self).g(), st(1, old(self).g(), old(self).k() + 3, final(self).k() - 1, (old(self).message_depth as int), 10, 10), (res->Ok_0).values@)
@put KW Token::Ident("enum")
@put LI 0
- [C16] self.clean() ==> v_com(self.g(), old(self).k(), old(self).k() + 3, comments)
- [C16] self.rdy()
- l_evs(values@, self.cur())
- l_opts(options@, self.cur())
- l_reserved(reserved@, self.cur())
invariant_except_break
- part(*old(self), *self, e_enum(self.g(), old(self).k(), (old(self).message_depth as int)), e_block(1, self.g(), self.k(), (old(self).message_depth as int)))
- self.clean() ==> reach(1, self.g(), old(self).k() + 3, self.k(), (old(self).message_depth as int))
- [C17] self.clean() ==> w_opts(self.g(), st(1, self.g(), old(self).k() + 3, self.k(), (old(self).message_depth as int), 1, 1), options@)
- [C05] self.clean() ==> w_reserved(self.g(), st(1, self.g(), old(self).k() + 3, self.k(), (old(self).message_depth as int), 2, 2), reserved@)
- [C18] self.clean() ==> w_evs(self.g(), st(1, self.g(), old(self).k() + 3, self.k(), (old(self).message_depth as int), 10, 10), values@)
ensures
- sp(vx_brk_0)
- self.clean() ==> vx_brk_0 == self.g()[self.k() - 1].span
- part(*old(self), *self, e_enum(self.g(), old(self).k(), (old(self).message_depth as int)), self.k())
- [C17] self.clean() ==> w_opts(self.g(), st(1, self.g(), old(self).k() + 3, self.k() - 1, (old(self).message_depth as int), 1, 1), options@)
- [C05] self.clean() ==> w_reserved(self.g(), st(1, self.g(), old(self).k() + 3, self.k() - 1, (old(self).message_depth as int), 2, 2), reserved@)
- [C18] self.clean() ==> w_evs(self.g(), st(1, self.g(), old(self).k() + 3, self.k() - 1, (old(self).message_depth as int), 10, 10), values@)
decreases
- self.rem()
@put LEN
@ghost loop 0 start
 broadcast use lemma_ranges_push, lemma_names_push;
@ghost start
 broadcast use group_neg;  proof { lemma_reach0(1, self.g(), self.k() + 3, (self.message_depth as int)); lemma_u_enum(self.g(), self.k(), (self.message_depth as int)); }
@ghost loop 0 start
 broadcast use group_neg; reveal(v_option); reveal(v_reserved); reveal(v_ev); proof { lemma_step(1, self.g(), old(self).k() + 3, self.k(), (old(self).message_depth as int)); lemma_u_stmt(1, self.g(), self.k(), (old(self).message_depth as int));  }
@fn parse::Parser::parse_service_rpc [C18]
@attr #[verifier::rlimit(100)]
@attr #[verifier::spinoff_prover]
@put STD
@put COM final(self).k() ; (res->Ok_0).comments
- [C01] res is Ok ==> ok_method(res->Ok_0)
- [C18] out(*old(self), *final(self), res is Ok, e_rpc(old(self).g(), old(self).k(), (old(self).message_depth as int)))
- [C18] res is Ok && final(self).clean() ==> v_ident(old(self).g(), old(self).k() + 1, (res->Ok_0).name)
- [C18] res is Ok && final(self).clean() ==> v_strm(old(self).g(), old(self).k() + 3, (res->Ok_0).client_streaming) && v_tn(old(self).g(), strm(old(self).g(), old(self).k() + 3), rpc_ine(old(self).g(), old(self).k()), (res->Ok_0).input_ty)
- [C18] res is Ok && final(self).clean() ==> v_strm(old(self).g(), rpc_out(old(self).g(), old(self).k()), (res->Ok_0).server_streaming) && v_tn(old(self).g(), strm(old(self).g(), rpc_out(old(self).g(), old(self).k())), rpc_oute(old(self).g(), old(self).k()), (res->Ok_0).output_ty)
- [C17] res is Ok && final(self).clean() ==> w_opts(old(self).g(), rpc_opts(old(self).g(), old(self).k(), (old(self).message_depth as int)), (res->Ok_0).options@)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span == spn(old(self).g(), old(self).k(), final(self).k())
@put LI 0
- [C16] self.clean() ==> v_lead(self.g(), old(self).k(), leading_comments.0@, leading_comments.1)
- [C16] self.rdy()
- l_opts(options@, self.cur())
invariant_except_break
- part(*old(self), *self, e_rpc(self.g(), old(self).k(), (old(self).message_depth as int)), e_block(3, self.g(), self.k(), (old(self).message_depth as int)))
- self.clean() ==> reach(3, self.g(), rpc_tail(self.g(), old(self).k()) + 1, self.k(), (old(self).message_depth as int))
- self.clean() ==> is(self.g(), rpc_tail(self.g(), old(self).k()), Token::LeftBrace)
- self.clean() ==> v_strm(self.g(), old(self).k() + 3, client_streaming) && v_tn(self.g(), strm(self.g(), old(self).k() + 3), rpc_ine(self.g(), old(self).k()), input_ty)
- self.clean() ==> v_strm(self.g(), rpc_out(self.g(), old(self).k()), server_streaming) && v_tn(self.g(), strm(self.g(), rpc_out(self.g(), old(self).k())), rpc_oute(self.g(), old(self).k()), output_ty)
- [C17] self.clean() ==> w_opts(self.g(), st(3, self.g(), rpc_tail(self.g(), old(self).k()) + 1, self.k(), (old(self).message_depth as int), 1, 1), options@)
ensures
- [C16] self.clean() ==> self.fresh()
- sp(vx_brk_0)
- self.clean() ==> vx_brk_0 == self.g()[self.k() - 1].span
- part(*old(self), *self, e_rpc(self.g(), old(self).k(), (old(self).message_depth as int)), self.k())
- self.clean() ==> is(self.g(), rpc_tail(self.g(), old(self).k()), Token::LeftBrace)
- self.clean() ==> v_strm(self.g(), old(self).k() + 3, client_streaming) && v_tn(self.g(), strm(self.g(), old(self).k() + 3), rpc_ine(self.g(), old(self).k()), input_ty)
- self.clean() ==> v_strm(self.g(), rpc_out(self.g(), old(self).k()), server_streaming) && v_tn(self.g(), strm(self.g(), rpc_out(self.g(), old(self).k())), rpc_oute(self.g(), old(self).k()), output_ty)
- [C17] self.clean() ==> w_opts(self.g(), st(3, self.g(), rpc_tail(self.g(), old(self).k()) + 1, self.k() - 1, (old(self).message_depth as int), 1, 1), options@)
decreases
- self.rem()
@put LEN
@ghost start
 broadcast use group_neg;  proof { lemma_reach0(3, self.g(), rpc_tail(self.g(), self.k()) + 1, (self.message_depth as int)); lemma_u_rpc(self.g(), self.k(), (self.message_depth as int)); lemma_rpc(self.g(), self.k()); lemma_neg_block(3, self.g(), (self.message_depth as int)); }
@ghost loop 0 start
 broadcast use group_neg; reveal(v_option); proof { lemma_step(3, self.g(), rpc_tail(self.g(), old(self).k()) + 1, self.k(), (old(self).message_depth as int)); lemma_u_stmt(3, self.g(), self.k(), (old(self).message_depth as int));  }
@fn parse::Parser::parse_service [C18]
@attr #[verifier::spinoff_prover]
@put STD
@put COM old(self).k() + 3 ; (res->Ok_0).comments
- [C01] res is Ok ==> ok_service(res->Ok_0)
- [C18] out(*old(self), *final(self), res is Ok, e_service(old(self).g(), old(self).k(), (old(self).message_depth as int)))
- [C18] res is Ok && final(self).clean() ==> v_ident(old(self).g(), old(self).k() + 1, (res->Ok_0).name)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span == spn(old(self).g(), old(self).k(), final(self).k())
- [C17] res is Ok && final(self).clean() ==> w_opts(old(self).g(), st(2, old(self).g(), old(self).k() + 3, final(self).k() - 1, (old(self).message_depth as int), 1, 1), (res->Ok_0).options@)
- [C18] res is Ok && final(self).clean() ==> w_rpcs(old(self).g(), st(2, old(self).g(), old(self).k() + 3, final(self).k() - 1, (old(self).message_depth as int), 11, 11), (res->Ok_0).methods@, (old(self).message_depth as int))
@put KW Token::Ident("service")
@put LI 0
- [C16] self.clean() ==> v_com(self.g(), old(self).k(), old(self).k() + 3, comments)
- [C16] self.rdy()
- l_opts(options@, self.cur())
- l_methods(methods@, self.cur())
invariant_except_break
- part(*old(self), *self, e_service(self.g(), old(self).k(), (old(self).message_depth as int)), e_block(2, self.g(), self.k(), (old(self).message_depth as int)))
- self.clean() ==> reach(2, self.g(), old(self).k() + 3, self.k(), (old(self).message_depth as int))
- [C17] self.clean() ==> w_opts(self.g(), st(2, self.g(), old(self).k() + 3, self.k(), (old(self).message_depth as int), 1, 1), options@)
- [C18] self.clean() ==> w_rpcs(self.g(), st(2, self.g(), old(self).k() + 3, self.k(), (old(self).message_depth as int), 11, 11), methods@, (old(self).message_depth as int))
ensures
- sp(vx_brk_0)
- self.clean() ==> vx_brk_0 == self.g()[self.k() - 1].span
- part(*old(self), *self, e_service(self.g(), old(self).k(), (old(self).message_depth as int)), self.k())
- [C17] self.clean() ==> w_opts(self.g(), st(2, self.g(), old(self).k() + 3, self.k() - 1, (old(self).message_depth as int), 1, 1), options@)
- [C18] self.clean() ==> w_rpcs(self.g(), st(2, self.g(), old(self).k() + 3, self.k() - 1, (old(self).message_depth as int), 11, 11), methods@, (old(self).message_depth as int))
decreases
- self.rem()
@put LEN
@ghost start
 broadcast use group_neg;  proof { lemma_reach0(2, self.g(), self.k() + 3, (self.message_depth as int)); lemma_u_service(self.g(), self.k(), (self.message_depth as int)); }
@ghost loop 0 start
 broadcast use group_neg; reveal(v_option); reveal(v_rpc); proof { lemma_step(2, self.g(), old(self).k() + 3, self.k(), (old(self).message_depth as int)); lemma_u_stmt(2, self.g(), self.k(), (old(self).message_depth as int));  }
@fn parse::Parser::parse_map [C14]
@attr #[verifier::spinoff_prover]
@put STDX sp(start) && (label is Some ==> sp((label->0).1))
@put COMF final(self).k()
- [C01] res is Ok ==> ok_field(res->Ok_0)
- [C14] out(*old(self), *final(self), res is Ok, e_map(old(self).g(), old(self).k()))
- [C12,C14] res is Ok && final(self).clean() ==> (res->Ok_0).label == label
- [C14] res is Ok && final(self).clean() ==> v_map(old(self).g(), old(self).k(), (res->Ok_0).kind)
- [C14,C18] res is Ok && final(self).clean() ==> v_tail(old(self).g(), map_name(old(self).g(), old(self).k()), (res->Ok_0))
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span.start == start.start && (res->Ok_0).span.end == old(self).g()[final(self).k() - 1].span.end
@ghost start
 broadcast use group_neg; reveal(e_map); reveal(v_map); reveal(e_ev); reveal(v_olo); reveal(e_olo); reveal(v_olist); reveal(e_ty); reveal(e_tn); reveal(e_fi); 
@fn parse::Parser::parse_normal_field [C18]
@put STDX sp(start) && (label is Some ==> sp((label->0).1))
@put COMF final(self).k()
- [C01] res is Ok ==> ok_field(res->Ok_0)
- [C18] out(*old(self), *final(self), res is Ok, e_nf(old(self).g(), old(self).k()))
- [C12] res is Ok && final(self).clean() ==> (res->Ok_0).label == label
- [C18] res is Ok && final(self).clean() ==> v_nf(old(self).g(), old(self).k(), (res->Ok_0).kind)
- [C18] res is Ok && final(self).clean() ==> v_ident(old(self).g(), e_ty(old(self).g(), old(self).k(), ts_ident()), (res->Ok_0).name)
- [C04] res is Ok && final(self).clean() ==> v_int(old(self).g(), e_ty(old(self).g(), old(self).k(), ts_ident()) + 2, (res->Ok_0).number)
- [C17] res is Ok && final(self).clean() ==> v_olo(old(self).g(), at_ev(old(self).g(), e_ty(old(self).g(), old(self).k(), ts_ident())), (res->Ok_0).options)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span.start == start.start && (res->Ok_0).span.end == old(self).g()[final(self).k() - 1].span.end
@ghost start
 broadcast use group_neg; reveal(e_nf); reveal(v_nf); reveal(e_ev); reveal(v_olo); reveal(e_olo); reveal(v_olist); reveal(e_ty); reveal(e_tn); reveal(e_fi); 
@fn parse::Parser::parse_group [C14]
@attr #[verifier::spinoff_prover]
@put STDX sp(start) && (label is Some ==> sp((label->0).1))
@put COMF group_body(old(self).g(), old(self).k())
- [C01] res is Ok ==> ok_field(res->Ok_0)
- [C14,C20] out(*old(self), *final(self), res is Ok, e_group(old(self).g(), old(self).k(), (old(self).message_depth as int)))
- [C12,C14] res is Ok && final(self).clean() ==> (res->Ok_0).label == label
- [C14] res is Ok && final(self).clean() ==> v_group(old(self).g(), old(self).k(), final(self).k(), (res->Ok_0).kind, (old(self).message_depth as int))
- [C14,C18] res is Ok && final(self).clean() ==> v_tail(old(self).g(), old(self).k() + 1, (res->Ok_0))
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span.start == start.start && (res->Ok_0).span.end == old(self).g()[final(self).k() - 1].span.end
@put DEC 2
@ghost start
 broadcast use group_neg; reveal(group_body); reveal(v_olo); reveal(e_olo); reveal(v_olist);  proof { lemma_neg_block(0, self.g(), self.message_depth + 1); lemma_u_group(self.g(), self.k(), self.message_depth as int); lemma_v_group(self.g(), self.k(), e_group(self.g(), self.k(), self.message_depth as int), self.message_depth as int); }
@fn parse::Parser::parse_field [C18]
@attr #[verifier::spinoff_prover]
@put STD
@put COM b_field(old(self).g(), old(self).k(), (old(self).message_depth as int)) ; (res->Ok_0).comments
- [C01] res is Ok ==> ok_field(res->Ok_0)
- [C18] out(*old(self), *final(self), res is Ok, e_field(old(self).g(), old(self).k(), (old(self).message_depth as int)))
- [C12] res is Ok && final(self).clean() ==> v_label(old(self).g(), old(self).k(), (res->Ok_0).label)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span == spn(old(self).g(), old(self).k(), final(self).k())
- [C14] res is Ok && final(self).clean() ==> (is(old(self).g(), ty_at(old(self).g(), old(self).k()), Token::Ident("map")) ==> v_map(old(self).g(), ty_at(old(self).g(), old(self).k()), (res->Ok_0).kind) && v_tail(old(self).g(), map_name(old(self).g(), ty_at(old(self).g(), old(self).k())), (res->Ok_0)))
- [C14] res is Ok && final(self).clean() ==> (is(old(self).g(), ty_at(old(self).g(), old(self).k()), Token::Ident("group")) ==> v_group(old(self).g(), ty_at(old(self).g(), old(self).k()), final(self).k(), (res->Ok_0).kind, (old(self).message_depth as int)) && v_tail(old(self).g(), ty_at(old(self).g(), old(self).k()) + 1, (res->Ok_0)))
- [C18] res is Ok && final(self).clean() ==> (!(is(old(self).g(), ty_at(old(self).g(), old(self).k()), Token::Ident("map"))) && !(is(old(self).g(), ty_at(old(self).g(), old(self).k()), Token::Ident("group"))) ==> v_nf(old(self).g(), ty_at(old(self).g(), old(self).k()), (res->Ok_0).kind) && v_tail(old(self).g(), e_ty(old(self).g(), ty_at(old(self).g(), old(self).k()), ts_ident()), (res->Ok_0)))
- res is Ok && final(self).clean() ==> v_field(old(self).g(), old(self).k(), (res->Ok_0), (old(self).message_depth as int))
@put DEC 3
@ghost start
 broadcast use group_neg;   proof { lemma_v_group(self.g(), ty_at(self.g(), self.k()), e_field(self.g(), self.k(), self.message_depth as int), self.message_depth as int); lemma_u_field(self.g(), self.k(), self.message_depth as int); lemma_v_field(self.g(), self.k(), self.message_depth as int); lemma_neg_field(self.g()); }
@fn parse::Parser::parse_extend [C18]
@attr #[verifier::spinoff_prover]
@put STD
@put COM ext_type(old(self).g(), old(self).k()) + 1 ; (res->Ok_0).comments
- [C01] res is Ok ==> ok_extend(res->Ok_0) && (res->Ok_0).fields@.len() <= final(self).cur() - old(self).cur()
- [C18] out(*old(self), *final(self), res is Ok, e_extend(old(self).g(), old(self).k(), (old(self).message_depth as int)))
- [C18] res is Ok && final(self).clean() ==> v_tn(old(self).g(), old(self).k() + 1, ext_type(old(self).g(), old(self).k()), (res->Ok_0).extendee)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span == spn(old(self).g(), old(self).k(), final(self).k())
- [C18] res is Ok && final(self).clean() ==> w_fields(old(self).g(), st(5, old(self).g(), ext_type(old(self).g(), old(self).k()) + 1, final(self).k() - 1, (old(self).message_depth as int), 4, 4), (res->Ok_0).fields@, (old(self).message_depth as int))
@put KW Token::Ident("extend")
@put DEC 4
@put LI 0
- [C16] self.clean() ==> v_com(self.g(), old(self).k(), ext_type(self.g(), old(self).k()) + 1, comments)
- [C16] self.rdy()
- l_fields(fields@, self.cur() - old(self).cur())
invariant_except_break
- part(*old(self), *self, e_extend(self.g(), old(self).k(), (old(self).message_depth as int)), e_block(5, self.g(), self.k(), (old(self).message_depth as int)))
- self.clean() ==> reach(5, self.g(), ext_type(self.g(), old(self).k()) + 1, self.k(), (old(self).message_depth as int))
- self.clean() ==> v_tn(self.g(), old(self).k() + 1, ext_type(self.g(), old(self).k()), extendee)
- [C18] self.clean() ==> w_fields(self.g(), st(5, self.g(), ext_type(self.g(), old(self).k()) + 1, self.k(), (old(self).message_depth as int), 4, 4), fields@, (old(self).message_depth as int))
ensures
- sp(vx_brk_0)
- self.clean() ==> vx_brk_0 == self.g()[self.k() - 1].span
- part(*old(self), *self, e_extend(self.g(), old(self).k(), (old(self).message_depth as int)), self.k())
- self.clean() ==> v_tn(self.g(), old(self).k() + 1, ext_type(self.g(), old(self).k()), extendee)
- [C18] self.clean() ==> w_fields(self.g(), st(5, self.g(), ext_type(self.g(), old(self).k()) + 1, self.k() - 1, (old(self).message_depth as int), 4, 4), fields@, (old(self).message_depth as int))
decreases
- self.rem()
@put LEN
@ghost start
 broadcast use group_neg; reveal(ext_type); reveal(e_tn); reveal(e_fi); proof { lemma_reach0(5, self.g(), ext_type(self.g(), self.k()) + 1, (self.message_depth as int)); lemma_u_extend(self.g(), self.k(), (self.message_depth as int)); lemma_w_push(self.g(), (self.message_depth as int)); }
@ghost loop 0 start
 broadcast use group_neg;  proof { lemma_step(5, self.g(), ext_type(self.g(), old(self).k()) + 1, self.k(), (old(self).message_depth as int)); lemma_u_stmt(5, self.g(), self.k(), (old(self).message_depth as int)); lemma_w_push(self.g(), (old(self).message_depth as int)); }
@fn parse::Parser::parse_oneof [C13]
@attr #[verifier::spinoff_prover]
@put STD
@put COM old(self).k() + 3 ; (res->Ok_0).comments
- [C01] res is Ok ==> ok_oneof(res->Ok_0) && (res->Ok_0).fields@.len() <= final(self).cur() - old(self).cur()
- [C18] out(*old(self), *final(self), res is Ok, e_oneof(old(self).g(), old(self).k(), (old(self).message_depth as int)))
- [C18] res is Ok && final(self).clean() ==> v_ident(old(self).g(), old(self).k() + 1, (res->Ok_0).name)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span == spn(old(self).g(), old(self).k(), final(self).k())
- [C17] res is Ok && final(self).clean() ==> w_opts(old(self).g(), st(4, old(self).g(), old(self).k() + 3, final(self).k() - 1, (old(self).message_depth as int), 1, 1), (res->Ok_0).options@)
- [C13,C18] res is Ok && final(self).clean() ==> w_fields(old(self).g(), st(4, old(self).g(), old(self).k() + 3, final(self).k() - 1, (old(self).message_depth as int), 4, 4), (res->Ok_0).fields@, (old(self).message_depth as int))
@put DEC 4
@put LI 0
- [C16] self.clean() ==> v_com(self.g(), old(self).k(), old(self).k() + 3, comments)
- [C16] self.rdy()
- l_opts(options@, self.cur())
- l_fields(fields@, self.cur() - old(self).cur())
invariant_except_break
- part(*old(self), *self, e_oneof(self.g(), old(self).k(), (old(self).message_depth as int)), e_block(4, self.g(), self.k(), (old(self).message_depth as int)))
- self.clean() ==> reach(4, self.g(), old(self).k() + 3, self.k(), (old(self).message_depth as int))
- [C17] self.clean() ==> w_opts(self.g(), st(4, self.g(), old(self).k() + 3, self.k(), (old(self).message_depth as int), 1, 1), options@)
- [C13,C18] self.clean() ==> w_fields(self.g(), st(4, self.g(), old(self).k() + 3, self.k(), (old(self).message_depth as int), 4, 4), fields@, (old(self).message_depth as int))
ensures
- sp(vx_brk_0)
- self.clean() ==> vx_brk_0 == self.g()[self.k() - 1].span
- part(*old(self), *self, e_oneof(self.g(), old(self).k(), (old(self).message_depth as int)), self.k())
- [C17] self.clean() ==> w_opts(self.g(), st(4, self.g(), old(self).k() + 3, self.k() - 1, (old(self).message_depth as int), 1, 1), options@)
- [C13,C18] self.clean() ==> w_fields(self.g(), st(4, self.g(), old(self).k() + 3, self.k() - 1, (old(self).message_depth as int), 4, 4), fields@, (old(self).message_depth as int))
decreases
- self.rem()
@put LEN
@ghost start
 broadcast use group_neg;  proof { lemma_reach0(4, self.g(), self.k() + 3, (self.message_depth as int)); lemma_u_oneof(self.g(), self.k(), (self.message_depth as int)); lemma_w_push(self.g(), (self.message_depth as int)); }
@ghost loop 0 start
 broadcast use group_neg; reveal(v_option); proof { lemma_step(4, self.g(), old(self).k() + 3, self.k(), (old(self).message_depth as int)); lemma_u_stmt(4, self.g(), self.k(), (old(self).message_depth as int)); lemma_w_push(self.g(), (old(self).message_depth as int)); }
@fn parse::Parser::parse_message [C18]
@put STD
@put COM old(self).k() + 3 ; (res->Ok_0).comments
- [C01] res is Ok ==> ok_message(res->Ok_0)
- [C18] out(*old(self), *final(self), res is Ok, e_message(old(self).g(), old(self).k(), (old(self).message_depth as int)))
- [C18] res is Ok && final(self).clean() ==> v_ident(old(self).g(), old(self).k() + 1, (res->Ok_0).name)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).span == spn(old(self).g(), old(self).k(), final(self).k())
- [C18] res is Ok && final(self).clean() ==> (old(self).message_depth as int) < 31 && v_body(old(self).g(), old(self).k() + 3, final(self).k(), (res->Ok_0).body, (old(self).message_depth as int) + 1)
@put KW Token::Ident("message")
@put DEC 2
@ghost start
 broadcast use group_neg;   proof { lemma_u_message(self.g(), self.k(), self.message_depth as int); lemma_neg_block(0, self.g(), self.message_depth + 1); }
@fn parse::Parser::parse_message_body [C01]
@put STD
@put COMX
- [C01] res is Ok ==> ok_body((res->Ok_0).0) && sp((res->Ok_0).1)
- [C18] out(*old(self), *final(self), res is Ok, if (old(self).message_depth as int) >= maxd() { -1 } else { e_block(0, old(self).g(), old(self).k(), (old(self).message_depth as int) + 1) })
- [C18] res is Ok && final(self).clean() ==> (old(self).message_depth as int) < 31 && v_body(old(self).g(), old(self).k(), final(self).k(), (res->Ok_0).0, (old(self).message_depth as int) + 1)
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).1 == old(self).g()[final(self).k() - 1].span
@put DEC 1
@ghost start
 broadcast use group_neg;   proof { lemma_v_body(self.g(), self.k(), e_block(0, self.g(), self.k(), self.message_depth + 1), self.message_depth + 1); }
@fn parse::Parser::parse_message_items [C01]
@attr #[verifier::rlimit(60)]
@attr #[verifier::spinoff_prover]
@put STD
@put COMX
- [C01] res is Ok ==> ok_body((res->Ok_0).0) && sp((res->Ok_0).1)
- [C18] out(*old(self), *final(self), res is Ok, e_block(0, old(self).g(), old(self).k(), (old(self).message_depth as int)))
- [C09] res is Ok && final(self).clean() ==> (res->Ok_0).1 == old(self).g()[final(self).k() - 1].span
- [C17] res is Ok && final(self).clean() ==> w_opts(old(self).g(), st(0, old(self).g(), old(self).k(), final(self).k() - 1, (old(self).message_depth as int), 1, 1), (res->Ok_0).0.options@)
- [C05] res is Ok && final(self).clean() ==> w_reserved(old(self).g(), st(0, old(self).g(), old(self).k(), final(self).k() - 1, (old(self).message_depth as int), 2, 2), (res->Ok_0).0.reserved@)
- [C05] res is Ok && final(self).clean() ==> w_exts(old(self).g(), st(0, old(self).g(), old(self).k(), final(self).k() - 1, (old(self).message_depth as int), 3, 3), (res->Ok_0).0.extensions@)
- [C18] res is Ok && final(self).clean() ==> w_items(old(self).g(), st(0, old(self).g(), old(self).k(), final(self).k() - 1, (old(self).message_depth as int), 4, 8), (res->Ok_0).0.items@, (old(self).message_depth as int))
@put DEC 5
@loop 0
invariant
- self.inv()
- [C16] self.rdy()
- self.calm() && pf(*old(self), *self)
- l_opts(options@, self.cur())
- l_reserved(reserved@, self.cur())
- l_exts(extensions@, self.cur())
- l_items(items@, self.cur())
ensures
- self.cur() > old(self).cur() && self.k() > old(self).k()
invariant_except_break
- part(*old(self), *self, e_block(0, self.g(), old(self).k(), (old(self).message_depth as int)), e_block(0, self.g(), self.k(), (old(self).message_depth as int)))
- self.clean() ==> reach(0, self.g(), old(self).k(), self.k(), (old(self).message_depth as int))
- [C17] self.clean() ==> w_opts(self.g(), st(0, self.g(), old(self).k(), self.k(), (old(self).message_depth as int), 1, 1), options@)
- [C05] self.clean() ==> w_reserved(self.g(), st(0, self.g(), old(self).k(), self.k(), (old(self).message_depth as int), 2, 2), reserved@)
- [C05] self.clean() ==> w_exts(self.g(), st(0, self.g(), old(self).k(), self.k(), (old(self).message_depth as int), 3, 3), extensions@)
- [C18] self.clean() ==> w_items(self.g(), st(0, self.g(), old(self).k(), self.k(), (old(self).message_depth as int), 4, 8), items@, (old(self).message_depth as int))
ensures
- sp(vx_brk_0)
- self.clean() ==> vx_brk_0 == self.g()[self.k() - 1].span
- part(*old(self), *self, e_block(0, self.g(), old(self).k(), (old(self).message_depth as int)), self.k())
- [C17] self.clean() ==> w_opts(self.g(), st(0, self.g(), old(self).k(), self.k() - 1, (old(self).message_depth as int), 1, 1), options@)
- [C05] self.clean() ==> w_reserved(self.g(), st(0, self.g(), old(self).k(), self.k() - 1, (old(self).message_depth as int), 2, 2), reserved@)
- [C05] self.clean() ==> w_exts(self.g(), st(0, self.g(), old(self).k(), self.k() - 1, (old(self).message_depth as int), 3, 3), extensions@)
- [C18] self.clean() ==> w_items(self.g(), st(0, self.g(), old(self).k(), self.k() - 1, (old(self).message_depth as int), 4, 8), items@, (old(self).message_depth as int))
decreases
- self.rem()
@put LEN
@ghost loop 0 start
 broadcast use lemma_ranges_push, lemma_names_push, lemma_extranges_push, lemma_nested_push, lemma_exts_push, lemma_fields_push;
@ghost start
 broadcast use group_neg;  proof { lemma_reach0(0, self.g(), self.k(), (self.message_depth as int)); lemma_w_push(self.g(), (self.message_depth as int)); }
@ghost loop 0 start
 broadcast use group_neg; reveal(v_option); reveal(v_reserved); reveal(v_extensions); reveal(v_enum); proof { lemma_step(0, self.g(), old(self).k(), self.k(), (old(self).message_depth as int)); lemma_u_stmt(0, self.g(), self.k(), (old(self).message_depth as int)); lemma_w_push(self.g(), (old(self).message_depth as int)); lemma_v_item(self.g(), self.k(), (old(self).message_depth as int)); lemma_v_oneof(self.g(), self.k(), (old(self).message_depth as int)); lemma_v_extend(self.g(), self.k(), (old(self).message_depth as int)); lemma_v_message(self.g(), self.k(), (old(self).message_depth as int)); }
@fn parse::Statement::span [C09]
ensures
- [C09] res == st_span(*self)
@fn parse::Parser::parse_statement [C18]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).inv()
- [C21] old(self).calm()
- [C16] old(self).rdy()
ensures
- [C16] res is Ok ==> final(self).rdy()
- [C01] final(self).inv()
- pf(*old(self), *final(self)) && (res is Ok && (res->Ok_0) is Some ==> final(self).cur() > old(self).cur())
- [C02] res is Err ==> final(self).errs() > 0
- [C01] res is Err ==> final(self).cur() > old(self).cur() || (final(self).peek matches Some(Err(_))) || (final(self).peek matches Some(Ok((t, s))) && !trivia(t) && !stop(t))
- [C01] res is Ok && (res->Ok_0) is Some ==> ok_st((res->Ok_0)->0, final(self).cur() - old(self).cur())
- [C18] old(self).clean() ==> if res is Ok && final(self).clean() { if (res->Ok_0) is Some { e_stmt(6, old(self).g(), old(self).k(), (old(self).message_depth as int)) == final(self).k() && old(self).k() < final(self).k() && old(self).k() < old(self).g().len() } else { old(self).k() == old(self).g().len() && final(self).k() == old(self).k() } } else { final(self).lexbad() || (old(self).k() < old(self).g().len() && e_stmt(6, old(self).g(), old(self).k(), (old(self).message_depth as int)) < 0) }
- [C15,C17,C18,C19] res is Ok && (res->Ok_0) is Some && final(self).clean() ==> v_st(old(self).g(), old(self).k(), (res->Ok_0)->0, (old(self).message_depth as int))
@ghost start
 broadcast use group_neg; reveal(v_st); reveal(v_option); reveal(v_import); reveal(v_package); reveal(v_enum); reveal(v_service);
 proof { lemma_u_stmt(6, self.g(), self.k(), self.message_depth as int); lemma_v_message(self.g(), self.k(), self.message_depth as int); lemma_v_extend(self.g(), self.k(), self.message_depth as int); }
@fn parse::Parser::parse_file [C18]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).inv()
- [C21] old(self).calm()
- old(self).k() == 0 && old(self).message_depth == 0
- [C16] old(self).rdy()
ensures
- [C16] old(self).clean() && res is Ok && final(self).clean() ==> ((res->Ok_0).syntax_span is Some ==> v_com(old(self).g(), 0, f_start(old(self).g()), ((res->Ok_0).syntax_span->0).1))
- [C01] final(self).inv()
- pf(*old(self), *final(self))
- [C02] res is Err ==> final(self).errs() > 0
- [C01] res is Ok ==> ok_file(res->Ok_0)
- [C18,C19] old(self).clean() ==> if res is Ok && final(self).clean() { e_file(old(self).g()) == old(self).g().len() } else { e_file(old(self).g()) < 0 || final(self).lexbad() }
- [C19] old(self).clean() && res is Ok && final(self).clean() ==> v_file_syntax(old(self).g(), res->Ok_0)
- [C09] old(self).clean() && res is Ok && final(self).clean() ==> v_file_span(old(self).g(), encode_utf8(old(self).lexer.src@).len() as int, res->Ok_0)
- [C19] old(self).clean() && res is Ok && final(self).clean() ==> w_package(old(self).g(), st(6, old(self).g(), f_start(old(self).g()), old(self).g().len() as int, 0, 13, 13), (res->Ok_0).package)
- [C15] old(self).clean() && res is Ok && final(self).clean() ==> w_imports(old(self).g(), st(6, old(self).g(), f_start(old(self).g()), old(self).g().len() as int, 0, 12, 12), (res->Ok_0).imports@)
- [C17] old(self).clean() && res is Ok && final(self).clean() ==> w_opts(old(self).g(), st(6, old(self).g(), f_start(old(self).g()), old(self).g().len() as int, 0, 1, 1), (res->Ok_0).options@)
- [C18] old(self).clean() && res is Ok && final(self).clean() ==> w_fitems(old(self).g(), st(6, old(self).g(), f_start(old(self).g()), old(self).g().len() as int, 0, 5, 9), (res->Ok_0).items@)
- old(self).clean() && res is Ok && final(self).clean() ==> v_file(old(self).g(), encode_utf8(old(self).lexer.src@).len() as int, res->Ok_0)
@loop 0
invariant
- self.inv()
- [C16] self.rdy()
- [C16] self.clean() ==> (syntax_span is Some ==> v_com(self.g(), 0, f_start(self.g()), (syntax_span->0).1))
- self.calm() && pf(*old(self), *self)
- l_fitems(items@, self.cur()) && l_opts(options@, self.cur()) && l_imports(imports@, self.cur())
- sp(file_span) && (package is Some ==> sp((package->0).span) && ok_fi((package->0).name)) && (syntax_span is Some ==> sp((syntax_span->0).0))
- self.message_depth == 0
- old(self).clean() ==> if self.clean() { e_file(self.g()) == e_fseq(self.g(), self.k(), package is Some) } else { e_file(self.g()) < 0 || self.lexbad() }
- self.clean() ==> reach(6, self.g(), f_start(self.g()), self.k(), 0)
- [C09] self.clean() ==> file_span.start == (if self.g().len() > 0 { self.g()[0].span.start as int } else { encode_utf8(self.lexer.src@).len() as int }) && (self.k() > 0 ==> file_span.end == self.g()[self.k() - 1].span.end) && (self.g().len() == 0 ==> file_span.end == 0)
- [C19] self.clean() ==> (if is(self.g(), 0, Token::Ident("syntax")) { v_syntax(self.g(), 0, syntax) && syntax_span is Some && (syntax_span->0).0 == spn(self.g(), 0, f_start(self.g())) } else { syntax is Proto2 && syntax_span is None })
- [C19] self.clean() ==> w_package(self.g(), st(6, self.g(), f_start(self.g()), self.k(), 0, 13, 13), package)
- [C15] self.clean() ==> w_imports(self.g(), st(6, self.g(), f_start(self.g()), self.k(), 0, 12, 12), imports@)
- [C17] self.clean() ==> w_opts(self.g(), st(6, self.g(), f_start(self.g()), self.k(), 0, 1, 1), options@)
- [C18] self.clean() ==> w_fitems(self.g(), st(6, self.g(), f_start(self.g()), self.k(), 0, 5, 9), items@)
ensures
- self.clean() ==> self.k() == self.g().len()
decreases
- self.rem()
@put LEN
@ghost loop 0 start
 broadcast use lemma_fnested_push, lemma_fexts_push;
@ghost start
 broadcast use group_neg; reveal(f_start); reveal(e_file); reveal(v_file); reveal(e_syntax); reveal_with_fuel(e_fseq, 2);
 proof { lemma_f0(self.g()); lemma_reach0(6, self.g(), f_start(self.g()), 0); }
@ghost loop 0 start
 broadcast use group_neg; reveal(v_st); reveal(v_fitem); reveal_with_fuel(e_fseq, 2);
 proof { lemma_fstep(self.g(), f_start(self.g()), self.k()); lemma_u_stmt(6, self.g(), self.k(), 0); }
@fn parse::is_valid_import [C15]
ensures
- [C15] res == import_ok(s@)
@loop 0
invariant
- [C15] forall|j: int| 0 <= j < it0.index() ==> comp_ok(#[trigger] split_seq(s@, '/')[j])
- it0.seq().len() == split_seq(s@, '/').len() && forall|j: int| 0 <= j < it0.seq().len() ==> (#[trigger] it0.seq()[j])@ == split_seq(s@, '/')[j]
@fn parse::parse_file [C02]
requires
- [C01] encode_utf8(source@).len() <= i32::MAX
ensures
- [C02] res is Err ==> (res->Err_0)@.len() > 0
- [C02,C18] res is Ok ==> e_file(sig(lexed(source), lexed(source).len() as int)) >= 0
- [C09,C15,C16,C17,C18,C19] res is Ok ==> v_file(sig(lexed(source), lexed(source).len() as int), encode_utf8(source@).len() as int, res->Ok_0)
- [C02,C18] res is Err ==> e_file(sig(lexed(source), lexed(source).len() as int)) < 0 || lexb(lexed(source), lexed(source).len() as int)
- [C01] res is Ok ==> ok_file(res->Ok_0)

@ghost start
 proof { reveal_with_fuel(sig, 2); reveal(lexb); }
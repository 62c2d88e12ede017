@use
use crate::vx::*;
use crate::vx::Span;
use crate::error::ParseErrorKind;
use vstd::utf8::*;
use vstd::std_specs::cmp::*;
use crate::ast::esc_all;
@items
// ------------------------------------------------------------ the lexer, seen from outside
// The automaton is generated by logos from the attributes on `Token`; it is an external function.
// What is assumed: the tokens of a text are a fixed sequence (whatever the mode), they are non-empty,
// in order and inside the text, and `next` yields them one by one. `bad` and `tfbad` say whether reading
// the token reports an error, always or outside text format only. `cb` and `ca` are filled in by the parser's specification:
// the comments between the token before and this one, and between this one and the next.
pub struct LTok<'a> { pub tok: Result<Token<'a>, ()>, pub span: Span, pub bad: bool, pub tfbad: bool, pub cb: crate::comments::CV, pub ca: crate::comments::CV }
pub struct VxLexer<'a> { pub extras: TokenExtras, pub src: &'a str, pub all: Ghost<Seq<LTok<'a>>>, pub pos: Ghost<nat>, pub done: Ghost<bool>, pub at: Ghost<Cut> }
/// A text, cut into what is before the current token, the token, and what follows.
pub struct Cut { pub pre: Seq<char>, pub tok: Seq<char>, pub rest: Seq<char> }
impl Cut {
    pub open spec fn of(&self, s: Seq<char>) -> bool { s == self.pre + self.tok + self.rest }
    pub open spec fn start(&self) -> nat { encode_utf8(self.pre).len() }
    pub open spec fn end(&self) -> nat { encode_utf8(self.pre + self.tok).len() }
    /// The token made longer by k characters.
    pub open spec fn grow(&self, k: int) -> Cut { Cut { pre: self.pre, tok: self.tok + self.rest.take(k), rest: self.rest.skip(k) } }
}
/// The characters of s whose encoding takes n bytes.
pub open spec fn isb(s: Seq<char>, n: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] encode_utf8(s.take(k)).len() == n }
pub open spec fn cidx(s: Seq<char>, n: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] encode_utf8(s.take(k)).len() == n }
pub uninterp spec fn lexed<'a>(s: &'a str) -> Seq<LTok<'a>>;
#[verifier::opaque]
pub open spec fn lex_wf(s: Seq<LTok<'_>>, len: nat) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).span.start < s[i].span.end && s[i].span.end <= len
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).span.end <= (#[trigger] s[j]).span.start
}
pub proof fn lemma_lex_len(s: Seq<LTok<'_>>, len: nat, n: nat)
    requires lex_wf(s, len), n <= s.len()
    ensures n == 0 || s[n - 1].span.end >= n, n <= len
    decreases n
{ reveal(lex_wf); if n > 1 { lemma_lex_len(s, len, (n - 1) as nat); } }
impl<'a> VxLexer<'a> {
    #[verifier::external_body]
    pub fn new(source: &'a str) -> (r: Self)
        ensures r.extras.errors@.len() == 0, !r.extras.text_format_mode, r.src == source, r.all@ == lexed(source), r.pos@ == 0, !r.done@,
            lex_wf(r.all@, encode_utf8(source@).len())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<Token<'a>, ()>>)
        requires old(self).pos@ <= old(self).all@.len()
        ensures final(self).src == old(self).src, final(self).all@ == old(self).all@,
            final(self).extras.text_format_mode == old(self).extras.text_format_mode,
            old(self).pos@ < old(self).all@.len() ==> r == Some(old(self).all@[old(self).pos@ as int].tok) && final(self).pos@ == old(self).pos@ + 1 && final(self).done@ == old(self).done@,
            old(self).pos@ >= old(self).all@.len() ==> r is None && final(self).pos@ == old(self).pos@ && final(self).done@,
            final(self).extras.errors@.len() >= old(self).extras.errors@.len(),
            ({
                let p = old(self).pos@ as int;
                let b = p < old(self).all@.len() && (old(self).all@[p].bad || (old(self).all@[p].tfbad && !old(self).extras.text_format_mode));
                if b { final(self).extras.errors@.len() > 0 } else { final(self).extras.errors@ == old(self).extras.errors@ }
            }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span)
        ensures
            !self.done@ && self.pos@ == 0 ==> r.start == 0 && r.end == 0,
            !self.done@ && self.pos@ > 0 ==> r == self.all@[self.pos@ - 1].span,
            self.done@ && self.pos@ > 0 ==> r.end >= self.all@[self.pos@ - 1].span.end,
            r.start == self.at@.start(), r.end == self.at@.end(),
    { unimplemented!() }
    pub fn source(&self) -> (r: &'a str) ensures r == self.src { self.src }
    // -------- seen from inside a callback: `at` is the token just matched
    pub open spec fn tok(&self) -> Seq<char> { self.at@.tok }
    pub open spec fn cbwf(&self) -> bool { self.at@.of(self.src@) && encode_utf8(self.src@).len() <= i32::MAX }
    #[verifier::external_body]
    pub fn slice(&self) -> (r: &'a str) ensures r@ == self.at@.tok { unimplemented!() }
    #[verifier::external_body]
    pub fn remainder(&self) -> (r: &'a str) ensures r@ == self.at@.rest { unimplemented!() }
    #[verifier::external_body]
    pub fn bump(&mut self, n: usize)
        requires isb(old(self).at@.rest, n as int)
        ensures final(self).src == old(self).src, final(self).extras == old(self).extras, final(self).all == old(self).all, final(self).pos == old(self).pos, final(self).done == old(self).done, final(self).at@ == old(self).at@.grow(cidx(old(self).at@.rest, n as int)), old(self).cbwf() ==> final(self).cbwf(),
    { unimplemented!() }
}
// ------------------------------------------------------------ a lexer used inside a callback
/// What logos derives from an enum: the language of its patterns, and which result a matched text may give.
pub trait VxLogos: Sized {
    spec fn lang(s: Seq<char>) -> bool;
    spec fn rel(s: Seq<char>, r: Result<Self, ()>) -> bool;
}
pub struct VxSub<'a, C> { pub src: &'a str, pub at: Ghost<Cut>, pub c: core::marker::PhantomData<C> }
/// No pattern matches at the start of s.
pub open spec fn nomatch<C: VxLogos>(s: Seq<char>) -> bool { forall|k: int| 1 <= k <= s.len() ==> !C::lang(#[trigger] s.take(k)) }
/// The longest match at the start of s takes n characters.
pub open spec fn longest<C: VxLogos>(s: Seq<char>, n: int) -> bool { 1 <= n <= s.len() && C::lang(s.take(n)) && forall|k: int| n < k <= s.len() ==> !C::lang(#[trigger] s.take(k)) }
impl<'a, C: VxLogos> VxSub<'a, C> {
    pub open spec fn tok(&self) -> Seq<char> { self.at@.tok }
    pub open spec fn cbwf(&self) -> bool { self.at@.of(self.src@) }
    #[verifier::external_body]
    pub fn vx_new(s: &'a str) -> (r: Self)
        ensures r.src == s, r.at@ == (Cut { pre: seq![], tok: seq![], rest: s@ })
    { unimplemented!() }
    /// Longest match; a callback may still reject it. Where nothing matches, the error covers one character, or the longest beginning of a match.
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<C, ()>>)
        requires old(self).cbwf()
        ensures final(self).cbwf(), final(self).src == old(self).src,
            final(self).at@.pre == old(self).at@.pre + old(self).at@.tok, old(self).at@.rest == final(self).at@.tok + final(self).at@.rest,
            r is None <==> old(self).at@.rest.len() == 0,
            match r {
                None => final(self).at@.tok.len() == 0,
                Some(Ok(c)) => longest::<C>(old(self).at@.rest, final(self).at@.tok.len() as int) && C::rel(final(self).at@.tok, Ok(c)),
                Some(Err(_)) => final(self).at@.tok.len() > 0 && (
                    (longest::<C>(old(self).at@.rest, final(self).at@.tok.len() as int) && C::rel(final(self).at@.tok, Err(())))
                    || (nomatch::<C>(old(self).at@.rest) && (final(self).at@.tok.len() == 1 || exists|w: Seq<char>| w.len() > 0 && #[trigger] C::lang(final(self).at@.tok + w)))),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> (r: Span) ensures r.start == self.at@.start(), r.end == self.at@.end() { unimplemented!() }
    #[verifier::external_body]
    pub fn slice(&self) -> (r: &'a str) ensures r@ == self.at@.tok { unimplemented!() }
    #[verifier::external_body]
    pub fn remainder(&self) -> (r: &'a str) ensures r@ == self.at@.rest { unimplemented!() }
    #[verifier::external_body]
    pub fn bump(&mut self, n: usize)
        requires isb(old(self).at@.rest, n as int)
        ensures final(self).src == old(self).src, final(self).at@ == old(self).at@.grow(cidx(old(self).at@.rest, n as int)), old(self).cbwf() ==> final(self).cbwf(),
    { unimplemented!() }
}
// ------------------------------------------------------------ tokens
pub open spec fn teq(a: Token<'_>, b: Token<'_>) -> bool {
    match (a, b) {
        (Token::Ident(x), Token::Ident(y)) => x@ == y@,
        (Token::IntLiteral(x), Token::IntLiteral(y)) => x == y,
        (Token::FloatLiteral(x), Token::FloatLiteral(y)) => f64_same(x.0, y.0),
        (Token::StringLiteral(x), Token::StringLiteral(y)) => x@ == y@,
        (Token::LineComment(x), Token::LineComment(y)) => x@ == y@,
        (Token::BlockComment(x), Token::BlockComment(y)) => x@ == y@,
        (Token::Dot, Token::Dot) => true, (Token::Minus, Token::Minus) => true, (Token::Plus, Token::Plus) => true,
        (Token::LeftParen, Token::LeftParen) => true, (Token::RightParen, Token::RightParen) => true,
        (Token::LeftBrace, Token::LeftBrace) => true, (Token::RightBrace, Token::RightBrace) => true,
        (Token::LeftBracket, Token::LeftBracket) => true, (Token::RightBracket, Token::RightBracket) => true,
        (Token::LeftAngleBracket, Token::LeftAngleBracket) => true, (Token::RightAngleBracket, Token::RightAngleBracket) => true,
        (Token::Comma, Token::Comma) => true, (Token::Equals, Token::Equals) => true, (Token::Colon, Token::Colon) => true,
        (Token::Semicolon, Token::Semicolon) => true, (Token::ForwardSlash, Token::ForwardSlash) => true, (Token::Newline, Token::Newline) => true,
        _ => false,
    }
}
pub uninterp spec fn f64_same(a: f64, b: f64) -> bool;
impl<'a> PartialEq for Token<'a> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl<'a> PartialEqSpecImpl for Token<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { teq(*self, *o) }
}
impl<'a, 'b> VxContains<&'b Token<'a>> for [Token<'a>] {
    open spec fn contains_spec(&self, a: &'b Token<'a>) -> bool { exists|i: int| 0 <= i < self@.len() && teq(#[trigger] self@[i], *a) }
    #[verifier::external_body]
    fn vx_contains(&self, a: &'b Token<'a>) -> (r: bool) { unimplemented!() }
}
/// How a token is written again.
pub open spec fn tok_text(t: Token<'_>) -> Seq<char> {
    match t {
        Token::Ident(x) => x@,
        Token::IntLiteral(n) => dec_int(n as int),
        Token::FloatLiteral(f) => if f64_integral(f.0) { f64_disp1(f.0) } else { f64_disp(f.0) },
        Token::StringLiteral(b) => "\""@ + def_all(b@) + "\""@,
        Token::Dot => "."@, Token::Minus => "-"@, Token::LeftParen => "("@, Token::RightParen => ")"@, Token::LeftBrace => "{"@,
        Token::RightBrace => "}"@, Token::LeftBracket => "["@, Token::RightBracket => "]"@, Token::LeftAngleBracket => "<"@,
        Token::RightAngleBracket => ">"@, Token::Comma => ","@, Token::Plus => "+"@, Token::Equals => "="@, Token::Colon => ":"@,
        Token::Semicolon => ";"@, Token::ForwardSlash => "/"@,
        Token::LineComment(c) => "//"@ + c@ + "\n"@, Token::BlockComment(c) => "/*"@ + c@ + "*/"@, Token::Newline => "\n"@,
    }
}
/// `ascii::escape_default` of one byte.
pub open spec fn hexd(n: nat) -> char { (if n < 10 { 48 + n } else { 87 + n }) as u8 as char }
pub open spec fn def_esc(b: u8) -> Seq<char> {
    if b == 9 { "\\t"@ } else if b == 13 { "\\r"@ } else if b == 10 { "\\n"@ } else if b == 92 { "\\\\"@ } else if b == 39 { "\\'"@ }
    else if b == 34 { "\\\""@ } else if 32 <= b <= 126 { seq![b as char] } else { "\\x"@ + seq![hexd(b as nat / 16), hexd(b as nat % 16)] }
}
pub open spec fn def_all(b: Seq<u8>) -> Seq<char>
    decreases b.len()
{ if b.len() == 0 { seq![] } else { def_all(b.drop_last()) + def_esc(b.last()) } }
pub struct VxEscape { pub b: u8 }
impl VxDisplay for VxEscape {
    open spec fn disp(&self) -> Seq<char> { def_esc(self.b) }
    open spec fn disp_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
pub fn vx_escape_default(b: u8) -> (r: VxEscape) ensures r.b == b { VxEscape { b } }
impl<'a> VxDisplay for Token<'a> {
    open spec fn disp(&self) -> Seq<char> { tok_text(*self) }
    open spec fn disp_ok(&self) -> bool { true }
    fn vx_to_string(&self) -> (r: std::string::String) {
        let mut f = Formatter { out: std::string::String::new() };
        let _ = self.vx_fmt(&mut f);
        proof { assert(f.out@ =~= tok_text(*self)); assert(f.out@ == tok_text(*self)); }
        f.out
    }
}
@fn lex::EqFloat::new [C06,C01]
requires
- !f64_isnan(f)
ensures
- [C06] res.0 == f
@fn lex::Token::vx_fmt [C21]
ensures
- [C21] final(f).buf() =~= old(f).buf() + tok_text(*self)
@loop 0
invariant
- [C21] f.buf() =~= old(f).buf() + "\""@ + def_all(bytes@.take(it0.index() as int))
- it0.seq().len() == bytes@.len()
- forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == bytes@[i]
@ghost loop 0 start
 proof { assert(bytes@.take(it0.index() as int + 1).drop_last() =~= bytes@.take(it0.index() as int)); }
@ghost after loop 0
 proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }

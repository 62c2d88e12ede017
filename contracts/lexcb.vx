@use
use crate::vx::*;
use crate::vx::Span;
use crate::lex::*;
use crate::error::ParseErrorKind;
use vstd::utf8::*;
@items
pub open spec fn vx_cut(j: int) -> bool { true }
#[verifier::external_body]
pub fn vx_unsupported_pattern() requires false { unimplemented!() }
// ------------------------------------------------------------ text
pub open spec fn is_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as int <= 127 }
pub trait VxText { spec fn tx(&self) -> Seq<char>;
    fn vx_sub(&self, a: usize, b: usize) -> (r: &str) requires a <= b, isb(self.tx(), a as int), isb(self.tx(), b as int) ensures r@ == self.tx().subrange(cidx(self.tx(), a as int), cidx(self.tx(), b as int));
    fn vx_sub_range(&self, g: Span) -> (r: &str) requires g.start <= g.end, isb(self.tx(), g.start as int), isb(self.tx(), g.end as int) ensures r@ == self.tx().subrange(cidx(self.tx(), g.start as int), cidx(self.tx(), g.end as int));
    fn vx_from(&self, a: usize) -> (r: &str) requires isb(self.tx(), a as int) ensures r@ == self.tx().skip(cidx(self.tx(), a as int));
    fn vx_first_char(&self) -> (r: Option<char>) ensures r == (if self.tx().len() > 0 { Some(self.tx()[0]) } else { None });
    fn vx_first_byte(&self) -> (r: Option<u8>) ensures r == (if self.tx().len() > 0 { Some(encode_utf8(self.tx())[0]) } else { None });
}
impl VxText for str {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_sub(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_sub_range(&self, g: Span) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_first_char(&self) -> (r: Option<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_first_byte(&self) -> (r: Option<u8>) { unimplemented!() }
}
pub trait VxDef: Sized { spec fn is_def(&self) -> bool; fn vx_def() -> (r: Self) ensures r.is_def(); }
impl VxDef for u64 { open spec fn is_def(&self) -> bool { *self == 0 } fn vx_def() -> (r: Self) { 0 } }
pub fn vx_default<T: VxDef>() -> (r: T) ensures r.is_def() { T::vx_def() }
// ------------------------------------------------------------ digits
pub open spec fn dig(c: char) -> nat {
    if 48 <= c as int <= 57 { (c as int - 48) as nat } else if 97 <= c as int <= 122 { (c as int - 87) as nat } else if 65 <= c as int <= 90 { (c as int - 55) as nat } else { 99 }
}
pub open spec fn all_dig(s: Seq<char>, radix: int) -> bool { forall|i: int| 0 <= i < s.len() ==> dig(#[trigger] s[i]) < radix }
pub open spec fn val(s: Seq<char>, radix: int) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { val(s.drop_last(), radix) * radix + dig(s.last()) } }
#[derive(Debug)]
pub enum IntErrorKind { Empty, InvalidDigit, PosOverflow, NegOverflow, Zero }
#[derive(Debug)]
pub struct ParseIntError { pub k: IntErrorKind }
impl ParseIntError { pub fn kind(&self) -> (r: &IntErrorKind) ensures *r == self.k { &self.k } }
/// What `from_str_radix` makes of s, for a result type that goes up to max (signs aside).
pub open spec fn radix_rel(s: Seq<char>, radix: int, max: int, r: Result<int, ()>) -> bool {
    if s.len() > 0 && all_dig(s, radix) { r == (if val(s, radix) <= max { Ok::<int, ()>(val(s, radix)) } else { Err(()) }) }
    else { s.len() == 0 || s[0] != '+' ==> r is Err }
}
pub open spec fn as_int64(r: Result<u64, ParseIntError>) -> Result<int, ()> { match r { Ok(x) => Ok(x as int), Err(_) => Err(()) } }
pub open spec fn as_int32(r: Result<u32, ParseIntError>) -> Result<int, ()> { match r { Ok(x) => Ok(x as int), Err(_) => Err(()) } }
#[verifier::external_body]
pub fn vx_u64_from_str_radix(s: &str, radix: u32) -> (r: Result<u64, ParseIntError>)
    requires 2 <= radix <= 36
    ensures radix_rel(s@, radix as int, u64::MAX as int, as_int64(r))
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_u32_from_str_radix(s: &str, radix: u32) -> (r: Result<u32, ParseIntError>)
    requires 2 <= radix <= 36
    ensures radix_rel(s@, radix as int, u32::MAX as int, as_int32(r))
{ unimplemented!() }
// ------------------------------------------------------------ positions
pub proof fn lemma_bytes(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures isb(s, encode_utf8(s.take(k)).len() as int), cidx(s, encode_utf8(s.take(k)).len() as int) == k
{
    let n = encode_utf8(s.take(k)).len() as int;
    assert(isb(s, n));
    let j = cidx(s, n);
    if j != k {
        if j < k { lemma_enc_less(s, j, k); } else { lemma_enc_less(s, k, j); }
    }
}
pub proof fn lemma_enc_concat(a: Seq<char>, b: Seq<char>)
    ensures encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b)
{ encode_utf8_concat(a, b); }
pub proof fn lemma_enc_less(s: Seq<char>, a: int, b: int)
    requires 0 <= a < b <= s.len()
    ensures encode_utf8(s.take(a)).len() < encode_utf8(s.take(b)).len()
{
    assert(s.take(b) =~= s.take(a) + s.subrange(a, b));
    lemma_enc_concat(s.take(a), s.subrange(a, b));
    lemma_enc_pos(s.subrange(a, b));
}
pub proof fn lemma_enc_pos(s: Seq<char>)
    requires s.len() > 0
    ensures encode_utf8(s).len() >= 1
{
}
pub proof fn lemma_enc_ascii(s: Seq<char>)
    requires is_ascii(s)
    ensures encode_utf8(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] encode_utf8(s)[i] == s[i] as u8
{
    is_ascii_chars_encode_utf8(s);
}
/// Positions inside a token of ASCII characters.
pub proof fn lemma_cut(c: Cut, s: Seq<char>)
    requires c.of(s)
    ensures
        encode_utf8(s).len() == c.end() + encode_utf8(c.rest).len(), c.end() == c.start() + encode_utf8(c.tok).len(),
        is_ascii(c.tok) ==> c.end() == c.start() + c.tok.len(),
        is_ascii(c.tok) ==> forall|n: int| c.start() <= n <= c.end() ==> #[trigger] isb(s, n) && cidx(s, n) == c.pre.len() + n - c.start(),
        is_ascii(c.tok) ==> forall|n: int| c.start() <= n <= c.end() ==> #[trigger] cidx(s, n) == c.pre.len() + n - c.start(),
        c.rest.len() > 0 ==> encode_utf8(c.rest).len() > 0,
{
    lemma_enc_concat(c.pre, c.tok);
    lemma_enc_concat(c.pre + c.tok, c.rest);
    if c.rest.len() > 0 { lemma_enc_pos(c.rest); }
    if is_ascii(c.tok) {
        lemma_enc_ascii(c.tok);
        assert forall|n: int| #![trigger isb(s, n)] #![trigger cidx(s, n)] c.start() <= n <= c.end() implies isb(s, n) && cidx(s, n) == c.pre.len() + n - c.start() by {
            let k = c.pre.len() + n - c.start();
            assert(s.take(k) =~= c.pre + c.tok.take(n - c.start()));
            lemma_enc_concat(c.pre, c.tok.take(n - c.start()));
            lemma_enc_ascii(c.tok.take(n - c.start()));
            lemma_bytes(s, k);
        }
    }
}
// ------------------------------------------------------------ C03
pub open spec fn alpha_(c: char) -> bool { 65 <= c as int <= 90 || 97 <= c as int <= 122 || c == '_' }
/// The digits and the base of an integer literal.
pub open spec fn int_base(s: Seq<char>) -> int { if s.len() >= 2 && s[0] == '0' { if s[1] == 'x' || s[1] == 'X' { 16 } else { 8 } } else { 10 } }
pub open spec fn int_digits(s: Seq<char>) -> Seq<char> { if int_base(s) == 16 { s.skip(2) } else if int_base(s) == 8 { s.skip(1) } else { s } }
/// A well-formed integer literal in range, not followed by a letter.
pub open spec fn int_ok(s: Seq<char>, rest: Seq<char>) -> bool {
    &&& int_digits(s).len() > 0 && all_dig(int_digits(s), int_base(s)) && val(int_digits(s), int_base(s)) <= u64::MAX
    &&& !(rest.len() > 0 && alpha_(rest[0]))
}
pub open spec fn dec(c: char) -> bool { 48 <= c as int <= 57 }
/// The texts that are integer literals: decimal, octal (or wrongly so: "09"), hexadecimal.
pub open spec fn int_text(s: Seq<char>) -> bool {
    s.len() > 0 && dec(s[0]) && ((forall|i: int| 0 <= i < s.len() ==> dec(#[trigger] s[i]))
        || (s.len() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && all_hex(s, 2)))
}
pub open spec fn ident_text(s: Seq<char>) -> bool { s.len() > 0 && alpha_(s[0]) && forall|i: int| 0 <= i < s.len() ==> alpha_(#[trigger] s[i]) || dec(s[i]) }
pub open spec fn line_text(s: Seq<char>) -> bool { is_line(s) && forall|i: int| 0 <= i < s.len() - 1 ==> (#[trigger] s[i]) != '\n' }
// ------------------------------------------------------------ C07
/// The characters a simple escape stands for.
pub open spec fn simple_esc(c: char) -> Option<u8> {
    if c == 'a' { Some(7u8) } else if c == 'b' { Some(8u8) } else if c == 'f' { Some(12u8) } else if c == 'n' { Some(10u8) } else if c == 'r' { Some(13u8) }
    else if c == 't' { Some(9u8) } else if c == 'v' { Some(11u8) } else if c == '?' { Some(63u8) } else if c == '\\' { Some(92u8) }
    else if c == '\'' { Some(39u8) } else if c == '"' { Some(34u8) } else { None }
}
pub open spec fn is_oct(c: char) -> bool { 48 <= c as int <= 55 }
pub open spec fn is_hex(c: char) -> bool { 48 <= c as int <= 57 || 65 <= c as int <= 70 || 97 <= c as int <= 102 }
/// The byte an escape of one byte stands for (the text starts with a backslash).
pub open spec fn esc_byte(s: Seq<char>) -> Option<u8> {
    if s.len() < 2 { None }
    else if s[1] == 'x' || s[1] == 'X' { Some(val(s.skip(2), 16) as u8) }
    else if is_oct(s[1]) { if val(s.skip(1), 8) <= 255 { Some(val(s.skip(1), 8) as u8) } else { None } }
    else { simple_esc(s[1]) }
}
pub open spec fn scalar(n: int) -> bool { 0 <= n < 0xd800 || 0xe000 <= n <= 0x10ffff }
pub open spec fn rel_string_Component_Terminator(s: Seq<char>, r: Result<u8, ()>) -> bool { r == Ok::<u8, ()>(s[0] as u8) }
pub open spec fn rel_string_Component_Byte(s: Seq<char>, r: Result<u8, ()>) -> bool { match r { Ok(b) => esc_byte(s) == Some(b), Err(_) => esc_byte(s) is None } }
pub open spec fn rel_string_Component_Char(s: Seq<char>, r: Result<char, ()>) -> bool { match r { Ok(c) => scalar(val(s.skip(2), 16)) && c as int == val(s.skip(2), 16), Err(_) => !scalar(val(s.skip(2), 16)) } }
pub trait VxStripPrefix<A> { spec fn strip(&self, a: A) -> Option<Seq<char>>; fn vx_strip_prefix(&self, a: A) -> (r: Option<&str>) ensures match r { Some(x) => self.strip(a) == Some(x@), None => self.strip(a) is None }; }
impl VxStripPrefix<char> for str {
    open spec fn strip(&self, a: char) -> Option<Seq<char>> { if self@.len() > 0 && self@[0] == a { Some(self@.skip(1)) } else { None } }
    #[verifier::external_body] fn vx_strip_prefix(&self, a: char) -> (r: Option<&str>) { unimplemented!() }
}
impl<'b> VxStripPrefix<&'b str> for str {
    open spec fn strip(&self, a: &'b str) -> Option<Seq<char>> { if a@.is_prefix_of(self@) { Some(self@.skip(a@.len() as int)) } else { None } }
    #[verifier::external_body] fn vx_strip_prefix(&self, a: &'b str) -> (r: Option<&str>) { unimplemented!() }
}
pub trait VxTryU8: Sized { spec fn u8v(self) -> int; fn vx_try_u8(self) -> (r: Result<u8, TryErr>) ensures match r { Ok(x) => x as int == self.u8v(), Err(_) => !(0 <= self.u8v() <= 255) }; }
impl VxTryU8 for u32 { open spec fn u8v(self) -> int { self as int } fn vx_try_u8(self) -> (r: Result<u8, TryErr>) { if self <= 255 { Ok(self as u8) } else { Err(TryErr { o: true }) } } }
pub open spec fn chr_is(c: char, n: int) -> bool { c as int == n }
pub open spec fn char_of(n: int) -> char { choose|c: char| #[trigger] chr_is(c, n) }
#[verifier::external_body]
pub fn vx_char_from_u32(n: u32) -> (r: Option<char>) ensures match r { Some(c) => scalar(n as int) && c as int == n, None => !scalar(n as int) } { unimplemented!() }
#[verifier::external_body]
pub fn vx_encode_utf8<'b>(c: char, buf: &'b mut [u8; 4]) -> (r: &'b str) ensures r@ == seq![c] { unimplemented!() }
pub fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures match r { None => old(v)@.len() == 0 && final(v)@ == old(v)@, Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(x)) }
{ if v.len() == 0 { None } else { let n = v.len() - 1; let r = &mut v[n]; Some(r) } }
pub trait VxBorrowed { type O; spec fn bor(self, r: Self::O) -> bool; fn vx_bor(self) -> (r: Self::O) where Self: Sized ensures self.bor(r); }
impl<'b> VxBorrowed for &'b str { type O = CowStr; open spec fn bor(self, r: CowStr) -> bool { r@ == self@ } #[verifier::external_body] fn vx_bor(self) -> (r: CowStr) { unimplemented!() } }
impl<'b> VxBorrowed for &'b [u8] { type O = CowBytes; open spec fn bor(self, r: CowBytes) -> bool { r@ == self@ } #[verifier::external_body] fn vx_bor(self) -> (r: CowBytes) { unimplemented!() } }
impl VxBorrowed for String { type O = CowStr; open spec fn bor(self, r: CowStr) -> bool { r@ == self@ } #[verifier::external_body] fn vx_bor(self) -> (r: CowStr) { unimplemented!() } }
impl VxBorrowed for Vec<u8> { type O = CowBytes; open spec fn bor(self, r: CowBytes) -> bool { r@ == self@ } #[verifier::external_body] fn vx_bor(self) -> (r: CowBytes) { unimplemented!() } }
pub fn vx_borrowed<B: VxBorrowed>(b: B) -> (r: B::O) ensures b.bor(r) { b.vx_bor() }
pub fn vx_owned<B: VxBorrowed>(b: B) -> (r: B::O) ensures b.bor(r) { b.vx_bor() }
impl CowBytes {
    #[verifier::external_body]
    pub fn to_mut(&mut self) -> (r: &mut Vec<u8>) ensures r@ == old(self)@, final(self)@ == final(r)@ { unimplemented!() }
}
impl CowStr {
    #[verifier::external_body]
    pub fn to_mut(&mut self) -> (r: &mut String) ensures r@ == old(self)@, final(self)@ == final(r)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains(&self, a: &str) -> (r: bool) ensures r == has_sub(self@, a@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_replace(&self, a: &str, b: &str) -> (r: String) ensures a@ == "\r\n"@ && b@ == "\n"@ ==> r@ == crlf(self@) { unimplemented!() }
}
pub trait VxGetOr<C> { spec fn cur(&self) -> Option<C>; spec fn empty(c: C) -> bool; fn vx_get_or_default(&mut self) -> (r: &mut C) ensures final(self).cur() == Some(*final(r)), match old(self).cur() { Some(c) => *r == c, None => Self::empty(*r) }; }
impl VxGetOr<CowBytes> for Option<CowBytes> { open spec fn cur(&self) -> Option<CowBytes> { *self } open spec fn empty(c: CowBytes) -> bool { c@ == Seq::<u8>::empty() } #[verifier::external_body] fn vx_get_or_default(&mut self) -> (r: &mut CowBytes) { unimplemented!() } }
impl VxGetOr<CowStr> for Option<CowStr> { open spec fn cur(&self) -> Option<CowStr> { *self } open spec fn empty(c: CowStr) -> bool { c@ == Seq::<char>::empty() } #[verifier::external_body] fn vx_get_or_default(&mut self) -> (r: &mut CowStr) { unimplemented!() } }
impl VxOrDefault for Option<CowBytes> { type Out = CowBytes; open spec fn od_rel(self, r: CowBytes) -> bool { r@ == obytes(self) } #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: CowBytes) { unimplemented!() } }
impl VxOrDefault for Option<CowStr> { type Out = CowStr; open spec fn od_rel(self, r: CowStr) -> bool { r@ == ostr(self) } #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: CowStr) { unimplemented!() } }
pub open spec fn obytes(o: Option<CowBytes>) -> Seq<u8> { match o { Some(c) => c@, None => seq![] } }
pub open spec fn ostr(o: Option<CowStr>) -> Seq<char> { match o { Some(c) => c@, None => seq![] } }
pub open spec fn sub_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i <= s.len() - p.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn has_sub(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| #[trigger] sub_at(s, p, i) }
pub proof fn lemma_ascii_idx(s: Seq<char>)
    requires is_ascii(s)
    ensures encode_utf8(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] encode_utf8(s)[i] == s[i] as u8,
        forall|n: int| 0 <= n <= s.len() ==> #[trigger] isb(s, n), forall|n: int| 0 <= n <= s.len() ==> #[trigger] cidx(s, n) == n,
{
    let c = Cut { pre: Seq::<char>::empty(), tok: s, rest: Seq::<char>::empty() };
    assert(c.pre + c.tok + c.rest =~= s);
    lemma_enc_ascii(Seq::<char>::empty());
    lemma_enc_ascii(s);
    lemma_cut(c, s);
}
/// What the whole text of the token is, in bytes.
pub proof fn lemma_enc_first(s: Seq<char>)
    requires s.len() > 0, s[0] as int <= 127
    ensures encode_utf8(s).len() >= 1, encode_utf8(s)[0] == s[0] as u8
{
    lemma_enc_concat(s.take(1), s.skip(1));
    assert(s.take(1) + s.skip(1) =~= s);
    lemma_enc_ascii(s.take(1));
}
// the patterns of the inner lexer
pub open spec fn quote(c: char) -> bool { c == '\'' || c == '"' }
pub open spec fn plain(c: char) -> bool { c as int != 0 && c != '\n' && c != '\\' && !quote(c) }
pub open spec fn all_hex(s: Seq<char>, from: int) -> bool { forall|i: int| from <= i < s.len() ==> is_hex(#[trigger] s[i]) }
pub open spec fn m_unescaped(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]) }
pub open spec fn m_term(s: Seq<char>) -> bool { s.len() == 1 && quote(s[0]) }
pub open spec fn m_hexb(s: Seq<char>) -> bool { 3 <= s.len() <= 4 && s[0] == '\\' && (s[1] == 'x' || s[1] == 'X') && all_hex(s, 2) }
pub open spec fn m_octb(s: Seq<char>) -> bool { 2 <= s.len() <= 4 && s[0] == '\\' && forall|i: int| 1 <= i < s.len() ==> is_oct(#[trigger] s[i]) }
pub open spec fn m_simple(s: Seq<char>) -> bool { s.len() == 2 && s[0] == '\\' && simple_esc(s[1]) is Some }
pub open spec fn m_uni(s: Seq<char>) -> bool { s.len() > 2 && s[0] == '\\' && all_hex(s, 2) && ((s[1] == 'u' && s.len() == 6) || (s[1] == 'U' && s.len() == 10)) }
/// The number of characters of the escape sequence s starts with, or 0.
pub open spec fn esc_len(s: Seq<char>) -> int {
    if s.len() < 2 { 0 }
    else if s[1] == 'x' || s[1] == 'X' { if s.len() > 2 && is_hex(s[2]) { if s.len() > 3 && is_hex(s[3]) { 4 } else { 3 } } else { 0 } }
    else if is_oct(s[1]) { if s.len() > 2 && is_oct(s[2]) { if s.len() > 3 && is_oct(s[3]) { 4 } else { 3 } } else { 2 } }
    else if s[1] == 'u' { if s.len() >= 6 && all_hex(s.take(6), 2) { 6 } else { 0 } }
    else if s[1] == 'U' { if s.len() >= 10 && all_hex(s.take(10), 2) { 10 } else { 0 } }
    else if simple_esc(s[1]) is Some { 2 } else { 0 }
}
/// The bytes one escape sequence stands for.
pub open spec fn esc_bytes(e: Seq<char>) -> Option<Seq<u8>> {
    if e[1] == 'u' || e[1] == 'U' { if scalar(val(e.skip(2), 16)) { Some(encode_utf8(seq![char_of(val(e.skip(2), 16))])) } else { None } }
    else { match esc_byte(e) { Some(b) => Some(seq![b]), None => None } }
}
pub open spec fn glue(b: Seq<u8>, n: int, r: Option<(Seq<u8>, int)>) -> Option<(Seq<u8>, int)> { match r { Some(x) => Some((b + x.0, n + x.1)), None => None } }
/// C07: the bytes of the string literal whose text after the opening quote q is s, and the number of characters up to and including the closing quote; None if it is not well formed.
pub open spec fn sdec(s: Seq<char>, q: char) -> Option<(Seq<u8>, int)>
    decreases s.len()
{
    if s.len() == 0 || s[0] == '\n' || s[0] as int == 0 { None }
    else if s[0] == q { Some((seq![], 1)) }
    else if s[0] == '\\' {
        let n = esc_len(s);
        if 0 < n <= s.len() { match esc_bytes(s.take(n)) { Some(b) => glue(b, n, sdec(s.skip(n), q)), None => None } } else { None }
    }
    else { glue(encode_utf8(seq![s[0]]), 1, sdec(s.skip(1), q)) }
}
pub proof fn lemma_glue(a: Seq<u8>, n: int, b: Seq<u8>, m: int, r: Option<(Seq<u8>, int)>)
    ensures glue(a, n, glue(b, m, r)) == glue(a + b, n + m, r)
{ if r is Some { assert(a + (b + (r->0).0) =~= (a + b) + (r->0).0); } }
pub proof fn lemma_plain(u: Seq<char>, rest: Seq<char>, q: char)
    requires forall|i: int| 0 <= i < u.len() ==> plain(#[trigger] u[i]), quote(q)
    ensures sdec(u + rest, q) == glue(encode_utf8(u), u.len() as int, sdec(rest, q))
    decreases u.len()
{
    if u.len() == 0 {
        assert(u + rest =~= rest);
        lemma_enc_ascii(u);
        if sdec(rest, q) is Some { assert(encode_utf8(u) + (sdec(rest, q)->0).0 =~= (sdec(rest, q)->0).0); }
    } else {
        let v = u.skip(1);
        assert((u + rest).skip(1) =~= v + rest);
        lemma_plain(v, rest, q);
        lemma_enc_concat(seq![u[0]], v);
        assert(seq![u[0]] + v =~= u);
        lemma_glue(encode_utf8(seq![u[0]]), 1, encode_utf8(v), v.len() as int, sdec(rest, q));
    }
}
/// Values of a few digits.
pub proof fn lemma_val(s: Seq<char>, radix: int)
    requires all_dig(s, radix), radix == 8 || radix == 16, s.len() <= 8
    ensures 0 <= val(s, radix) <= u32::MAX, s.len() <= 1 ==> val(s, radix) < radix, s.len() <= 2 ==> val(s, radix) < radix * radix
    decreases s.len()
{
    reveal_with_fuel(val, 9);
    lemma_val_pow(s, radix);
    assert(vstd::arithmetic::power::pow(16, 8) == 4294967296) by (compute);
    assert(vstd::arithmetic::power::pow(8, 8) == 16777216) by (compute);
    vstd::arithmetic::power::lemma_pow_increases(radix as nat, s.len(), 8);
    if s.len() == 1 { assert(val(s.drop_last(), radix) == 0); }
    if s.len() == 2 { assert(val(s.drop_last().drop_last(), radix) == 0); }
}
pub proof fn lemma_val_pow(s: Seq<char>, radix: int)
    requires all_dig(s, radix), radix >= 2
    ensures 0 <= val(s, radix) < vstd::arithmetic::power::pow(radix, s.len())
    decreases s.len()
{
    reveal(vstd::arithmetic::power::pow);
    if s.len() > 0 {
        lemma_val_pow(s.drop_last(), radix);
        let p = vstd::arithmetic::power::pow(radix, (s.len() - 1) as nat);
        assert(dig(s.last()) < radix);
        assert(val(s.drop_last(), radix) * radix + radix <= p * radix) by (nonlinear_arith) requires 0 <= val(s.drop_last(), radix) < p, radix >= 2;
        assert(p * radix == radix * p) by (nonlinear_arith);
    }
}
pub proof fn lemma_comp_ascii(s: Seq<char>)
    requires m_hexb(s) || m_octb(s) || m_simple(s) || m_uni(s) || m_term(s)
    ensures is_ascii(s)
{ assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) as int <= 127 by { if i >= 2 && all_hex(s, 2) { assert(is_hex(s[i])); } } }
/// One step of the inner lexer.
pub open spec fn comp(s: Seq<char>) -> bool { m_unescaped(s) || m_term(s) || m_hexb(s) || m_octb(s) || m_simple(s) || m_uni(s) }
pub proof fn lemma_longest(s: Seq<char>, n: int)
    requires longest::<string_Component>(s, n)
    ensures
        m_unescaped(s.take(n)) || m_term(s.take(n)) || (s[0] == '\\' && esc_len(s) == n && (m_hexb(s.take(n)) || m_octb(s.take(n)) || m_simple(s.take(n)) || m_uni(s.take(n)))),
        lang_string_Component_Unescaped(s.take(n)) ==> m_unescaped(s.take(n)), lang_string_Component_Terminator(s.take(n)) ==> m_term(s.take(n)),
        lang_string_Component_Byte(s.take(n)) ==> m_hexb(s.take(n)) || m_octb(s.take(n)) || m_simple(s.take(n)), lang_string_Component_Char(s.take(n)) ==> m_uni(s.take(n)),
{
    vxlang_string_Component();
    let t = s.take(n);
    if !m_unescaped(t) && !m_term(t) {
        assert(t[0] == s[0] && t[1] == s[1]);
        if n >= 3 { assert(t[2] == s[2]); }
        if n >= 4 { assert(t[3] == s[3]); }
        if m_hexb(t) {
            if n == 3 && s.len() > 3 && is_hex(s[3]) { let w = s.take(4); assert(m_hexb(w)) by { assert forall|i: int| 2 <= i < w.len() implies is_hex(#[trigger] w[i]) by { assert(i == 2 || i == 3); assert(is_hex(t[2])); } } assert(lang_string_Component_Byte(w)); }
            assert(is_hex(t[2]));
            if n == 4 { assert(is_hex(t[3])); }
        } else if m_octb(t) {
            assert(is_oct(t[1]));
            if n == 2 && s.len() > 2 && is_oct(s[2]) { let w = s.take(3); assert(m_octb(w)) by { assert forall|i: int| 1 <= i < w.len() implies is_oct(#[trigger] w[i]) by { assert(i == 1 || i == 2); } } assert(lang_string_Component_Byte(w)); }
            if n == 3 { assert(is_oct(t[2])); }
            if n == 3 && s.len() > 3 && is_oct(s[3]) { let w = s.take(4); assert(m_octb(w)) by { assert forall|i: int| 1 <= i < w.len() implies is_oct(#[trigger] w[i]) by { assert(i == 1 || i == 2 || i == 3); } } assert(lang_string_Component_Byte(w)); }
            if n == 4 { assert(is_oct(t[2]) && is_oct(t[3])); }
        } else if m_uni(t) {
            if n == 6 { assert(s.take(6) == t); } else { assert(s.take(10) == t); }
        }
    }
}
pub proof fn lemma_nomatch(s: Seq<char>, q: char)
    requires nomatch::<string_Component>(s), s.len() > 0, quote(q)
    ensures sdec(s, q) is None
{
    vxlang_string_Component();
    if plain(s[0]) { let w = s.take(1); assert(m_unescaped(w)); assert(lang_string_Component_Unescaped(w)); }
    if quote(s[0]) { let w = s.take(1); assert(m_term(w)); assert(lang_string_Component_Terminator(w)); }
    if s[0] == '\\' {
        let n = esc_len(s);
        if 0 < n <= s.len() {
            let w = s.take(n);
            assert(w[0] == s[0] && w[1] == s[1]);
            if s[1] == 'x' || s[1] == 'X' { assert(m_hexb(w)); assert(lang_string_Component_Byte(w)); }
            else if is_oct(s[1]) { assert(m_octb(w)); assert(lang_string_Component_Byte(w)); }
            else if s[1] == 'u' || s[1] == 'U' { assert(m_uni(w)); assert(lang_string_Component_Char(w)); }
            else { assert(m_simple(w)); assert(lang_string_Component_Byte(w)); }
        }
    }
}
/// What the inner lexer gives next, in terms of the literal's meaning.
pub proof fn lemma_step(s: Seq<char>, n: int, q: char, r: Result<string_Component<'_>, ()>)
    requires longest::<string_Component>(s, n), <string_Component as VxLogos>::rel(s.take(n), r), quote(q)
    ensures match r {
        Ok(string_Component::Unescaped(u)) => u@ == s.take(n) && sdec(s, q) == glue(encode_utf8(u@), n, sdec(s.skip(n), q)),
        Ok(string_Component::Terminator(t)) => n == 1 && t == s[0] as u8 && quote(s[0]) && (s[0] != q ==> sdec(s, q) == glue(seq![t], 1, sdec(s.skip(1), q))),
        Ok(string_Component::Byte(b)) => sdec(s, q) == glue(seq![b], n, sdec(s.skip(n), q)),
        Ok(string_Component::Char(c)) => sdec(s, q) == glue(encode_utf8(seq![c]), n, sdec(s.skip(n), q)),
        Err(_) => sdec(s, q) is None,
    }
{
    lemma_longest(s, n);
    let t = s.take(n);
    assert(s =~= t + s.skip(n));
    assert(t[0] == s[0]);
    if r is Err {
        if m_term(t) { }
    } else {
        match r->Ok_0 {
            string_Component::Unescaped(u) => { lemma_plain(t, s.skip(n), q); }
            string_Component::Terminator(b) => { lemma_enc_ascii(seq![s[0]]); assert(encode_utf8(seq![s[0]]) =~= seq![b]); }
            string_Component::Byte(b) => { }
            string_Component::Char(c) => { assert(chr_is(c, val(t.skip(2), 16))); assert(char_of(val(t.skip(2), 16)) as int == c as int); assert(char_of(val(t.skip(2), 16)) == c); }
        }
    }
}
pub open spec fn step_post(s: Seq<char>, n: int, q: char, r: Result<string_Component<'_>, ()>) -> bool {
    match r {
        Ok(string_Component::Unescaped(u)) => u@ == s.take(n) && sdec(s, q) == glue(encode_utf8(u@), n, sdec(s.skip(n), q)),
        Ok(string_Component::Terminator(t)) => n == 1 && t == s[0] as u8 && quote(s[0]) && (s[0] != q ==> sdec(s, q) == glue(seq![t], 1, sdec(s.skip(1), q))),
        Ok(string_Component::Byte(b)) => sdec(s, q) == glue(seq![b], n, sdec(s.skip(n), q)),
        Ok(string_Component::Char(c)) => sdec(s, q) == glue(encode_utf8(seq![c]), n, sdec(s.skip(n), q)),
        Err(_) => sdec(s, q) is None,
    }
}
/// How far the loop over a literal has come: b are the bytes of its first n characters, tail is what is left.
pub open spec fn sinv(all: Seq<char>, q: char, b: Seq<u8>, n: int, tail: Seq<char>, clean: bool, bad: bool) -> bool {
    match sdec(all, q) {
        Some(_) => clean && sdec(all, q) == glue(b, n, sdec(tail, q)),
        None => bad || sdec(tail, q) is None,
    }
}
/// Everything one turn of the loop can need.
pub proof fn lemma_turn(src: Seq<char>, q: char, b: Seq<u8>, n: int, s: Seq<char>, clean: bool, bad: bool)
    requires quote(q), sinv(src, q, b, n, s, clean, bad)
    ensures
        forall|k: int, r: Result<string_Component<'_>, ()>| #![trigger longest::<string_Component>(s, k), <string_Component as VxLogos>::rel(s.take(k), r)] longest::<string_Component>(s, k) && <string_Component as VxLogos>::rel(s.take(k), r) ==> step_post(s, k, q, r),
        forall|c: Seq<u8>, k: int| #![trigger glue(c, k, sdec(s.skip(k), q))] 0 <= k <= s.len() && sdec(s, q) == glue(c, k, sdec(s.skip(k), q)) ==> sinv(src, q, b + c, n + k, s.skip(k), clean, bad),
        nomatch::<string_Component>(s) && s.len() > 0 ==> sdec(s, q) is None,
{
    assert forall|k: int, r: Result<string_Component<'_>, ()>| #![trigger longest::<string_Component>(s, k), <string_Component as VxLogos>::rel(s.take(k), r)] longest::<string_Component>(s, k) && <string_Component as VxLogos>::rel(s.take(k), r) implies step_post(s, k, q, r) by { lemma_step(s, k, q, r); }
    assert forall|c: Seq<u8>, k: int| #![trigger glue(c, k, sdec(s.skip(k), q))] 0 <= k <= s.len() && sdec(s, q) == glue(c, k, sdec(s.skip(k), q)) implies sinv(src, q, b + c, n + k, s.skip(k), clean, bad) by { lemma_glue(b, n, c, k, sdec(s.skip(k), q)); }
    if nomatch::<string_Component>(s) && s.len() > 0 { lemma_nomatch(s, q); }
}
pub proof fn lemma_cuts(src: Seq<char>)
    ensures forall|c: Cut| #[trigger] c.of(src) ==> c.start() <= c.end() <= encode_utf8(src).len() && isb(src, c.end() as int) && cidx(src, c.end() as int) == (c.pre + c.tok).len()
{ assert forall|c: Cut| #[trigger] c.of(src) implies c.start() <= c.end() <= encode_utf8(src).len() && isb(src, c.end() as int) && cidx(src, c.end() as int) == (c.pre + c.tok).len() by { lemma_cut(c, src); assert(src.take((c.pre + c.tok).len() as int) =~= c.pre + c.tok); lemma_bytes(src, (c.pre + c.tok).len() as int); } }
pub proof fn lemma_enc_len(s: Seq<char>)
    ensures s.len() <= encode_utf8(s).len()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_enc_len(s.drop_last());
        assert(s =~= s.drop_last() + s.skip(s.len() - 1));
        lemma_enc_concat(s.drop_last(), s.skip(s.len() - 1));
        lemma_enc_pos(s.skip(s.len() - 1));
    }
}
/// Cutting and advancing inside s, the text a turn starts with.
pub proof fn lemma_bctx(src: Seq<char>, s: Seq<char>)
    ensures
        forall|a: Seq<char>, b: Seq<char>| #[trigger] (a + b) == s ==> s.take(a.len() as int) == a && s.skip(a.len() as int) == b,
        forall|a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() ==> #[trigger] s.skip(a).skip(b) == s.skip(a + b),
        forall|t: Seq<char>| #![trigger isb(t, 1)] #![trigger cidx(t, 1)] t.len() > 0 && t[0] as int <= 127 ==> isb(t, 1) && cidx(t, 1) == 1,
        s.len() > 0 ==> suffix_ok(s.skip(1), lead(s.skip(1))) && forall|k: int| 0 <= k <= s.len() - 1 ==> suffix_ok(s.skip(1), k) && #[trigger] s.skip(1).skip(k).len() == s.len() - 1 - k,
        src.len() <= encode_utf8(src).len(), isb(src, encode_utf8(src).len() as int), cidx(src, encode_utf8(src).len() as int) == src.len(),
        "\n"@ == seq!['\n'], "*/"@ == seq!['*', '/'],
        s.len() > 0 ==> ({ let r = s.skip(1).skip(lead(s.skip(1))); 0 <= lead(s.skip(1)) <= s.len() - 1 && ("*/"@.is_prefix_of(r) <==> r.len() >= 2 && r[0] == '*' && r[1] == '/') }),
{
    assert forall|a: Seq<char>, b: Seq<char>| #[trigger] (a + b) == s implies s.take(a.len() as int) == a && s.skip(a.len() as int) == b by { assert(s.take(a.len() as int) =~= a); assert(s.skip(a.len() as int) =~= b); }
    assert forall|a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() implies #[trigger] s.skip(a).skip(b) == s.skip(a + b) by { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
    assert forall|t: Seq<char>| #![trigger isb(t, 1)] #![trigger cidx(t, 1)] t.len() > 0 && t[0] as int <= 127 implies isb(t, 1) && cidx(t, 1) == 1 by { lemma_enc_ascii(t.take(1)); lemma_bytes(t, 1); }
    if s.len() > 0 {
        lemma_lead(s.skip(1));
        lemma_suffix(s.skip(1), lead(s.skip(1)));
        assert forall|k: int| 0 <= k <= s.len() - 1 implies suffix_ok(s.skip(1), k) && #[trigger] s.skip(1).skip(k).len() == s.len() - 1 - k by { lemma_suffix(s.skip(1), k); }
    }
    lemma_enc_len(src);
    assert(src.take(src.len() as int) =~= src);
    lemma_bytes(src, src.len() as int);
    reveal_strlit("\n");
    reveal_strlit("*/");
    assert("\n"@ =~= seq!['\n']);
    assert("*/"@ =~= seq!['*', '/']);
    if s.len() > 0 {
        lemma_lead(s.skip(1));
        let r = s.skip(1).skip(lead(s.skip(1)));
        if r.len() >= 2 && r[0] == '*' && r[1] == '/' { assert("*/"@ =~= r.take(2)); }
    }
}
/// C16: the text of a block comment, each line without its leading decoration, and its length after the opening marker; None where it is not closed or nests.
pub open spec fn bdec(s: Seq<char>) -> Option<(Seq<char>, int)>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if s.len() >= 2 && s[0] == '*' && s[1] == '/' { Some((seq![], 2 + lead(s.skip(2)))) }
    else if s.len() >= 2 && s[0] == '/' && s[1] == '*' { None }
    else if s[0] == '\n' {
        let k = 1 + lead(s.skip(1));
        let k2 = if k < s.len() && s[k] == '*' && !(k + 1 < s.len() && s[k + 1] == '/') { k + 1 } else { k };
        if 0 < k2 <= s.len() { cglue(seq!['\n'], k2, bdec(s.skip(k2))) } else { None }
    }
    else { cglue(seq![s[0]], 1, bdec(s.skip(1))) }
}
pub open spec fn cglue(b: Seq<char>, n: int, r: Option<(Seq<char>, int)>) -> Option<(Seq<char>, int)> { match r { Some(x) => Some((b + x.0, n + x.1)), None => None } }
pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' || c as int == 11 || c as int == 12 || c == '\r' }
/// The number of leading blanks.
pub open spec fn lead(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() > 0 && blank(s[0]) { 1 + lead(s.skip(1)) } else { 0 } }
/// Every "\r\n" becomes "\n".
pub open spec fn crlf(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s }
    else if s.len() >= 2 && s[0] == '\r' && s[1] == '\n' { seq!['\n'] + crlf(s.skip(2)) }
    else { seq![s[0]] + crlf(s.skip(1)) }
}
// the text of a comment
pub proof fn lemma_crlf_none(s: Seq<char>)
    requires !has_sub(s, "\r\n"@)
    ensures crlf(s) == s
    decreases s.len()
{
    reveal_strlit("\r\n");
    let p = "\r\n"@;
    if s.len() > 0 {
        if s.len() >= 2 && s[0] == '\r' && s[1] == '\n' { assert(p.len() == 2); assert(s.subrange(0, 0 + p.len() as int) =~= p); assert(sub_at(s, p, 0)); }
        if has_sub(s.skip(1), p) {
            let i = choose|i: int| sub_at(s.skip(1), p, i);
            assert(s.subrange(i + 1, i + 1 + p.len()) =~= s.skip(1).subrange(i, i + p.len()));
            assert(sub_at(s, p, i + 1));
        }
        lemma_crlf_none(s.skip(1));
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
pub open spec fn is_line(s: Seq<char>) -> bool { (s.len() >= 2 && s[0] == '/' && s[1] == '/') || (s.len() >= 1 && s[0] == '#') }
pub open spec fn line_body(s: Seq<char>) -> Seq<char> { if s[0] == '#' { s.skip(1) } else { s.skip(2) } }
pub trait VxTrim { spec fn ttx(&self) -> Seq<char>; fn vx_trim_start_matches<const N: usize>(&self, a: &[char; N]) -> (r: &str) ensures r@.len() <= self.ttx().len(), r@ == self.ttx().skip(self.ttx().len() - r@.len()), (forall|c: char| a@.contains(c) <==> #[trigger] blank(c)) ==> r@ == self.ttx().skip(lead(self.ttx())); }
impl VxTrim for str { open spec fn ttx(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_trim_start_matches<const N: usize>(&self, a: &[char; N]) -> (r: &str) { unimplemented!() } }
pub proof fn lemma_lead(s: Seq<char>)
    ensures 0 <= lead(s) <= s.len(), forall|i: int| 0 <= i < lead(s) ==> blank(#[trigger] s[i]), lead(s) < s.len() ==> !blank(s[lead(s)])
    decreases s.len()
{
    if s.len() > 0 && blank(s[0]) {
        lemma_lead(s.skip(1));
        assert forall|i: int| 0 <= i < lead(s) implies blank(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
    }
}
pub open spec fn m_end(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '*' && s[1] == '/' && forall|i: int| 2 <= i < s.len() ==> blank(#[trigger] s[i]) }
pub open spec fn m_start(s: Seq<char>) -> bool { s.len() == 2 && s[0] == '/' && s[1] == '*' }
pub open spec fn m_nl(s: Seq<char>) -> bool { s.len() == 1 && s[0] == '\n' }
/// How many characters belong to a line break inside a comment.
pub open spec fn nl_len(s: Seq<char>) -> int {
    let k = 1 + lead(s.skip(1));
    if k < s.len() && s[k] == '*' && !(k + 1 < s.len() && s[k + 1] == '/') { k + 1 } else { k }
}
#[verifier::opaque]
pub open spec fn binv(all: Seq<char>, b: Seq<char>, n: int, tail: Seq<char>, clean: bool, bad: bool) -> bool {
    match bdec(all) {
        Some(_) => clean && bdec(all) == cglue(b, n, bdec(tail)),
        None => bad || bdec(tail) is None,
    }
}
#[verifier::opaque]
pub open spec fn bdone(all: Seq<char>, b: Seq<char>, n: int, clean: bool, bad: bool) -> bool {
    match bdec(all) { Some(x) => clean && x.0 == b && x.1 == n, None => bad }
}
#[verifier::opaque]
pub open spec fn nested(all: Seq<char>) -> bool { bdec(all) is None }
/// What one result of the inner lexer means for the loop.
pub open spec fn bturn(src: Seq<char>, b: Seq<char>, n: int, s: Seq<char>, clean: bool, bad: bool, k: int, r: Result<block_comment_Component, ()>) -> bool {
    match r {
        Ok(block_comment_Component::EndComment) => k >= 2 && bdone(src, b, n + k, clean, bad),
        Ok(block_comment_Component::StartComment) => k >= 2 && nested(src),
        Ok(block_comment_Component::Newline) => k == 1 && s[0] == '\n' && 1 <= nl_len(s) <= s.len() && binv(src, b + seq!['\n'], n + nl_len(s), s.skip(nl_len(s)), clean, bad),
        Err(_) => k == 1 && binv(src, b + s.take(1), n + 1, s.skip(1), clean, bad),
    }
}
pub open spec fn bstep_post(s: Seq<char>, n: int, r: Result<block_comment_Component, ()>) -> bool {
    match r {
        Ok(block_comment_Component::EndComment) => n >= 2 && bdec(s) == Some((Seq::<char>::empty(), n)),
        Ok(block_comment_Component::StartComment) => n >= 2 && bdec(s) is None,
        Ok(block_comment_Component::Newline) => n == 1 && s[0] == '\n' && 1 <= nl_len(s) <= s.len() && bdec(s) == cglue(seq!['\n'], nl_len(s), bdec(s.skip(nl_len(s)))),
        Err(_) => n == 1 && bdec(s) == cglue(seq![s[0]], 1, bdec(s.skip(1))),
    }
}
pub proof fn lemma_bstep(s: Seq<char>, n: int, r: Result<block_comment_Component, ()>)
    requires longest::<block_comment_Component>(s, n), <block_comment_Component as VxLogos>::rel(s.take(n), r)
    ensures bstep_post(s, n, r), r is Ok
{
    vxlang_block_comment_Component();
    let t = s.take(n);
    assert(t[0] == s[0]);
    if n >= 2 { assert(t[1] == s[1]); }
    if m_end(t) {
        lemma_lead(s.skip(2));
        let k = 2 + lead(s.skip(2));
        let w = s.take(k);
        assert(m_end(w)) by { assert forall|i: int| 2 <= i < w.len() implies blank(#[trigger] w[i]) by { assert(s.skip(2)[i - 2] == s[i]); } }
        assert(lang_block_comment_Component_EndComment(w));
        if n > k { assert(s.skip(2)[k - 2] == t[k]); }
    } else if m_nl(t) {
        lemma_lead(s.skip(1));
        if bdec(s.skip(nl_len(s))) is Some {}
    }
}
pub proof fn lemma_berr(s: Seq<char>, t: Seq<char>)
    requires nomatch::<block_comment_Component>(s), t.len() > 0, t.len() <= s.len(), t == s.take(t.len() as int), t.len() == 1 || exists|w: Seq<char>| w.len() > 0 && #[trigger] lang_block_comment_Component(t + w)
    ensures bstep_post(s, t.len() as int, Err(()))
{
    vxlang_block_comment_Component();
    let s1 = s.take(1);
    if m_nl(s1) { assert(lang_block_comment_Component_Newline(s1)); }
    if s.len() >= 2 {
        let s2 = s.take(2);
        assert(s2[0] == s[0] && s2[1] == s[1]);
        if m_end(s2) { assert(lang_block_comment_Component_EndComment(s2)); }
        if m_start(s2) { assert(lang_block_comment_Component_StartComment(s2)); }
        if t.len() != 1 {
            let w = choose|w: Seq<char>| w.len() > 0 && #[trigger] lang_block_comment_Component(t + w);
            let u = t + w;
            assert(u[0] == t[0] && u[1] == t[1] && t[0] == s[0] && t[1] == s[1]);
            assert(m_end(u) || m_start(u) || m_nl(u));
        }
    }
}
pub proof fn lemma_cglue(a: Seq<char>, n: int, b: Seq<char>, m: int, r: Option<(Seq<char>, int)>)
    ensures cglue(a, n, cglue(b, m, r)) == cglue(a + b, n + m, r)
{ if r is Some { assert(a + (b + (r->0).0) =~= (a + b) + (r->0).0); } }
pub proof fn lemma_bturn1(src: Seq<char>, b: Seq<char>, n: int, s: Seq<char>, clean: bool, bad: bool, k: int, r: Result<block_comment_Component, ()>)
    requires binv(src, b, n, s, clean, bad), bstep_post(s, k, r), 1 <= k <= s.len()
    ensures bturn(src, b, n, s, clean, bad, k, r)
{
    reveal(binv); reveal(bdone); reveal(nested);
    match r {
        Ok(block_comment_Component::EndComment) => { assert(b + Seq::<char>::empty() =~= b); }
        Ok(block_comment_Component::StartComment) => { }
        Ok(block_comment_Component::Newline) => { lemma_cglue(b, n, seq!['\n'], nl_len(s), bdec(s.skip(nl_len(s)))); }
        Err(_) => { assert(s.take(1) =~= seq![s[0]]); lemma_cglue(b, n, seq![s[0]], 1, bdec(s.skip(1))); }
    }
}
pub proof fn lemma_bturn(src: Seq<char>, b: Seq<char>, n: int, s: Seq<char>, clean: bool, bad: bool)
    requires binv(src, b, n, s, clean, bad)
    ensures
        forall|k: int, r: Result<block_comment_Component, ()>| #![trigger longest::<block_comment_Component>(s, k), <block_comment_Component as VxLogos>::rel(s.take(k), r)] longest::<block_comment_Component>(s, k) && <block_comment_Component as VxLogos>::rel(s.take(k), r) ==> bturn(src, b, n, s, clean, bad, k, r) && r is Ok,
        forall|t: Seq<char>, u: Seq<char>| #[trigger] (t + u) == s && nomatch::<block_comment_Component>(s) && t.len() > 0 && (t.len() == 1 || exists|w: Seq<char>| w.len() > 0 && #[trigger] lang_block_comment_Component(t + w)) ==> bturn(src, b, n, s, clean, bad, t.len() as int, Err(())),
        s.len() == 0 ==> nested(src),
        nested(src) ==> forall|b: Seq<char>, n: int, t: Seq<char>, c: bool| #[trigger] binv(src, b, n, t, c, true),
        nested(src) ==> forall|b: Seq<char>, n: int, c: bool| #[trigger] bdone(src, b, n, c, true),
{
    assert forall|k: int, r: Result<block_comment_Component, ()>| #![trigger longest::<block_comment_Component>(s, k), <block_comment_Component as VxLogos>::rel(s.take(k), r)] longest::<block_comment_Component>(s, k) && <block_comment_Component as VxLogos>::rel(s.take(k), r) implies bturn(src, b, n, s, clean, bad, k, r) && r is Ok by { lemma_bstep(s, k, r); lemma_bturn1(src, b, n, s, clean, bad, k, r); }
    assert forall|t: Seq<char>, u: Seq<char>| #[trigger] (t + u) == s && nomatch::<block_comment_Component>(s) && t.len() > 0 && (t.len() == 1 || exists|w: Seq<char>| w.len() > 0 && #[trigger] lang_block_comment_Component(t + w)) implies bturn(src, b, n, s, clean, bad, t.len() as int, Err(())) by { assert(s.take(t.len() as int) =~= t); lemma_berr(s, t); lemma_bturn1(src, b, n, s, clean, bad, t.len() as int, Err(())); }
    reveal(binv); reveal(bdone); reveal(nested);
    if s.len() == 0 { assert(bdec(s) is None); }
}
pub proof fn lemma_bstart(s: Seq<char>)
    ensures binv(s, Seq::<char>::empty(), 0, s, true, false), binv(s, Seq::<char>::empty(), 0, s, true, true)
{ reveal(binv); let r = bdec(s); if r is Some { assert(Seq::<char>::empty() + (r->0).0 =~= (r->0).0); } }
/// Bytes of a suffix.
pub open spec fn suffix_ok(s: Seq<char>, k: int) -> bool {
    let n = encode_utf8(s.take(k)).len();
    encode_utf8(s).len() == n + encode_utf8(s.skip(k)).len() && isb(s, n as int) && cidx(s, n as int) == k
}
pub proof fn lemma_suffix(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures suffix_ok(s, k)
{
    assert(s.take(k) + s.skip(k) =~= s);
    lemma_enc_concat(s.take(k), s.skip(k));
    lemma_bytes(s, k);
}
// ------------------------------------------------------------ floats (C06)
pub open spec fn digs(s: Seq<char>, a: int, b: int) -> bool { forall|x: int| a <= x < b ==> 48 <= (#[trigger] s[x]) as int <= 57 }
pub open spec fn f64_at(s: Seq<char>, a: int, b: int, c: int) -> bool {
    &&& 0 <= a <= b <= s.len() && digs(s, 0, a)
    &&& if a < b { s[a] == '.' && digs(s, a + 1, b) && (a >= 1 || b >= 2) } else { a >= 1 }
    &&& if b < s.len() { (s[b] == 'e' || s[b] == 'E') && b < c < s.len() && digs(s, c, s.len() as int) && (c == b + 1 || (c == b + 2 && (s[b + 1] == '+' || s[b + 1] == '-'))) } else { true }
}
/// The decimal notation `f64::from_str` takes (without a sign, infinities and NaN).
pub open spec fn f64_text(s: Seq<char>) -> bool { exists|a: int, b: int, c: int| #![trigger vx_cut(a), vx_cut(b), vx_cut(c)] vx_cut(a) && vx_cut(b) && vx_cut(c) && f64_at(s, a, b, c) }
pub uninterp spec fn f64_of(s: Seq<char>) -> f64;
pub open spec fn f_or_F(c: char) -> bool { c == 'f' || c == 'F' }
pub open spec fn float_body(s: Seq<char>) -> Seq<char> { if s.len() > 0 && f_or_F(s.last()) { s.drop_last() } else { s } }
pub open spec fn float_tok(s: Seq<char>) -> bool { s.len() > 0 && is_ascii(s) && f64_text(float_body(s)) }
#[derive(Debug)]
pub struct ParseFloatError { pub k: bool }
pub trait VxParseF64 { spec fn ftx(&self) -> Seq<char>; fn vx_parse_f64(&self) -> (r: Result<f64, ParseFloatError>) ensures f64_text(self.ftx()) ==> r == Ok::<f64, ParseFloatError>(f64_of(self.ftx())) && !f64_isnan(r->Ok_0); }
impl VxParseF64 for str { open spec fn ftx(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse_f64(&self) -> (r: Result<f64, ParseFloatError>) { unimplemented!() } }
@fn lexcb::vx_int [C03,C01]
requires
- old(lex).cbwf() && is_ascii(old(lex).tok())
- old(lex).tok().len() > prefix_len
- 2 <= radix <= 36
- old(lex).tok()[prefix_len as int] != '+'
ensures
- final(lex).at == old(lex).at && final(lex).src == old(lex).src && final(lex).extras.text_format_mode == old(lex).extras.text_format_mode
- final(lex).all == old(lex).all && final(lex).pos == old(lex).pos && final(lex).done == old(lex).done
- [C03] ({ let d = old(lex).tok().skip(prefix_len as int); let r = old(lex).at@.rest; if all_dig(d, radix as int) && val(d, radix as int) <= u64::MAX && !(r.len() > 0 && alpha_(r[0])) { res == Ok::<u64, ()>(val(d, radix as int) as u64) && final(lex).extras.errors@ == old(lex).extras.errors@ } else { final(lex).extras.errors@.len() > old(lex).extras.errors@.len() } })
- res is Ok
@loop 0
invariant
- lex.src == old(lex).src && lex.at == old(lex).at && *lex == *old(lex)
decreases
- encode_utf8(lex.src@).len() - end
@ghost start
 proof { lemma_cut(lex.at@, lex.src@); assert(lex.at@.pre + lex.at@.tok + lex.at@.rest == lex.src@); let d = lex.tok().skip(prefix_len as int); assert(lex.src@.subrange(lex.at@.pre.len() as int + prefix_len, lex.at@.pre.len() as int + lex.tok().len()) =~= d); }
@fn lexcb::vxcb_Token_IntLiteral [C03]
requires
- old(lex).cbwf()
ensures
- [C03] if int_ok(old(lex).tok(), old(lex).at@.rest) { res == Ok::<u64, ()>(val(int_digits(old(lex).tok()), int_base(old(lex).tok())) as u64) && final(lex).extras.errors@ == old(lex).extras.errors@ } else { final(lex).extras.errors@.len() > 0 }
- [C03] final(lex).at == old(lex).at
@fn lexcb::vxlang_string_Component [C07]
ensures
- [C07] forall|s: Seq<char>| #[trigger] lang_string_Component_Unescaped(s) <==> m_unescaped(s)
- [C07] forall|s: Seq<char>| #[trigger] lang_string_Component_Terminator(s) <==> m_term(s)
- [C07] forall|s: Seq<char>| #[trigger] lang_string_Component_Byte(s) <==> m_hexb(s) || m_octb(s) || m_simple(s)
- [C07] forall|s: Seq<char>| #[trigger] lang_string_Component_Char(s) <==> m_uni(s)
@fn lexcb::string_terminator [C07]
requires
- m_term(old(lex).tok())
ensures
- *final(lex) == *old(lex)
- [C07] res == old(lex).tok()[0] as u8
@ghost start
 proof { lemma_comp_ascii(lex.tok()); lemma_ascii_idx(lex.tok()); }
@fn lexcb::string_hex_escape [C07]
requires
- m_hexb(old(lex).tok())
ensures
- *final(lex) == *old(lex)
- [C07] esc_byte(old(lex).tok()) == Some(res)
@ghost start
 proof { let t = lex.tok(); lemma_comp_ascii(t); lemma_ascii_idx(t); assert(all_dig(t.skip(2), 16)) by { assert forall|i: int| 0 <= i < t.skip(2).len() implies dig(#[trigger] t.skip(2)[i]) < 16 by { assert(is_hex(t[i + 2])); } } lemma_val(t.skip(2), 16); }
@fn lexcb::string_oct_escape [C07]
requires
- m_octb(old(lex).tok())
ensures
- *final(lex) == *old(lex)
- [C07] match res { Ok(b) => esc_byte(old(lex).tok()) == Some(b), Err(_) => esc_byte(old(lex).tok()) is None }
@ghost start
 proof { let t = lex.tok(); lemma_comp_ascii(t); lemma_ascii_idx(t); assert(is_oct(t[1])); assert(all_dig(t.skip(1), 8)) by { assert forall|i: int| 0 <= i < t.skip(1).len() implies dig(#[trigger] t.skip(1)[i]) < 8 by { assert(is_oct(t[i + 1])); } } lemma_val(t.skip(1), 8); }
@fn lexcb::string_char_escape [C07]
requires
- m_simple(old(lex).tok())
ensures
- *final(lex) == *old(lex)
- [C07] esc_byte(old(lex).tok()) == Some(res)
@ghost start
 proof { lemma_comp_ascii(lex.tok()); lemma_ascii_idx(lex.tok()); }
@fn lexcb::string_unicode_escape [C07]
requires
- m_uni(old(lex).tok())
ensures
- *final(lex) == *old(lex)
- [C07] match res { Some(c) => scalar(val(old(lex).tok().skip(2), 16)) && c as int == val(old(lex).tok().skip(2), 16), None => !scalar(val(old(lex).tok().skip(2), 16)) }
@ghost start
 proof { let t = lex.tok(); lemma_comp_ascii(t); lemma_ascii_idx(t); assert(all_dig(t.skip(2), 16)) by { assert forall|i: int| 0 <= i < t.skip(2).len() implies dig(#[trigger] t.skip(2)[i]) < 16 by { assert(is_hex(t[i + 2])); } } lemma_val(t.skip(2), 16); }
@def WRAP
requires
- old(lex).cbwf()
ensures
- *final(lex) == *old(lex)
- [C07] rel_string_Component_%1(old(lex).tok(), res)
@ghost start
 proof { let s = lex.tok(); vxlang_string_Component(); reveal(lang_string_Component_%1); assert(lang_string_Component_%1(s)); }
@end
@fn lexcb::vxcb_string_Component_Terminator [C07]
@put WRAP Terminator
@fn lexcb::vxcb_string_Component_Byte [C07]
@put WRAP Byte
@fn lexcb::vxcb_string_Component_Char [C07]
@put WRAP Char
@fn lexcb::cow_push_bytes [C07]
ensures
- [C07] obytes(*final(cow)) == obytes(*old(cow)) + s@
@ghost start
 proof { assert(Seq::<u8>::empty() + s@ =~= s@); }
@fn lexcb::cow_push_str [C16]
ensures
- [C16] ostr(*final(cow)) == ostr(*old(cow)) + s@
@ghost start
 proof { assert(Seq::<char>::empty() + s@ =~= s@); }
@fn lexcb::string [C07,C01]
requires
- old(lex).cbwf() && old(lex).tok().len() == 1 && quote(old(lex).tok()[0])
ensures
- final(lex).src == old(lex).src && final(lex).extras.text_format_mode == old(lex).extras.text_format_mode
- final(lex).all == old(lex).all && final(lex).pos == old(lex).pos && final(lex).done == old(lex).done
- [C07] match sdec(old(lex).at@.rest, old(lex).tok()[0]) { Some(x) => res@ == x.0 && final(lex).extras.errors@ == old(lex).extras.errors@ && final(lex).at@ == old(lex).at@.grow(x.1), None => final(lex).extras.errors@.len() > 0 }
@loop 0
invariant_except_break
- [C07] sinv(old(lex).at@.rest, old(lex).tok()[0], obytes(result), (char_lexer.at@.pre + char_lexer.at@.tok).len() as int, char_lexer.at@.rest, lex.extras.errors@ == old(lex).extras.errors@, lex.extras.errors@.len() > 0)
invariant
- lex.src == old(lex).src && lex.at == old(lex).at && lex.extras.text_format_mode == old(lex).extras.text_format_mode && lex.all == old(lex).all && lex.pos == old(lex).pos && lex.done == old(lex).done
- old(lex).cbwf() && old(lex).tok().len() == 1 && quote(old(lex).tok()[0])
- char_lexer.cbwf() && char_lexer.src@ == old(lex).at@.rest
- lex.at@.end() + encode_utf8(lex.at@.rest).len() <= i32::MAX
- terminator == old(lex).tok()[0] as u8
ensures
- [C07] match sdec(old(lex).at@.rest, old(lex).tok()[0]) { Some(x) => lex.extras.errors@ == old(lex).extras.errors@ && x.0 == obytes(result) && x.1 == (char_lexer.at@.pre + char_lexer.at@.tok).len(), None => lex.extras.errors@.len() > 0 }
decreases
- char_lexer.at@.rest.len()
@ghost start
 proof { lemma_cut(lex.at@, lex.src@); lemma_comp_ascii(lex.tok()); lemma_ascii_idx(lex.tok()); let r = sdec(lex.at@.rest, lex.tok()[0]); if r is Some { assert(Seq::<u8>::empty() + (r->0).0 =~= (r->0).0); } assert(Seq::<char>::empty() + lex.at@.rest =~= lex.at@.rest); assert(Seq::<char>::empty() + Seq::<char>::empty() + lex.at@.rest =~= lex.at@.rest); }
@ghost loop 0 start
 let ghost s = char_lexer.at@.rest;
 proof { lemma_cuts(char_lexer.src@); assert forall|k: int| #![trigger longest::<string_Component>(s, k)] longest::<string_Component>(s, k) implies true by {} lemma_turn(old(lex).at@.rest, old(lex).tok()[0], obytes(result), (char_lexer.at@.pre + char_lexer.at@.tok).len() as int, s, lex.extras.errors@ == old(lex).extras.errors@, lex.extras.errors@.len() > 0); assert forall|a: Seq<char>, b: Seq<char>| #[trigger] (a + b) == s implies s.take(a.len() as int) == a && s.skip(a.len() as int) == b by { assert(s.take(a.len() as int) =~= a); assert(s.skip(a.len() as int) =~= b); } }
@ghost after loop 0
 proof { let k = char_lexer.at@.pre + char_lexer.at@.tok; assert(char_lexer.src@.take(k.len() as int) =~= k); lemma_bytes(char_lexer.src@, k.len() as int); }
@fn lexcb::normalize_newlines [C16]
ensures
- [C16] res@ == crlf(s@)
@ghost start
 proof { if !has_sub(s@, "\r\n"@) { lemma_crlf_none(s@); } }
@fn lexcb::line_comment [C16,C01]
requires
- old(lex).cbwf() && is_line(old(lex).tok())
ensures
- final(lex).src == old(lex).src && final(lex).extras.text_format_mode == old(lex).extras.text_format_mode && final(lex).at == old(lex).at
- final(lex).all == old(lex).all && final(lex).pos == old(lex).pos && final(lex).done == old(lex).done
- [C16] res@ == crlf(line_body(old(lex).tok()))
- [C02] if old(lex).tok()[0] == '#' && !old(lex).extras.text_format_mode { final(lex).extras.errors@.len() > 0 } else { final(lex).extras.errors@ == old(lex).extras.errors@ }
@ghost start
 proof { reveal_strlit("//"); let t = lex.tok(); if t[0] == '/' { assert("//"@ =~= t.subrange(0, 2)); } else if "//"@.is_prefix_of(t) { assert(t.subrange(0, 2)[0] == t[0]); } }
@fn lexcb::vxlang_block_comment_Component [C16]
ensures
- [C16] forall|s: Seq<char>| #[trigger] lang_block_comment_Component_EndComment(s) <==> m_end(s)
- [C16] forall|s: Seq<char>| #[trigger] lang_block_comment_Component_StartComment(s) <==> m_start(s)
- [C16] forall|s: Seq<char>| #[trigger] lang_block_comment_Component_Newline(s) <==> m_nl(s)
@fn lexcb::block_comment [C16,C01]
@attr #[verifier::rlimit(60)]
requires
- old(lex).cbwf()
ensures
- final(lex).src == old(lex).src && final(lex).extras.text_format_mode == old(lex).extras.text_format_mode
- final(lex).all == old(lex).all && final(lex).pos == old(lex).pos && final(lex).done == old(lex).done
- [C16] match bdec(old(lex).at@.rest) { Some(x) => res@ == crlf(x.0) && final(lex).extras.errors@ == old(lex).extras.errors@ && final(lex).at@ == old(lex).at@.grow(x.1), None => final(lex).extras.errors@.len() > 0 }
@loop 0
invariant_except_break
- 1 <= depth <= 1 + (comment_lexer.at@.pre + comment_lexer.at@.tok).len()
- [C16] binv(old(lex).at@.rest, ostr(result), (comment_lexer.at@.pre + comment_lexer.at@.tok).len() as int, comment_lexer.at@.rest, lex.extras.errors@ == old(lex).extras.errors@, lex.extras.errors@.len() > 0)
invariant
- lex.src == old(lex).src && lex.at == old(lex).at && lex.extras.text_format_mode == old(lex).extras.text_format_mode && lex.all == old(lex).all && lex.pos == old(lex).pos && lex.done == old(lex).done
- old(lex).cbwf()
- comment_lexer.cbwf() && comment_lexer.src@ == old(lex).at@.rest
- lex.at@.end() + encode_utf8(lex.at@.rest).len() <= i32::MAX
- depth > 1 ==> lex.extras.errors@.len() > 0 && nested(old(lex).at@.rest)
- last_end matches Some(e) ==> isb(lex.at@.rest, e as int) && lex.extras.errors@.len() > 0 && nested(old(lex).at@.rest)
ensures
- isb(lex.at@.rest, vx_brk_0 as int)
- [C16] bdone(old(lex).at@.rest, ostr(result), cidx(lex.at@.rest, vx_brk_0 as int), lex.extras.errors@ == old(lex).extras.errors@, lex.extras.errors@.len() > 0)
decreases
- comment_lexer.at@.rest.len()
@ghost start
 proof { lemma_cut(lex.at@, lex.src@); lemma_bstart(lex.at@.rest); assert(Seq::<char>::empty() + Seq::<char>::empty() + lex.at@.rest =~= lex.at@.rest); }
@ghost loop 0 start
 let ghost s = comment_lexer.at@.rest;
 proof { lemma_cuts(comment_lexer.src@); lemma_bturn(old(lex).at@.rest, ostr(result), (comment_lexer.at@.pre + comment_lexer.at@.tok).len() as int, s, lex.extras.errors@ == old(lex).extras.errors@, lex.extras.errors@.len() > 0); lemma_bctx(comment_lexer.src@, s); }
@ghost after loop 0
 proof { reveal(bdone); }
@fn lexcb::float [C06,C01]
requires
- old(lex).cbwf() && float_tok(old(lex).tok())
ensures
- final(lex).src == old(lex).src && final(lex).extras.text_format_mode == old(lex).extras.text_format_mode && final(lex).at == old(lex).at
- final(lex).all == old(lex).all && final(lex).pos == old(lex).pos && final(lex).done == old(lex).done
- [C06] res.0 == f64_of(float_body(old(lex).tok()))
- [C02] if f_or_F(old(lex).tok().last()) && !old(lex).extras.text_format_mode { final(lex).extras.errors@.len() > 0 } else { final(lex).extras.errors@ == old(lex).extras.errors@ }
@ghost start
 proof { let t = lex.tok(); lemma_cut(lex.at@, lex.src@); lemma_enc_concat(lex.at@.pre + t, lex.at@.rest); lemma_enc_concat(lex.at@.pre, t); lemma_enc_ascii(t); let p = lex.at@.pre.len() as int; assert(lex.src@.subrange(p, p + t.len() - 1) =~= t.drop_last()); assert(t.drop_last() =~= t.take(t.len() - 1)); }
@fn lexcb::vxcb_Token_FloatLiteral [C06]
requires
- old(lex).cbwf()
ensures
- [C06] res matches Ok(x) && x.0 == f64_of(float_body(old(lex).tok()))
@ghost start
 proof { let t = lex.tok(); let n = t.len() as int; assert(vx_cut(n) && vx_cut(n - 1) && vx_cut(0) && vx_cut(1)); }
@fn lexcb::vxcb_Token_StringLiteral [C07]
requires
- old(lex).cbwf()
ensures
- [C07] old(lex).tok().len() == 1 && quote(old(lex).tok()[0])
- [C07] match sdec(old(lex).at@.rest, old(lex).tok()[0]) { Some(x) => res is Ok && (res->Ok_0)@ == x.0 && final(lex).extras.errors@ == old(lex).extras.errors@ && final(lex).at@ == old(lex).at@.grow(x.1), None => final(lex).extras.errors@.len() > 0 }
@fn lexcb::vxcb_Token_LineComment [C16]
requires
- old(lex).cbwf()
ensures
- [C16] res is Ok && (res->Ok_0)@ == crlf(line_body(old(lex).tok()))
@fn lexcb::vxcb_Token_BlockComment [C16]
requires
- old(lex).cbwf()
ensures
- [C16] match bdec(old(lex).at@.rest) { Some(x) => res is Ok && (res->Ok_0)@ == crlf(x.0) && final(lex).extras.errors@ == old(lex).extras.errors@ && final(lex).at@ == old(lex).at@.grow(x.1), None => final(lex).extras.errors@.len() > 0 }
@fn lexcb::vxlang_Token [C03,C07,C16]
ensures
- [C03] forall|s: Seq<char>| #[trigger] lang_Token_IntLiteral(s) <==> int_text(s)
- [C03] forall|s: Seq<char>| int_text(s) ==> !#[trigger] lang_Token_not_IntLiteral(s)
- [C07] forall|s: Seq<char>| #[trigger] lang_Token_StringLiteral(s) <==> m_term(s)
- [C07] forall|s: Seq<char>| m_term(s) ==> !#[trigger] lang_Token_not_StringLiteral(s)
- [C16] forall|s: Seq<char>| #[trigger] lang_Token_LineComment(s) <==> line_text(s)
- [C16] forall|s: Seq<char>| line_text(s) ==> !#[trigger] lang_Token_not_LineComment(s)
- [C16] forall|s: Seq<char>| #[trigger] lang_Token_BlockComment(s) <==> m_start(s)
- [C16] forall|s: Seq<char>| m_start(s) ==> !#[trigger] lang_Token_not_BlockComment(s)
- [C18] forall|s: Seq<char>| #[trigger] lang_Token_Ident(s) <==> ident_text(s)
- [C18] forall|s: Seq<char>| ident_text(s) ==> !#[trigger] lang_Token_not_Ident(s)
@ghost start
 assert forall|s: Seq<char>| line_text(s) implies #[trigger] lang_Token_LineComment(s) by { let n = s.len() as int; assert(vx_cut(n)); assert(vx_cut(n - 1)); }

@use
use crate::vx::Span;
use crate::root::*;
use crate::prost_types::field_descriptor_proto;
use vstd::utf8::*;
use vstd::string::*;
use core::ops::Range;
@items
impl Int {
    pub open spec fn val(&self) -> int { if self.negative { -(self.value as int) } else { self.value as int } }
}
// ------------------------------------------------------------ spans
pub open spec fn full_ident_ok(f: FullIdent) -> bool { f.parts@.len() > 0 }
pub open spec fn type_name_ok(t: TypeName) -> bool { full_ident_ok(t.name) }
pub open spec fn full_ident_span(f: FullIdent) -> Span { Range { start: f.parts@[0].span.start, end: f.parts@.last().span.end } }
pub open spec fn type_name_span(t: TypeName) -> Span {
    match t.leading_dot {
        std::option::Option::Some(d) => Range { start: d.start, end: full_ident_span(t.name).end },
        std::option::Option::None => full_ident_span(t.name),
    }
}
pub open spec fn part_span(p: OptionNamePart) -> Span { match p { OptionNamePart::Ident(i) => i.span, OptionNamePart::Extension(_, s) => s } }
pub open spec fn value_span(v: OptionValue) -> Span {
    match v {
        OptionValue::Ident { span, .. } => span, OptionValue::Int(i) => i.span, OptionValue::Float(f) => f.span,
        OptionValue::String(s) => s.span, OptionValue::Aggregate(_, s) => s,
    }
}
pub open spec fn part_ok(p: OptionNamePart) -> bool { match p { OptionNamePart::Ident(_) => true, OptionNamePart::Extension(t, _) => type_name_ok(t) } }
pub open spec fn option_ok(o: OptionBody) -> bool { o.name@.len() > 0 && forall|i: int| 0 <= i < o.name@.len() ==> part_ok(#[trigger] o.name@[i]) }
pub open spec fn option_span(o: OptionBody) -> Span { Range { start: part_span(o.name@[0]).start, end: value_span(o.value).end } }
pub open spec fn range_start_span(r: ReservedRange) -> Span { r.start.span }
pub open spec fn range_end_span(r: ReservedRange) -> Span {
    match r.end { ReservedRangeEnd::None => r.start.span, ReservedRangeEnd::Int(i) => i.span, ReservedRangeEnd::Max(s) => s }
}
pub open spec fn range_span(r: ReservedRange) -> Span { Range { start: r.start.span.start, end: range_end_span(r).end } }

// ------------------------------------------------------------ text
/// The parts of a dotted name joined with dots.
pub open spec fn join_dots(parts: Seq<Ident>, k: nat) -> Seq<char>
    decreases k
{
    if k == 0 { seq![] } else if k == 1 { parts[0].value@ } else { join_dots(parts, (k - 1) as nat) + "."@ + parts[k - 1].value@ }
}
pub open spec fn full_ident_text(f: FullIdent) -> Seq<char> { join_dots(f.parts@, f.parts@.len()) }
pub open spec fn type_name_text(t: TypeName) -> Seq<char> {
    if t.leading_dot is Some { "."@ + full_ident_text(t.name) } else { full_ident_text(t.name) }
}
pub open spec fn int_text(i: Int) -> Seq<char> { if i.negative { "-"@ + dec_int(i.value as int) } else { dec_int(i.value as int) } }
pub open spec fn float_text(f: Float) -> Seq<char> { if f64_integral(f.value) { f64_disp1(f.value) } else { f64_disp(f.value) } }
/// How one byte of a bytes default is written.
pub open spec fn esc(b: u8) -> Seq<char> {
    if b == 9 { "\\t"@ } else if b == 13 { "\\r"@ } else if b == 10 { "\\n"@ } else if b == 92 { "\\\\"@ } else if b == 39 { "\\'"@ }
    else if b == 34 { "\\\""@ } else if 32 <= b <= 126 { seq![b as char] } else { "\\"@ + oct3(b as nat) }
}
pub open spec fn esc_all(b: Seq<u8>) -> Seq<char>
    decreases b.len()
{
    if b.len() == 0 { seq![] } else { esc_all(b.drop_last()) + esc(b.last()) }
}
pub open spec fn string_text(s: String) -> Seq<char> { esc_all(s.value@) }
pub open spec fn value_text(v: OptionValue) -> Seq<char> {
    match v {
        OptionValue::Ident { negative, ident, .. } => if negative { "-"@ + ident.value@ } else { ident.value@ },
        OptionValue::Int(i) => int_text(i), OptionValue::Float(f) => float_text(f),
        OptionValue::String(s) => string_text(s), OptionValue::Aggregate(m, _) => m@,
    }
}
pub open spec fn syntax_text(s: Syntax) -> Seq<char> { match s { Syntax::Proto2 => "proto2"@, Syntax::Proto3 => "proto3"@ } }

macro_rules! vx_display { ($t:ty, $ok:ident, $text:ident) => { verus! {
impl VxDisplay for $t {
    open spec fn disp(&self) -> Seq<char> { $text(*self) }
    open spec fn disp_ok(&self) -> bool { $ok(*self) }
    fn vx_to_string(&self) -> (r: std::string::String) {
        let mut f = Formatter { out: std::string::String::new() };
        let _ = self.vx_fmt(&mut f);
        proof { assert(f.out@ =~= $text(*self)); assert(f.out@ == $text(*self)); }
        f.out
    }
}
} } }
impl VxInto<FullIdent> for Vec<Ident> {
    open spec fn into_rel(self, r: FullIdent) -> bool { r.parts@ == self@ }
    open spec fn into_ok(self) -> bool { self@.len() > 0 }
    fn vx_into(self) -> (r: FullIdent) { from_VecIdent_for_FullIdent(self) }
}
pub open spec fn any_syntax(s: Syntax) -> bool { true }
pub open spec fn any_int(s: Int) -> bool { true }
pub open spec fn any_float(s: Float) -> bool { true }
pub open spec fn any_string(s: String) -> bool { true }
pub open spec fn any_value(s: OptionValue) -> bool { true }
pub open spec fn any_ident(s: Ident) -> bool { true }
pub open spec fn ident_text(s: Ident) -> Seq<char> { s.value@ }
vx_display!(Syntax, any_syntax, syntax_text);
vx_display!(Ident, any_ident, ident_text);
vx_display!(FullIdent, full_ident_ok, full_ident_text);
vx_display!(TypeName, type_name_ok, type_name_text);
vx_display!(OptionValue, any_value, value_text);
vx_display!(Int, any_int, int_text);
vx_display!(Float, any_float, float_text);
vx_display!(String, any_string, string_text);

// ------------------------------------------------------------ C08: the escaping is printable and reversible
pub open spec fn printable(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> 32 <= #[trigger] s[i] as int <= 126 }
pub open spec fn octd(c: char) -> int { c as int - 48 }
/// Undo C-style escapes: simple ones and exactly three octal digits.
pub open spec fn unesc(s: Seq<char>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { seq![] }
    else if s[0] != '\\' || s.len() < 2 { seq![s[0] as u8] + unesc(s.skip(1)) }
    else if s[1] == 't' { seq![9u8] + unesc(s.skip(2)) }
    else if s[1] == 'r' { seq![13u8] + unesc(s.skip(2)) }
    else if s[1] == 'n' { seq![10u8] + unesc(s.skip(2)) }
    else if s[1] == '\\' || s[1] == '\'' || s[1] == '"' { seq![s[1] as u8] + unesc(s.skip(2)) }
    else if s.len() >= 4 { seq![(octd(s[1]) * 64 + octd(s[2]) * 8 + octd(s[3])) as u8] + unesc(s.skip(4)) }
    else { seq![] }
}
pub proof fn lemma_lits()
    ensures "\\t"@ == seq!['\\', 't'], "\\r"@ == seq!['\\', 'r'], "\\n"@ == seq!['\\', 'n'], "\\\\"@ == seq!['\\', '\\'],
        "\\'"@ == seq!['\\', '\''], "\\\""@ == seq!['\\', '"'], "\\"@ == seq!['\\'],
{
    reveal_strlit("\\t"); reveal_strlit("\\r"); reveal_strlit("\\n"); reveal_strlit("\\\\"); reveal_strlit("\\'"); reveal_strlit("\\\""); reveal_strlit("\\");
    assert("\\t"@ =~= seq!['\\', 't']); assert("\\r"@ =~= seq!['\\', 'r']); assert("\\n"@ =~= seq!['\\', 'n']);
    assert("\\\\"@ =~= seq!['\\', '\\']); assert("\\'"@ =~= seq!['\\', '\'']); assert("\\\""@ =~= seq!['\\', '"']); assert("\\"@ =~= seq!['\\']);
}
pub proof fn lemma_esc_first(b: u8, rest: Seq<char>)
    ensures unesc(esc(b) + rest) == seq![b] + unesc(rest), printable(esc(b)), esc(b).len() > 0
{
    lemma_lits();
    let s = esc(b) + rest;
    if b == 9 || b == 13 || b == 10 || b == 92 || b == 39 || b == 34 {
        assert(s.skip(2) =~= rest);
    } else if 32 <= b <= 126 {
        assert(s.skip(1) =~= rest);
        assert(s[0] == b as char);
        assert((b as char) as u8 == b);
    } else {
        assert(esc(b) =~= seq!['\\', digit_char(b as nat / 64), digit_char((b as nat / 8) % 8), digit_char(b as nat % 8)]);
        assert(s.skip(4) =~= rest);
        assert(s[1] == digit_char(b as nat / 64) && s[2] == digit_char((b as nat / 8) % 8) && s[3] == digit_char(b as nat % 8));
        assert(48 <= s[1] as int <= 55 && 48 <= s[2] as int <= 55 && 48 <= s[3] as int <= 55);
        assert(octd(s[1]) * 64 + octd(s[2]) * 8 + octd(s[3]) == b as int) by {
            assert((b as int / 64) * 64 + ((b as int / 8) % 8) * 8 + b as int % 8 == b as int);
        }
    }
}
/// Undoing the escapes of the whole text gives back the bytes, whatever they are and whatever follows.
pub proof fn lemma_esc_roundtrip(b: Seq<u8>, rest: Seq<char>)
    ensures unesc(esc_all(b) + rest) == b + unesc(rest), printable(esc_all(b))
    decreases b.len()
{
    if b.len() == 0 {
        assert(esc_all(b) + rest =~= rest);
        assert(b + unesc(rest) =~= unesc(rest));
    } else {
        lemma_esc_first(b.last(), rest);
        lemma_esc_roundtrip(b.drop_last(), esc(b.last()) + rest);
        assert(esc_all(b) + rest =~= esc_all(b.drop_last()) + (esc(b.last()) + rest));
        assert(b + unesc(rest) =~= b.drop_last() + (seq![b.last()] + unesc(rest)));
    }
}
/// The type numbers of descriptor.proto.
pub open spec fn ty_number(t: Ty) -> int {
    match t {
        Ty::Double => 1, Ty::Float => 2, Ty::Int64 => 3, Ty::Uint64 => 4, Ty::Int32 => 5, Ty::Fixed64 => 6, Ty::Fixed32 => 7, Ty::Bool => 8,
        Ty::String => 9, Ty::Bytes => 12, Ty::Uint32 => 13, Ty::Sfixed32 => 15, Ty::Sfixed64 => 16, Ty::Sint32 => 17, Ty::Sint64 => 18,
        Ty::Named(_) => 0,
    }
}
pub open spec fn type_number(t: field_descriptor_proto::Type) -> int {
    match t {
        field_descriptor_proto::Type::Double => 1, field_descriptor_proto::Type::Float => 2, field_descriptor_proto::Type::Int64 => 3,
        field_descriptor_proto::Type::Uint64 => 4, field_descriptor_proto::Type::Int32 => 5, field_descriptor_proto::Type::Fixed64 => 6,
        field_descriptor_proto::Type::Fixed32 => 7, field_descriptor_proto::Type::Bool => 8, field_descriptor_proto::Type::String => 9,
        field_descriptor_proto::Type::Group => 10, field_descriptor_proto::Type::Message => 11, field_descriptor_proto::Type::Bytes => 12,
        field_descriptor_proto::Type::Uint32 => 13, field_descriptor_proto::Type::Enum => 14, field_descriptor_proto::Type::Sfixed32 => 15,
        field_descriptor_proto::Type::Sfixed64 => 16, field_descriptor_proto::Type::Sint32 => 17, field_descriptor_proto::Type::Sint64 => 18,
    }
}
/// The value an option has as a number, for a floating-point default.
pub open spec fn value_f64(v: OptionValue) -> std::option::Option<f64> {
    match v {
        OptionValue::Ident { negative, ident, .. } =>
            if ident.value@ == "nan"@ { Some(if negative { f64_neg(f64_nan()) } else { f64_nan() }) }
            else if ident.value@ == "inf"@ { Some(if negative { f64_neg(f64_inf()) } else { f64_inf() }) }
            else { None },
        OptionValue::Int(i) => Some(if i.negative { f64_neg(f64_of_u64(i.value)) } else { f64_of_u64(i.value) }),
        OptionValue::Float(f) => Some(f.value),
        _ => None,
    }
}
pub open spec fn value_bool(v: OptionValue) -> std::option::Option<bool> {
    match v {
        OptionValue::Ident { negative, ident, .. } =>
            if negative { None } else if ident.value@ == "false"@ { Some(false) } else if ident.value@ == "true"@ { Some(true) } else { None },
        _ => None,
    }
}
pub open spec fn has_name_spec(o: OptionBody, name: Seq<char>) -> bool {
    o.name@.len() == 1 && o.name@[0] is Ident && o.name@[0]->Ident_0.value@ == name
}
@fn ast::Int::as_i32 [C04,C05,C06]
ensures
- [C04,C05,C06] res == (if i32::MIN <= self.val() <= i32::MAX { std::option::Option::Some(self.val() as i32) } else { None })
@fn ast::Int::as_i64 [C06,C17]
ensures
- [C06,C17] res == (if i64::MIN <= self.val() <= i64::MAX { std::option::Option::Some(self.val() as i64) } else { None })
@fn ast::Int::as_u32 [C06]
ensures
- [C06] res == (if !self.negative && self.value <= u32::MAX { std::option::Option::Some(self.value as u32) } else { None })
@fn ast::Int::as_u64 [C06]
ensures
- [C06] res == (if !self.negative { std::option::Option::Some(self.value) } else { None })
@fn ast::String::into_utf8 [C07]
ensures
- [C07] match res { Ok((s, sp)) => valid_utf8(self.value@) && encode_utf8(s@) == self.value@ && sp == self.span, Err(e) => !valid_utf8(self.value@) && e.value@ == self.value@ && e.span == self.span }
@fn ast::Ident::new [C18]
requires
- [C01] value.into_ok()
ensures
- [C18] value.into_rel(res.value)
- [C09] res.span == span
@fn ast::FullIdent::span [C09,C10]
requires
- [C01] full_ident_ok(*self)
ensures
- [C09,C10] res == full_ident_span(*self)
@fn ast::TypeName::span [C09,C10]
requires
- [C01] type_name_ok(*self)
ensures
- [C09,C10] res == type_name_span(*self)
@fn ast::Ty::proto_ty [C06,C14,C18]
ensures
- [C06,C14,C18] match res { Some(t) => type_number(t) == ty_number(*self) && !(self is Named), None => self is Named }
@fn ast::Ty::ty_name [C14,C18]
ensures
- [C14,C18] match res { Some(n) => self is Named && n@ == type_name_text(self->Named_0), None => !(self is Named) }
requires
- [C01] self is Named ==> type_name_ok(self->Named_0)
@fn ast::OptionNamePart::span [C09,C10]
ensures
- [C09,C10] res == part_span(*self)
@fn ast::OptionBody::has_name [C06,C17,C05]
ensures
- [C06,C17,C05] res == has_name_spec(*self, name@)
@fn ast::OptionBody::name_span [C09,C10]
requires
- [C01] self.name@.len() > 0
ensures
- [C09,C10] res.start == part_span(self.name@[0]).start && res.end == part_span(self.name@.last()).end
@fn ast::OptionBody::span [C09,C10]
requires
- [C01] self.name@.len() > 0
ensures
- [C09,C10] res == option_span(*self)
@fn ast::OptionValue::span [C09,C10]
ensures
- [C09,C10] res == value_span(*self)
@fn ast::OptionValue::to_token_string [C06]
ensures
- [C06] res@ == (if self is String { "\""@ + value_text(*self) + "\""@ } else { value_text(*self) })
@fn ast::OptionValue::as_f64 [C06]
@opt floatneg
ensures
- [C06] res == value_f64(*self)
@fn ast::OptionValue::as_bool [C05,C06]
ensures
- [C05,C06] res == value_bool(*self)
@fn ast::ReservedRange::start_span [C09,C10]
ensures
- [C09,C10] res == range_start_span(*self)
@fn ast::ReservedRange::end_span [C09,C10]
ensures
- [C09,C10] res == range_end_span(*self)
@fn ast::ReservedRange::span [C09,C10]
ensures
- [C09,C10] res == range_span(*self)
@fn ast::from_Ident_for_FullIdent [C18]
ensures
- [C18] res.parts@ == seq![part]
@fn ast::from_VecIdent_for_FullIdent [C18]
requires
- [C01] parts@.len() > 0
ensures
- [C18] res.parts@ == parts@
@fn ast::Syntax::vx_fmt [C19]
ensures
- [C19] final(f).buf() =~= old(f).buf() + syntax_text(*self)
@fn ast::Ident::vx_fmt [C17,C18]
ensures
- [C17,C18] final(f).buf() =~= old(f).buf() + self.value@
@fn ast::FullIdent::vx_fmt [C18,C19]
requires
- [C01] full_ident_ok(*self)
ensures
- [C17,C18,C19] final(f).buf() =~= old(f).buf() + full_ident_text(*self)
@loop 0
invariant
- full_ident_ok(*self)
- it0.seq().len() == self.parts@.len() - 1
- forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.parts@[i + 1]
- f.buf() =~= old(f).buf() + join_dots(self.parts@, (it0.index() + 1) as nat)
@fn ast::TypeName::vx_fmt [C18]
requires
- [C01] type_name_ok(*self)
ensures
- [C17,C18] final(f).buf() =~= old(f).buf() + type_name_text(*self)
@fn ast::OptionValue::vx_fmt [C06]
ensures
- [C06] final(f).buf() =~= old(f).buf() + value_text(*self)
@fn ast::Int::vx_fmt [C06]
ensures
- [C06] final(f).buf() =~= old(f).buf() + int_text(*self)
@fn ast::Float::vx_fmt [C06]
ensures
- [C06] final(f).buf() =~= old(f).buf() + float_text(*self)
@fn ast::String::vx_fmt [C08]
ensures
- [C08,C06] final(f).buf() =~= old(f).buf() + string_text(*self)
@loop 0
invariant
- [C08,C06] f.buf() =~= old(f).buf() + esc_all(self.value@.take(it0.index() as int))
- it0.seq().len() == self.value@.len()
- forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.value@[i]
@ghost loop 0 start
 proof { assert(self.value@.take(it0.index() as int + 1).drop_last() =~= self.value@.take(it0.index() as int)); }
@ghost after loop 0
 proof { assert(self.value@.take(self.value@.len() as int) =~= self.value@); lemma_esc_roundtrip(self.value@, seq![]); }

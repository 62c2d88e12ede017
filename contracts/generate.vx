@use
use crate::vx::Span;
use crate::root::*;
use crate::prost_types::*;
use crate::prost_types::source_code_info::Location;
use crate::ast;
use crate::ast::{Int, Ident, FullIdent, TypeName, OptionBody, OptionList, OptionValue, OptionNamePart, Field, FieldKind, FieldLabel, Ty, Message, MessageBody, MessageItem, Oneof, Extend, Reserved, ReservedKind, ReservedRange, ReservedRangeEnd, Extensions, Enum, EnumValue, Service, Method, Comments, Syntax, FileItem, Import, ImportKind, Package};
use crate::ast::{full_ident_ok, type_name_ok, option_ok, part_ok, full_ident_span, type_name_span, part_span, value_span, option_span, range_start_span, range_end_span, range_span, full_ident_text, type_name_text, value_text, string_text, syntax_text, ty_number, type_number, value_f64, value_bool, has_name_spec};
use crate::case::{to_pascal_case, pascal};
use crate::error::ParseErrorKind;
use crate::tag;
use crate::lines::{LineResolver, ints, span_vec};
use vstd::multiset::*;
use vstd::utf8::*;
use vstd::string::*;
@items
// ------------------------------------------------------------ locations
/// A source location as mathematical values.
pub struct LocV { pub path: Seq<i32>, pub span: Seq<int>, pub lead: Option<Seq<char>>, pub trail: Option<Seq<char>>, pub det: Seq<Seq<char>> }
pub type Locs = Multiset<LocV>;
pub open spec fn text_opt(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn loc_view(l: Location) -> LocV {
    LocV { path: l.path@, span: ints(l.span@), lead: text_opt(l.leading_comments), trail: text_opt(l.trailing_comments), det: texts(l.leading_detached_comments@) }
}
pub open spec fn locs_of(s: Seq<Location>) -> Locs { Seq::new(s.len(), |i: int| loc_view(s[i])).to_multiset() }
pub broadcast proof fn lemma_locs_push(s: Seq<Location>, l: Location)
    ensures #[trigger] locs_of(s.push(l)) == locs_of(s).insert(loc_view(l))
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let a = Seq::new(s.len(), |i: int| loc_view(s[i]));
    let b = Seq::new(s.push(l).len(), |i: int| loc_view(s.push(l)[i]));
    assert(b =~= a.push(loc_view(l)));
}
pub open spec fn lr_span(lr: LineResolver, s: Span) -> Seq<int> { span_vec(lr.src(), s.start as int, s.end as int) }
/// A location without comments, and one with the comments of its element.
pub open spec fn lp(lr: LineResolver, p: Seq<i32>, s: Span) -> LocV { LocV { path: p, span: lr_span(lr, s), lead: None, trail: None, det: Seq::empty() } }
pub open spec fn lc(lr: LineResolver, p: Seq<i32>, s: Span, c: Comments) -> LocV {
    LocV { path: p, span: lr_span(lr, s), lead: text_opt(c.leading_comment), trail: text_opt(c.trailing_comment), det: texts(c.leading_detached_comments@) }
}
pub open spec fn none() -> Locs { Multiset::empty() }
impl Context {
    pub open spec fn locs(&self) -> Locs { locs_of(self.locations@) }
}
/// What describing an element leaves alone.
pub open spec fn frame(a: Context, b: Context) -> bool { b.syntax == a.syntax && b.lines == a.lines && b.errors@.len() >= a.errors@.len() }
pub open spec fn same_errs(a: Context, b: Context) -> bool { b.errors@.len() == a.errors@.len() }
pub open spec fn same_locs(a: Context, b: Context) -> bool { b.locs() == a.locs() }

// ------------------------------------------------------------ what the parser guarantees about spans and sizes
pub open spec fn sp(s: Span) -> bool { s.start <= i32::MAX && s.end <= i32::MAX }
pub open spec fn few(n: int) -> bool { n <= i32::MAX }
pub open spec fn ok_fi(f: FullIdent) -> bool { full_ident_ok(f) && forall|i: int| 0 <= i < f.parts@.len() ==> sp((#[trigger] f.parts@[i]).span) }
pub open spec fn ok_tn(t: TypeName) -> bool { ok_fi(t.name) && (t.leading_dot is Some ==> sp(t.leading_dot->0)) }
pub open spec fn ok_ob(o: OptionBody) -> bool { option_ok(o) && (forall|i: int| 0 <= i < o.name@.len() ==> sp(part_span(#[trigger] o.name@[i]))) && sp(value_span(o.value)) }
pub open spec fn ok_opts(s: Seq<ast::Option>) -> bool { few(s.len() as int) && forall|i: int| 0 <= i < s.len() ==> ok_ob((#[trigger] s[i]).body) && sp(s[i].span) }
pub open spec fn ok_obs(s: Seq<OptionBody>) -> bool { few(s.len() as int) && forall|i: int| 0 <= i < s.len() ==> ok_ob(#[trigger] s[i]) }
pub open spec fn ok_olist(o: Option<OptionList>) -> bool { match o { Some(l) => sp(l.span) && ok_obs(l.options@), None => true } }
pub open spec fn ok_range(r: ReservedRange) -> bool { sp(r.start.span) && match r.end { ReservedRangeEnd::None => true, ReservedRangeEnd::Int(i) => sp(i.span), ReservedRangeEnd::Max(s) => sp(s) } }

// ------------------------------------------------------------ options
pub open spec fn legal_value(v: OptionValue) -> bool {
    match v { OptionValue::Ident { negative, .. } => !negative, OptionValue::Int(i) => i.val() >= i64::MIN, _ => true }
}
pub open spec fn part_rel(p: OptionNamePart, n: uninterpreted_option::NamePart) -> bool {
    match p {
        OptionNamePart::Ident(i) => n.name_part@ == i.value@ && !n.is_extension,
        OptionNamePart::Extension(t, _) => n.name_part@ == type_name_text(t) && n.is_extension,
    }
}
pub open spec fn name_rel(a: Seq<OptionNamePart>, b: Seq<uninterpreted_option::NamePart>) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> part_rel(a[i], #[trigger] b[i])
}
/// The value is stored as what it was written as, and as nothing else.
pub open spec fn value_rel(v: OptionValue, u: UninterpretedOption) -> bool {
    &&& (match v { OptionValue::Ident { ident, .. } => u.identifier_value is Some && u.identifier_value->0@ == ident.value@, _ => u.identifier_value is None })
    &&& (match v { OptionValue::Int(i) => if i.negative { u.negative_int_value == Some(i.val() as i64) && u.positive_int_value is None } else { u.positive_int_value == Some(i.value) && u.negative_int_value is None }, _ => u.positive_int_value is None && u.negative_int_value is None })
    &&& (match v { OptionValue::Float(f) => u.double_value == Some(f.value), _ => u.double_value is None })
    &&& (match v { OptionValue::String(s) => u.string_value is Some && u.string_value->0@ == s.value@, _ => u.string_value is None })
    &&& (match v { OptionValue::Aggregate(m, _) => u.aggregate_value is Some && u.aggregate_value->0@ == m@, _ => u.aggregate_value is None })
}
pub open spec fn uo_rel(o: OptionBody, u: UninterpretedOption) -> bool { name_rel(o.name@, u.name@) && value_rel(o.value, u) }
pub open spec fn bodies(s: Seq<ast::Option>) -> Seq<OptionBody> { Seq::new(s.len(), |i: int| s[i].body) }
pub open spec fn legal_obs(s: Seq<OptionBody>, k: int) -> bool { forall|i: int| 0 <= i < k ==> legal_value((#[trigger] s[i]).value) }
pub open spec fn uos_rel(s: Seq<OptionBody>, u: Seq<UninterpretedOption>) -> bool { u.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> uo_rel(s[i], #[trigger] u[i]) }
/// All options, in order; absent when there are none.
pub open spec fn uopts_rel(s: Seq<OptionBody>, r: Option<Vec<UninterpretedOption>>) -> bool {
    match r { None => s.len() == 0, Some(v) => s.len() > 0 && uos_rel(s, v@) }
}
pub open spec fn locs_opts(lr: LineResolver, p: Seq<i32>, s: Seq<ast::Option>, k: int) -> Locs
    decreases k
{
    if k <= 0 { none() } else {
        locs_opts(lr, p, s, k - 1).insert(lp(lr, p, s[k - 1].span)).insert(lc(lr, p + seq![999i32, (k - 1) as i32], s[k - 1].span, s[k - 1].comments))
    }
}
pub open spec fn locs_obs(lr: LineResolver, p: Seq<i32>, s: Seq<OptionBody>, k: int) -> Locs
    decreases k
{
    if k <= 0 { none() } else { locs_obs(lr, p, s, k - 1).insert(lp(lr, p + seq![999i32, (k - 1) as i32], option_span(s[k - 1]))) }
}
pub open spec fn ol_seq(o: Option<OptionList>) -> Seq<OptionBody> { match o { Some(l) => l.options@, None => Seq::empty() } }
pub open spec fn ol_span(o: Option<OptionList>) -> Option<Span> { match o { Some(l) => Some(l.span), None => None } }
pub open spec fn locs_olist(lr: LineResolver, p: Seq<i32>, sn: Option<Span>, s: Seq<OptionBody>) -> Locs {
    match sn { Some(x) => locs_obs(lr, p, s, s.len() as int).insert(lp(lr, p, x)), None => none() }
}
/// The first option named `name`, which is taken out, and the rest.
pub open spec fn first_named(s: Seq<OptionBody>, name: Seq<char>) -> Option<int>
    decreases s.len()
{
    if s.len() == 0 { None } else {
        match first_named(s.drop_last(), name) { Some(i) => Some(i), None => if has_name_spec(s.last(), name) { Some(s.len() - 1) } else { None } }
    }
}
pub proof fn lemma_first_named(s: Seq<OptionBody>, name: Seq<char>)
    ensures match first_named(s, name) {
        Some(i) => 0 <= i < s.len() && has_name_spec(s[i], name) && forall|j: int| 0 <= j < i ==> !has_name_spec(#[trigger] s[j], name),
        None => forall|j: int| 0 <= j < s.len() ==> !has_name_spec(#[trigger] s[j], name),
    }
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first_named(s.drop_last(), name);
        assert forall|j: int| 0 <= j < s.len() - 1 implies #[trigger] s[j] == s.drop_last()[j] by {}
    }
}
pub open spec fn taken(o: Option<OptionList>, name: Seq<char>) -> Option<OptionBody> {
    match first_named(ol_seq(o), name) { Some(i) => Some(ol_seq(o)[i]), None => None }
}
pub open spec fn rest(s: Seq<OptionBody>, name: Seq<char>) -> Seq<OptionBody> {
    match first_named(s, name) { Some(i) => s.remove(i), None => s }
}

// ------------------------------------------------------------ numbers and ranges
pub open spec fn msg_num_ok(i: Int) -> bool { 1 <= i.val() <= 536870911 }
pub open spec fn enum_num_ok(i: Int) -> bool { -2147483648 <= i.val() <= 2147483647 }
pub open spec fn range_max(ms: bool) -> int { if ms { 2147483647 } else { 536870912 } }
pub open spec fn msg_range_ok(r: ReservedRange) -> bool { msg_num_ok(r.start) && (r.end is Int ==> msg_num_ok(r.end->Int_0)) }
pub open spec fn msg_range_rel(r: ReservedRange, ms: bool, start: Option<i32>, end: Option<i32>) -> bool {
    start is Some && end is Some && start->0 as int == r.start.val()
    && end->0 as int == (match r.end { ReservedRangeEnd::None => r.start.val() + 1, ReservedRangeEnd::Int(i) => i.val() + 1, ReservedRangeEnd::Max(_) => range_max(ms) })
}
pub open spec fn enum_range_ok(r: ReservedRange) -> bool { enum_num_ok(r.start) && (r.end is Int ==> enum_num_ok(r.end->Int_0)) }
pub open spec fn enum_range_rel(r: ReservedRange, start: Option<i32>, end: Option<i32>) -> bool {
    start is Some && end is Some && start->0 as int == r.start.val()
    && end->0 as int == (match r.end { ReservedRangeEnd::None => r.start.val(), ReservedRangeEnd::Int(i) => i.val(), ReservedRangeEnd::Max(_) => 2147483647 })
}
pub open spec fn locs_range(lr: LineResolver, p: Seq<i32>, r: ReservedRange) -> Locs {
    none().insert(lp(lr, p, range_span(r))).insert(lp(lr, p + seq![1i32], range_start_span(r))).insert(lp(lr, p + seq![2i32], range_end_span(r)))
}

// ------------------------------------------------------------ labels and defaults
pub open spec fn label_number(l: FieldLabel) -> int { match l { FieldLabel::Optional => 1, FieldLabel::Required => 2, FieldLabel::Repeated => 3 } }
pub open spec fn proto_label_number(l: field_descriptor_proto::Label) -> int {
    match l { field_descriptor_proto::Label::Optional => 1, field_descriptor_proto::Label::Required => 2, field_descriptor_proto::Label::Repeated => 3 }
}
pub open spec fn legal_label(sx: Syntax, sc: FieldScope, l: Option<(FieldLabel, Span)>) -> bool {
    match l {
        None => !(sx is Proto2) || sc is Oneof,
        Some((FieldLabel::Required, _)) => sc is Message && sx is Proto2,
        Some(_) => !(sc is Oneof),
    }
}
pub open spec fn written_label(l: Option<(FieldLabel, Span)>) -> int { match l { None => 1, Some((x, _)) => label_number(x) } }
pub open spec fn int_fits(ty: int, v: int) -> bool {
    if ty == 3 || ty == 16 || ty == 18 { i64::MIN <= v <= i64::MAX }
    else if ty == 5 || ty == 15 || ty == 17 { i32::MIN <= v <= i32::MAX }
    else if ty == 4 || ty == 6 { 0 <= v <= u64::MAX }
    else { 0 <= v <= u32::MAX }
}
pub open spec fn is_int_ty(ty: int) -> bool { ty == 3 || ty == 16 || ty == 18 || ty == 5 || ty == 15 || ty == 17 || ty == 4 || ty == 6 || ty == 13 || ty == 7 }
/// `-0` is not an unsigned literal.
pub open spec fn signed_ty(ty: int) -> bool { ty == 3 || ty == 16 || ty == 18 || ty == 5 || ty == 15 || ty == 17 }
pub open spec fn default_legal(ty: int, v: OptionValue) -> bool {
    if ty == 1 || ty == 2 { value_f64(v) is Some }
    else if is_int_ty(ty) { v is Int && int_fits(ty, v->Int_0.val()) && (signed_ty(ty) || !v->Int_0.negative) }
    else if ty == 8 { value_bool(v) is Some }
    else if ty == 9 { v is String && valid_utf8(v->String_0.value@) }
    else { v is String }
}
pub open spec fn default_rel(ty: int, v: OptionValue, t: Seq<char>) -> bool {
    if ty == 1 || ty == 2 { t == lower_seq(f64_disp(value_f64(v)->0)) }
    else if is_int_ty(ty) { t == dec_int(v->Int_0.val()) }
    else if ty == 8 { t == (if value_bool(v)->0 { "true"@ } else { "false"@ }) }
    else if ty == 9 { encode_utf8(t) == v->String_0.value@ }
    else { t == string_text(v->String_0) }
}

// ------------------------------------------------------------ enums
pub open spec fn enumvalue_opts_rel(s: Seq<OptionBody>, o: Option<EnumValueOptions>) -> bool {
    match o { None => s.len() == 0, Some(x) => s.len() > 0 && uos_rel(s, x.uninterpreted_option@) && x.deprecated is None }
}
pub open spec fn enum_opts_rel(s: Seq<OptionBody>, o: Option<EnumOptions>) -> bool {
    match o { None => s.len() == 0, Some(x) => s.len() > 0 && uos_rel(s, x.uninterpreted_option@) && x.deprecated is None && x.allow_alias is None }
}
pub open spec fn ok_ev(v: EnumValue) -> bool { sp(v.name.span) && sp(v.number.span) && ok_olist(v.options) && sp(v.span) }
pub open spec fn legal_ev(v: EnumValue) -> bool { enum_num_ok(v.number) && legal_obs(ol_seq(v.options), ol_seq(v.options).len() as int) }
pub open spec fn is_name(o: Option<String>, n: Seq<char>) -> bool { o is Some && o->0@ == n }
pub open spec fn is_num(o: Option<i32>, n: int) -> bool { o is Some && o->0 as int == n }
pub open spec fn ev_rel(v: EnumValue, d: EnumValueDescriptorProto) -> bool {
    is_name(d.name, v.name.value@) && is_num(d.number, v.number.val()) && enumvalue_opts_rel(ol_seq(v.options), d.options)
}
pub open spec fn locs_ev(lr: LineResolver, p: Seq<i32>, v: EnumValue) -> Locs {
    none().insert(lc(lr, p, v.span, v.comments)).insert(lp(lr, p.push(1), v.name.span)).insert(lp(lr, p.push(2), v.number.span))
        .add(locs_olist(lr, p.push(3), ol_span(v.options), ol_seq(v.options)))
}
pub open spec fn locs_evs(lr: LineResolver, p: Seq<i32>, s: Seq<EnumValue>, k: int) -> Locs
    decreases k
{
    if k <= 0 { none() } else { locs_evs(lr, p, s, k - 1).add(locs_ev(lr, p.push(2).push((k - 1) as i32), s[k - 1])) }
}
// ------------------------------------------------------------ reserved
/// All reserved ranges and names of the first k statements, in order.
pub open spec fn ranges_of(s: Seq<Reserved>, k: int) -> Seq<ReservedRange>
    decreases k
{
    if k <= 0 { Seq::empty() } else { match s[k - 1].kind { ReservedKind::Ranges(v) => ranges_of(s, k - 1) + v@, ReservedKind::Names(_) => ranges_of(s, k - 1) } }
}
pub open spec fn names_of(s: Seq<Reserved>, k: int) -> Seq<Ident>
    decreases k
{
    if k <= 0 { Seq::empty() } else { match s[k - 1].kind { ReservedKind::Names(v) => names_of(s, k - 1) + v@, ReservedKind::Ranges(_) => names_of(s, k - 1) } }
}
pub open spec fn ok_reserved1(r: Reserved) -> bool {
    sp(r.span) && match r.kind {
        ReservedKind::Ranges(v) => forall|i: int| 0 <= i < v@.len() ==> ok_range(#[trigger] v@[i]),
        ReservedKind::Names(v) => forall|i: int| 0 <= i < v@.len() ==> sp((#[trigger] v@[i]).span),
    }
}
pub open spec fn ok_reserved(s: Seq<Reserved>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> ok_reserved1(#[trigger] s[i])) && few(ranges_of(s, s.len() as int).len() as int) && few(names_of(s, s.len() as int).len() as int)
}
pub proof fn lemma_reserved_mono(s: Seq<Reserved>, k: int, n: int)
    requires 0 <= k <= n <= s.len()
    ensures ranges_of(s, k).len() <= ranges_of(s, n).len(), names_of(s, k).len() <= names_of(s, n).len()
    decreases n
{
    if k < n { lemma_reserved_mono(s, k, n - 1); }
}
pub open spec fn locs_ranges(lr: LineResolver, p: Seq<i32>, base: int, v: Seq<ReservedRange>, j: int) -> Locs
    decreases j
{
    if j <= 0 { none() } else { locs_ranges(lr, p, base, v, j - 1).add(locs_range(lr, p.push((base + j - 1) as i32), v[j - 1])) }
}
pub open spec fn locs_names(lr: LineResolver, p: Seq<i32>, base: int, v: Seq<Ident>, j: int) -> Locs
    decreases j
{
    if j <= 0 { none() } else { locs_names(lr, p, base, v, j - 1).insert(lp(lr, p.push((base + j - 1) as i32), v[j - 1].span)) }
}
pub open spec fn locs_reserved(lr: LineResolver, p: Seq<i32>, rtag: i32, ntag: i32, s: Seq<Reserved>, k: int) -> Locs
    decreases k
{
    if k <= 0 { none() } else {
        locs_reserved(lr, p, rtag, ntag, s, k - 1).add(match s[k - 1].kind {
            ReservedKind::Ranges(v) => locs_ranges(lr, p.push(rtag), ranges_of(s, k - 1).len() as int, v@, v@.len() as int).insert(lc(lr, p.push(rtag), s[k - 1].span, s[k - 1].comments)),
            ReservedKind::Names(v) => locs_names(lr, p.push(ntag), names_of(s, k - 1).len() as int, v@, v@.len() as int).insert(lc(lr, p.push(ntag), s[k - 1].span, s[k - 1].comments)),
        })
    }
}
pub open spec fn strs_rel(a: Seq<Ident>, b: Seq<String>) -> bool { b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i])@ == a[i].value@ }
pub open spec fn enum_ranges_ok(s: Seq<ReservedRange>) -> bool { forall|i: int| 0 <= i < s.len() ==> enum_range_ok(#[trigger] s[i]) }
pub open spec fn enum_ranges_rel(a: Seq<ReservedRange>, b: Seq<enum_descriptor_proto::EnumReservedRange>) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> enum_range_rel(a[i], (#[trigger] b[i]).start, b[i].end)
}
pub open spec fn msg_ranges_ok(s: Seq<ReservedRange>) -> bool { forall|i: int| 0 <= i < s.len() ==> msg_range_ok(#[trigger] s[i]) }
pub open spec fn msg_ranges_rel(a: Seq<ReservedRange>, ms: bool, b: Seq<descriptor_proto::ReservedRange>) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> msg_range_rel(a[i], ms, (#[trigger] b[i]).start, b[i].end)
}
// ------------------------------------------------------------ whole enums
pub open spec fn ok_evs(s: Seq<EnumValue>) -> bool { few(s.len() as int) && forall|i: int| 0 <= i < s.len() ==> ok_ev(#[trigger] s[i]) }
pub open spec fn ok_enum(e: Enum) -> bool { sp(e.name.span) && sp(e.span) && ok_opts(e.options@) && ok_evs(e.values@) && ok_reserved(e.reserved@) }
pub open spec fn legal_evs(s: Seq<EnumValue>, k: int) -> bool { forall|i: int| 0 <= i < k ==> legal_ev(#[trigger] s[i]) }
pub open spec fn all_ranges(s: Seq<Reserved>) -> Seq<ReservedRange> { ranges_of(s, s.len() as int) }
pub open spec fn all_names(s: Seq<Reserved>) -> Seq<Ident> { names_of(s, s.len() as int) }
pub open spec fn legal_opts(s: Seq<ast::Option>) -> bool { legal_obs(bodies(s), s.len() as int) }
pub open spec fn legal_enum(e: Enum) -> bool {
    legal_evs(e.values@, e.values@.len() as int) && enum_ranges_ok(all_ranges(e.reserved@)) && legal_opts(e.options@)
}
pub open spec fn evs_rel(s: Seq<EnumValue>, d: Seq<EnumValueDescriptorProto>, k: int) -> bool { d.len() == k && forall|i: int| 0 <= i < k ==> ev_rel(s[i], #[trigger] d[i]) }
pub open spec fn enum_rel(e: Enum, d: EnumDescriptorProto) -> bool {
    &&& is_name(d.name, e.name.value@)
    &&& evs_rel(e.values@, d.value@, e.values@.len() as int)
    &&& enum_ranges_rel(all_ranges(e.reserved@), d.reserved_range@)
    &&& strs_rel(all_names(e.reserved@), d.reserved_name@)
    &&& enum_opts_rel(bodies(e.options@), d.options)
}
pub open spec fn locs_enum(lr: LineResolver, p: Seq<i32>, e: Enum) -> Locs {
    none().insert(lc(lr, p, e.span, e.comments)).insert(lp(lr, p.push(1), e.name.span))
        .add(locs_evs(lr, p, e.values@, e.values@.len() as int))
        .add(locs_reserved(lr, p, 4, 5, e.reserved@, e.reserved@.len() as int))
        .add(locs_opts(lr, p.push(3), e.options@, e.options@.len() as int))
}
// ------------------------------------------------------------ services
pub open spec fn method_opts_rel(s: Seq<OptionBody>, o: Option<MethodOptions>) -> bool {
    match o { None => s.len() == 0, Some(x) => s.len() > 0 && uos_rel(s, x.uninterpreted_option@) && x.deprecated is None && x.idempotency_level is None }
}
pub open spec fn service_opts_rel(s: Seq<OptionBody>, o: Option<ServiceOptions>) -> bool {
    match o { None => s.len() == 0, Some(x) => s.len() > 0 && uos_rel(s, x.uninterpreted_option@) && x.deprecated is None }
}
pub open spec fn ok_method(m: Method) -> bool {
    sp(m.name.span) && sp(m.span) && ok_tn(m.input_ty) && ok_tn(m.output_ty) && ok_opts(m.options@)
    && (m.client_streaming is Some ==> sp(m.client_streaming->0)) && (m.server_streaming is Some ==> sp(m.server_streaming->0))
}
pub open spec fn flag_rel(w: Option<Span>, d: Option<bool>) -> bool { d == (if w is Some { Some(true) } else { None }) }
pub open spec fn method_rel(m: Method, d: MethodDescriptorProto) -> bool {
    is_name(d.name, m.name.value@) && is_name(d.input_type, type_name_text(m.input_ty)) && is_name(d.output_type, type_name_text(m.output_ty))
    && flag_rel(m.client_streaming, d.client_streaming) && flag_rel(m.server_streaming, d.server_streaming) && method_opts_rel(bodies(m.options@), d.options)
}
pub open spec fn locs_flag(lr: LineResolver, p: Seq<i32>, s: Option<Span>) -> Locs { match s { Some(x) => none().insert(lp(lr, p, x)), None => none() } }
pub open spec fn locs_method(lr: LineResolver, p: Seq<i32>, m: Method) -> Locs {
    none().insert(lc(lr, p, m.span, m.comments)).insert(lp(lr, p.push(1), m.name.span)).insert(lp(lr, p.push(2), type_name_span(m.input_ty)))
        .insert(lp(lr, p.push(3), type_name_span(m.output_ty)))
        .add(locs_flag(lr, p.push(5), m.client_streaming)).add(locs_flag(lr, p.push(6), m.server_streaming))
        .add(locs_opts(lr, p.push(4), m.options@, m.options@.len() as int))
}
pub open spec fn locs_methods(lr: LineResolver, p: Seq<i32>, s: Seq<Method>, k: int) -> Locs
    decreases k
{
    if k <= 0 { none() } else { locs_methods(lr, p, s, k - 1).add(locs_method(lr, p.push(2).push((k - 1) as i32), s[k - 1])) }
}
pub open spec fn ok_methods(s: Seq<Method>) -> bool { few(s.len() as int) && forall|i: int| 0 <= i < s.len() ==> ok_method(#[trigger] s[i]) }
pub open spec fn ok_service(s: Service) -> bool { sp(s.name.span) && sp(s.span) && ok_opts(s.options@) && ok_methods(s.methods@) }
pub open spec fn legal_methods(s: Seq<Method>, k: int) -> bool { forall|i: int| 0 <= i < k ==> legal_opts((#[trigger] s[i]).options@) }
pub open spec fn legal_service(s: Service) -> bool { legal_opts(s.options@) && legal_methods(s.methods@, s.methods@.len() as int) }
pub open spec fn methods_rel(s: Seq<Method>, d: Seq<MethodDescriptorProto>, k: int) -> bool { d.len() == k && forall|i: int| 0 <= i < k ==> method_rel(s[i], #[trigger] d[i]) }
pub open spec fn service_rel(s: Service, d: ServiceDescriptorProto) -> bool {
    is_name(d.name, s.name.value@) && methods_rel(s.methods@, d.method@, s.methods@.len() as int) && service_opts_rel(bodies(s.options@), d.options)
}
pub open spec fn locs_service(lr: LineResolver, p: Seq<i32>, s: Service) -> Locs {
    none().insert(lc(lr, p, s.span, s.comments)).insert(lp(lr, p.push(1), s.name.span))
        .add(locs_methods(lr, p, s.methods@, s.methods@.len() as int))
        .add(locs_opts(lr, p.push(3), s.options@, s.options@.len() as int))
}

// ------------------------------------------------------------ fields
/// A nested message of a message or file: written, the body of a group, or the entry of a map.
pub enum NestX { Msg(Message), Group(Field), Entry(Field) }
/// A field of a message or an extension, with its oneof and its extendee.
pub struct FieldX { pub f: Field, pub oneof: Option<int>, pub ext: Option<TypeName> }
pub open spec fn nest_field(f: Field) -> Seq<NestX> {
    match f.kind { FieldKind::Group { .. } => seq![NestX::Group(f)], FieldKind::Map { .. } => seq![NestX::Entry(f)], _ => Seq::empty() }
}
pub open spec fn nest_fields(s: Seq<Field>, k: int) -> Seq<NestX>
    decreases k
{
    if k <= 0 { Seq::empty() } else { nest_fields(s, k - 1) + nest_field(s[k - 1]) }
}
pub open spec fn written_proto3_optional(sx: Syntax, f: Field) -> bool { !(sx is Proto2) && f.label is Some && (f.label->0).0 is Optional }
pub open spec fn synth_name(n: Seq<char>) -> Seq<char> { if n.len() > 0 && n[0] == '_' { "X"@ + n } else { "_"@ + n } }
pub open spec fn key_ok(t: Ty) -> bool {
    let n = ty_number(t);
    n == 5 || n == 3 || n == 13 || n == 4 || n == 17 || n == 18 || n == 7 || n == 6 || n == 15 || n == 16 || n == 8 || n == 9
}
pub open spec fn f_default(f: Field) -> Option<OptionBody> { taken(f.options, "default"@) }
pub open spec fn f_rest1(f: Field) -> Seq<OptionBody> { rest(ol_seq(f.options), "default"@) }
pub open spec fn named_in(s: Seq<OptionBody>, n: Seq<char>) -> Option<OptionBody> { match first_named(s, n) { Some(i) => Some(s[i]), None => None } }
pub open spec fn f_json(f: Field) -> Option<OptionBody> { named_in(f_rest1(f), "json_name"@) }
/// The options that stay options.
pub open spec fn f_opts(f: Field) -> Seq<OptionBody> { rest(f_rest1(f), "json_name"@) }
pub open spec fn legal_default(sx: Syntax, f: Field) -> bool {
    f_default(f) is Some ==> {
        &&& sx is Proto2
        &&& !(f.label is Some && (f.label->0).0 is Repeated)
        &&& match f.kind {
            FieldKind::Normal { ty, .. } => ty is Named || default_legal(ty_number(ty), (f_default(f)->0).value),
            _ => false,
        }
    }
}
pub open spec fn legal_flabel(sx: Syntax, sc: FieldScope, f: Field) -> bool {
    match f.kind { FieldKind::Map { .. } => sc is Message && f.label is None, _ => legal_label(sx, sc, f.label) }
}
pub open spec fn legal_json(f: Field) -> bool { f_json(f) is Some ==> (f_json(f)->0).value is String && valid_utf8((f_json(f)->0).value->String_0.value@) }
pub open spec fn legal_fopts(f: Field) -> bool { legal_obs(f_opts(f), f_opts(f).len() as int) }
pub open spec fn legal_group(sx: Syntax, f: Field) -> bool { f.kind is Group ==> sx is Proto2 }
pub open spec fn legal_key(f: Field) -> bool { match f.kind { FieldKind::Map { key_ty, .. } => key_ok(key_ty), _ => true } }
pub open spec fn legal_field(sx: Syntax, sc: FieldScope, f: Field) -> bool
    decreases f, 0nat
{
    &&& msg_num_ok(f.number) && legal_default(sx, f) && legal_flabel(sx, sc, f) && legal_json(f) && legal_fopts(f) && legal_group(sx, f) && legal_key(f)
    &&& match f.kind { FieldKind::Group { body, .. } => legal_body(sx, body), _ => true }
}
pub open spec fn legal_fields(sx: Syntax, sc: FieldScope, s: Vec<Field>, k: int) -> bool
    decreases s, k
{
    if k <= 0 { true } else if k > s@.len() { false } else { legal_fields(sx, sc, s, k - 1) && legal_field(sx, sc, s@[k - 1]) }
}
pub open spec fn legal_item(sx: Syntax, i: MessageItem) -> bool
    decreases i, 0nat
{
    match i {
        MessageItem::Field(f) => legal_field(sx, FieldScope::Message, f),
        MessageItem::Enum(e) => legal_enum(e),
        MessageItem::Message(m) => legal_body(sx, m.body),
        MessageItem::Extend(e) => legal_fields(sx, FieldScope::Extend, e.fields, e.fields@.len() as int),
        MessageItem::Oneof(o) => legal_oneof(sx, o),
    }
}
pub open spec fn legal_oneof(sx: Syntax, o: Oneof) -> bool
    decreases o, 0nat
{
    legal_opts(o.options@) && o.fields@.len() > 0 && legal_fields(sx, FieldScope::Oneof, o.fields, o.fields@.len() as int)
}
pub open spec fn legal_items(sx: Syntax, s: Vec<MessageItem>, k: int) -> bool
    decreases s, k
{
    if k <= 0 { true } else if k > s@.len() { false } else { legal_items(sx, s, k - 1) && legal_item(sx, s@[k - 1]) }
}
pub open spec fn legal_exts(s: Seq<Extensions>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> legal_ext1(#[trigger] s[i])
}
pub open spec fn legal_ext1(e: Extensions) -> bool {
    (forall|i: int| 0 <= i < e.ranges@.len() ==> msg_range_ok(#[trigger] e.ranges@[i])) && (e.ranges@.len() > 0 ==> legal_obs(ol_seq(e.options), ol_seq(e.options).len() as int))
}
pub open spec fn legal_body(sx: Syntax, b: MessageBody) -> bool
    decreases b, 0nat
{
    &&& legal_items(sx, b.items, b.items@.len() as int)
    &&& msg_ranges_ok(all_ranges(b.reserved@))
    &&& legal_exts(b.extensions@)
    &&& legal_opts(b.options@)
}

// ------------------------------------------------------------ contributions of the items of a message, in source order
pub open spec fn with_oneof(s: Seq<Field>, k: int, o: Option<int>, x: Option<TypeName>) -> Seq<FieldX> { Seq::new(k as nat, |i: int| FieldX { f: s[i], oneof: o, ext: x }) }
pub open spec fn reals(s: Seq<MessageItem>, k: int) -> Seq<Oneof>
    decreases k
{
    if k <= 0 { Seq::empty() } else { match s[k - 1] { MessageItem::Oneof(o) => reals(s, k - 1).push(o), _ => reals(s, k - 1) } }
}
/// The fields that get a oneof of their own.
pub open spec fn synths(sx: Syntax, s: Seq<MessageItem>, k: int) -> Seq<Field>
    decreases k
{
    if k <= 0 { Seq::empty() } else { match s[k - 1] { MessageItem::Field(f) => if written_proto3_optional(sx, f) { synths(sx, s, k - 1).push(f) } else { synths(sx, s, k - 1) }, _ => synths(sx, s, k - 1) } }
}
pub open spec fn fields_of(sx: Syntax, nr: int, s: Seq<MessageItem>, k: int) -> Seq<FieldX>
    decreases k
{
    if k <= 0 { Seq::empty() } else {
        fields_of(sx, nr, s, k - 1) + (match s[k - 1] {
            MessageItem::Field(f) => seq![FieldX { f, oneof: if written_proto3_optional(sx, f) { Some(nr + synths(sx, s, k - 1).len()) } else { None }, ext: None }],
            MessageItem::Oneof(o) => with_oneof(o.fields@, o.fields@.len() as int, Some(reals(s, k - 1).len() as int), None),
            _ => Seq::empty(),
        })
    }
}
pub open spec fn nested_of(s: Seq<MessageItem>, k: int) -> Seq<NestX>
    decreases k
{
    if k <= 0 { Seq::empty() } else {
        nested_of(s, k - 1) + (match s[k - 1] {
            MessageItem::Field(f) => nest_field(f),
            MessageItem::Oneof(o) => nest_fields(o.fields@, o.fields@.len() as int),
            MessageItem::Extend(e) => nest_fields(e.fields@, e.fields@.len() as int),
            MessageItem::Message(m) => seq![NestX::Msg(m)],
            MessageItem::Enum(_) => Seq::empty(),
        })
    }
}
pub open spec fn enums_of(s: Seq<MessageItem>, k: int) -> Seq<Enum>
    decreases k
{
    if k <= 0 { Seq::empty() } else { match s[k - 1] { MessageItem::Enum(e) => enums_of(s, k - 1).push(e), _ => enums_of(s, k - 1) } }
}
pub open spec fn exts_of(s: Seq<MessageItem>, k: int) -> Seq<FieldX>
    decreases k
{
    if k <= 0 { Seq::empty() } else {
        exts_of(s, k - 1) + (match s[k - 1] { MessageItem::Extend(e) => with_oneof(e.fields@, e.fields@.len() as int, None, Some(e.extendee)), _ => Seq::empty() })
    }
}
/// One extension range with the options of its statement.
pub struct ExtX { pub r: ReservedRange, pub o: Option<OptionList> }
pub open spec fn exts1(e: Extensions, j: int) -> Seq<ExtX> { Seq::new(j as nat, |i: int| ExtX { r: e.ranges@[i], o: e.options }) }
pub open spec fn extranges_of(s: Seq<Extensions>, k: int) -> Seq<ExtX>
    decreases k
{
    if k <= 0 { Seq::empty() } else { extranges_of(s, k - 1) + exts1(s[k - 1], s[k - 1].ranges@.len() as int) }
}
// ------------------------------------------------------------ sizes and spans of messages
pub open spec fn ok_ty(t: Ty) -> bool { t is Named ==> ok_tn(t->Named_0) }
pub open spec fn ok_field(f: Field) -> bool
    decreases f, 0nat
{
    &&& sp(f.name.span) && sp(f.number.span) && sp(f.span) && ok_olist(f.options) && (f.label is Some ==> sp((f.label->0).1))
    &&& match f.kind {
        FieldKind::Normal { ty, ty_span } => ok_ty(ty) && sp(ty_span),
        FieldKind::Group { ty_span, body } => sp(ty_span) && ok_body(body),
        FieldKind::Map { ty_span, key_ty, key_ty_span, value_ty, value_ty_span } => ok_ty(key_ty) && ok_ty(value_ty) && sp(ty_span) && sp(key_ty_span),
    }
}
pub open spec fn ok_fields(s: Vec<Field>) -> bool
    decreases s, 1nat
{
    few(s@.len() as int) && forall|i: int| 0 <= i < s@.len() ==> ok_field(#[trigger] s@[i])
}
pub open spec fn ok_oneof(o: Oneof) -> bool
    decreases o, 0nat
{
    sp(o.name.span) && sp(o.span) && ok_opts(o.options@) && ok_fields(o.fields)
}
pub open spec fn ok_extend(e: Extend) -> bool
    decreases e, 0nat
{
    sp(e.span) && ok_tn(e.extendee) && ok_fields(e.fields)
}
pub open spec fn ok_message(m: Message) -> bool
    decreases m, 0nat
{
    sp(m.name.span) && sp(m.span) && ok_body(m.body)
}
pub open spec fn ok_item(i: MessageItem) -> bool
    decreases i, 0nat
{
    match i {
        MessageItem::Field(f) => ok_field(f), MessageItem::Enum(e) => ok_enum(e), MessageItem::Message(m) => ok_message(m),
        MessageItem::Extend(e) => ok_extend(e), MessageItem::Oneof(o) => ok_oneof(o),
    }
}
pub open spec fn ok_ext1(e: Extensions) -> bool { sp(e.span) && ok_olist(e.options) && forall|i: int| 0 <= i < e.ranges@.len() ==> ok_range(#[trigger] e.ranges@[i]) }
pub open spec fn ok_body(b: MessageBody) -> bool
    decreases b, 0nat
{
    let n = b.items@.len() as int;
    &&& few(n)
    &&& forall|i: int| 0 <= i < n ==> ok_item(#[trigger] b.items@[i])
    &&& few(fields_of(Syntax::Proto2, 0, b.items@, n).len() as int) && few(nested_of(b.items@, n).len() as int) && few(exts_of(b.items@, n).len() as int)
    &&& ok_reserved(b.reserved@)
    &&& ok_opts(b.options@)
    &&& forall|i: int| 0 <= i < b.extensions@.len() ==> ok_ext1(#[trigger] b.extensions@[i])
    &&& few(extranges_of(b.extensions@, b.extensions@.len() as int).len() as int)
}
// ------------------------------------------------------------ what a field becomes
pub open spec fn field_opts_rel(s: Seq<OptionBody>, o: Option<FieldOptions>) -> bool {
    match o { None => s.len() == 0, Some(x) => s.len() > 0 && uos_rel(s, x.uninterpreted_option@)
        && x.ctype is None && x.packed is None && x.jstype is None && x.lazy is None && x.deprecated is None && x.weak is None }
}
pub open spec fn entry_name(f: Field) -> Seq<char> { pascal(f.name.value@) + "Entry"@ }
pub open spec fn fr_name(f: Field, d: FieldDescriptorProto) -> bool { is_name(d.name, if f.kind is Group { lower_seq(f.name.value@) } else { f.name.value@ }) }
pub open spec fn fr_number(f: Field, d: FieldDescriptorProto) -> bool { is_num(d.number, f.number.val()) }
pub open spec fn fr_label(f: Field, d: FieldDescriptorProto) -> bool { is_num(d.label, if f.kind is Map { 3 } else { written_label(f.label) }) }
pub open spec fn fr_type(f: Field, d: FieldDescriptorProto) -> bool {
    match f.kind {
        FieldKind::Normal { ty, .. } => if ty is Named { d.r#type is None && is_name(d.type_name, type_name_text(ty->Named_0)) } else { is_num(d.r#type, ty_number(ty)) && d.type_name is None },
        FieldKind::Group { .. } => is_num(d.r#type, 10) && is_name(d.type_name, f.name.value@),
        FieldKind::Map { .. } => is_num(d.r#type, 11) && is_name(d.type_name, entry_name(f)),
    }
}
pub open spec fn named_default(v: OptionValue) -> Seq<char> { if v is String { "\""@ + value_text(v) + "\""@ } else { value_text(v) } }
pub open spec fn fr_default(f: Field, d: FieldDescriptorProto) -> bool {
    match f_default(f) {
        None => d.default_value is None,
        Some(o) => d.default_value is Some && match f.kind {
            FieldKind::Normal { ty, .. } => if ty is Named { d.default_value->0@ == named_default(o.value) } else { default_rel(ty_number(ty), o.value, d.default_value->0@) },
            _ => false,
        },
    }
}
pub open spec fn fr_json(f: Field, d: FieldDescriptorProto) -> bool {
    match f_json(f) { None => d.json_name is None, Some(o) => d.json_name is Some && o.value is String && encode_utf8(d.json_name->0@) == o.value->String_0.value@ }
}
pub open spec fn fr_opts(f: Field, d: FieldDescriptorProto) -> bool { field_opts_rel(f_opts(f), d.options) }
pub open spec fn fr_p3(sx: Syntax, f: Field, d: FieldDescriptorProto) -> bool { d.proto3_optional == (if written_proto3_optional(sx, f) { Some(true) } else { None }) }
pub open spec fn core_rel(sx: Syntax, f: Field, d: FieldDescriptorProto) -> bool {
    fr_name(f, d) && fr_number(f, d) && fr_label(f, d) && fr_type(f, d) && fr_default(f, d) && fr_json(f, d) && fr_opts(f, d) && fr_p3(sx, f, d)
}
pub open spec fn oneof_is(o: Option<int>, d: FieldDescriptorProto) -> bool { match o { Some(i) => is_num(d.oneof_index, i), None => d.oneof_index is None } }
pub open spec fn ext_is(o: Option<TypeName>, d: FieldDescriptorProto) -> bool { match o { Some(t) => is_name(d.extendee, type_name_text(t)), None => d.extendee is None } }
pub open spec fn field_rel(sx: Syntax, x: FieldX, d: FieldDescriptorProto) -> bool { core_rel(sx, x.f, d) && oneof_is(x.oneof, d) && ext_is(x.ext, d) }
pub open spec fn fields_rel(sx: Syntax, xs: Seq<FieldX>, ds: Seq<FieldDescriptorProto>) -> bool { ds.len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> field_rel(sx, xs[i], #[trigger] ds[i]) }
pub proof fn lemma_fields_app(sx: Syntax, xs: Seq<FieldX>, ys: Seq<FieldX>, ds: Seq<FieldDescriptorProto>)
    requires ds.len() == xs.len() + ys.len(), fields_rel(sx, xs, ds.subrange(0, xs.len() as int)),
        forall|i: int| 0 <= i < ys.len() ==> field_rel(sx, #[trigger] ys[i], ds[xs.len() + i]),
    ensures fields_rel(sx, xs + ys, ds)
{
    assert forall|i: int| 0 <= i < (xs + ys).len() implies field_rel(sx, (xs + ys)[i], #[trigger] ds[i]) by {
        if i < xs.len() { assert(ds.subrange(0, xs.len() as int)[i] == ds[i]); } else { assert(ys[i - xs.len()] == (xs + ys)[i]); }
    }
}
// ------------------------------------------------------------ what a message becomes
pub open spec fn oneof_opts_rel(s: Seq<OptionBody>, o: Option<OneofOptions>) -> bool { match o { None => s.len() == 0, Some(x) => s.len() > 0 && uos_rel(s, x.uninterpreted_option@) } }
pub open spec fn msg_opts_rel(s: Seq<OptionBody>, o: Option<MessageOptions>) -> bool {
    match o { None => s.len() == 0, Some(x) => s.len() > 0 && uos_rel(s, x.uninterpreted_option@)
        && x.message_set_wire_format is None && x.no_standard_descriptor_accessor is None && x.deprecated is None && x.map_entry is None }
}
pub open spec fn ext_opts_rel(s: Seq<OptionBody>, o: Option<ExtensionRangeOptions>) -> bool { match o { None => s.len() == 0, Some(x) => s.len() > 0 && uos_rel(s, x.uninterpreted_option@) } }
pub open spec fn oneof_rel(o: Oneof, d: OneofDescriptorProto) -> bool { is_name(d.name, o.name.value@) && oneof_opts_rel(bodies(o.options@), d.options) }
pub open spec fn synth_rel(f: Field, d: OneofDescriptorProto) -> bool { is_name(d.name, synth_name(f.name.value@)) && d.options is None }
pub open spec fn reals_rel(a: Seq<Oneof>, d: Seq<OneofDescriptorProto>) -> bool { d.len() >= a.len() && forall|i: int| 0 <= i < a.len() ==> oneof_rel(a[i], #[trigger] d[i]) }
pub open spec fn synths_rel(a: Seq<Field>, base: int, d: Seq<OneofDescriptorProto>) -> bool { d.len() == base + a.len() && forall|i: int| base <= i < d.len() ==> synth_rel(a[i - base], #[trigger] d[i]) }
pub open spec fn enums_rel(a: Seq<Enum>, d: Seq<EnumDescriptorProto>) -> bool { d.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> enum_rel(a[i], #[trigger] d[i]) }
pub open spec fn extx_rel(x: ExtX, ms: bool, d: descriptor_proto::ExtensionRange) -> bool { msg_range_rel(x.r, ms, d.start, d.end) && ext_opts_rel(ol_seq(x.o), d.options) }
pub open spec fn extxs_rel(a: Seq<ExtX>, ms: bool, d: Seq<descriptor_proto::ExtensionRange>) -> bool { d.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> extx_rel(a[i], ms, #[trigger] d[i]) }
pub open spec fn is_msgset(b: MessageBody) -> bool {
    match named_in(bodies(b.options@), "message_set_wire_format"@) { Some(o) => value_bool(o.value) == Some(true), None => false }
}
/// The entry message of a map: a key and a value, and nothing else.
pub open spec fn entry_field(d: FieldDescriptorProto, name: Seq<char>, number: int, t: Ty) -> bool {
    is_name(d.name, name) && is_num(d.number, number) && is_num(d.label, 1)
    && (if t is Named { d.r#type is None && is_name(d.type_name, type_name_text(t->Named_0)) } else { is_num(d.r#type, ty_number(t)) && d.type_name is None })
    && d.extendee is None && d.default_value is None && d.oneof_index is None && d.options is None && d.proto3_optional is None && is_name(d.json_name, name)
}
pub open spec fn entry_rel(f: Field, d: DescriptorProto) -> bool {
    &&& is_name(d.name, entry_name(f))
    &&& d.field@.len() == 2 && entry_field(d.field@[0], "key"@, 1, f.kind->key_ty) && entry_field(d.field@[1], "value"@, 2, f.kind->value_ty)
    &&& d.extension@.len() == 0 && d.nested_type@.len() == 0 && d.enum_type@.len() == 0 && d.extension_range@.len() == 0 && d.oneof_decl@.len() == 0
    &&& d.reserved_range@.len() == 0 && d.reserved_name@.len() == 0
    &&& d.options is Some && (d.options->0).map_entry == Some(true) && (d.options->0).uninterpreted_option@.len() == 0
    &&& (d.options->0).deprecated is None && (d.options->0).message_set_wire_format is None && (d.options->0).no_standard_descriptor_accessor is None
}
pub open spec fn nest_rel(sx: Syntax, x: NestX, d: DescriptorProto) -> bool
    decreases d, 1nat
{
    match x {
        NestX::Msg(m) => is_name(d.name, m.name.value@) && body_rel(sx, m.body, d),
        NestX::Group(f) => is_name(d.name, f.name.value@) && body_rel(sx, f.kind->body, d),
        NestX::Entry(f) => entry_rel(f, d),
    }
}
pub open spec fn nests_rel(sx: Syntax, xs: Seq<NestX>, ds: Seq<DescriptorProto>) -> bool { ds.len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> nest_rel(sx, xs[i], #[trigger] ds[i]) }
pub open spec fn nr_of(b: MessageBody) -> int { reals(b.items@, b.items@.len() as int).len() as int }
pub open spec fn br_fields(sx: Syntax, b: MessageBody, d: DescriptorProto) -> bool { fields_rel(sx, fields_of(sx, nr_of(b), b.items@, b.items@.len() as int), d.field@) }
pub open spec fn br_enums(b: MessageBody, d: DescriptorProto) -> bool { enums_rel(enums_of(b.items@, b.items@.len() as int), d.enum_type@) }
pub open spec fn br_exts(sx: Syntax, b: MessageBody, d: DescriptorProto) -> bool { fields_rel(sx, exts_of(b.items@, b.items@.len() as int), d.extension@) }
pub open spec fn br_reals(b: MessageBody, d: DescriptorProto) -> bool { reals_rel(reals(b.items@, b.items@.len() as int), d.oneof_decl@) }
pub open spec fn br_synths(sx: Syntax, b: MessageBody, d: DescriptorProto) -> bool { synths_rel(synths(sx, b.items@, b.items@.len() as int), nr_of(b), d.oneof_decl@) }
pub open spec fn br_reserved(b: MessageBody, d: DescriptorProto) -> bool { msg_ranges_rel(all_ranges(b.reserved@), is_msgset(b), d.reserved_range@) && strs_rel(all_names(b.reserved@), d.reserved_name@) }
pub open spec fn br_extranges(b: MessageBody, d: DescriptorProto) -> bool { extxs_rel(extranges_of(b.extensions@, b.extensions@.len() as int), is_msgset(b), d.extension_range@) }
pub open spec fn br_opts(b: MessageBody, d: DescriptorProto) -> bool { msg_opts_rel(bodies(b.options@), d.options) }
pub open spec fn body_rel(sx: Syntax, b: MessageBody, d: DescriptorProto) -> bool
    decreases d, 0nat
{
    &&& br_fields(sx, b, d)
    &&& d.nested_type@.len() == nested_of(b.items@, b.items@.len() as int).len()
    &&& forall|i: int| 0 <= i < d.nested_type@.len() ==> nest_rel(sx, nested_of(b.items@, b.items@.len() as int)[i], #[trigger] d.nested_type@[i])
    &&& br_enums(b, d) && br_exts(sx, b, d) && br_reals(b, d) && br_synths(sx, b, d) && br_reserved(b, d) && br_extranges(b, d) && br_opts(b, d)
}
// ------------------------------------------------------------ locations of messages
pub open spec fn locs_field(lr: LineResolver, sx: Syntax, p: Seq<i32>, f: Field, ft: i32, fi: int, mt: i32, mi: int) -> Locs
    decreases f, 0nat
{
    let q = p.push(ft).push(fi as i32);
    let m = p.push(mt).push(mi as i32);
    none().insert(lp(lr, q.push(1), f.name.span)).insert(lp(lr, q.push(3), f.number.span))
        .add(if !(f.kind is Map) && f.label is Some { none().insert(lp(lr, q.push(4), (f.label->0).1)) } else { none() })
        .add(if !(f.kind is Map) && f_default(f) is Some { none().insert(lp(lr, q.push(7), value_span((f_default(f)->0).value))) } else { none() })
        .add(match f.kind {
            FieldKind::Normal { ty, ty_span } => none().insert(lc(lr, q, f.span, f.comments)).insert(if ty is Named { lp(lr, q.push(6), type_name_span(ty->Named_0)) } else { lp(lr, q.push(5), ty_span) }),
            FieldKind::Group { ty_span, body } => none().insert(lp(lr, q, f.span)).insert(lp(lr, q.push(5), ty_span)).insert(lp(lr, q.push(6), f.name.span))
                .insert(lc(lr, m, f.span, f.comments)).insert(lp(lr, m.push(1), f.name.span)).add(locs_body(lr, sx, m, body)),
            FieldKind::Map { ty_span, .. } => none().insert(lc(lr, q, f.span, f.comments)).insert(lp(lr, q.push(6), ty_span)),
        })
        .add(if f_json(f) is Some { none().insert(lp(lr, q.push(10), option_span(f_json(f)->0))).insert(lp(lr, q.push(10), value_span((f_json(f)->0).value))) } else { none() })
        .add(locs_olist(lr, q.push(8), ol_span(f.options), f_opts(f)))
}
pub open spec fn locs_fields(lr: LineResolver, sx: Syntax, p: Seq<i32>, s: Vec<Field>, k: int, ft: i32, fi: int, mt: i32, mi: int) -> Locs
    decreases s, k
{
    if k <= 0 || k > s@.len() { none() } else {
        locs_fields(lr, sx, p, s, k - 1, ft, fi, mt, mi).add(locs_field(lr, sx, p, s@[k - 1], ft, fi + k - 1, mt, mi + nest_fields(s@, k - 1).len()))
    }
}
pub open spec fn locs_extendees(lr: LineResolver, p: Seq<i32>, t: TypeName, k: int, ft: i32, fi: int) -> Locs
    decreases k
{
    if k <= 0 { none() } else { locs_extendees(lr, p, t, k - 1, ft, fi).insert(lp(lr, p.push(ft).push((fi + k - 1) as i32).push(2), type_name_span(t))) }
}
pub open spec fn locs_extend(lr: LineResolver, sx: Syntax, p: Seq<i32>, e: Extend, ft: i32, fi: int, mt: i32, mi: int) -> Locs
    decreases e, 0nat
{
    none().insert(lc(lr, p.push(ft), e.span, e.comments)).add(locs_extendees(lr, p, e.extendee, e.fields@.len() as int, ft, fi))
        .add(locs_fields(lr, sx, p, e.fields, e.fields@.len() as int, ft, fi, mt, mi))
}
pub open spec fn locs_oneof(lr: LineResolver, sx: Syntax, p: Seq<i32>, o: Oneof, ot: i32, oi: int, ft: i32, fi: int, mt: i32, mi: int) -> Locs
    decreases o, 0nat
{
    let q = p.push(ot).push(oi as i32);
    none().insert(lc(lr, q, o.span, o.comments)).insert(lp(lr, q.push(1), o.name.span)).add(locs_opts(lr, q.push(2), o.options@, o.options@.len() as int))
        .add(locs_fields(lr, sx, p, o.fields, o.fields@.len() as int, ft, fi, mt, mi))
}
pub open spec fn locs_msg(lr: LineResolver, sx: Syntax, p: Seq<i32>, m: Message) -> Locs
    decreases m, 0nat
{
    none().insert(lc(lr, p, m.span, m.comments)).insert(lp(lr, p.push(1), m.name.span)).add(locs_body(lr, sx, p, m.body))
}
pub open spec fn locs_item(lr: LineResolver, sx: Syntax, p: Seq<i32>, i: MessageItem, nf: int, nn: int, ne: int, nx: int, no: int) -> Locs
    decreases i, 0nat
{
    match i {
        MessageItem::Field(f) => locs_field(lr, sx, p, f, 2, nf, 3, nn),
        MessageItem::Enum(e) => locs_enum(lr, p.push(4).push(ne as i32), e),
        MessageItem::Message(m) => locs_msg(lr, sx, p.push(3).push(nn as i32), m),
        MessageItem::Extend(e) => locs_extend(lr, sx, p, e, 6, nx, 3, nn),
        MessageItem::Oneof(o) => locs_oneof(lr, sx, p, o, 8, no, 2, nf, 3, nn),
    }
}
pub open spec fn nfields(s: Seq<MessageItem>, k: int) -> int { fields_of(Syntax::Proto2, 0, s, k).len() as int }
pub open spec fn locs_items(lr: LineResolver, sx: Syntax, p: Seq<i32>, s: Vec<MessageItem>, k: int) -> Locs
    decreases s, k
{
    if k <= 0 || k > s@.len() { none() } else {
        locs_items(lr, sx, p, s, k - 1).add(locs_item(lr, sx, p, s@[k - 1], nfields(s@, k - 1), nested_of(s@, k - 1).len() as int,
            enums_of(s@, k - 1).len() as int, exts_of(s@, k - 1).len() as int, reals(s@, k - 1).len() as int))
    }
}
pub open spec fn locs_ext1(lr: LineResolver, p: Seq<i32>, base: int, e: Extensions, j: int) -> Locs
    decreases j
{
    if j <= 0 { none() } else {
        let q = p.push((base + j - 1) as i32);
        locs_ext1(lr, p, base, e, j - 1).add(locs_range(lr, q, e.ranges@[j - 1])).add(locs_olist(lr, q.push(3), ol_span(e.options), ol_seq(e.options)))
    }
}
pub open spec fn locs_exts(lr: LineResolver, p: Seq<i32>, s: Seq<Extensions>, k: int) -> Locs
    decreases k
{
    if k <= 0 { none() } else {
        locs_exts(lr, p, s, k - 1).insert(lc(lr, p, s[k - 1].span, s[k - 1].comments)).add(locs_ext1(lr, p, extranges_of(s, k - 1).len() as int, s[k - 1], s[k - 1].ranges@.len() as int))
    }
}
pub open spec fn locs_body(lr: LineResolver, sx: Syntax, p: Seq<i32>, b: MessageBody) -> Locs
    decreases b, 0nat
{
    locs_items(lr, sx, p, b.items, b.items@.len() as int)
        .add(locs_reserved(lr, p, 9, 10, b.reserved@, b.reserved@.len() as int))
        .add(locs_exts(lr, p.push(5), b.extensions@, b.extensions@.len() as int))
        .add(locs_opts(lr, p.push(7), b.options@, b.options@.len() as int))
}
/// The descriptors from `base` on are those of the first k fields.
pub open spec fn tail_rel(sx: Syntax, s: Seq<Field>, k: int, o: Option<int>, x: Option<TypeName>, d: Seq<FieldDescriptorProto>, base: int) -> bool {
    d.len() == base + k && forall|i: int| base <= i < base + k ==> field_rel(sx, FieldX { f: s[i - base], oneof: o, ext: x }, #[trigger] d[i])
}
pub open spec fn ntail_rel(sx: Syntax, s: Seq<NestX>, d: Seq<DescriptorProto>, base: int) -> bool {
    d.len() == base + s.len() && forall|i: int| base <= i < d.len() ==> nest_rel(sx, s[i - base], #[trigger] d[i])
}
pub proof fn lemma_ntail(sx: Syntax, a: Seq<NestX>, f: Field, n0: Seq<DescriptorProto>, d: Seq<DescriptorProto>, base: int)
    requires base >= 0, ntail_rel(sx, a, n0, base), d.len() == n0.len() + nest_field(f).len(), d.take(n0.len() as int) == n0,
        f.kind is Map ==> entry_rel(f, d.last()), f.kind is Group ==> nest_rel(sx, NestX::Group(f), d.last()),
    ensures ntail_rel(sx, a + nest_field(f), d, base)
{
    let b = a + nest_field(f);
    assert forall|i: int| base <= i < d.len() implies nest_rel(sx, b[i - base], #[trigger] d[i]) by {
        if i < n0.len() { assert(d.take(n0.len() as int)[i] == d[i]); assert(b[i - base] == a[i - base]); }
        else { assert(b[i - base] == nest_field(f)[0]); assert(d[i] == d.last()); }
    }
}
/// The definitions for one field, one level deep.
pub proof fn lemma_field_defs(f: Field, sx: Syntax, sc: FieldScope, lr: LineResolver, p: Seq<i32>, ft: i32, fi: int, mt: i32, mi: int)
    ensures
        ok_field(f) ==> {
            &&& sp(f.name.span) && sp(f.number.span) && sp(f.span) && ok_olist(f.options) && (f.label is Some ==> sp((f.label->0).1))
            &&& match f.kind {
                FieldKind::Normal { ty, ty_span } => ok_ty(ty) && sp(ty_span),
                FieldKind::Group { ty_span, body } => sp(ty_span) && ok_body(body),
                FieldKind::Map { ty_span, key_ty, key_ty_span, value_ty, value_ty_span } => ok_ty(key_ty) && ok_ty(value_ty) && sp(ty_span) && sp(key_ty_span),
            }
        },
        legal_field(sx, sc, f) == (msg_num_ok(f.number) && legal_default(sx, f) && legal_flabel(sx, sc, f) && legal_json(f) && legal_fopts(f) && legal_group(sx, f) && legal_key(f)
            && match f.kind { FieldKind::Group { body, .. } => legal_body(sx, body), _ => true }),
        ({
            let q = p.push(ft).push(fi as i32);
            let m = p.push(mt).push(mi as i32);
            locs_field(lr, sx, p, f, ft, fi, mt, mi) == none().insert(lp(lr, q.push(1), f.name.span)).insert(lp(lr, q.push(3), f.number.span))
                .add(if !(f.kind is Map) && f.label is Some { none().insert(lp(lr, q.push(4), (f.label->0).1)) } else { none() })
                .add(if !(f.kind is Map) && f_default(f) is Some { none().insert(lp(lr, q.push(7), value_span((f_default(f)->0).value))) } else { none() })
                .add(match f.kind {
                    FieldKind::Normal { ty, ty_span } => none().insert(lc(lr, q, f.span, f.comments)).insert(if ty is Named { lp(lr, q.push(6), type_name_span(ty->Named_0)) } else { lp(lr, q.push(5), ty_span) }),
                    FieldKind::Group { ty_span, body } => none().insert(lp(lr, q, f.span)).insert(lp(lr, q.push(5), ty_span)).insert(lp(lr, q.push(6), f.name.span))
                        .insert(lc(lr, m, f.span, f.comments)).insert(lp(lr, m.push(1), f.name.span)).add(locs_body(lr, sx, m, body)),
                    FieldKind::Map { ty_span, .. } => none().insert(lc(lr, q, f.span, f.comments)).insert(lp(lr, q.push(6), ty_span)),
                })
                .add(if f_json(f) is Some { none().insert(lp(lr, q.push(10), option_span(f_json(f)->0))).insert(lp(lr, q.push(10), value_span((f_json(f)->0).value))) } else { none() })
                .add(locs_olist(lr, q.push(8), ol_span(f.options), f_opts(f)))
        }),
{
}
/// A message body under the name of its message.
pub proof fn lemma_group_rel(sx: Syntax, f: Field, d: DescriptorProto)
    ensures forall|d0: DescriptorProto| #[trigger] body_rel(sx, f.kind->body, d0) && (DescriptorProto { name: d.name, ..d0 }) == d && is_name(d.name, f.name.value@) ==> nest_rel(sx, NestX::Group(f), d)
{
}
pub proof fn lemma_nest_mono(s: Seq<Field>, k: int, n: int)
    requires 0 <= k <= n
    ensures nest_fields(s, k).len() <= nest_fields(s, n).len()
    decreases n
{
    if k < n { lemma_nest_mono(s, k, n - 1); }
}
// ------------------------------------------------------------ steps of a message body
pub open spec fn counts(sx: Syntax, s: Seq<MessageItem>, k: int) -> bool {
    fields_of(sx, 0, s, k).len() == nfields(s, k)
}
pub proof fn lemma_nfields(sx: Syntax, nr: int, s: Seq<MessageItem>, k: int)
    ensures fields_of(sx, nr, s, k).len() == nfields(s, k)
    decreases k
{
    if k > 0 { lemma_nfields(sx, nr, s, k - 1); }
}
pub proof fn lemma_items_mono(s: Seq<MessageItem>, k: int, n: int)
    requires 0 <= k <= n <= s.len()
    ensures nfields(s, k) <= nfields(s, n), nested_of(s, k).len() <= nested_of(s, n).len(), exts_of(s, k).len() <= exts_of(s, n).len(),
        reals(s, k).len() <= reals(s, n).len(), reals(s, k).len() <= k, enums_of(s, k).len() <= k,
    decreases n
{
    if k < n { lemma_items_mono(s, k, n - 1); } else if k > 0 { lemma_items_mono(s, k - 1, n - 1); }
}
pub proof fn lemma_synths_len(sx: Syntax, s: Seq<MessageItem>, k: int, n: int)
    requires 0 <= k <= n <= s.len()
    ensures synths(sx, s, k).len() + reals(s, n).len() <= n
    decreases n
{
    if k < n { lemma_synths_len(sx, s, k, n - 1); } else if k > 0 { lemma_synths_len(sx, s, k - 1, n - 1); }
}
/// A synthetic oneof is appended; a real one is put in its place.
pub proof fn lemma_decl_push(xs: Seq<Field>, rs: Seq<Oneof>, base: int, o1: Seq<OneofDescriptorProto>, d: Seq<OneofDescriptorProto>, f: Field)
    requires synths_rel(xs, base, o1), d.len() == o1.len() + 1, d.drop_last() == o1, synth_rel(f, d.last()), 0 <= rs.len() <= base
    ensures synths_rel(xs.push(f), base, d), reals_k(rs, o1) ==> reals_k(rs, d)
{
    assert forall|i: int| base <= i < d.len() implies synth_rel(xs.push(f)[i - base], #[trigger] d[i]) by { if i < o1.len() { assert(d.drop_last()[i] == d[i]); assert(xs.push(f)[i - base] == xs[i - base]); } }
    if reals_k(rs, o1) { assert forall|i: int| 0 <= i < rs.len() implies oneof_rel(rs[i], #[trigger] d[i]) by { assert(d.drop_last()[i] == d[i]); } }
}
pub proof fn lemma_decl_set(xs: Seq<Field>, rs: Seq<Oneof>, base: int, o1: Seq<OneofDescriptorProto>, d: Seq<OneofDescriptorProto>, o: Oneof)
    requires synths_rel(xs, base, o1), rs.len() < base, d == o1.update(rs.len() as int, d[rs.len() as int])
    ensures synths_rel(xs, base, d), reals_k(rs, o1) && oneof_rel(o, d[rs.len() as int]) ==> reals_k(rs.push(o), d)
{
    assert forall|i: int| base <= i < d.len() implies synth_rel(xs[i - base], #[trigger] d[i]) by { assert(d[i] == o1[i]); }
    if reals_k(rs, o1) && oneof_rel(o, d[rs.len() as int]) {
        assert forall|i: int| 0 <= i < rs.push(o).len() implies oneof_rel(rs.push(o)[i], #[trigger] d[i]) by { if i < rs.len() { assert(d[i] == o1[i]); } }
    }
}
pub open spec fn is_oneof(i: MessageItem) -> bool { i is Oneof }
pub proof fn lemma_real_count(s: Seq<MessageItem>, bs: Seq<bool>, k: int)
    requires 0 <= k <= s.len(), bs.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] bs[i] == is_oneof(s[i])
    ensures count_true(bs.take(k)) == reals(s, k).len()
    decreases k
{
    if k > 0 { lemma_real_count(s, bs, k - 1); assert(bs.take(k).drop_last() =~= bs.take(k - 1)); assert(bs.take(k).last() == bs[k - 1]); }
    else { assert(bs.take(0).len() == 0); }
}
/// The recursive definitions, one item further.
pub proof fn lemma_item_step(lr: LineResolver, sx: Syntax, p: Seq<i32>, b: MessageBody, k: int)
    requires 0 <= k < b.items@.len()
    ensures
        ok_body(b) ==> ok_item(b.items@[k]) && match b.items@[k] {
            MessageItem::Field(f) => ok_field(f), MessageItem::Enum(e) => ok_enum(e), MessageItem::Message(m) => ok_message(m),
            MessageItem::Extend(e) => ok_extend(e), MessageItem::Oneof(o) => ok_oneof(o),
        },
        legal_items(sx, b.items, k + 1) == (legal_items(sx, b.items, k) && match b.items@[k] {
            MessageItem::Field(f) => legal_field(sx, FieldScope::Message, f),
            MessageItem::Enum(e) => legal_enum(e),
            MessageItem::Message(m) => legal_body(sx, m.body),
            MessageItem::Extend(e) => legal_fields(sx, FieldScope::Extend, e.fields, e.fields@.len() as int),
            MessageItem::Oneof(o) => legal_oneof(sx, o),
        }),
        locs_items(lr, sx, p, b.items, k + 1) == locs_items(lr, sx, p, b.items, k).add(match b.items@[k] {
            MessageItem::Field(f) => locs_field(lr, sx, p, f, 2, nfields(b.items@, k), 3, nested_of(b.items@, k).len() as int),
            MessageItem::Enum(e) => locs_enum(lr, p.push(4).push(enums_of(b.items@, k).len() as i32), e),
            MessageItem::Message(m) => locs_msg(lr, sx, p.push(3).push(nested_of(b.items@, k).len() as i32), m),
            MessageItem::Extend(e) => locs_extend(lr, sx, p, e, 6, exts_of(b.items@, k).len() as int, 3, nested_of(b.items@, k).len() as int),
            MessageItem::Oneof(o) => locs_oneof(lr, sx, p, o, 8, reals(b.items@, k).len() as int, 2, nfields(b.items@, k), 3, nested_of(b.items@, k).len() as int),
        }),
{
    reveal_with_fuel(legal_items, 2); reveal_with_fuel(legal_item, 2); reveal_with_fuel(locs_items, 2); reveal_with_fuel(locs_item, 2);
    reveal_with_fuel(ok_body, 2); reveal_with_fuel(ok_item, 2);
}
pub proof fn lemma_body_defs(lr: LineResolver, sx: Syntax, p: Seq<i32>, b: MessageBody)
    ensures
        ok_body(b) ==> {
            let n = b.items@.len() as int;
            &&& few(n)
            &&& few(nfields(b.items@, n)) && few(nested_of(b.items@, n).len() as int) && few(exts_of(b.items@, n).len() as int)
            &&& ok_reserved(b.reserved@)
            &&& ok_opts(b.options@)
            &&& forall|i: int| 0 <= i < b.extensions@.len() ==> ok_ext1(#[trigger] b.extensions@[i])
            &&& few(extranges_of(b.extensions@, b.extensions@.len() as int).len() as int)
        },
        legal_items(sx, b.items, 0), locs_items(lr, sx, p, b.items, 0) == none(),
        legal_body(sx, b) == (legal_items(sx, b.items, b.items@.len() as int) && msg_ranges_ok(all_ranges(b.reserved@)) && legal_exts(b.extensions@) && legal_opts(b.options@)),
        locs_body(lr, sx, p, b) == locs_items(lr, sx, p, b.items, b.items@.len() as int)
            .add(locs_reserved(lr, p, 9, 10, b.reserved@, b.reserved@.len() as int))
            .add(locs_exts(lr, p.push(5), b.extensions@, b.extensions@.len() as int))
            .add(locs_opts(lr, p.push(7), b.options@, b.options@.len() as int)),
{
}
pub proof fn lemma_body_rel(sx: Syntax, b: MessageBody, d: DescriptorProto)
    requires br_fields(sx, b, d), nests_rel(sx, nested_of(b.items@, b.items@.len() as int), d.nested_type@),
        br_enums(b, d), br_exts(sx, b, d), br_reals(b, d), br_synths(sx, b, d), br_reserved(b, d), br_extranges(b, d), br_opts(b, d)
    ensures body_rel(sx, b, d)
{
    let xs = nested_of(b.items@, b.items@.len() as int);
    assert forall|i: int| 0 <= i < d.nested_type@.len() implies nest_rel(sx, xs[i], #[trigger] d.nested_type@[i]) by {}
}
pub proof fn lemma_nests_app(sx: Syntax, xs: Seq<NestX>, ys: Seq<NestX>, n0: Seq<DescriptorProto>, d: Seq<DescriptorProto>)
    requires nests_rel(sx, xs, n0), d.take(n0.len() as int) == n0, ntail_rel(sx, ys, d, n0.len() as int)
    ensures nests_rel(sx, xs + ys, d)
{
    let zs = xs + ys;
    assert forall|i: int| 0 <= i < zs.len() implies nest_rel(sx, zs[i], #[trigger] d[i]) by {
        if i < n0.len() { assert(d.take(n0.len() as int)[i] == d[i]); assert(zs[i] == xs[i]); } else { assert(zs[i] == ys[i - n0.len()]); }
    }
}
pub proof fn lemma_field_nest(sx: Syntax, xs: Seq<NestX>, f: Field, n0: Seq<DescriptorProto>, d: Seq<DescriptorProto>)
    requires nests_rel(sx, xs, n0), d.len() == n0.len() + nest_field(f).len(), d.take(n0.len() as int) == n0,
        f.kind is Map ==> entry_rel(f, d.last()), f.kind is Group ==> nest_rel(sx, NestX::Group(f), d.last()),
    ensures nests_rel(sx, xs + nest_field(f), d)
{
    lemma_ntail(sx, Seq::empty(), f, n0, d, n0.len() as int);
    assert(Seq::empty() + nest_field(f) =~= nest_field(f));
    lemma_nests_app(sx, xs, nest_field(f), n0, d);
}
pub proof fn lemma_tail_app(sx: Syntax, xs: Seq<FieldX>, s: Seq<Field>, o: Option<int>, x: Option<TypeName>, f0: Seq<FieldDescriptorProto>, d: Seq<FieldDescriptorProto>)
    requires fields_rel(sx, xs, f0), d.take(f0.len() as int) == f0, tail_rel(sx, s, s.len() as int, o, x, d, f0.len() as int)
    ensures fields_rel(sx, xs + with_oneof(s, s.len() as int, o, x), d)
{
    let zs = xs + with_oneof(s, s.len() as int, o, x);
    assert forall|i: int| 0 <= i < zs.len() implies field_rel(sx, zs[i], #[trigger] d[i]) by {
        if i < f0.len() { assert(d.take(f0.len() as int)[i] == d[i]); assert(zs[i] == xs[i]); } else { assert(zs[i] == FieldX { f: s[i - f0.len()], oneof: o, ext: x }); }
    }
}
pub proof fn lemma_fields_push(sx: Syntax, xs: Seq<FieldX>, y: FieldX, f0: Seq<FieldDescriptorProto>, e: FieldDescriptorProto)
    requires fields_rel(sx, xs, f0), field_rel(sx, y, e)
    ensures fields_rel(sx, xs + seq![y], f0.push(e))
{
    let zs = xs + seq![y];
    let d = f0.push(e);
    assert forall|i: int| 0 <= i < zs.len() implies field_rel(sx, zs[i], #[trigger] d[i]) by { if i < f0.len() { assert(zs[i] == xs[i]); assert(d[i] == f0[i]); } }
}
pub open spec fn reals_k(a: Seq<Oneof>, d: Seq<OneofDescriptorProto>) -> bool { forall|i: int| 0 <= i < a.len() ==> oneof_rel(a[i], #[trigger] d[i]) }
pub open spec fn legal_exts_k(s: Seq<Extensions>, k: int) -> bool { forall|i: int| 0 <= i < k ==> legal_ext1(#[trigger] s[i]) }
pub open spec fn legal_ext_j(e: Extensions, j: int) -> bool {
    (forall|i: int| 0 <= i < j ==> msg_range_ok(#[trigger] e.ranges@[i])) && (j > 0 ==> legal_obs(ol_seq(e.options), ol_seq(e.options).len() as int))
}
pub proof fn lemma_extranges_mono(s: Seq<Extensions>, k: int, n: int)
    requires 0 <= k <= n <= s.len()
    ensures extranges_of(s, k).len() <= extranges_of(s, n).len()
    decreases n
{
    if k < n { lemma_extranges_mono(s, k, n - 1); }
}
pub proof fn lemma_msgset(b: MessageBody, i: int)
    requires 0 <= i < b.options@.len(), has_name_spec(b.options@[i].body, "message_set_wire_format"@),
        forall|j: int| 0 <= j < i ==> !has_name_spec((#[trigger] b.options@[j]).body, "message_set_wire_format"@),
    ensures is_msgset(b) == (value_bool(b.options@[i].body.value) == Some(true))
{
    let s = bodies(b.options@);
    lemma_first_named(s, "message_set_wire_format"@);
    assert(s[i] == b.options@[i].body);
    let f = first_named(s, "message_set_wire_format"@);
    assert(f is Some);
    if f->0 < i { assert(s[f->0] == b.options@[f->0].body); }
    if f->0 > i { assert(!has_name_spec(s[i], "message_set_wire_format"@)); }
}
pub proof fn lemma_not_msgset(b: MessageBody)
    requires forall|j: int| 0 <= j < b.options@.len() ==> !has_name_spec((#[trigger] b.options@[j]).body, "message_set_wire_format"@),
    ensures !is_msgset(b)
{
    let s = bodies(b.options@);
    lemma_first_named(s, "message_set_wire_format"@);
    let f = first_named(s, "message_set_wire_format"@);
    if f is Some { assert(s[f->0] == b.options@[f->0].body); }
}
// ------------------------------------------------------------ files
pub open spec fn fnested(s: Seq<FileItem>, k: int) -> Seq<NestX>
    decreases k
{
    if k <= 0 { Seq::empty() } else {
        fnested(s, k - 1) + (match s[k - 1] {
            FileItem::Message(m) => seq![NestX::Msg(m)],
            FileItem::Extend(e) => nest_fields(e.fields@, e.fields@.len() as int),
            _ => Seq::empty(),
        })
    }
}
pub open spec fn fexts(s: Seq<FileItem>, k: int) -> Seq<FieldX>
    decreases k
{
    if k <= 0 { Seq::empty() } else { fexts(s, k - 1) + (match s[k - 1] { FileItem::Extend(e) => with_oneof(e.fields@, e.fields@.len() as int, None, Some(e.extendee)), _ => Seq::empty() }) }
}
pub open spec fn fenums(s: Seq<FileItem>, k: int) -> Seq<Enum>
    decreases k
{
    if k <= 0 { Seq::empty() } else { match s[k - 1] { FileItem::Enum(e) => fenums(s, k - 1).push(e), _ => fenums(s, k - 1) } }
}
pub open spec fn fservices(s: Seq<FileItem>, k: int) -> Seq<Service>
    decreases k
{
    if k <= 0 { Seq::empty() } else { match s[k - 1] { FileItem::Service(e) => fservices(s, k - 1).push(e), _ => fservices(s, k - 1) } }
}
pub proof fn lemma_fitems_mono(s: Seq<FileItem>, k: int, n: int)
    requires 0 <= k <= n <= s.len()
    ensures fnested(s, k).len() <= fnested(s, n).len(), fexts(s, k).len() <= fexts(s, n).len(), fenums(s, k).len() <= k, fservices(s, k).len() <= k,
    decreases n
{
    if k < n { lemma_fitems_mono(s, k, n - 1); } else if k > 0 { lemma_fitems_mono(s, k - 1, n - 1); }
}
/// The positions of the imports of one kind.
pub open spec fn kind_idx(s: Seq<Import>, pb: bool, k: int) -> Seq<int>
    decreases k
{
    if k <= 0 { Seq::empty() } else { match s[k - 1].kind {
        Some((ImportKind::Public, _)) => if pb { kind_idx(s, pb, k - 1).push(k - 1) } else { kind_idx(s, pb, k - 1) },
        Some((ImportKind::Weak, _)) => if pb { kind_idx(s, pb, k - 1) } else { kind_idx(s, pb, k - 1).push(k - 1) },
        None => kind_idx(s, pb, k - 1),
    } }
}
pub proof fn lemma_kind_idx(s: Seq<Import>, pb: bool, k: int)
    ensures kind_idx(s, pb, k).len() <= if k < 0 { 0 } else { k },
    decreases k
{
    if k > 0 { lemma_kind_idx(s, pb, k - 1); }
}
pub open spec fn deps_rel(s: Seq<Import>, k: int, d: Seq<String>) -> bool { d.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] d[i])@ == s[i].value@ }
pub open spec fn locs_import(lr: LineResolver, p: Seq<i32>, s: Seq<Import>, i: int) -> Locs {
    none().insert(lc(lr, p + seq![3i32, i as i32], s[i].span, s[i].comments))
        .add(match s[i].kind {
            Some((ImportKind::Public, x)) => none().insert(lp(lr, p + seq![10i32, kind_idx(s, true, i).len() as i32], x)),
            Some((ImportKind::Weak, x)) => none().insert(lp(lr, p + seq![11i32, kind_idx(s, false, i).len() as i32], x)),
            None => none(),
        })
}
pub open spec fn locs_imports(lr: LineResolver, p: Seq<i32>, s: Seq<Import>, k: int) -> Locs
    decreases k
{
    if k <= 0 { none() } else { locs_imports(lr, p, s, k - 1).add(locs_import(lr, p, s, k - 1)) }
}
pub open spec fn locs_fitem(lr: LineResolver, sx: Syntax, p: Seq<i32>, s: Seq<FileItem>, i: int) -> Locs {
    match s[i] {
        FileItem::Message(m) => locs_msg(lr, sx, p.push(4).push(fnested(s, i).len() as i32), m),
        FileItem::Enum(e) => locs_enum(lr, p.push(5).push(fenums(s, i).len() as i32), e),
        FileItem::Service(e) => locs_service(lr, p.push(6).push(fservices(s, i).len() as i32), e),
        FileItem::Extend(e) => locs_extend(lr, sx, p, e, 7, fexts(s, i).len() as int, 4, fnested(s, i).len() as int),
    }
}
pub open spec fn locs_fitems(lr: LineResolver, sx: Syntax, p: Seq<i32>, s: Seq<FileItem>, k: int) -> Locs
    decreases k
{
    if k <= 0 { none() } else { locs_fitems(lr, sx, p, s, k - 1).add(locs_fitem(lr, sx, p, s, k - 1)) }
}
pub open spec fn locs_file(lr: LineResolver, p: Seq<i32>, f: ast::File) -> Locs {
    none().insert(lp(lr, p, f.span))
        .add(match f.package { Some(x) => none().insert(lc(lr, p.push(2), x.span, x.comments)), None => none() })
        .add(locs_imports(lr, p, f.imports@, f.imports@.len() as int))
        .add(locs_fitems(lr, f.syntax, p, f.items@, f.items@.len() as int))
        .add(locs_opts(lr, p.push(8), f.options@, f.options@.len() as int))
        .add(match f.syntax_span { Some((x, c)) => none().insert(lc(lr, p.push(12), x, c)), None => none() })
}
pub open spec fn ok_fitem(i: FileItem) -> bool {
    match i { FileItem::Message(m) => ok_message(m), FileItem::Enum(e) => ok_enum(e), FileItem::Service(e) => ok_service(e), FileItem::Extend(e) => ok_extend(e) }
}
pub open spec fn ok_import(i: Import) -> bool { sp(i.span) && (match i.kind { Some((_, x)) => sp(x), None => true }) }
pub open spec fn ok_file(f: ast::File) -> bool {
    &&& sp(f.span) && (match f.syntax_span { Some((x, _)) => sp(x), None => true })
    &&& (match f.package { Some(x) => sp(x.span) && full_ident_ok(x.name), None => true })
    &&& few(f.imports@.len() as int) && forall|i: int| 0 <= i < f.imports@.len() ==> ok_import(#[trigger] f.imports@[i])
    &&& few(f.items@.len() as int) && few(fnested(f.items@, f.items@.len() as int).len() as int) && few(fexts(f.items@, f.items@.len() as int).len() as int)
    &&& forall|i: int| 0 <= i < f.items@.len() ==> ok_fitem(#[trigger] f.items@[i])
    &&& ok_opts(f.options@)
}
pub open spec fn legal_fitem(sx: Syntax, i: FileItem) -> bool {
    match i { FileItem::Message(m) => legal_body(sx, m.body), FileItem::Enum(e) => legal_enum(e), FileItem::Service(e) => legal_service(e),
        FileItem::Extend(e) => legal_fields(sx, FieldScope::Extend, e.fields, e.fields@.len() as int) }
}
pub open spec fn legal_fitems(sx: Syntax, s: Seq<FileItem>, k: int) -> bool { forall|i: int| 0 <= i < k ==> legal_fitem(sx, #[trigger] s[i]) }
pub open spec fn legal_file(f: ast::File) -> bool { legal_fitems(f.syntax, f.items@, f.items@.len() as int) && legal_opts(f.options@) }
pub open spec fn services_rel(a: Seq<Service>, d: Seq<ServiceDescriptorProto>) -> bool { d.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> service_rel(a[i], #[trigger] d[i]) }
pub open spec fn file_opts_rel(s: Seq<OptionBody>, o: Option<FileOptions>) -> bool {
    match o { None => s.len() == 0, Some(x) => s.len() > 0 && uos_rel(s, x.uninterpreted_option@)
        && x.java_package is None && x.java_outer_classname is None && x.java_multiple_files is None && x.java_generate_equals_and_hash is None
        && x.java_string_check_utf8 is None && x.optimize_for is None && x.go_package is None && x.cc_generic_services is None
        && x.java_generic_services is None && x.py_generic_services is None && x.php_generic_services is None && x.deprecated is None
        && x.cc_enable_arenas is None && x.objc_class_prefix is None && x.csharp_namespace is None && x.swift_prefix is None
        && x.php_class_prefix is None && x.php_namespace is None && x.php_metadata_namespace is None && x.ruby_package is None }
}
pub open spec fn fl_name(name: Seq<char>, d: FileDescriptorProto) -> bool { is_name(d.name, name) }
pub open spec fn fl_package(f: ast::File, d: FileDescriptorProto) -> bool { match f.package { Some(x) => is_name(d.package, full_ident_text(x.name)), None => d.package is None } }
pub open spec fn fl_syntax(f: ast::File, d: FileDescriptorProto) -> bool { if f.syntax is Proto2 { d.syntax is None } else { is_name(d.syntax, "proto3"@) } }
pub open spec fn fl_imports(f: ast::File, d: FileDescriptorProto) -> bool {
    deps_rel(f.imports@, f.imports@.len() as int, d.dependency@)
    && ints(d.public_dependency@) == kind_idx(f.imports@, true, f.imports@.len() as int) && ints(d.weak_dependency@) == kind_idx(f.imports@, false, f.imports@.len() as int)
}
pub open spec fn fl_messages(f: ast::File, d: FileDescriptorProto) -> bool { nests_rel(f.syntax, fnested(f.items@, f.items@.len() as int), d.message_type@) }
pub open spec fn fl_enums(f: ast::File, d: FileDescriptorProto) -> bool { enums_rel(fenums(f.items@, f.items@.len() as int), d.enum_type@) }
pub open spec fn fl_services(f: ast::File, d: FileDescriptorProto) -> bool { services_rel(fservices(f.items@, f.items@.len() as int), d.service@) }
pub open spec fn fl_exts(f: ast::File, d: FileDescriptorProto) -> bool { fields_rel(f.syntax, fexts(f.items@, f.items@.len() as int), d.extension@) }
pub open spec fn fl_opts(f: ast::File, d: FileDescriptorProto) -> bool { file_opts_rel(bodies(f.options@), d.options) }
pub open spec fn file_rel(f: ast::File, name: Seq<char>, d: FileDescriptorProto) -> bool {
    fl_name(name, d) && fl_package(f, d) && fl_syntax(f, d) && fl_imports(f, d) && fl_messages(f, d) && fl_enums(f, d) && fl_services(f, d) && fl_exts(f, d) && fl_opts(f, d)
}
pub open spec fn paths_sorted(s: Seq<Location>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lex_le((#[trigger] s[i]).path@, (#[trigger] s[j]).path@) }
/// A reordering has the same locations.
pub proof fn lemma_locs_perm(a: Seq<Location>, b: Seq<Location>)
    requires a.to_multiset() == b.to_multiset()
    ensures locs_of(a) == locs_of(b)
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if a.len() == 0 {
        assert(b.len() == b.to_multiset().len());
        assert(a.len() == a.to_multiset().len());
        assert(a =~= b);
    } else {
        let n = a.len() - 1;
        let x = a[n];
        assert(a.to_multiset().count(x) > 0) by { assert(a.contains(x)); }
        assert(b.contains(x));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        let a1 = a.remove(n); let b1 = b.remove(j);
        assert(a1.to_multiset() =~= a.to_multiset().remove(x));
        assert(b1.to_multiset() =~= b.to_multiset().remove(x));
        lemma_locs_perm(a1, b1);
        let va = Seq::new(a.len(), |i: int| loc_view(a[i])); let vb = Seq::new(b.len(), |i: int| loc_view(b[i]));
        let va1 = Seq::new(a1.len(), |i: int| loc_view(a1[i])); let vb1 = Seq::new(b1.len(), |i: int| loc_view(b1[i]));
        assert(va.remove(n) =~= va1);
        assert(vb.remove(j) =~= vb1);
        assert(va.contains(va[n])); assert(vb.contains(vb[j]));
        assert(va.to_multiset() =~= va1.to_multiset().insert(loc_view(x)));
        assert(vb.to_multiset() =~= vb1.to_multiset().insert(loc_view(x)));
    }
}
pub broadcast proof fn lemma_perm_b(a: Seq<Location>, b: Seq<Location>)
    ensures #[trigger] a.to_multiset() == #[trigger] b.to_multiset() ==> locs_of(a) == locs_of(b)
{ if a.to_multiset() == b.to_multiset() { lemma_locs_perm(a, b); } }
pub broadcast proof fn lemma_none_add(x: Locs) ensures #[trigger] none().add(x) == x { assert(none().add(x) =~= x); }
pub broadcast proof fn lemma_none_locs() ensures #[trigger] locs_of(Seq::empty()) == none() {
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let s = Seq::<Location>::empty();
    assert(Seq::new(s.len(), |i: int| loc_view(s[i])) =~= Seq::empty());
    assert(Seq::<LocV>::empty().to_multiset() =~= none());
}
@fn generate::Context::pop_path [C10]
requires
- [C01,C10] n <= old(self).path@.len()
ensures
- [C10] final(self).path@ == old(self).path@.take(old(self).path@.len() - n)
- [C02] final(self).errors@ == old(self).errors@
- [C10] final(self).locations@ == old(self).locations@ && final(self).syntax == old(self).syntax && final(self).lines == old(self).lines
@fn generate::Context::add_span [C09,C10,C11]
requires
- [C01] old(self).lines.ready() && sp(span)
ensures
- [C09,C10,C11] final(self).locs() == old(self).locs().insert(lp(old(self).lines, old(self).path@, span))
- [C02] final(self).errors@ == old(self).errors@
- [C10] final(self).path@ == old(self).path@ && final(self).syntax == old(self).syntax && final(self).lines == old(self).lines
@ghost end [C09,C10,C11,C16]
 proof { broadcast use lemma_locs_push; let l = self.locations@.last(); assert(loc_view(l) == lp(old(self).lines, old(self).path@, a_span)) by { assert(loc_view(l).det =~= Seq::empty()); } }
@ghost start
 let ghost a_span = span;
@fn generate::Context::add_comments [C09,C10,C11,C16]
requires
- [C01] old(self).lines.ready() && sp(span)
ensures
- [C09,C10,C11,C16] final(self).locs() == old(self).locs().insert(lc(old(self).lines, old(self).path@, span, comments))
- [C02] final(self).errors@ == old(self).errors@
- [C10] final(self).path@ == old(self).path@ && final(self).syntax == old(self).syntax && final(self).lines == old(self).lines
@ghost end [C09,C10,C11,C16]
 proof { broadcast use lemma_locs_push; let l = self.locations@.last(); assert(loc_view(l) == lc(old(self).lines, old(self).path@, a_span, a_com)); }
@ghost start
 let ghost a_span = span; let ghost a_com = comments;
@fn generate::Context::add_span_for [C09,C10,C11]
requires
- [C01] old(self).lines.ready() && sp(span)
ensures
- [C09,C10,C11] final(self).locs() == old(self).locs().insert(lp(old(self).lines, old(self).path@ + path_items@, span))
- [C02] final(self).errors@ == old(self).errors@
- [C10] final(self).path@ == old(self).path@ && final(self).syntax == old(self).syntax && final(self).lines == old(self).lines
@ghost end [C10]
 proof { assert(self.path@ =~= old(self).path@); }
@fn generate::Context::add_comments_for [C09,C10,C11,C16]
requires
- [C01] old(self).lines.ready() && sp(span)
ensures
- [C09,C10,C11,C16] final(self).locs() == old(self).locs().insert(lc(old(self).lines, old(self).path@ + path_items@, span, comments))
- [C02] final(self).errors@ == old(self).errors@
- [C10] final(self).path@ == old(self).path@ && final(self).syntax == old(self).syntax && final(self).lines == old(self).lines
@ghost end [C10]
 proof { assert(self.path@ =~= old(self).path@); }
@fn generate::take_option [C06,C17]
requires
- [C01] ok_olist(*old(options))
ensures
- [C06,C17] res == taken(*old(options), name@)
- [C06,C17] ol_seq(*final(options)) == rest(ol_seq(*old(options)), name@)
- [C10,C17] ol_span(*final(options)) == ol_span(*old(options))
- ok_olist(*final(options))
- res is Some ==> ok_ob(res->0)
@closure 0
(&OptionBody) -> (b: bool) ensures b == has_name_spec(*$1, name@)
@ghost start
 proof { lemma_first_named(ol_seq(*options), name@); }
@ghost end [C06,C17]
 proof { assert(ol_seq(*options) =~= rest(ol_seq(*old(options)), name@)); }
@fn generate::Context::generate_message_number [C04,C05]
@attr #[verifier::spinoff_prover]
ensures
- [C04,C05] final(self).errors@.len() == old(self).errors@.len() ==> msg_num_ok(ast) && res is Some && res->0 as int == ast.val()
- [C04,C05] msg_num_ok(ast) ==> final(self).errors@.len() == old(self).errors@.len()
- [C04,C05] res is Some ==> 1 <= res->0 <= 536870911
- [C02] frame(*old(self), *final(self))
- [C10] final(self).path@ == old(self).path@ && final(self).locations@ == old(self).locations@
@fn generate::Context::generate_enum_number [C04,C05]
@attr #[verifier::spinoff_prover]
ensures
- [C04,C05] final(self).errors@.len() == old(self).errors@.len() ==> enum_num_ok(ast) && res is Some && res->0 as int == ast.val()
- [C04,C05] enum_num_ok(ast) ==> final(self).errors@.len() == old(self).errors@.len()
- [C02] frame(*old(self), *final(self))
- [C10] final(self).path@ == old(self).path@ && final(self).locations@ == old(self).locations@
@fn generate::Context::generate_string_option_value [C06,C17]
@attr #[verifier::spinoff_prover]
ensures
- [C06,C17] same_errs(*old(self), *final(self)) ==> value is String && valid_utf8(value->String_0.value@) && res is Some && encode_utf8(res->0@) == value->String_0.value@
- [C06,C17] value is String && valid_utf8(value->String_0.value@) ==> same_errs(*old(self), *final(self))
- [C02] frame(*old(self), *final(self))
- [C10] final(self).path@ == old(self).path@ && final(self).locations@ == old(self).locations@
@fn generate::Context::generate_field_default_value [C06]
@attr #[verifier::spinoff_prover]
requires
- [C01] ty is Some && !(ty->0 is Message) && !(ty->0 is Group) && !(ty->0 is Enum)
ensures
- [C06] same_errs(*old(self), *final(self)) ==> default_legal(type_number(ty->0), value) && res is Some && default_rel(type_number(ty->0), value, res->0@)
- [C06] default_legal(type_number(ty->0), value) ==> same_errs(*old(self), *final(self))
- [C02] frame(*old(self), *final(self))
- [C10] final(self).path@ == old(self).path@ && final(self).locations@ == old(self).locations@
@fn generate::Context::generate_field_label [C12]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).lines.ready() && (label is Some ==> sp((label->0).1)) && sp(field_span)
ensures
- [C12] same_errs(*old(self), *final(self)) ==> legal_label(old(self).syntax, scope, label)
- [C12] same_errs(*old(self), *final(self)) ==> res is Some && proto_label_number(res->0) == written_label(label)
- [C12] legal_label(old(self).syntax, scope, label) ==> same_errs(*old(self), *final(self))
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11] same_errs(*old(self), *final(self)) ==> final(self).locs() == (match label { Some((_, s)) => old(self).locs().insert(lp(old(self).lines, old(self).path@ + seq![4i32], s)), None => old(self).locs() })
- [C10] final(self).path@ == old(self).path@
@fn generate::Context::generate_message_reserved_range [C05,C10]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).lines.ready() && ok_range(range)
ensures
- [C05] same_errs(*old(self), *final(self)) ==> msg_range_ok(range)
- [C05] same_errs(*old(self), *final(self)) ==> msg_range_rel(range, is_message_set, res.start, res.end)
- [C05] msg_range_ok(range) ==> same_errs(*old(self), *final(self))
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11] final(self).locs() == old(self).locs().add(locs_range(old(self).lines, old(self).path@, range))
- [C10] final(self).path@ == old(self).path@
@ghost end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= old(self).locs().add(locs_range(old(self).lines, old(self).path@, range))); }
@fn generate::Context::generate_enum_reserved_range [C05,C10]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).lines.ready() && ok_range(range)
ensures
- [C05] same_errs(*old(self), *final(self)) ==> enum_range_ok(range)
- [C05] same_errs(*old(self), *final(self)) ==> enum_range_rel(range, res.start, res.end)
- [C05] enum_range_ok(range) ==> same_errs(*old(self), *final(self))
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11] final(self).locs() == old(self).locs().add(locs_range(old(self).lines, old(self).path@, range))
- [C10] final(self).path@ == old(self).path@
@ghost end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= old(self).locs().add(locs_range(old(self).lines, old(self).path@, range))); }
@fn generate::Context::generate_option [C17]
@attr #[verifier::spinoff_prover]
requires
- [C01] ok_ob(ast)
ensures
- [C17] same_errs(*old(self), *final(self)) ==> legal_value(ast.value)
- [C17] same_errs(*old(self), *final(self)) ==> uo_rel(ast, res)
- [C17] legal_value(ast.value) ==> same_errs(*old(self), *final(self))
- [C02] frame(*old(self), *final(self))
- [C10] final(self).path@ == old(self).path@ && final(self).locations@ == old(self).locations@
@ghost start
 let ghost a0 = ast;
@loop 0
invariant
- it0.seq() == a0.name@
- ok_ob(a0)
- [C17] name@.len() == it0.index()
- [C17] forall|i: int| 0 <= i < name@.len() ==> part_rel(a0.name@[i], #[trigger] name@[i])
- *self == *old(self)
@fn generate::Context::generate_options [C17]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).lines.ready() && ok_opts(ast@)
ensures
- [C17] same_errs(*old(self), *final(self)) ==> legal_obs(bodies(ast@), ast@.len() as int)
- [C17] same_errs(*old(self), *final(self)) ==> uopts_rel(bodies(ast@), res)
- [C17] legal_obs(bodies(ast@), ast@.len() as int) ==> same_errs(*old(self), *final(self))
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11,C16] final(self).locs() == old(self).locs().add(locs_opts(old(self).lines, old(self).path@, ast@, ast@.len() as int))
- [C10] final(self).path@ == old(self).path@
@loop 0
invariant
- it0.seq() == ast@
- ok_opts(ast@) && old(self).lines.ready()
- options@.len() == it0.index()
- [C17] same_errs(*old(self), *self) ==> legal_obs(bodies(ast@), it0.index() as int)
- [C17] legal_obs(bodies(ast@), it0.index() as int) ==> same_errs(*old(self), *self)
- [C17] same_errs(*old(self), *self) ==> forall|i: int| 0 <= i < it0.index() ==> uo_rel(bodies(ast@)[i], #[trigger] options@[i])
- frame(*old(self), *self)
- [C09,C10,C11,C16] self.locs() == old(self).locs().add(locs_opts(old(self).lines, old(self).path@, ast@, it0.index() as int))
- [C10] self.path@ == old(self).path@
@ghost loop 0 end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= old(self).locs().add(locs_opts(old(self).lines, old(self).path@, ast@, it0.index() as int + 1))); assert(bodies(ast@)[it0.index() as int] == ast@[it0.index() as int].body); }
@ghost start
 proof { assert(old(self).locs().add(none()) =~= old(self).locs()); }
@fn generate::Context::generate_options_list [C17]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).lines.ready() && ok_olist(ast)
ensures
- [C17] same_errs(*old(self), *final(self)) ==> legal_obs(ol_seq(ast), ol_seq(ast).len() as int)
- [C17] same_errs(*old(self), *final(self)) ==> uopts_rel(ol_seq(ast), res)
- [C17] legal_obs(ol_seq(ast), ol_seq(ast).len() as int) ==> same_errs(*old(self), *final(self))
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11] final(self).locs() == old(self).locs().add(locs_olist(old(self).lines, old(self).path@, ol_span(ast), ol_seq(ast)))
- [C10] final(self).path@ == old(self).path@
@ghost start
 let ghost a0 = ol_seq(ast);
 proof { assert(old(self).locs().add(none()) =~= old(self).locs()); }
@ghost before loop 0
 let ghost l1 = self.locs();
 proof { assert(l1.add(none()) =~= l1); }
@loop 0
invariant
- it0.seq() == a0
- ok_obs(a0) && old(self).lines.ready()
- options@.len() == it0.index()
- [C17] same_errs(*old(self), *self) ==> legal_obs(a0, it0.index() as int)
- [C17] legal_obs(a0, it0.index() as int) ==> same_errs(*old(self), *self)
- [C17] same_errs(*old(self), *self) ==> forall|i: int| 0 <= i < it0.index() ==> uo_rel(a0[i], #[trigger] options@[i])
- frame(*old(self), *self)
- [C09,C10,C11] self.locs() == l1.add(locs_obs(old(self).lines, old(self).path@, a0, it0.index() as int))
- [C10] self.path@ == old(self).path@
@ghost loop 0 end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= l1.add(locs_obs(old(self).lines, old(self).path@, a0, it0.index() as int + 1))); }
@ghost end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= old(self).locs().add(locs_olist(old(self).lines, old(self).path@, ol_span(ast), a0))); }
@fn generate::Context::generate_enum_value_descriptor [C04,C17,C18]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).lines.ready() && ok_ev(ast)
ensures
- [C04,C17] same_errs(*old(self), *final(self)) ==> legal_ev(ast)
- [C18] same_errs(*old(self), *final(self)) ==> is_name(res.name, ast.name.value@)
- [C04,C18] same_errs(*old(self), *final(self)) ==> is_num(res.number, ast.number.val())
- [C17] same_errs(*old(self), *final(self)) ==> enumvalue_opts_rel(ol_seq(ast.options), res.options)
- [C04,C17] legal_ev(ast) ==> same_errs(*old(self), *final(self))
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11,C16] final(self).locs() == old(self).locs().add(locs_ev(old(self).lines, old(self).path@, ast))
- [C10] final(self).path@ == old(self).path@
@ghost end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= old(self).locs().add(locs_ev(old(self).lines, old(self).path@, ast))); }
@fn generate::Context::generate_enum_descriptor [C05,C17,C18]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).lines.ready() && ok_enum(ast)
ensures
- [C04,C05,C17] same_errs(*old(self), *final(self)) ==> legal_enum(ast)
- [C18] same_errs(*old(self), *final(self)) ==> is_name(res.name, ast.name.value@)
- [C04,C17,C18] same_errs(*old(self), *final(self)) ==> evs_rel(ast.values@, res.value@, ast.values@.len() as int)
- [C05] same_errs(*old(self), *final(self)) ==> enum_ranges_rel(all_ranges(ast.reserved@), res.reserved_range@)
- [C05] same_errs(*old(self), *final(self)) ==> strs_rel(all_names(ast.reserved@), res.reserved_name@)
- [C17] same_errs(*old(self), *final(self)) ==> enum_opts_rel(bodies(ast.options@), res.options)
- [C04,C05,C17] legal_enum(ast) ==> same_errs(*old(self), *final(self))
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11,C16] final(self).locs() == old(self).locs().add(locs_enum(old(self).lines, old(self).path@, ast))
- [C10] final(self).path@ == old(self).path@
@ghost start
 let ghost a0 = ast; let ghost pp = self.path@; let ghost lr = self.lines;
@ghost before loop 0
 let ghost l0 = self.locs();
 proof { assert(l0.add(none()) =~= l0); }
@loop 0
invariant
- it0.seq() == a0.values@ && ok_enum(a0) && lr.ready()
- [C10] self.path@ == pp
- frame(*old(self), *self) && lr == self.lines
- [C18] value@.len() == it0.index()
- [C04,C17] same_errs(*old(self), *self) ==> legal_evs(a0.values@, it0.index() as int)
- [C04,C17] legal_evs(a0.values@, it0.index() as int) ==> same_errs(*old(self), *self)
- [C04,C17,C18] same_errs(*old(self), *self) ==> evs_rel(a0.values@, value@, it0.index() as int)
- [C09,C10,C11,C16] self.locs() == l0.add(locs_evs(lr, pp, a0.values@, it0.index() as int))
@ghost loop 0 end [C09,C10,C11,C16]
 proof { assert(pp + seq![2i32, it0.index() as i32] == pp.push(2).push(it0.index() as i32)); assert(self.locs() =~= l0.add(locs_evs(lr, pp, a0.values@, it0.index() as int + 1))); }
@ghost before loop 1
 let ghost l1 = self.locs(); let ghost e1 = *self;
 proof { assert(l1.add(none()) =~= l1); }
@loop 1
invariant
- it1.seq() == a0.reserved@ && ok_enum(a0) && lr.ready()
- [C10] self.path@ == pp
- frame(e1, *self) && lr == self.lines
- [C05] reserved_range@.len() == ranges_of(a0.reserved@, it1.index() as int).len()
- [C05] reserved_name@.len() == names_of(a0.reserved@, it1.index() as int).len()
- [C05] same_errs(e1, *self) ==> enum_ranges_ok(ranges_of(a0.reserved@, it1.index() as int))
- [C05] enum_ranges_ok(ranges_of(a0.reserved@, it1.index() as int)) ==> same_errs(e1, *self)
- [C05] same_errs(e1, *self) ==> enum_ranges_rel(ranges_of(a0.reserved@, it1.index() as int), reserved_range@)
- [C05] strs_rel(names_of(a0.reserved@, it1.index() as int), reserved_name@)
- [C09,C10,C11,C16] self.locs() == l1.add(locs_reserved(lr, pp, 4, 5, a0.reserved@, it1.index() as int))
@ghost loop 1 start
 let ghost e2 = *self; let ghost l2 = self.locs(); let ghost k1 = it1.index() as int;
 proof { lemma_reserved_mono(a0.reserved@, k1 + 1, a0.reserved@.len() as int); }
@ghost before loop 2
 let ghost l3 = self.locs(); let ghost r2 = a0.reserved@[k1].kind->Ranges_0@; let ghost b2 = ranges_of(a0.reserved@, k1);
 proof { assert(l3.add(none()) =~= l3); assert(b2 + r2.take(0) =~= b2); }
@loop 2
invariant
- it2.seq() == r2 && b2.len() + r2.len() <= i32::MAX && lr.ready()
- forall|i: int| 0 <= i < r2.len() ==> ok_range(#[trigger] r2[i])
- [C10] self.path@ == pp.push(4)
- frame(e1, *self) && lr == self.lines
- [C05] reserved_range@.len() == b2.len() + it2.index()
- [C05] same_errs(e1, *self) ==> enum_ranges_ok(b2 + r2.take(it2.index() as int))
- [C05] enum_ranges_ok(b2 + r2.take(it2.index() as int)) ==> same_errs(e1, *self)
- [C05] same_errs(e1, *self) ==> enum_ranges_rel(b2 + r2.take(it2.index() as int), reserved_range@)
- [C09,C10,C11,C16] self.locs() == l3.add(locs_ranges(lr, pp.push(4), b2.len() as int, r2, it2.index() as int))
@ghost loop 2 start
 proof {
   let j = it2.index() as int;
   let x = b2 + r2.take(j); let y = b2 + r2.take(j + 1);
   assert(y.drop_last() =~= x && y.last() == r2[j] && y =~= x.push(r2[j]));
   assert(enum_ranges_ok(y) <==> enum_ranges_ok(x) && enum_range_ok(r2[j])) by { assert(y[x.len() as int] == r2[j]); assert(forall|i: int| 0 <= i < x.len() ==> x[i] == #[trigger] y[i]); assert(forall|i: int| 0 <= i < x.len() ==> y[i] == #[trigger] x[i]); }
 }
@ghost loop 2 end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= l3.add(locs_ranges(lr, pp.push(4), b2.len() as int, r2, it2.index() as int + 1))); }
@ghost after loop 2
 proof { assert(r2.take(r2.len() as int) =~= r2); }
@ghost before loop 3
 let ghost l3 = self.locs(); let ghost r3 = a0.reserved@[k1].kind->Names_0@; let ghost b3 = names_of(a0.reserved@, k1); let ghost e3 = *self;
 proof { assert(l3.add(none()) =~= l3); assert(b3 + r3.take(0) =~= b3); }
@loop 3
invariant
- it3.seq() == r3 && b3.len() + r3.len() <= i32::MAX && lr.ready()
- forall|i: int| 0 <= i < r3.len() ==> sp((#[trigger] r3[i]).span)
- [C10] self.path@ == pp.push(5)
- frame(e3, *self) && lr == self.lines && same_errs(e3, *self)
- [C05] reserved_name@.len() == b3.len() + it3.index()
- [C05] strs_rel(b3 + r3.take(it3.index() as int), reserved_name@)
- [C09,C10,C11,C16] self.locs() == l3.add(locs_names(lr, pp.push(5), b3.len() as int, r3, it3.index() as int))
@ghost loop 3 start
 proof {
   let j = it3.index() as int;
   assert((b3 + r3.take(j + 1)) =~= (b3 + r3.take(j)).push(r3[j]));
 }
@ghost loop 3 end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= l3.add(locs_names(lr, pp.push(5), b3.len() as int, r3, it3.index() as int + 1))); }
@ghost after loop 3
 proof { assert(r3.take(r3.len() as int) =~= r3); }
@ghost loop 1 end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= l1.add(locs_reserved(lr, pp, 4, 5, a0.reserved@, k1 + 1))); }
@ghost end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= old(self).locs().add(locs_enum(lr, pp, a0))); }
@fn generate::Context::generate_method_descriptor [C17,C18]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).lines.ready() && ok_method(ast)
ensures
- [C17] same_errs(*old(self), *final(self)) <==> legal_opts(ast.options@)
- [C18] same_errs(*old(self), *final(self)) ==> is_name(res.name, ast.name.value@)
- [C18] same_errs(*old(self), *final(self)) ==> is_name(res.input_type, type_name_text(ast.input_ty)) && is_name(res.output_type, type_name_text(ast.output_ty))
- [C18] same_errs(*old(self), *final(self)) ==> flag_rel(ast.client_streaming, res.client_streaming) && flag_rel(ast.server_streaming, res.server_streaming)
- [C17] same_errs(*old(self), *final(self)) ==> method_opts_rel(bodies(ast.options@), res.options)
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11,C16] final(self).locs() == old(self).locs().add(locs_method(old(self).lines, old(self).path@, ast))
- [C10] final(self).path@ == old(self).path@
@ghost end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= old(self).locs().add(locs_method(old(self).lines, old(self).path@, ast))); }
@fn generate::Context::generate_service_descriptor [C17,C18]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).lines.ready() && ok_service(service)
ensures
- [C17] same_errs(*old(self), *final(self)) <==> legal_service(service)
- [C18] same_errs(*old(self), *final(self)) ==> is_name(res.name, service.name.value@)
- [C17,C18] same_errs(*old(self), *final(self)) ==> methods_rel(service.methods@, res.method@, service.methods@.len() as int)
- [C17] same_errs(*old(self), *final(self)) ==> service_opts_rel(bodies(service.options@), res.options)
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11,C16] final(self).locs() == old(self).locs().add(locs_service(old(self).lines, old(self).path@, service))
- [C10] final(self).path@ == old(self).path@
@ghost start
 let ghost a0 = service; let ghost pp = self.path@; let ghost lr = self.lines;
@ghost before loop 0
 let ghost l0 = self.locs();
 proof { assert(l0.add(none()) =~= l0); }
@loop 0
invariant
- it0.seq() == a0.methods@ && ok_service(a0) && lr.ready()
- [C10] self.path@ == pp.push(2)
- frame(*old(self), *self) && lr == self.lines
- [C18] method@.len() == it0.index()
- [C17] same_errs(*old(self), *self) <==> legal_methods(a0.methods@, it0.index() as int)
- [C17,C18] same_errs(*old(self), *self) ==> methods_rel(a0.methods@, method@, it0.index() as int)
- [C09,C10,C11,C16] self.locs() == l0.add(locs_methods(lr, pp, a0.methods@, it0.index() as int))
@ghost loop 0 end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= l0.add(locs_methods(lr, pp, a0.methods@, it0.index() as int + 1))); }
@ghost end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= old(self).locs().add(locs_service(lr, pp, a0))); }
@fn generate::Context::generate_message_extension_range [C05,C10,C17]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).lines.ready() && ok_range(range) && ok_olist(options)
ensures
- [C05] same_errs(*old(self), *final(self)) ==> msg_range_ok(range)
- [C17] same_errs(*old(self), *final(self)) ==> legal_obs(ol_seq(options), ol_seq(options).len() as int)
- [C05] same_errs(*old(self), *final(self)) ==> msg_range_rel(range, is_message_set, res.start, res.end)
- [C17] same_errs(*old(self), *final(self)) ==> ext_opts_rel(ol_seq(options), res.options)
- [C05,C17] msg_range_ok(range) && legal_obs(ol_seq(options), ol_seq(options).len() as int) ==> same_errs(*old(self), *final(self))
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11] final(self).locs() == old(self).locs().add(locs_range(old(self).lines, old(self).path@, range)).add(locs_olist(old(self).lines, old(self).path@.push(3), ol_span(options), ol_seq(options)))
- [C10] final(self).path@ == old(self).path@
@ghost end [C09,C10,C11]
 proof { assert(self.locs() =~= old(self).locs().add(locs_range(old(self).lines, old(self).path@, range)).add(locs_olist(old(self).lines, old(self).path@.push(3), ol_span(a_opt), ol_seq(a_opt)))); }
@ghost start
 let ghost a_opt = options;
@fn generate::Context::generate_field_descriptor [C04,C06,C10,C12,C13,C14,C17,C18]
@attr #[verifier::spinoff_prover]
@attr #[verifier::rlimit(240)]
requires
- [C01] old(self).lines.ready() && ok_field(ast)
- [C01] few(field_index as int) && few(old(messages)@.len() as int + nest_field(ast).len()) && few(old(oneofs)@.len() as int)
- [C01] oneof_tag is Some <==> scope is Message
ensures
- [C04] same_errs(*old(self), *final(self)) ==> msg_num_ok(ast.number)
- [C06] same_errs(*old(self), *final(self)) ==> legal_default(old(self).syntax, ast)
- [C06] same_errs(*old(self), *final(self)) ==> legal_json(ast)
- [C12] same_errs(*old(self), *final(self)) ==> legal_flabel(old(self).syntax, scope, ast)
- [C12] same_errs(*old(self), *final(self)) ==> legal_group(old(self).syntax, ast)
- [C14] same_errs(*old(self), *final(self)) ==> legal_key(ast)
- [C17] same_errs(*old(self), *final(self)) ==> legal_fopts(ast)
- same_errs(*old(self), *final(self)) ==> legal_field(old(self).syntax, scope, ast)
- legal_field(old(self).syntax, scope, ast) ==> same_errs(*old(self), *final(self))
- [C18] same_errs(*old(self), *final(self)) ==> fr_name(ast, res)
- [C04,C18] same_errs(*old(self), *final(self)) ==> fr_number(ast, res)
- [C12,C18] same_errs(*old(self), *final(self)) ==> fr_label(ast, res)
- [C14,C18] same_errs(*old(self), *final(self)) ==> fr_type(ast, res)
- [C06] same_errs(*old(self), *final(self)) ==> fr_default(ast, res)
- [C06,C18] same_errs(*old(self), *final(self)) ==> fr_json(ast, res)
- [C17] same_errs(*old(self), *final(self)) ==> fr_opts(ast, res)
- [C12,C13] fr_p3(old(self).syntax, ast, res)
- [C13] res.oneof_index == (if written_proto3_optional(old(self).syntax, ast) && scope is Message { Some(old(oneofs)@.len() as i32) } else { None::<i32> })
- [C18] res.extendee is None
- [C13] if written_proto3_optional(old(self).syntax, ast) && scope is Message { final(oneofs)@.len() == old(oneofs)@.len() + 1 && final(oneofs)@.drop_last() == old(oneofs)@ && synth_rel(ast, final(oneofs)@.last()) } else { final(oneofs)@ == old(oneofs)@ }
- [C14] final(messages)@.len() == old(messages)@.len() + nest_field(ast).len()
- [C14] final(messages)@.take(old(messages)@.len() as int) == old(messages)@
- [C14] same_errs(*old(self), *final(self)) && ast.kind is Map ==> entry_rel(ast, final(messages)@.last())
- [C14] same_errs(*old(self), *final(self)) && ast.kind is Group ==> nest_rel(old(self).syntax, NestX::Group(ast), final(messages)@.last())
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11,C16] same_errs(*old(self), *final(self)) ==> final(self).locs() == old(self).locs().add(locs_field(old(self).lines, old(self).syntax, old(self).path@, ast, field_tag, field_index as int, message_tag, old(messages)@.len() as int))
- [C10] final(self).path@ == old(self).path@
decreases
- ast, 0nat
@ghost start
 hide(legal_field); hide(legal_body); hide(locs_field); hide(locs_body); hide(ok_field); hide(ok_body); hide(nest_rel); hide(body_rel);
 let ghost a0 = ast; let ghost pp = self.path@; let ghost lr = self.lines;
 proof { lemma_field_defs(ast, self.syntax, scope, lr, pp, field_tag, field_index as int, message_tag, messages@.len() as int); }
@ghost end [C14]
 proof { if a0.kind is Group { lemma_group_rel(old(self).syntax, a0, messages@.last()); } }
@ghost end [C09,C10,C11,C16]
 proof { if same_errs(*old(self), *self) {
   let want = old(self).locs().add(locs_field(lr, old(self).syntax, pp, a0, field_tag, field_index as int, message_tag, old(messages)@.len() as int));
   match a0.kind {
     FieldKind::Normal { ty, .. } => if ty is Named { assert(self.locs() =~= want); } else { assert(self.locs() =~= want); },
     FieldKind::Group { .. } => { assert(self.locs() =~= want); },
     FieldKind::Map { .. } => { assert(self.locs() =~= want); },
   }
   assert(self.locs() == want);
 } }
@fn generate::Context::generate_oneof_descriptor [C10,C13,C14,C17,C18]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).lines.ready() && ok_oneof(oneof)
- [C01] few(oneof_index as int) && few(old(fields)@.len() as int + oneof.fields@.len()) && few(old(messages)@.len() as int + nest_fields(oneof.fields@, oneof.fields@.len() as int).len())
ensures
- [C17] same_errs(*old(self), *final(self)) ==> legal_opts(oneof.options@)
- [C12,C13] same_errs(*old(self), *final(self)) ==> oneof.fields@.len() > 0
- same_errs(*old(self), *final(self)) ==> legal_oneof(old(self).syntax, oneof)
- legal_oneof(old(self).syntax, oneof) ==> same_errs(*old(self), *final(self))
- [C18] same_errs(*old(self), *final(self)) ==> is_name(res.name, oneof.name.value@)
- [C17] same_errs(*old(self), *final(self)) ==> oneof_opts_rel(bodies(oneof.options@), res.options)
- [C13,C18] final(fields)@.len() == old(fields)@.len() + oneof.fields@.len() && final(fields)@.take(old(fields)@.len() as int) == old(fields)@
- [C13,C18] same_errs(*old(self), *final(self)) ==> tail_rel(old(self).syntax, oneof.fields@, oneof.fields@.len() as int, Some(oneof_index as int), None, final(fields)@, old(fields)@.len() as int)
- [C14] final(messages)@.len() == old(messages)@.len() + nest_fields(oneof.fields@, oneof.fields@.len() as int).len() && final(messages)@.take(old(messages)@.len() as int) == old(messages)@
- [C14] same_errs(*old(self), *final(self)) ==> ntail_rel(old(self).syntax, nest_fields(oneof.fields@, oneof.fields@.len() as int), final(messages)@, old(messages)@.len() as int)
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11,C16] same_errs(*old(self), *final(self)) ==> final(self).locs() == old(self).locs().add(locs_oneof(old(self).lines, old(self).syntax, old(self).path@, oneof, oneof_tag, oneof_index as int, field_tag, old(fields)@.len() as int, message_tag, old(messages)@.len() as int))
- [C10] final(self).path@ == old(self).path@
decreases
- oneof, 0nat
@ghost start
 let ghost a0 = oneof; let ghost pp = self.path@; let ghost lr = self.lines; let ghost f0 = fields@.len() as int; let ghost m0 = messages@.len() as int;
@ghost before loop 0
 let ghost l0 = self.locs();
 proof { assert(l0.add(none()) =~= l0); assert(fields@.take(f0) =~= fields@); assert(messages@.take(m0) =~= messages@); }
@loop 0
invariant
- it0.seq() == a0.fields@ && ok_oneof(a0) && lr.ready() && few(oneof_index as int) && few(f0 + a0.fields@.len()) && few(m0 + nest_fields(a0.fields@, a0.fields@.len() as int).len())
- f0 == old(fields)@.len() && m0 == old(messages)@.len()
- frame(*old(self), *self) && lr == self.lines
- [C10] self.path@ == pp
- same_errs(*old(self), *self) <==> legal_opts(a0.options@) && a0.fields@.len() > 0 && legal_fields(old(self).syntax, FieldScope::Oneof, a0.fields, it0.index() as int)
- [C13,C18] fields@.len() == f0 + it0.index() && fields@.take(f0) == old(fields)@
- [C13,C18] same_errs(*old(self), *self) ==> tail_rel(old(self).syntax, a0.fields@, it0.index() as int, Some(oneof_index as int), None, fields@, f0)
- [C14] messages@.len() == m0 + nest_fields(a0.fields@, it0.index() as int).len() && messages@.take(m0) == old(messages)@
- [C14] same_errs(*old(self), *self) ==> ntail_rel(old(self).syntax, nest_fields(a0.fields@, it0.index() as int), messages@, m0)
- [C09,C10,C11,C16] same_errs(*old(self), *self) ==> self.locs() == l0.add(locs_fields(lr, old(self).syntax, pp, a0.fields, it0.index() as int, field_tag, f0, message_tag, m0))
@ghost loop 0 start
 let ghost k = it0.index() as int; let ghost g0 = fields@; let ghost n0 = messages@; let ghost e0 = *self;
 proof { lemma_nest_mono(a0.fields@, k + 1, a0.fields@.len() as int); }
@ghost loop 0 end [C09,C10,C11,C16]
 proof { if same_errs(*old(self), *self) { assert(self.locs() =~= l0.add(locs_fields(lr, old(self).syntax, pp, a0.fields, k + 1, field_tag, f0, message_tag, m0))); } }
@ghost loop 0 end [C13,C18]
 proof {
   assert(fields@.take(f0) =~= g0.take(f0));
   assert(forall|i: int| 0 <= i < g0.len() ==> fields@[i] == #[trigger] g0[i]);
 }
@ghost loop 0 end [C14]
 proof {
   assert(messages@.take(n0.len() as int) =~= n0);
   assert(messages@.take(m0) =~= n0.take(m0));
   if same_errs(*old(self), *self) { lemma_ntail(old(self).syntax, nest_fields(a0.fields@, k), a0.fields@[k], n0, messages@, m0); }
 }
@ghost end [C09,C10,C11,C16]
 proof { if same_errs(*old(self), *self) { assert(self.locs() =~= old(self).locs().add(locs_oneof(lr, old(self).syntax, pp, a0, oneof_tag, oneof_index as int, field_tag, f0, message_tag, m0))); } }
@fn generate::Context::generate_extend_descriptors [C10,C12,C18]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).lines.ready() && ok_extend(ast)
- [C01] few(old(extensions)@.len() as int + ast.fields@.len()) && few(old(messages)@.len() as int + nest_fields(ast.fields@, ast.fields@.len() as int).len())
ensures
- same_errs(*old(self), *final(self)) <==> legal_fields(old(self).syntax, FieldScope::Extend, ast.fields, ast.fields@.len() as int)
- [C18] final(extensions)@.len() == old(extensions)@.len() + ast.fields@.len() && final(extensions)@.take(old(extensions)@.len() as int) == old(extensions)@
- [C12,C18] same_errs(*old(self), *final(self)) ==> tail_rel(old(self).syntax, ast.fields@, ast.fields@.len() as int, None, Some(ast.extendee), final(extensions)@, old(extensions)@.len() as int)
- [C14] final(messages)@.len() == old(messages)@.len() + nest_fields(ast.fields@, ast.fields@.len() as int).len() && final(messages)@.take(old(messages)@.len() as int) == old(messages)@
- [C14] same_errs(*old(self), *final(self)) ==> ntail_rel(old(self).syntax, nest_fields(ast.fields@, ast.fields@.len() as int), final(messages)@, old(messages)@.len() as int)
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11,C16] same_errs(*old(self), *final(self)) ==> final(self).locs() == old(self).locs().add(locs_extend(old(self).lines, old(self).syntax, old(self).path@, ast, extension_tag, old(extensions)@.len() as int, message_tag, old(messages)@.len() as int))
- [C10] final(self).path@ == old(self).path@
decreases
- ast, 0nat
@ghost start
 let ghost a0 = ast; let ghost pp = self.path@; let ghost lr = self.lines; let ghost f0 = extensions@.len() as int; let ghost m0 = messages@.len() as int;
@ghost before loop 0
 let ghost l0 = self.locs();
 proof { assert(l0.add(none()) =~= l0); assert(extensions@.take(f0) =~= extensions@); assert(messages@.take(m0) =~= messages@); }
@loop 0
invariant
- it0.seq() == a0.fields@ && ok_extend(a0) && lr.ready() && few(f0 + a0.fields@.len()) && few(m0 + nest_fields(a0.fields@, a0.fields@.len() as int).len())
- f0 == old(extensions)@.len() && m0 == old(messages)@.len()
- ast.extendee == a0.extendee
- frame(*old(self), *self) && lr == self.lines
- [C10] self.path@ == pp
- same_errs(*old(self), *self) <==> legal_fields(old(self).syntax, FieldScope::Extend, a0.fields, it0.index() as int)
- [C18] extensions@.len() == f0 + it0.index() && extensions@.take(f0) == old(extensions)@
- [C12,C18] same_errs(*old(self), *self) ==> tail_rel(old(self).syntax, a0.fields@, it0.index() as int, None, Some(a0.extendee), extensions@, f0)
- [C14] messages@.len() == m0 + nest_fields(a0.fields@, it0.index() as int).len() && messages@.take(m0) == old(messages)@
- [C14] same_errs(*old(self), *self) ==> ntail_rel(old(self).syntax, nest_fields(a0.fields@, it0.index() as int), messages@, m0)
- [C09,C10,C11,C16] same_errs(*old(self), *self) ==> self.locs() == l0.add(locs_extendees(lr, pp, a0.extendee, it0.index() as int, extension_tag, f0)).add(locs_fields(lr, old(self).syntax, pp, a0.fields, it0.index() as int, extension_tag, f0, message_tag, m0))
@ghost loop 0 start
 let ghost k = it0.index() as int; let ghost g0 = extensions@; let ghost n0 = messages@; let ghost e0 = *self;
 proof { lemma_nest_mono(a0.fields@, k + 1, a0.fields@.len() as int); }
@ghost loop 0 end [C09,C10,C11,C16]
 proof { if same_errs(*old(self), *self) { assert(self.locs() =~= l0.add(locs_extendees(lr, pp, a0.extendee, k + 1, extension_tag, f0)).add(locs_fields(lr, old(self).syntax, pp, a0.fields, k + 1, extension_tag, f0, message_tag, m0))); } }
@ghost loop 0 end [C18]
 proof {
   assert(extensions@.take(f0) =~= g0.take(f0));
   assert(forall|i: int| 0 <= i < g0.len() ==> extensions@[i] == #[trigger] g0[i]);
 }
@ghost loop 0 end [C14]
 proof {
   assert(messages@.take(n0.len() as int) =~= n0);
   assert(messages@.take(m0) =~= n0.take(m0));
   if same_errs(*old(self), *self) { lemma_ntail(old(self).syntax, nest_fields(a0.fields@, k), a0.fields@[k], n0, messages@, m0); }
 }
@ghost end [C09,C10,C11,C16]
 proof { if same_errs(*old(self), *self) { assert(self.locs() =~= old(self).locs().add(locs_extend(lr, old(self).syntax, pp, a0, extension_tag, f0, message_tag, m0))); } }
@fn generate::Context::generate_message_descriptor [C10,C18]
@attr #[verifier::spinoff_prover]
requires
- [C01] old(self).lines.ready() && ok_message(ast)
ensures
- same_errs(*old(self), *final(self)) <==> legal_body(old(self).syntax, ast.body)
- [C18] same_errs(*old(self), *final(self)) ==> nest_rel(old(self).syntax, NestX::Msg(ast), res)
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11,C16] same_errs(*old(self), *final(self)) ==> final(self).locs() == old(self).locs().add(locs_msg(old(self).lines, old(self).syntax, old(self).path@, ast))
- [C10] final(self).path@ == old(self).path@
decreases
- ast, 0nat
@ghost end [C09,C10,C11,C16]
 proof { if same_errs(*old(self), *self) { assert(self.locs() =~= old(self).locs().add(locs_msg(old(self).lines, old(self).syntax, old(self).path@, a0))); } }
@ghost start
 let ghost a0 = ast;
@fn generate::Context::generate_message_body_descriptor [C05,C10,C13,C14,C17,C18]
@attr #[verifier::spinoff_prover]
@attr #[verifier::rlimit(160)]
requires
- [C01] old(self).lines.ready() && ok_body(ast)
ensures
- [C05] same_errs(*old(self), *final(self)) ==> msg_ranges_ok(all_ranges(ast.reserved@))
- [C05,C17] same_errs(*old(self), *final(self)) ==> legal_exts(ast.extensions@)
- [C17] same_errs(*old(self), *final(self)) ==> legal_opts(ast.options@)
- same_errs(*old(self), *final(self)) <==> legal_body(old(self).syntax, ast)
- [C13,C18] same_errs(*old(self), *final(self)) ==> br_fields(old(self).syntax, ast, res)
- [C14,C18] same_errs(*old(self), *final(self)) ==> nests_rel(old(self).syntax, nested_of(ast.items@, ast.items@.len() as int), res.nested_type@)
- [C18] same_errs(*old(self), *final(self)) ==> br_enums(ast, res)
- [C12,C18] same_errs(*old(self), *final(self)) ==> br_exts(old(self).syntax, ast, res)
- [C13,C18] same_errs(*old(self), *final(self)) ==> br_reals(ast, res)
- [C13] same_errs(*old(self), *final(self)) ==> br_synths(old(self).syntax, ast, res)
- [C05] same_errs(*old(self), *final(self)) ==> br_reserved(ast, res)
- [C05,C17] same_errs(*old(self), *final(self)) ==> br_extranges(ast, res)
- [C17] same_errs(*old(self), *final(self)) ==> br_opts(ast, res)
- same_errs(*old(self), *final(self)) ==> body_rel(old(self).syntax, ast, res)
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11,C16] same_errs(*old(self), *final(self)) ==> final(self).locs() == old(self).locs().add(locs_body(old(self).lines, old(self).syntax, old(self).path@, ast))
- [C10] final(self).path@ == old(self).path@
decreases
- ast, 0nat
@closure 0
(&MessageItem) -> (b: bool) ensures b == is_oneof(*$1)
@closure 1
(&ast::Option) -> (b: bool) ensures b == has_name_spec($1.body, "message_set_wire_format"@)
@ghost start
 hide(legal_items); hide(legal_oneof); hide(legal_fields); hide(legal_item); hide(legal_field); hide(legal_body); hide(locs_items); hide(locs_item); hide(locs_field); hide(locs_fields); hide(locs_msg); hide(locs_oneof); hide(locs_extend); hide(locs_body); hide(ok_field); hide(ok_fields); hide(ok_message); hide(ok_oneof); hide(ok_extend); hide(ok_item); hide(ok_body); hide(nest_rel); hide(body_rel);
 let ghost a0 = ast; let ghost pp = self.path@; let ghost lr = self.lines; let ghost sx = self.syntax; let ghost its = ast.items@; let ghost n = ast.items@.len() as int; let ghost nr = nr_of(ast);
 proof { lemma_body_defs(lr, sx, pp, ast); }
@ghost before loop 0
 let ghost l0 = self.locs();
 proof {
   assert(l0.add(none()) =~= l0);
   assert forall|bs: Seq<bool>| bs.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] bs[i] == is_oneof(its[i])) implies #[trigger] count_true(bs) == nr by { lemma_real_count(its, bs, n); assert(bs.take(n) =~= bs); }
 }
@loop 0
invariant
- it0.seq() == its && a0.items@ == its && n == its.len() && ok_body(a0) && lr.ready() && nr == nr_of(a0)
- few(n) && few(nfields(its, n)) && few(nested_of(its, n).len() as int) && few(exts_of(its, n).len() as int)
- sx == old(self).syntax && frame(*old(self), *self) && lr == self.lines
- [C10] self.path@ == pp
- same_errs(*old(self), *self) <==> legal_items(sx, a0.items, it0.index() as int)
- [C13,C18] field@.len() == nfields(its, it0.index() as int)
- [C13,C18] same_errs(*old(self), *self) ==> fields_rel(sx, fields_of(sx, nr, its, it0.index() as int), field@)
- [C14,C18] nested_type@.len() == nested_of(its, it0.index() as int).len()
- [C14,C18] same_errs(*old(self), *self) ==> nests_rel(sx, nested_of(its, it0.index() as int), nested_type@)
- [C18] enum_type@.len() == enums_of(its, it0.index() as int).len()
- [C18] same_errs(*old(self), *self) ==> enums_rel(enums_of(its, it0.index() as int), enum_type@)
- [C12,C18] extension@.len() == exts_of(its, it0.index() as int).len()
- [C12,C18] same_errs(*old(self), *self) ==> fields_rel(sx, exts_of(its, it0.index() as int), extension@)
- [C13] real_oneof_index == reals(its, it0.index() as int).len()
- [C13] oneof_decl@.len() == nr + synths(sx, its, it0.index() as int).len()
- [C13,C18] same_errs(*old(self), *self) ==> reals_k(reals(its, it0.index() as int), oneof_decl@)
- [C13] synths_rel(synths(sx, its, it0.index() as int), nr, oneof_decl@)
- [C09,C10,C11,C16] same_errs(*old(self), *self) ==> self.locs() == l0.add(locs_items(lr, sx, pp, a0.items, it0.index() as int))
@ghost loop 0 start
 let ghost k = it0.index() as int; let ghost f1 = field@; let ghost n1 = nested_type@; let ghost x1 = extension@; let ghost o1 = oneof_decl@; let ghost e1 = *self;
 proof {
   lemma_item_step(lr, sx, pp, a0, k); lemma_items_mono(its, k + 1, n); lemma_items_mono(its, k, n); lemma_nfields(sx, nr, its, k); lemma_nfields(sx, nr, its, k + 1);
   lemma_synths_len(sx, its, k, n); lemma_items_mono(its, n, n); lemma_items_mono(its, k + 1, k + 1);
   assert(its[k] is Oneof ==> reals(its, k).len() < reals(its, k + 1).len());
 }
@ghost loop 0 end [C13]
 proof {
   match its[k] {
     MessageItem::Field(f) => { if written_proto3_optional(sx, f) { lemma_decl_push(synths(sx, its, k), reals(its, k), nr, o1, oneof_decl@, f); } },
     MessageItem::Oneof(o) => { lemma_decl_set(synths(sx, its, k), reals(its, k), nr, o1, oneof_decl@, o); },
     _ => {},
   }
 }
@ghost loop 0 end [C13,C18]
 proof {
   if same_errs(*old(self), *self) {
     match its[k] {
       MessageItem::Field(f) => { lemma_fields_push(sx, fields_of(sx, nr, its, k), FieldX { f, oneof: if written_proto3_optional(sx, f) { Some(nr + synths(sx, its, k).len()) } else { None }, ext: None }, f1, field@.last()); },
       MessageItem::Oneof(o) => { lemma_tail_app(sx, fields_of(sx, nr, its, k), o.fields@, Some(reals(its, k).len() as int), None, f1, field@); },
       _ => {},
     }
   }
 }
@ghost loop 0 end [C12,C18]
 proof {
   if same_errs(*old(self), *self) {
     match its[k] {
       MessageItem::Extend(e) => { lemma_tail_app(sx, exts_of(its, k), e.fields@, None, Some(e.extendee), x1, extension@); },
       _ => {},
     }
   }
 }
@ghost loop 0 end [C14,C18]
 proof {
   if same_errs(*old(self), *self) {
     match its[k] {
       MessageItem::Field(f) => { lemma_field_nest(sx, nested_of(its, k), f, n1, nested_type@); },
       MessageItem::Oneof(o) => { lemma_nests_app(sx, nested_of(its, k), nest_fields(o.fields@, o.fields@.len() as int), n1, nested_type@); },
       MessageItem::Extend(e) => { lemma_nests_app(sx, nested_of(its, k), nest_fields(e.fields@, e.fields@.len() as int), n1, nested_type@); },
       _ => {},
     }
   }
 }
@ghost loop 0 end [C09,C10,C11,C16]
 proof { if same_errs(*old(self), *self) { assert(self.locs() =~= l0.add(locs_items(lr, sx, pp, a0.items, k + 1))); } }
@ghost before loop 1 [C05]
 proof {
   let w = "message_set_wire_format"@;
   assert forall|i: int| 0 <= i < a0.options@.len() && has_name_spec((#[trigger] a0.options@[i]).body, w) && (forall|j: int| 0 <= j < i ==> !has_name_spec((#[trigger] a0.options@[j]).body, w))
     implies is_msgset(a0) == (value_bool(a0.options@[i].body.value) == Some(true)) by { lemma_msgset(a0, i); }
   if forall|j: int| 0 <= j < a0.options@.len() ==> !has_name_spec((#[trigger] a0.options@[j]).body, w) { lemma_not_msgset(a0); }
 }
@ghost before loop 1
 let ghost l1 = self.locs(); let ghost e1 = *self;
 proof { assert(l1.add(none()) =~= l1); }
@loop 1
invariant
- it1.seq() == a0.reserved@ && ok_reserved(a0.reserved@) && lr.ready()
- [C10] self.path@ == pp
- frame(e1, *self) && lr == self.lines
- [C05] is_message_set == is_msgset(a0)
- [C05] reserved_range@.len() == ranges_of(a0.reserved@, it1.index() as int).len()
- [C05] reserved_name@.len() == names_of(a0.reserved@, it1.index() as int).len()
- [C05] same_errs(e1, *self) <==> msg_ranges_ok(ranges_of(a0.reserved@, it1.index() as int))
- [C05] same_errs(e1, *self) ==> msg_ranges_rel(ranges_of(a0.reserved@, it1.index() as int), is_message_set, reserved_range@)
- [C05] strs_rel(names_of(a0.reserved@, it1.index() as int), reserved_name@)
- [C09,C10,C11,C16] self.locs() == l1.add(locs_reserved(lr, pp, 9, 10, a0.reserved@, it1.index() as int))
@ghost loop 1 start
 let ghost e2 = *self; let ghost l2 = self.locs(); let ghost k1 = it1.index() as int;
 proof { lemma_reserved_mono(a0.reserved@, k1 + 1, a0.reserved@.len() as int); }
@ghost before loop 2
 let ghost l3 = self.locs(); let ghost r2 = a0.reserved@[k1].kind->Ranges_0@; let ghost b2 = ranges_of(a0.reserved@, k1);
 proof { assert(l3.add(none()) =~= l3); assert(b2 + r2.take(0) =~= b2); }
@loop 2
invariant
- it2.seq() == r2 && b2.len() + r2.len() <= i32::MAX && lr.ready()
- forall|i: int| 0 <= i < r2.len() ==> ok_range(#[trigger] r2[i])
- [C10] self.path@ == pp.push(9)
- frame(e1, *self) && lr == self.lines
- [C05] reserved_range@.len() == b2.len() + it2.index()
- [C05] same_errs(e1, *self) <==> msg_ranges_ok(b2 + r2.take(it2.index() as int))
- [C05] same_errs(e1, *self) ==> msg_ranges_rel(b2 + r2.take(it2.index() as int), is_message_set, reserved_range@)
- [C09,C10,C11,C16] self.locs() == l3.add(locs_ranges(lr, pp.push(9), b2.len() as int, r2, it2.index() as int))
@ghost loop 2 start
 proof {
   let j = it2.index() as int;
   let x = b2 + r2.take(j); let y = b2 + r2.take(j + 1);
   assert(y.drop_last() =~= x && y.last() == r2[j] && y =~= x.push(r2[j]));
   assert(msg_ranges_ok(y) <==> msg_ranges_ok(x) && msg_range_ok(r2[j])) by { assert(y[x.len() as int] == r2[j]); assert(forall|i: int| 0 <= i < x.len() ==> x[i] == #[trigger] y[i]); assert(forall|i: int| 0 <= i < x.len() ==> y[i] == #[trigger] x[i]); }
 }
@ghost loop 2 end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= l3.add(locs_ranges(lr, pp.push(9), b2.len() as int, r2, it2.index() as int + 1))); }
@ghost after loop 2
 proof { assert(r2.take(r2.len() as int) =~= r2); }
@ghost before loop 3
 let ghost l3 = self.locs(); let ghost r3 = a0.reserved@[k1].kind->Names_0@; let ghost b3 = names_of(a0.reserved@, k1); let ghost e3 = *self;
 proof { assert(l3.add(none()) =~= l3); assert(b3 + r3.take(0) =~= b3); }
@loop 3
invariant
- it3.seq() == r3 && b3.len() + r3.len() <= i32::MAX && lr.ready()
- forall|i: int| 0 <= i < r3.len() ==> sp((#[trigger] r3[i]).span)
- [C10] self.path@ == pp.push(10)
- frame(e3, *self) && lr == self.lines && same_errs(e3, *self)
- [C05] reserved_name@.len() == b3.len() + it3.index()
- [C05] strs_rel(b3 + r3.take(it3.index() as int), reserved_name@)
- [C09,C10,C11,C16] self.locs() == l3.add(locs_names(lr, pp.push(10), b3.len() as int, r3, it3.index() as int))
@ghost loop 3 start
 proof { let j = it3.index() as int; assert((b3 + r3.take(j + 1)) =~= (b3 + r3.take(j)).push(r3[j])); }
@ghost loop 3 end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= l3.add(locs_names(lr, pp.push(10), b3.len() as int, r3, it3.index() as int + 1))); }
@ghost after loop 3
 proof { assert(r3.take(r3.len() as int) =~= r3); }
@ghost loop 1 end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= l1.add(locs_reserved(lr, pp, 9, 10, a0.reserved@, k1 + 1))); }
@ghost before loop 4
 let ghost l4 = self.locs(); let ghost e4 = *self;
 proof { assert(l4.add(none()) =~= l4); }
@loop 4
invariant
- it4.seq() == a0.extensions@ && lr.ready() && few(extranges_of(a0.extensions@, a0.extensions@.len() as int).len() as int)
- forall|i: int| 0 <= i < a0.extensions@.len() ==> ok_ext1(#[trigger] a0.extensions@[i])
- [C10] self.path@ == pp.push(5)
- frame(e4, *self) && lr == self.lines
- [C05] is_message_set == is_msgset(a0)
- [C05] extension_range@.len() == extranges_of(a0.extensions@, it4.index() as int).len()
- [C05,C17] same_errs(e4, *self) <==> legal_exts_k(a0.extensions@, it4.index() as int)
- [C05,C17] same_errs(e4, *self) ==> extxs_rel(extranges_of(a0.extensions@, it4.index() as int), is_message_set, extension_range@)
- [C09,C10,C11,C16] self.locs() == l4.add(locs_exts(lr, pp.push(5), a0.extensions@, it4.index() as int))
@ghost loop 4 start
 let ghost k4 = it4.index() as int; let ghost x4 = a0.extensions@[k4]; let ghost b5 = extranges_of(a0.extensions@, k4);
 proof { lemma_extranges_mono(a0.extensions@, k4 + 1, a0.extensions@.len() as int); assert(ok_ext1(a0.extensions@[k4])); }
@ghost before loop 5
 let ghost l5 = self.locs(); let ghost e5 = *self;
 proof { assert(l5.add(none()) =~= l5); assert(b5 + exts1(x4, 0) =~= b5); }
@loop 5
invariant
- it5.seq() == x4.ranges@ && lr.ready() && few(b5.len() + x4.ranges@.len() as int) && ok_ext1(x4)
- extensions.options == x4.options
- [C10] self.path@ == pp.push(5)
- frame(e5, *self) && lr == self.lines
- [C05] extension_range@.len() == b5.len() + it5.index()
- [C05,C17] same_errs(e5, *self) <==> legal_ext_j(x4, it5.index() as int)
- [C05,C17] same_errs(e4, e5) && same_errs(e5, *self) ==> extxs_rel(b5 + exts1(x4, it5.index() as int), is_message_set, extension_range@)
- [C09,C10,C11,C16] self.locs() == l5.add(locs_ext1(lr, pp.push(5), b5.len() as int, x4, it5.index() as int))
@ghost loop 5 start
 proof {
   let j = it5.index() as int;
   assert(b5 + exts1(x4, j + 1) =~= (b5 + exts1(x4, j)).push(ExtX { r: x4.ranges@[j], o: x4.options }));
   assert(legal_ext_j(x4, j + 1) <==> legal_ext_j(x4, j) && msg_range_ok(x4.ranges@[j]) && legal_obs(ol_seq(x4.options), ol_seq(x4.options).len() as int));
 }
@ghost loop 5 end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= l5.add(locs_ext1(lr, pp.push(5), b5.len() as int, x4, it5.index() as int + 1))); }
@ghost loop 4 end [C05,C17]
 proof { assert(legal_ext_j(x4, x4.ranges@.len() as int) == legal_ext1(x4)); assert(legal_exts_k(a0.extensions@, k4 + 1) <==> legal_exts_k(a0.extensions@, k4) && legal_ext1(x4)); }
@ghost loop 4 end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= l4.add(locs_exts(lr, pp.push(5), a0.extensions@, k4 + 1))); }
@ghost end
 proof {
   lemma_nfields(sx, nr, its, n);
   if same_errs(*old(self), *self) { assert(legal_exts(a0.extensions@)); lemma_body_rel(sx, a0, res); }
 }
@ghost end [C09,C10,C11,C16]
 proof { if same_errs(*old(self), *self) { assert(self.locs() =~= old(self).locs().add(locs_body(lr, sx, pp, a0))); } }
@fn generate::Context::generate_file_descriptor [C10,C15,C17,C18,C19]
@attr #[verifier::spinoff_prover]
@attr #[verifier::rlimit(120)]
requires
- [C01] old(self).lines.ready() && ok_file(ast)
- old(self).syntax == ast.syntax
ensures
- [C17] same_errs(*old(self), *final(self)) ==> legal_opts(ast.options@)
- same_errs(*old(self), *final(self)) <==> legal_file(ast)
- [C18] fl_name(name@, res)
- [C18,C19] fl_package(ast, res)
- [C19] fl_syntax(ast, res)
- [C15] fl_imports(ast, res)
- [C14,C18] same_errs(*old(self), *final(self)) ==> fl_messages(ast, res)
- [C18] same_errs(*old(self), *final(self)) ==> fl_enums(ast, res)
- [C18] same_errs(*old(self), *final(self)) ==> fl_services(ast, res)
- [C18] same_errs(*old(self), *final(self)) ==> fl_exts(ast, res)
- [C17] same_errs(*old(self), *final(self)) ==> fl_opts(ast, res)
- [C02] frame(*old(self), *final(self))
- [C09,C10,C11,C16] same_errs(*old(self), *final(self)) ==> final(self).locs() == old(self).locs().add(locs_file(old(self).lines, old(self).path@, ast))
- [C10] final(self).path@ == old(self).path@
@ghost start
 hide(legal_body); hide(legal_fields); hide(locs_body); hide(locs_fields); hide(locs_field); hide(locs_extend); hide(locs_msg); hide(ok_message); hide(ok_extend); hide(ok_body); hide(nest_rel); hide(body_rel); hide(ok_enum); hide(ok_service); hide(legal_enum); hide(legal_service); hide(locs_enum); hide(locs_service); hide(field_rel); hide(evs_rel); hide(methods_rel);
 let ghost a0 = ast; let ghost pp = self.path@; let ghost lr = self.lines; let ghost sx = self.syntax; let ghost ims = ast.imports@; let ghost its = ast.items@; let ghost n = ast.items@.len() as int; let ghost m = ast.imports@.len() as int;
@ghost before loop 0
 let ghost l0 = self.locs();
 proof { assert(l0.add(none()) =~= l0); assert(ints(Seq::<i32>::empty()) =~= Seq::<int>::empty()); }
@loop 0
invariant
- it0.seq() == ims && a0.imports@ == ims && m == ims.len() && ok_file(a0) && lr.ready()
- sx == old(self).syntax && frame(*old(self), *self) && same_errs(*old(self), *self) && lr == self.lines
- [C10] self.path@ == pp
- [C15] deps_rel(ims, it0.index() as int, dependency@)
- [C15] ints(public_dependency@) == kind_idx(ims, true, it0.index() as int)
- [C15] ints(weak_dependency@) == kind_idx(ims, false, it0.index() as int)
- [C09,C10,C11,C16] self.locs() == l0.add(locs_imports(lr, pp, ims, it0.index() as int))
@ghost loop 0 start
 let ghost k = it0.index() as int; let ghost p1 = public_dependency@; let ghost w1 = weak_dependency@;
 proof { lemma_kind_idx(ims, true, k); lemma_kind_idx(ims, false, k); assert(ok_import(ims[k])); assert(ints(p1).len() == p1.len() && ints(w1).len() == w1.len()); assert(ints(p1.push(k as i32)) =~= ints(p1).push(k)); assert(ints(w1.push(k as i32)) =~= ints(w1).push(k)); }
@ghost loop 0 end [C09,C10,C11,C16]
 proof { assert(self.locs() =~= l0.add(locs_imports(lr, pp, ims, k + 1))); }
@ghost before loop 1
 let ghost l1 = self.locs(); let ghost b1 = *self;
 proof { assert(l1.add(none()) =~= l1); }
@loop 1
invariant
- it1.seq() == its && a0.items@ == its && n == its.len() && ok_file(a0) && lr.ready()
- sx == old(self).syntax && frame(*old(self), *self) && lr == self.lines
- [C10] self.path@ == pp
- same_errs(*old(self), *self) <==> legal_fitems(sx, its, it1.index() as int)
- [C14,C18] message_type@.len() == fnested(its, it1.index() as int).len()
- [C14,C18] same_errs(*old(self), *self) ==> nests_rel(sx, fnested(its, it1.index() as int), message_type@)
- [C18] enum_type@.len() == fenums(its, it1.index() as int).len()
- [C18] same_errs(*old(self), *self) ==> enums_rel(fenums(its, it1.index() as int), enum_type@)
- [C18] service@.len() == fservices(its, it1.index() as int).len()
- [C18] same_errs(*old(self), *self) ==> services_rel(fservices(its, it1.index() as int), service@)
- [C18] extension@.len() == fexts(its, it1.index() as int).len()
- [C18] same_errs(*old(self), *self) ==> fields_rel(sx, fexts(its, it1.index() as int), extension@)
- [C09,C10,C11,C16] same_errs(*old(self), *self) ==> self.locs() == l1.add(locs_fitems(lr, sx, pp, its, it1.index() as int))
@ghost loop 1 start
 let ghost k = it1.index() as int; let ghost n1 = message_type@; let ghost x1 = extension@;
 proof { lemma_fitems_mono(its, k, n); lemma_fitems_mono(its, k + 1, n); lemma_fitems_mono(its, n, n); assert(ok_fitem(its[k])); assert(legal_fitems(sx, its, k + 1) <==> legal_fitems(sx, its, k) && legal_fitem(sx, its[k])); }
@ghost loop 1 end [C18]
 proof {
   if same_errs(*old(self), *self) {
     match its[k] {
       FileItem::Extend(e) => { lemma_tail_app(sx, fexts(its, k), e.fields@, None, Some(e.extendee), x1, extension@); },
       _ => {},
     }
   }
 }
@ghost loop 1 end [C14,C18]
 proof {
   if same_errs(*old(self), *self) {
     match its[k] {
       FileItem::Extend(e) => { lemma_nests_app(sx, fnested(its, k), nest_fields(e.fields@, e.fields@.len() as int), n1, message_type@); },
       _ => {},
     }
   }
 }
@ghost loop 1 end [C09,C10,C11,C16]
 proof { if same_errs(*old(self), *self) { assert(self.locs() =~= l1.add(locs_fitems(lr, sx, pp, its, k + 1))); } }
@ghost end [C09,C10,C11,C16]
 proof { if same_errs(*old(self), *self) { assert(self.locs() =~= old(self).locs().add(locs_file(lr, pp, a0))); } }
@fn generate::generate_file [C02,C11]
requires
- [C01] encode_utf8(source@).len() <= i32::MAX && ok_file(ast)
ensures
- [C02] res is Err ==> (res->Err_0)@.len() > 0
- [C02] res is Ok <==> legal_file(ast)
- [C17,C18,C19] res is Ok ==> file_rel(ast, name@, res->Ok_0)
- [C11] res is Ok ==> (res->Ok_0).source_code_info is Some && paths_sorted(((res->Ok_0).source_code_info->0).location@)
- [C09,C10,C11,C16] res is Ok ==> exists|lr: LineResolver| #[trigger] lr.wf(encode_utf8(source@)) && locs_of(((res->Ok_0).source_code_info->0).location@) == locs_file(lr, Seq::empty(), ast)
@closure 0
(&Location, &Location) -> (b: core::cmp::Ordering) ensures $1.path.cmp_rel(&$2.path, b)
@ghost start
 broadcast use lemma_perm_b, lemma_none_add, lemma_none_locs;

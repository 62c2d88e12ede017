#![allow(unused, non_camel_case_types, non_snake_case, non_upper_case_globals)]
// Trusted prelude: specifications of the standard-library operations the extracted code
// calls. Nothing here is executed. Every `external_body`/`axiom` is an assumption and is
// counted and listed in the evidence of every check.
use vstd::prelude::*;
pub use root::*;
pub mod vx {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::utf8::*;
use vstd::string::*;
use core::cmp::Ordering;

verus! {

pub type Span = core::ops::Range<usize>;

// ---------------------------------------------------------------- equality
pub broadcast axiom fn ax_string_eq_str(a: String, b: &str)
    ensures (#[trigger] <String as PartialEqSpec<&str>>::eq_spec(&a, &b)) == (a@ == b@);
pub broadcast axiom fn ax_string_eq_str_obeys()
    ensures #[trigger] <String as PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_eq_str2(a: String, b: &str)
    ensures (#[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b)) == (a@ == b@);
pub broadcast axiom fn ax_string_eq_str2_obeys()
    ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_str_ext(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast axiom fn ax_string_ext(a: String, b: String)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast axiom fn ax_range_eq(a: Span, b: Span)
    ensures (#[trigger] <Span as PartialEqSpec<Span>>::eq_spec(&a, &b)) == (a.start == b.start && a.end == b.end);
pub broadcast axiom fn ax_range_eq_obeys()
    ensures #[trigger] <Span as PartialEqSpec<Span>>::obeys_eq_spec();
// sequences built by pushing and cut back again
pub broadcast proof fn lemma_add1<A>(s: Seq<A>, a: A)
    ensures #[trigger] s.add(Seq::empty().push(a)) == s.push(a)
{ assert(s.add(Seq::empty().push(a)) =~= s.push(a)); }
pub broadcast proof fn lemma_add2<A>(s: Seq<A>, a: A, b: A)
    ensures #[trigger] s.add(Seq::empty().push(a).push(b)) == s.push(a).push(b)
{ assert(s.add(Seq::empty().push(a).push(b)) =~= s.push(a).push(b)); }
pub broadcast proof fn lemma_push_sub<A>(s: Seq<A>, a: A, n: int)
    ensures 0 <= n <= s.len() ==> #[trigger] s.push(a).subrange(0, n) == s.subrange(0, n)
{ if 0 <= n <= s.len() { assert(s.push(a).subrange(0, n) =~= s.subrange(0, n)); } }
pub broadcast proof fn lemma_sub_all<A>(s: Seq<A>, n: int)
    ensures n == s.len() ==> #[trigger] s.subrange(0, n) == s
{ if n == s.len() { assert(s.subrange(0, n) =~= s); } }
pub broadcast group vx_axioms {
    lemma_add1, lemma_add2, lemma_push_sub, lemma_sub_all,
    ax_string_eq_str, ax_string_eq_str_obeys, ax_string_eq_str2, ax_string_eq_str2_obeys,
    ax_str_ext, ax_string_ext, ax_range_eq, ax_range_eq_obeys,
}

/// What the vacuity probes claim.
pub uninterp spec fn vx_probe(n: int) -> bool;
#[verifier::external_body]
pub fn vx_span_default() -> (r: Span) ensures r.start == 0, r.end == 0 { unimplemented!() }

// ---------------------------------------------------------------- clone, take, into
pub trait VxClone: Sized {
    fn vclone(&self) -> (r: Self) ensures r == *self;
}
impl<T> VxClone for T {
    #[verifier::external_body]
    fn vclone(&self) -> (r: T) { unimplemented!() }
}

pub trait VxResize<T> {
    spec fn rs_seq(&self) -> Seq<T>;
    fn vx_resize(&mut self, n: usize, x: T)
        ensures final(self).rs_seq().len() == n,
            forall|i: int| 0 <= i < n ==> #[trigger] final(self).rs_seq()[i] == (if i < old(self).rs_seq().len() { old(self).rs_seq()[i] } else { x });
}
impl<T> VxResize<T> for Vec<T> {
    open spec fn rs_seq(&self) -> Seq<T> { self@ }
    fn vx_resize(&mut self, n: usize, x: T) {
        while self.len() < n
            invariant self@.len() >= old(self)@.len(), self@.len() <= n || self@.len() == old(self)@.len(),
                forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (if i < old(self)@.len() { old(self)@[i] } else { x }),
            decreases n - self@.len()
        {
            let y = x.vclone();
            self.push(y);
        }
        while self.len() > n
            invariant self@.len() >= n,
                forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (if i < old(self)@.len() { old(self)@[i] } else { x }),
            decreases self@.len()
        {
            self.pop();
        }
    }
}
pub trait VxEmpty: Sized {
    spec fn is_empty_val(&self) -> bool;
    fn vx_empty() -> (r: Self) ensures r.is_empty_val();
}
impl<T> VxEmpty for Vec<T> {
    open spec fn is_empty_val(&self) -> bool { self@ == Seq::<T>::empty() }
    fn vx_empty() -> (r: Self) { let r = Vec::new(); assert(r@ =~= Seq::<T>::empty()); r }
}
impl<T> VxEmpty for Option<T> {
    open spec fn is_empty_val(&self) -> bool { self is None }
    fn vx_empty() -> (r: Self) { None }
}
#[verifier::external_body]
pub fn vx_take<T: VxEmpty>(x: &mut T) -> (r: T) ensures r == *old(x), final(x).is_empty_val() { unimplemented!() }

#[verifier::external_body]
pub fn vx_replace<T>(x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y { unimplemented!() }

pub trait VxOrDefault { type Out; spec fn od_rel(self, r: Self::Out) -> bool; fn vx_unwrap_or_default(self) -> (r: Self::Out) where Self: Sized ensures self.od_rel(r); }
impl<'a> VxOrDefault for Option<&'a str> {
    type Out = &'a str;
    open spec fn od_rel(self, r: &'a str) -> bool { r@ == (match self { Some(s) => s@, None => seq![] }) }
    #[verifier::external_body]
    fn vx_unwrap_or_default(self) -> (r: &'a str) { unimplemented!() }
}
pub fn vx_extend_opt<T>(v: &mut Vec<T>, o: Option<T>)
    ensures final(v)@ == (match o { Some(x) => old(v)@.push(x), None => old(v)@ }),
{
    match o { Some(x) => v.push(x), None => {} }
}

/// `Vec::extend_from_slice` of plain numbers.
pub trait VxExtend<T> { spec fn ev(&self) -> Seq<T>; fn vx_extend_slice(&mut self, s: &[T]) ensures final(self).ev() == old(self).ev() + s@; }
impl VxExtend<i32> for Vec<i32> {
    open spec fn ev(&self) -> Seq<i32> { self@ }
    fn vx_extend_slice(&mut self, s: &[i32]) { self.extend_from_slice(s); assert(self@ =~= old(self)@ + s@); }
}
impl VxExtend<u8> for Vec<u8> {
    open spec fn ev(&self) -> Seq<u8> { self@ }
    fn vx_extend_slice(&mut self, s: &[u8]) { self.extend_from_slice(s); assert(self@ =~= old(self)@ + s@); }
}
pub fn vx_extend1<T>(v: &mut Vec<T>, a: T) ensures final(v)@ == old(v)@.push(a) { v.push(a); }
pub fn vx_extend2<T>(v: &mut Vec<T>, a: T, b: T) ensures final(v)@ == old(v)@.push(a).push(b) { v.push(a); v.push(b); }
pub fn vx_extend3<T>(v: &mut Vec<T>, a: T, b: T, c: T) ensures final(v)@ == old(v)@.push(a).push(b).push(c) { v.push(a); v.push(b); v.push(c); }
pub fn vx_arr1<T>(a: T) -> (r: [T; 1]) ensures r@ == seq![a] { let r = [a]; assert(r@ =~= seq![a]); r }
pub fn vx_arr2<T>(a: T, b: T) -> (r: [T; 2]) ensures r@ == seq![a, b] { let r = [a, b]; assert(r@ =~= seq![a, b]); r }
pub fn vx_arr3<T>(a: T, b: T, c: T) -> (r: [T; 3]) ensures r@ == seq![a, b, c] { let r = [a, b, c]; assert(r@ =~= seq![a, b, c]); r }

pub trait VxInto<T>: Sized {
    spec fn into_rel(self, r: T) -> bool;
    /// What the implementation of `Into` needs to not panic.
    spec fn into_ok(self) -> bool;
    fn vx_into(self) -> (r: T) requires self.into_ok() ensures self.into_rel(r);
}
impl<'a> VxInto<String> for &'a str {
    open spec fn into_rel(self, r: String) -> bool { r@ == self@ }
    open spec fn into_ok(self) -> bool { true }
    fn vx_into(self) -> (r: String) { self.to_owned() }
}
impl VxInto<String> for String {
    open spec fn into_rel(self, r: String) -> bool { r@ == self@ }
    open spec fn into_ok(self) -> bool { true }
    fn vx_into(self) -> (r: String) { self }
}

pub trait VxToOwned { type O; spec fn owned_rel(&self, r: Self::O) -> bool; fn vx_to_owned(&self) -> (r: Self::O) ensures self.owned_rel(r); }
impl VxToOwned for str {
    type O = String;
    open spec fn owned_rel(&self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
}
impl VxToOwned for String {
    type O = String;
    open spec fn owned_rel(&self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
}

// ---------------------------------------------------------------- numbers as text
pub open spec fn digit_char(d: nat) -> char { (if d < 10 { 48 + d } else { 87 + d }) as u8 as char }
/// The decimal digits of n, most significant first, "0" for zero.
pub open spec fn digits(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![digit_char(n)] } else { digits(n / 10).push(digit_char(n % 10)) }
}
pub open spec fn dec_int(n: int) -> Seq<char> {
    if n < 0 { seq!['-'] + digits((-n) as nat) } else { digits(n as nat) }
}
/// Exactly three octal digits of a byte.
pub open spec fn oct3(n: nat) -> Seq<char> { seq![digit_char(n / 64), digit_char((n / 8) % 8), digit_char(n % 8)] }

#[derive(Debug)] pub struct TryErr { pub o: bool }
pub trait VxTry: Sized {
    spec fn iv(self) -> int;
    fn vx_try_i32(self) -> (r: Result<i32, TryErr>)
        ensures match r { Ok(x) => x as int == self.iv(), Err(_) => !(i32::MIN <= self.iv() <= i32::MAX) };
    fn vx_try_u32(self) -> (r: Result<u32, TryErr>)
        ensures match r { Ok(x) => x as int == self.iv(), Err(_) => !(u32::MIN <= self.iv() <= u32::MAX) };
    fn vx_try_i64(self) -> (r: Result<i64, TryErr>)
        ensures match r { Ok(x) => x as int == self.iv(), Err(_) => !(i64::MIN <= self.iv() <= i64::MAX) };
}
impl VxTry for u64 {
    open spec fn iv(self) -> int { self as int }
    fn vx_try_i32(self) -> (r: Result<i32, TryErr>) { if self <= i32::MAX as u64 { Ok(self as i32) } else { Err(TryErr { o: true }) } }
    fn vx_try_u32(self) -> (r: Result<u32, TryErr>) { if self <= u32::MAX as u64 { Ok(self as u32) } else { Err(TryErr { o: true }) } }
    fn vx_try_i64(self) -> (r: Result<i64, TryErr>) { if self <= i64::MAX as u64 { Ok(self as i64) } else { Err(TryErr { o: true }) } }
}
impl VxTry for i64 {
    open spec fn iv(self) -> int { self as int }
    fn vx_try_i32(self) -> (r: Result<i32, TryErr>) { if i32::MIN as i64 <= self && self <= i32::MAX as i64 { Ok(self as i32) } else { Err(TryErr { o: true }) } }
    fn vx_try_u32(self) -> (r: Result<u32, TryErr>) { if 0 <= self && self <= u32::MAX as i64 { Ok(self as u32) } else { Err(TryErr { o: true }) } }
    fn vx_try_i64(self) -> (r: Result<i64, TryErr>) { Ok(self) }
}
pub uninterp spec fn f64_disp(f: f64) -> Seq<char>;
pub uninterp spec fn f64_disp1(f: f64) -> Seq<char>;
pub uninterp spec fn f64_neg(f: f64) -> f64;
pub uninterp spec fn f64_nan() -> f64;
pub uninterp spec fn f64_inf() -> f64;
pub uninterp spec fn f64_of_u64(x: u64) -> f64;
#[verifier::external_body]
pub fn vx_f64_neg(x: f64) -> (r: f64) ensures r == f64_neg(x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64_nan() -> (r: f64) ensures r == f64_nan() { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64_infinity() -> (r: f64) ensures r == f64_inf() { unimplemented!() }
#[verifier::external_body]
pub fn vx_u64_as_f64(x: u64) -> (r: f64) ensures r == f64_of_u64(x) { unimplemented!() }
pub uninterp spec fn f64_isnan(f: f64) -> bool;
pub trait VxNan { spec fn nan(&self) -> bool; fn vx_is_nan(&self) -> (r: bool) ensures r == self.nan(); }
impl VxNan for f64 { open spec fn nan(&self) -> bool { f64_isnan(*self) } #[verifier::external_body] fn vx_is_nan(&self) -> (r: bool) { unimplemented!() } }
pub uninterp spec fn f64_integral(f: f64) -> bool;
#[verifier::external_body]
pub fn vx_fract_is_zero(x: f64) -> (r: bool) ensures r == f64_integral(x) { unimplemented!() }

// ---------------------------------------------------------------- Display
pub trait VxDisplay {
    spec fn disp(&self) -> Seq<char>;
    /// `ToString::to_string`: runs `Display::fmt` on an empty buffer.
    /// What the implementation of `Display` needs to not panic.
    spec fn disp_ok(&self) -> bool;
    fn vx_to_string(&self) -> (r: String) requires self.disp_ok() ensures r@ == self.disp();
}
impl VxDisplay for str {
    open spec fn disp(&self) -> Seq<char> { self@ }
    open spec fn disp_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl<'a, T: VxDisplay + ?Sized> VxDisplay for &'a T {
    open spec fn disp(&self) -> Seq<char> { (**self).disp() }
    open spec fn disp_ok(&self) -> bool { (**self).disp_ok() }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxDisplay for String {
    open spec fn disp(&self) -> Seq<char> { self@ }
    open spec fn disp_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxDisplay for bool {
    open spec fn disp(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } }
    open spec fn disp_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxDisplay for u64 {
    open spec fn disp(&self) -> Seq<char> { dec_int(*self as int) }
    open spec fn disp_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxDisplay for i64 {
    open spec fn disp(&self) -> Seq<char> { dec_int(*self as int) }
    open spec fn disp_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxDisplay for u32 {
    open spec fn disp(&self) -> Seq<char> { dec_int(*self as int) }
    open spec fn disp_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxDisplay for i32 {
    open spec fn disp(&self) -> Seq<char> { dec_int(*self as int) }
    open spec fn disp_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxDisplay for f64 {
    open spec fn disp(&self) -> Seq<char> { f64_disp(*self) }
    open spec fn disp_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

#[derive(Debug)]
pub struct FmtError;
pub fn fmt_ok() -> (r: Result<(), FmtError>) ensures r is Ok { Ok(()) }

/// What `write!` and `Formatter` do: append text.
pub trait VxWrite {
    spec fn buf(&self) -> Seq<char>;
    fn vx_lit(&mut self, s: &str) ensures final(self).buf() == old(self).buf() + s@;
    fn vx_disp<D: VxDisplay + ?Sized>(&mut self, d: &D) requires d.disp_ok() ensures final(self).buf() == old(self).buf() + d.disp();
    fn vx_oct3(&mut self, b: &u8) ensures final(self).buf() == old(self).buf() + oct3(*b as nat);
    fn vx_fix1(&mut self, f: &f64) ensures final(self).buf() == old(self).buf() + f64_disp1(*f);
    fn vx_write_str(&mut self, s: &str) -> (r: Result<(), FmtError>)
        ensures r is Ok, final(self).buf() == old(self).buf() + s@;
    fn vx_write_char(&mut self, c: char) -> (r: Result<(), FmtError>)
        ensures r is Ok, final(self).buf() == old(self).buf().push(c);
}
pub struct Formatter { pub out: String }
impl VxWrite for Formatter {
    open spec fn buf(&self) -> Seq<char> { self.out@ }
    #[verifier::external_body]
    fn vx_lit(&mut self, s: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_disp<D: VxDisplay + ?Sized>(&mut self, d: &D) { unimplemented!() }
    #[verifier::external_body]
    fn vx_oct3(&mut self, b: &u8) { unimplemented!() }
    #[verifier::external_body]
    fn vx_fix1(&mut self, f: &f64) { unimplemented!() }
    #[verifier::external_body]
    fn vx_write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_write_char(&mut self, c: char) -> (r: Result<(), FmtError>) { unimplemented!() }
}
impl VxWrite for String {
    open spec fn buf(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_lit(&mut self, s: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_disp<D: VxDisplay + ?Sized>(&mut self, d: &D) { unimplemented!() }
    #[verifier::external_body]
    fn vx_oct3(&mut self, b: &u8) { unimplemented!() }
    #[verifier::external_body]
    fn vx_fix1(&mut self, f: &f64) { unimplemented!() }
    #[verifier::external_body]
    fn vx_write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_write_char(&mut self, c: char) -> (r: Result<(), FmtError>) { unimplemented!() }
}
pub trait VxFmt { spec fn fmt_text(&self) -> Seq<char>;
    fn vx_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) ensures r is Ok, final(f).buf() == old(f).buf() + self.fmt_text(); }
impl VxFmt for String {
    open spec fn fmt_text(&self) -> Seq<char> { self@ }
    fn vx_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { f.vx_write_str(self.as_str()) }
}
#[verifier::external_body]
pub fn vx_opaque_string() -> (r: String) { unimplemented!() }
pub fn vx_str_add(mut a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { a.push_str(b); a }

pub trait VxDebug { }
pub fn vx_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T) requires false { unimplemented!() }

// ---------------------------------------------------------------- ascii
pub open spec fn is_upper(c: int) -> bool { 65 <= c <= 90 }
pub open spec fn is_lower(c: int) -> bool { 97 <= c <= 122 }
pub open spec fn is_digit(c: int) -> bool { 48 <= c <= 57 }
pub open spec fn is_alpha(c: int) -> bool { is_upper(c) || is_lower(c) }
pub open spec fn is_alnum(c: int) -> bool { is_alpha(c) || is_digit(c) }
pub trait VxAscii: Sized {
    spec fn code(&self) -> int;
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) ensures r == is_alpha(self.code());
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == is_alnum(self.code());
    fn vx_is_ascii_uppercase(&self) -> (r: bool) ensures r == is_upper(self.code());
    fn vx_is_ascii_lowercase(&self) -> (r: bool) ensures r == is_lower(self.code());
    fn vx_is_ascii_digit(&self) -> (r: bool) ensures r == is_digit(self.code());
}
impl VxAscii for u8 {
    open spec fn code(&self) -> int { *self as int }
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) { (65 <= *self && *self <= 90) || (97 <= *self && *self <= 122) }
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) { (65 <= *self && *self <= 90) || (97 <= *self && *self <= 122) || (48 <= *self && *self <= 57) }
    fn vx_is_ascii_uppercase(&self) -> (r: bool) { 65 <= *self && *self <= 90 }
    fn vx_is_ascii_lowercase(&self) -> (r: bool) { 97 <= *self && *self <= 122 }
    fn vx_is_ascii_digit(&self) -> (r: bool) { 48 <= *self && *self <= 57 }
}
impl VxAscii for char {
    open spec fn code(&self) -> int { *self as int }
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) { let c = *self as u32; (65 <= c && c <= 90) || (97 <= c && c <= 122) }
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) { let c = *self as u32; (65 <= c && c <= 90) || (97 <= c && c <= 122) || (48 <= c && c <= 57) }
    fn vx_is_ascii_uppercase(&self) -> (r: bool) { let c = *self as u32; 65 <= c && c <= 90 }
    fn vx_is_ascii_lowercase(&self) -> (r: bool) { let c = *self as u32; 97 <= c && c <= 122 }
    fn vx_is_ascii_digit(&self) -> (r: bool) { let c = *self as u32; 48 <= c && c <= 57 }
}
pub open spec fn upper(c: char) -> char { if is_lower(c as int) { (c as u32 - 32) as char } else { c } }
pub open spec fn lower(c: char) -> char { if is_upper(c as int) { (c as u32 + 32) as char } else { c } }
pub trait VxCase { spec fn as_chars(&self) -> Seq<char>; }
pub trait VxUpper<R>: Sized { spec fn up_rel(&self, r: R) -> bool; fn vx_to_ascii_uppercase(&self) -> (r: R) ensures self.up_rel(r); }
impl VxUpper<char> for char {
    open spec fn up_rel(&self, r: char) -> bool { r == upper(*self) }
    #[verifier::external_body]
    fn vx_to_ascii_uppercase(&self) -> (r: char) { unimplemented!() }
}
pub trait VxLower<R> { spec fn low_rel(&self, r: R) -> bool; fn vx_to_ascii_lowercase(&self) -> (r: R) ensures self.low_rel(r); }
impl VxLower<char> for char {
    open spec fn low_rel(&self, r: char) -> bool { r == lower(*self) }
    #[verifier::external_body]
    fn vx_to_ascii_lowercase(&self) -> (r: char) { unimplemented!() }
}
pub open spec fn lower_seq(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| lower(s[i])) }
impl VxLower<String> for String {
    open spec fn low_rel(&self, r: String) -> bool { r@ == lower_seq(self@) }
    #[verifier::external_body]
    fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
}
pub trait VxMakeLower { spec fn chars_of(&self) -> Seq<char>; fn vx_make_ascii_lowercase(&mut self) ensures final(self).chars_of() == lower_seq(old(self).chars_of()); }
impl VxMakeLower for String {
    open spec fn chars_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_make_ascii_lowercase(&mut self) { unimplemented!() }
}

// ---------------------------------------------------------------- str
pub trait VxStr { spec fn sv(&self) -> Seq<char>;
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == encode_utf8(self.sv());
    fn vx_len(&self) -> (r: usize) ensures r == encode_utf8(self.sv()).len();
}
impl VxStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { unimplemented!() }
}
pub trait VxStartsWith<A> { spec fn sw(&self, a: A) -> bool; fn vx_starts_with(&self, a: A) -> (r: bool) ensures r == self.sw(a); }
impl VxStartsWith<char> for str {
    open spec fn sw(&self, a: char) -> bool { self@.len() > 0 && self@[0] == a }
    #[verifier::external_body]
    fn vx_starts_with(&self, a: char) -> (r: bool) { unimplemented!() }
}
impl VxStartsWith<char> for String {
    open spec fn sw(&self, a: char) -> bool { self@.len() > 0 && self@[0] == a }
    #[verifier::external_body]
    fn vx_starts_with(&self, a: char) -> (r: bool) { unimplemented!() }
}
impl<'a> VxStartsWith<&'a str> for str {
    open spec fn sw(&self, a: &'a str) -> bool { a@.is_prefix_of(self@) }
    #[verifier::external_body]
    fn vx_starts_with(&self, a: &'a str) -> (r: bool) { unimplemented!() }
}
pub trait VxContains<A> { spec fn contains_spec(&self, a: A) -> bool; fn vx_contains(&self, a: A) -> (r: bool) ensures r == self.contains_spec(a); }
impl VxContains<char> for str {
    open spec fn contains_spec(&self, a: char) -> bool { self@.contains(a) }
    #[verifier::external_body]
    fn vx_contains(&self, a: char) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
/// `str::split(char)`.
pub open spec fn split_seq(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![s] }
    else {
        let r = split_seq(s.drop_last(), c);
        if s.last() == c { r.push(seq![]) } else { r.drop_last().push(r.last().push(s.last())) }
    }
}
#[verifier::external_body]
pub fn vx_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures r@.len() == split_seq(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_seq(s@, c)[i]
{ unimplemented!() }
/// `str::match_indices` of one ASCII character: the byte offsets of all its occurrences, ascending.
#[verifier::external_body]
pub fn vx_match_indices(s: &str, c: char) -> (r: Vec<(usize, ())>)
    requires (c as int) < 128,
    ensures
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 < encode_utf8(s@).len() && encode_utf8(s@)[r@[i].0 as int] == c as u8,
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i].0 < r@[j].0,
        forall|p: int| 0 <= p < encode_utf8(s@).len() && (#[trigger] encode_utf8(s@)[p]) == c as u8 ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == p,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_path_is_absolute(s: &str) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == '/') { unimplemented!() }

pub struct FromUtf8Error { pub bytes: Vec<u8> }
impl FromUtf8Error { pub fn into_bytes(self) -> (r: Vec<u8>) ensures r == self.bytes { self.bytes } }
#[verifier::external_body]
pub fn vx_from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
    ensures match r { Ok(s) => valid_utf8(v@) && encode_utf8(s@) == v@, Err(e) => !valid_utf8(v@) && e.bytes@ == v@ }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_from_utf8_lossy(v: &[u8]) -> (r: CowStr) { unimplemented!() }
pub fn vx_bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@)
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len() invariant i <= a.len(), a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j] decreases a.len() - i
    {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    assert(a@ =~= b@);
    true
}

pub struct CowStr { pub s: String }
impl View for CowStr { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.s@ } }
impl CowStr {
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { self.s.as_str() }
    pub fn vx_into_owned(self) -> (r: String) ensures r@ == self@ { self.s }
}
pub struct CowBytes { pub v: Vec<u8> }
impl View for CowBytes { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.v@ } }
impl CowBytes {
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { self.v.as_slice() }
    pub fn vx_into_owned(self) -> (r: Vec<u8>) ensures r@ == self@ { self.v }
}

impl VxDisplay for CowStr {
    open spec fn disp(&self) -> Seq<char> { self@ }
    open spec fn disp_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
pub trait VxTranspose { type Out; spec fn tr_rel(self, r: Self::Out) -> bool; fn vx_transpose(self) -> (r: Self::Out) where Self: Sized ensures self.tr_rel(r); }
impl<T, E> VxTranspose for Option<Result<T, E>> {
    type Out = Result<Option<T>, E>;
    open spec fn tr_rel(self, r: Result<Option<T>, E>) -> bool { r == (match self { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) }) }
    fn vx_transpose(self) -> (r: Result<Option<T>, E>) { match self { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
}
impl<T, E> VxTranspose for Result<Option<T>, E> {
    type Out = Option<Result<T, E>>;
    open spec fn tr_rel(self, r: Option<Result<T, E>>) -> bool { r == (match self { Ok(None) => None, Ok(Some(x)) => Some(Ok(x)), Err(e) => Some(Err(e)) }) }
    fn vx_transpose(self) -> (r: Option<Result<T, E>>) { match self { Ok(None) => None, Ok(Some(x)) => Some(Ok(x)), Err(e) => Some(Err(e)) } }
}

// ---------------------------------------------------------------- slices and iterator chains
pub trait VxSlice<T> { spec fn sl(&self) -> Seq<T>; fn vx_slice(&self) -> (r: &[T]) ensures r@ == self.sl(); }
impl<T> VxSlice<T> for Vec<T> {
    open spec fn sl(&self) -> Seq<T> { self@ }
    fn vx_slice(&self) -> (r: &[T]) { self.as_slice() }
}
impl<T> VxSlice<T> for [T] {
    open spec fn sl(&self) -> Seq<T> { self@ }
    fn vx_slice(&self) -> (r: &[T]) { self }
}
pub fn vx_any<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures
        r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (&#[trigger] s@[i],), true),
        !r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), false),
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] s@[j],), false)
        decreases s@.len() - i
    {
        if f(&s[i]) { return true; }
        i += 1;
    }
    false
}
pub fn vx_all<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures
        !r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (&#[trigger] s@[i],), false),
        r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), true),
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] s@[j],), true)
        decreases s@.len() - i
    {
        if !f(&s[i]) { return false; }
        i += 1;
    }
    true
}
pub fn vx_find<'a, T, F: Fn(&T) -> bool>(s: &'a [T], f: F) -> (r: Option<&'a T>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < s@.len() && #[trigger] s@[i] == *x && call_ensures(f, (&s@[i],), true)
            && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] s@[j],), false),
        None => forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), false),
    }
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] s@[j],), false)
        decreases s@.len() - i
    {
        if f(&s[i]) { assert(s@[i as int] == s[i as int]); return Some(&s[i]); }
        i += 1;
    }
    None
}
pub fn vx_position<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures match r {
        Some(x) => x < s@.len() && call_ensures(f, (&s@[x as int],), true)
            && forall|j: int| 0 <= j < x ==> call_ensures(f, (&#[trigger] s@[j],), false),
        None => forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), false),
    }
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] s@[j],), false)
        decreases s@.len() - i
    {
        if f(&s[i]) { return Some(i); }
        i += 1;
    }
    None
}
pub open spec fn count_true(bs: Seq<bool>) -> nat decreases bs.len()
{ if bs.len() == 0 { 0 } else { count_true(bs.drop_last()) + (if bs.last() { 1nat } else { 0 }) } }
pub fn vx_count<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: usize)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures r <= s@.len(), exists|bs: Seq<bool>| bs.len() == s@.len() && #[trigger] count_true(bs) == r
        && forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&s@[i],), #[trigger] bs[i])
{
    let mut i: usize = 0;
    let mut n: usize = 0;
    let ghost mut bs: Seq<bool> = Seq::empty();
    while i < s.len()
        invariant i <= s@.len(), n <= i, forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
            bs.len() == i, count_true(bs) == n,
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&s@[j],), #[trigger] bs[j])
        decreases s@.len() - i
    {
        let b = f(&s[i]);
        proof {
            let nb = bs.push(b);
            assert(nb.drop_last() =~= bs);
            bs = nb;
        }
        if b { n += 1; }
        i += 1;
    }
    n
}
/// `Iterator::enumerate` over a slice.
pub fn vx_enumerate<T>(s: &[T]) -> (r: Vec<(usize, &T)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == s@[i]
{
    let mut out: Vec<(usize, &T)> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), out@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] out@[j]).0 == j && *out@[j].1 == s@[j]
        decreases s@.len() - i
    {
        out.push((i, &s[i]));
        i += 1;
    }
    out
}
/// The elements with a true mark, in order.
pub open spec fn sel_true<T>(s: Seq<T>, bs: Seq<bool>) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 || bs.len() != s.len() { seq![] } else { let r = sel_true(s.drop_last(), bs.drop_last()); if bs.last() { r.push(s.last()) } else { r } } }
pub fn vx_filter<T, F: Fn(&T) -> bool>(v: Vec<T>, f: F) -> (r: Vec<T>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
    ensures exists|bs: Seq<bool>| bs.len() == v@.len() && r@ == #[trigger] sel_true(v@, bs)
        && forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&v@[i],), #[trigger] bs[i])
{
    let ghost v0 = v@;
    let mut out: Vec<T> = Vec::new();
    let ghost mut bs: Seq<bool> = Seq::empty();
    for x in it: v
        invariant it.seq() == v0, forall|i: int| 0 <= i < v0.len() ==> call_requires(f, (&#[trigger] v0[i],)),
            bs.len() == it.index(), out@ == sel_true(v0.take(it.index() as int), bs),
            forall|j: int| 0 <= j < it.index() ==> call_ensures(f, (&v0[j],), #[trigger] bs[j])
    {
        let b = f(&x);
        proof {
            let i = it.index() as int;
            assert(v0.take(i + 1).drop_last() =~= v0.take(i));
            let nb = bs.push(b);
            assert(nb.drop_last() =~= bs);
            bs = nb;
        }
        if b { out.push(x); }
    }
    proof { assert(v0.take(v0.len() as int) =~= v0); }
    out
}
pub fn vx_map_collect<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],)),
    ensures r@.len() == v@.len(),
        forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), r@[i]),
{
    let mut out: Vec<B> = Vec::new();
    for x in it: v
        invariant
            it.seq() == v@,
            forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],)),
            out@.len() == it.index(),
            forall|i: int| 0 <= i < it.index() ==> call_ensures(f, (v@[i],), #[trigger] out@[i]),
    {
        let y = f(x);
        out.push(y);
    }
    out
}
pub trait VxBinarySearch { spec fn bs_seq(&self) -> Seq<i32>;
    fn vx_binary_search(&self, x: &i32) -> (r: Result<usize, usize>)
        requires forall|i: int, j: int| 0 <= i < j < self.bs_seq().len() ==> self.bs_seq()[i] <= self.bs_seq()[j],
        ensures match r {
            Ok(i) => i < self.bs_seq().len() && self.bs_seq()[i as int] == *x,
            Err(i) => i <= self.bs_seq().len() && (forall|j: int| 0 <= j < i ==> self.bs_seq()[j] < *x)
                && (forall|j: int| i <= j < self.bs_seq().len() ==> self.bs_seq()[j] > *x),
        };
}
impl VxBinarySearch for Vec<i32> {
    open spec fn bs_seq(&self) -> Seq<i32> { self@ }
    #[verifier::external_body]
    fn vx_binary_search(&self, x: &i32) -> (r: Result<usize, usize>) { unimplemented!() }
}

// ---------------------------------------------------------------- sorting
/// Lexicographic order of integer sequences: a <= b.
pub open spec fn lex_le(a: Seq<i32>, b: Seq<i32>) -> bool
    decreases a.len()
{
    if a.len() == 0 { true } else if b.len() == 0 { false }
    else if a[0] != b[0] { a[0] < b[0] } else { lex_le(a.drop_first(), b.drop_first()) }
}
pub trait VxCmp { spec fn cmp_rel(&self, o: &Self, r: Ordering) -> bool; fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures self.cmp_rel(o, r); }
impl VxCmp for Vec<i32> {
    open spec fn cmp_rel(&self, o: &Self, r: Ordering) -> bool {
        (r is Less || r is Equal <==> lex_le(self@, o@)) && (r is Greater || r is Equal <==> lex_le(o@, self@))
    }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() }
}
pub open spec fn fn_le<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool {
    call_ensures(f, (&a, &b), Ordering::Less) || call_ensures(f, (&a, &b), Ordering::Equal)
}
#[verifier::external_body]
pub fn vx_sort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F)
    requires forall|a: &T, b: &T| call_requires(f, (a, b)),
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        final(v)@.len() == old(v)@.len(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> fn_le(f, #[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ unimplemented!() }

} // verus!
}

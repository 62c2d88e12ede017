@use
use crate::vx::*;
use crate::vx::Span;
use core::ops::Range;
use vstd::utf8::*;
@items
/// `miette::NamedSource`: a text with a name.
pub struct NamedSource<S> { pub vx_name: std::string::String, pub vx_src: S }
impl<S> NamedSource<S> {
    #[verifier::external_body]
    pub fn new(name: &str, source: S) -> (r: Self) ensures r.vx_name@ == name@, r.vx_src == source { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.vx_name@ { unimplemented!() }
}
@fn error::ParseError::new [C02]
requires
- [C01] related@.len() > 0
ensures
- [C02] *res.kind == related@[0] && res.related@ == related@.skip(1)
- [C26] res.source_code.vx_name@ == name@
@fn error::ParseError::file [C26]
ensures
- [C26] res@ == self.source_code.vx_name@

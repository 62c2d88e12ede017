@use
use crate::vx::*;
use crate::vx::Span;
use crate::error;
use crate::error::ParseError;
use crate::parse::{self};
use crate::generate;
use crate::prost_types::FileDescriptorProto;
use crate::generate::*;
use vstd::utf8::*;
@items
/// The significant tokens of a text.
pub open spec fn toks(source: &str) -> Seq<crate::lex::LTok<'_>> { parse::sig(crate::lex::lexed(source), crate::lex::lexed(source).len() as int) }
@fn root::index_to_i32 [C01,C09,C10]
requires
- [C01] index <= i32::MAX
ensures
- [C09,C10] res as int == index as int
@fn root::join_span [C09,C10]
ensures
- [C09] res.start == start.start
- [C09] res.end == end.end
@fn root::parse [C02]
ensures
- [C02] res is Ok ==> exists|f: crate::ast::File| legal_file(f) && #[trigger] file_rel(f, name@, res->Ok_0) && parse::v_file(toks(source), encode_utf8(source@).len() as int, f)
- [C02] res is Ok ==> parse::e_file(toks(source)) >= 0
- [C02] res is Err ==> encode_utf8(source@).len() > crate::root::MAX_FILE_LEN || parse::e_file(toks(source)) < 0 || parse::lexb(crate::lex::lexed(source), crate::lex::lexed(source).len() as int) || exists|f: crate::ast::File| !legal_file(f) && #[trigger] parse::v_file(toks(source), encode_utf8(source@).len() as int, f)
- [C11] res is Ok ==> (res->Ok_0).source_code_info is Some && paths_sorted(((res->Ok_0).source_code_info->0).location@)
- [C26] res is Err ==> (res->Err_0).source_code.vx_name@ == name@

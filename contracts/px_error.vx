@use
use crate::vx::*;
use crate::vxp::*;
use crate::px_file::File;
@items
/// A requested file or an import was missing.
pub open spec fn nf_k(k: ErrorKind) -> bool { k is FileNotFound || k is ImportNotFound || k is FileNotIncluded }
/// The text of a file was not acceptable.
pub open spec fn parse_k(k: ErrorKind) -> bool { k is Parse || k is FileTooLarge || k is FileInvalidUtf8 }
pub open spec fn io_k(k: ErrorKind) -> bool { k is OpenFile || (k matches ErrorKind::Custom(e) && is_a::<io::Error>(e)) }
pub open spec fn file_k(k: ErrorKind) -> Option<Seq<char>> {
    match k {
        ErrorKind::Parse { err } => Some(parse_error_file(err)),
        ErrorKind::Check { err } => desc_error_file(err),
        ErrorKind::OpenFile { name, path, err } => Some(name@),
        ErrorKind::FileTooLarge { name } => Some(name@),
        ErrorKind::FileInvalidUtf8 { name } => Some(name@),
        ErrorKind::FileNotFound { name } => Some(name@),
        ErrorKind::CircularImport { name, cycle } => Some(name@),
        ErrorKind::FileShadowed { name, path, shadow } => Some(name@),
        ErrorKind::FileNotIncluded { path } => None,
        ErrorKind::Custom(e) => None,
        ErrorKind::ImportNotFound { span, source_code, name } => Some(source_code.nm@),
        ErrorKind::DuplicateImport { span, source_code, name } => Some(source_code.nm@),
    }
}
pub proof fn lemma_kinds_disjoint(k: ErrorKind)
    ensures !(nf_k(k) && parse_k(k)), !(nf_k(k) && io_k(k)), !(parse_k(k) && io_k(k))
{ }
pub open spec fn is_nf(e: Error, n: Seq<char>) -> bool { *e.kind matches ErrorKind::FileNotFound { name } && name@ == n }
/// What an error of an import becomes at the file that imports it.
pub open spec fn import_error(e: Error, f: Seq<char>, r: Error) -> bool {
    match *e.kind {
        ErrorKind::FileNotFound { name } => *r.kind matches ErrorKind::ImportNotFound { span, source_code, name: n } && n@ == name@ && source_code.nm@ == f,
        _ => r == e,
    }
}
pub open spec fn dup_error(e: Error, f: File, n: Seq<char>) -> bool { *e.kind matches ErrorKind::DuplicateImport { span, source_code, name } && name@ == n && source_code.nm@ == fname(f.descriptor) }
pub trait VxFrom: Sized { spec fn from_rel(self, r: Error) -> bool; fn vx_from(self) -> (r: Error) ensures self.from_rel(r); }
impl VxFrom for Error {
    open spec fn from_rel(self, r: Error) -> bool { r == self }
    fn vx_from(self) -> (r: Error) { self }
}
impl VxFrom for ParseError {
    open spec fn from_rel(self, r: Error) -> bool { *r.kind == (ErrorKind::Parse { err: self }) }
    fn vx_from(self) -> (r: Error) { from_ParseError_for_Error(self) }
}
impl VxFrom for DescriptorError {
    open spec fn from_rel(self, r: Error) -> bool { *r.kind == (ErrorKind::Check { err: self }) }
    fn vx_from(self) -> (r: Error) { from_DescriptorError_for_Error(self) }
}
@fn px_error::from_ParseError_for_Error [C26]
ensures
- [C26] *res.kind == (ErrorKind::Parse { err })
@fn px_error::from_DescriptorError_for_Error [C26]
ensures
- [C26] *res.kind == (ErrorKind::Check { err })
@fn px_error::Error::from_kind [C22,C23,C24,C26]
ensures
- [C22,C23,C24,C26] *res.kind == kind
@fn px_error::Error::file_not_found [C23,C26]
ensures
- [C23,C24,C26] is_nf(res, name@)
@fn px_error::Error::file [C26]
ensures
- [C24,C26] match (res, file_k(*self.kind)) { (Some(a), Some(b)) => a@ == b, (None, None) => true, _ => false }
@fn px_error::Error::is_file_not_found [C23,C24,C26]
ensures
- [C23,C24,C26] res == nf_k(*self.kind)
@fn px_error::Error::is_parse [C26]
ensures
- [C26] res == parse_k(*self.kind)
@fn px_error::Error::is_io [C26]
ensures
- [C26] res == io_k(*self.kind)
@fn px_error::Error::into_import_error [C24,C26]
ensures
- [C24,C26] import_error(self, fname(file.descriptor), res)
@fn px_error::Error::duplicated_import [C24,C26]
ensures
- [C24,C26] dup_error(res, *file, name@)
@fn px_error::find_import_span [C26]
@external only chooses the text position shown with an error

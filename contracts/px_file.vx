@use
use crate::vx::*;
use crate::vxp::*;
use crate::vxp::protox_parse::parsed;
use crate::prost_types;
use crate::prost_types::*;
use crate::px_error::*;
@items
/// A strategy for locating files. The answers are described by relations (nothing is assumed of a
/// resolver but what `honest` says, and only where it is required).
pub trait FileResolver {
    spec fn maps(&self, path: Path, r: Option<Seq<char>>) -> bool;
    spec fn opens(&self, name: Seq<char>, r: Result<File, Error>) -> bool;
    /// A set that holds the imports of every file it answers with.
    spec fn names(&self) -> Set<Seq<char>>;
    /// Its files are what they were asked for, and import names of that set only.
    spec fn honest(&self) -> bool;
    fn resolve_path(&self, path: &Path) -> (r: Option<String>) ensures self.maps(*path, match r { Some(s) => Some(s@), None => None });
    fn open_file(&self, name: &str) -> (r: Result<File, Error>)
        ensures self.opens(name@, r), self.honest() ==> (r matches Ok(f) ==> file_ok(f, name@) && imports_in(f, self.names()));
}
pub open spec fn same_resolver<A: FileResolver + ?Sized, B: FileResolver + ?Sized>(a: &A, b: &B) -> bool {
    &&& forall|p: Path, r: Option<Seq<char>>| #[trigger] a.maps(p, r) == b.maps(p, r)
    &&& forall|n: Seq<char>, r: Result<File, Error>| #[trigger] a.opens(n, r) == b.opens(n, r)
    &&& a.names() == b.names() && a.honest() == b.honest()
}
/// As a trait object, a resolver gives the same answers.
#[verifier::external_body]
pub fn vx_box<R: FileResolver + 'static>(r: R) -> (b: Box<dyn FileResolver>) ensures same_resolver(&*b, &r) { unimplemented!() }
pub open spec fn imports_in(f: File, s: Set<Seq<char>>) -> bool { forall|i: int| 0 <= i < deps(f.descriptor).len() ==> s.contains(#[trigger] deps(f.descriptor)[i]) }
/// The descriptor has the name it was asked for under, and its encoding says the same.
pub open spec fn file_ok(f: File, n: Seq<char>) -> bool {
    fname(f.descriptor) == n && (f.encoded matches Some(b) ==> fname(decoded(b)) == n && deps(decoded(b)) == deps(f.descriptor))
}
pub open spec fn io_err_k(e: IoError, n: Seq<char>, p: Path, k: ErrorKind) -> bool {
    match io_kind(e) {
        IoKind::NotFound => k matches ErrorKind::FileNotFound { name } && name@ == n,
        IoKind::InvalidData => k matches ErrorKind::FileInvalidUtf8 { name } && name@ == n,
        IoKind::Other => k matches ErrorKind::OpenFile { name, path, err } && name@ == n && path == p && err == e,
    }
}
pub open spec fn source_ok(n: Seq<char>, t: Seq<char>, p: Option<Path>, r: Result<File, Error>) -> bool {
    match (parsed(n, t), r) {
        (Ok(d), Ok(f)) => f.descriptor == d && f.path == p && (f.source matches Some(s) && s@ == t) && f.encoded is None,
        (Err(e), Err(x)) => *x.kind == (ErrorKind::Parse { err: e }),
        _ => false,
    }
}
pub open spec fn open_ok(n: Seq<char>, p: Path, r: Result<File, Error>) -> bool {
    match fs_data(p) {
        Err(e) => r matches Err(x) && io_err_k(e, n, p, *x.kind),
        Ok(d) =>
            if d.meta is Err { r matches Err(x) && io_err_k(d.meta->Err_0, n, p, *x.kind) }
            else if d.len > i32::MAX { r matches Err(x) && (*x.kind matches ErrorKind::FileTooLarge { name } && name@ == n) }
            else { match d.text { Err(e) => r matches Err(x) && io_err_k(e, n, p, *x.kind), Ok(t) => source_ok(n, t@, Some(p), r) } },
    }
}
@fn px_file::File::open [C22,C26]
ensures
- [C26] open_ok(name@, *path, res)
- res matches Ok(f) ==> file_ok(f, name@)
@closure 0
(IoError) -> (b: Error) ensures io_err_k($1, name@, *path, *b.kind)
@fn px_file::File::from_source [C26]
ensures
- [C26] source_ok(name@, source@, None, res)
- res matches Ok(f) ==> file_ok(f, name@)
@fn px_file::File::name [C24,C25]
ensures
- [C24,C25] res@ == fname(self.descriptor)
@fn px_file::File::path [C22]
ensures
- [C22] match (self.path, res) { (Some(p), Some(q)) => *q == p, (None, None) => true, _ => false }
@fn px_file::File::source [C26]
ensures
- [C26] match (self.source, res) { (Some(p), Some(q)) => q@ == p@, (None, None) => true, _ => false }
@fn px_file::FileMetadata::path [C22]
ensures
- [C22] match (self.path, res) { (Some(p), Some(q)) => *q == p, (None, None) => true, _ => false }
@fn px_file::FileMetadata::name [C24,C25]
ensures
- [C24,C25] res@ == self.name@
@fn px_file::FileMetadata::is_import [C25]
ensures
- [C25] res == self.is_import


// Trusted prelude of the protox crate: paths, the file system, maps and the descriptor pool.
pub mod vxp {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::utf8::*;
use crate::vx::*;
use crate::prost_types::*;

verus! {

// ---------------------------------------------------------------- paths
// A path is the sequence of its components (`Path::components` of the standard library, which
// drops repeated and trailing separators and all `.` but a leading one).
pub enum CompV { Prefix(Seq<u8>), RootDir, CurDir, ParentDir, Normal(Seq<u8>) }
pub struct Path { pub o: u8 }
pub type PathBuf = Path;
pub uninterp spec fn comps(p: &Path) -> Seq<CompV>;
pub uninterp spec fn joined(p: &Path, s: Seq<char>) -> Path;
/// A `.` is only ever the first component (documented in std::path::Components).
pub axiom fn ax_curdir_first(p: &Path)
    ensures forall|i: int| 0 < i < comps(p).len() ==> !(#[trigger] comps(p)[i] is CurDir);
/// The name of a normal component is not empty and holds no '/'.
pub axiom fn ax_normal(p: &Path)
    ensures forall|i: int| 0 <= i < comps(p).len() ==> ((#[trigger] comps(p)[i]) matches CompV::Normal(b) ==> b.len() > 0);
pub struct OsStr { pub b: Ghost<Seq<u8>> }
impl OsStr {
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>)
        ensures match r { Some(s) => valid_utf8(self.b@) && encode_utf8(s@) == self.b@ && s@ == decode_utf8(self.b@), None => !valid_utf8(self.b@) }
    { unimplemented!() }
}
pub struct PrefixComponent<'a> { pub b: Ghost<Seq<u8>>, pub p: &'a u8 }
pub mod path {
    pub use super::Component;
    pub use super::Path;
    pub use super::PathBuf;
}
pub enum Component<'a> { Prefix(PrefixComponent<'a>), RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
impl<'a> View for Component<'a> {
    type V = CompV;
    open spec fn view(&self) -> CompV {
        match self {
            Component::Prefix(p) => CompV::Prefix(p.b@), Component::RootDir => CompV::RootDir, Component::CurDir => CompV::CurDir,
            Component::ParentDir => CompV::ParentDir, Component::Normal(s) => CompV::Normal(s.b@),
        }
    }
}
impl<'a> PartialEq for Component<'a> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl<'a> PartialEqSpecImpl for Component<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
pub struct Components<'a> { pub p: &'a Path, pub rest: Ghost<Seq<CompV>> }
/// A suffix of a path's components: no `.` but as its first.
pub open spec fn cwf(s: Seq<CompV>) -> bool { forall|i: int| 0 < i < s.len() ==> !(#[trigger] s[i] is CurDir) }
pub trait VxCompIter<'a>: Sized {
    spec fn cv(&self) -> Seq<CompV>;
    fn next(&mut self) -> (r: Option<Component<'a>>)
        ensures
            match r { Some(c) => old(self).cv().len() > 0 && c@ == old(self).cv()[0] && final(self).cv() == old(self).cv().drop_first(),
                None => old(self).cv().len() == 0 && *final(self) == *old(self) };
}
impl<'a> VxCompIter<'a> for Components<'a> {
    open spec fn cv(&self) -> Seq<CompV> { self.rest@ }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Component<'a>>) { unimplemented!() }
}
impl<'a> Clone for Components<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<'a> Components<'a> {
    /// The rest as a path. (`as_path` trims `.` components: there are none behind a consumed one.)
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &'a Path)
        requires self.rest@.len() == 0 || !(self.rest@[0] is CurDir)
        ensures comps(r) == self.rest@
    { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn components(&self) -> (r: Components<'_>) ensures r.rest@ == comps(self), cwf(r.rest@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_components(&self) -> (r: Vec<Component<'_>>)
        ensures r@.len() == comps(self).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == comps(self)[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: PathBuf) ensures r == joined(self, s@) { unimplemented!() }
}
impl VxToOwned for Path {
    type O = Path;
    open spec fn owned_rel(&self, r: Path) -> bool { r == *self }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: Path) { unimplemented!() }
}
pub trait VxAsPath { spec fn pv(&self) -> Path; fn as_ref(&self) -> (r: &Path) ensures *r == self.pv(); }
pub trait VxAsDeref { type D: ?Sized; spec fn ad_rel(&self, r: Option<&Self::D>) -> bool; fn vx_as_deref(&self) -> (r: Option<&Self::D>) ensures self.ad_rel(r); }
impl VxAsDeref for Option<Path> {
    type D = Path;
    open spec fn ad_rel(&self, r: Option<&Path>) -> bool { match (*self, r) { (Some(p), Some(q)) => *q == p, (None, None) => true, _ => false } }
    fn vx_as_deref(&self) -> (r: Option<&Path>) { match self { Some(p) => Some(p), None => None } }
}
impl VxAsDeref for Option<String> {
    type D = str;
    open spec fn ad_rel(&self, r: Option<&str>) -> bool { match (*self, r) { (Some(p), Some(q)) => q@ == p@, (None, None) => true, _ => false } }
    fn vx_as_deref(&self) -> (r: Option<&str>) { match self { Some(p) => Some(p.as_str()), None => None } }
}

// ---------------------------------------------------------------- errors of other crates
pub struct BoxError { pub io: Ghost<bool> }
impl BoxError {
    #[verifier::external_body]
    pub fn downcast_ref<T>(&self) -> (r: Option<&T>) ensures r is Some == is_a::<T>(*self) { unimplemented!() }
}
pub uninterp spec fn is_a<T>(e: BoxError) -> bool;
pub struct ParseError { pub o: u8 }
pub uninterp spec fn parse_error_file(e: ParseError) -> Seq<char>;
impl ParseError {
    #[verifier::external_body]
    pub fn file(&self) -> (r: &str) ensures r@ == parse_error_file(*self) { unimplemented!() }
}
pub struct DescriptorError { pub o: u8 }
pub uninterp spec fn desc_error_file(e: DescriptorError) -> Option<Seq<char>>;
impl DescriptorError {
    #[verifier::external_body]
    pub fn file(&self) -> (r: Option<&str>)
        ensures match (r, desc_error_file(*self)) { (Some(a), Some(b)) => a@ == b, (None, None) => true, _ => false }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_source_code(self, s: &String) -> (r: DescriptorError) { unimplemented!() }
}
pub struct SourceSpan { pub o: u8 }
pub struct NamedSource<T> { pub nm: Ghost<Seq<char>>, pub t: T }
impl NamedSource<String> {
    #[verifier::external_body]
    pub fn new(name: &str, t: String) -> (r: Self) ensures r.nm@ == name@, r.t == t { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.nm@ { unimplemented!() }
}

// ---------------------------------------------------------------- the file system and other crates
pub struct Bytes { pub o: u8 }
pub struct DecodeError { pub o: u8 }
pub trait Buf { }
pub struct IoError { pub o: u8 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum IoKind { NotFound, InvalidData, Other }
pub uninterp spec fn io_kind(e: IoError) -> IoKind;
impl IoError {
    #[verifier::external_body]
    pub fn kind(&self) -> (r: IoKind) ensures r == io_kind(*self) { unimplemented!() }
}
pub mod io {
    pub use super::IoError as Error;
    pub use super::IoKind as ErrorKind;
}
/// What reading a path gives (the file system is not changed by others while this runs).
pub struct FileData { pub len: u64, pub meta: Result<(), IoError>, pub text: Result<String, IoError> }
pub uninterp spec fn fs_data(p: Path) -> Result<FileData, IoError>;
pub struct FsFile { pub d: Ghost<FileData>, pub cap: Ghost<Option<u64>> }
pub struct Metadata { pub n: u64 }
impl Metadata { pub fn len(&self) -> (r: u64) ensures r == self.n { self.n } }
impl FsFile {
    #[verifier::external_body]
    pub fn open(p: &Path) -> (r: Result<FsFile, IoError>)
        ensures match (r, fs_data(*p)) { (Ok(f), Ok(d)) => f.d@ == d && f.cap@ is None, (Err(e), Err(x)) => e == x, _ => false }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: Result<Metadata, IoError>)
        ensures match (r, self.d@.meta) { (Ok(m), Ok(_)) => m.n == self.d@.len, (Err(e), Err(x)) => e == x, _ => false }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: u64) -> (r: FsFile) ensures r.d == self.d, r.cap@ == Some(n) { unimplemented!() }
    /// The whole text if no shorter cap was set (a cap of at least the file's length is none).
    #[verifier::external_body]
    pub fn read_to_string(self, s: &mut String) -> (r: Result<usize, IoError>)
        ensures match (r, self.d@.text) {
            (Ok(_), Ok(t)) => (self.cap@ is None || self.cap@->0 >= self.d@.len) && old(s)@.len() == 0 ==> final(s)@ == t@,
            (Err(e), Err(x)) => e == x, _ => false }
    { unimplemented!() }
}
pub mod fs { pub use super::FsFile as File; }
pub mod protox_parse {
    use super::*;
    verus! {
    /// `protox_parse::parse`: on success the descriptor carries the given name (C19), else the error does (C02).
    pub uninterp spec fn parsed(name: Seq<char>, source: Seq<char>) -> Result<FileDescriptorProto, ParseError>;
    #[verifier::external_body]
    pub fn parse(name: &str, source: &str) -> (r: Result<FileDescriptorProto, ParseError>)
        ensures r == parsed(name@, source@), match r { Ok(d) => fname(d) == name@, Err(e) => parse_error_file(e) == name@ }
    { unimplemented!() }
    }
}
pub open spec fn fname(d: FileDescriptorProto) -> Seq<char> { match d.name { Some(n) => n@, None => seq![] } }
impl FileDescriptorProto {
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == fname(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn decode(b: &Bytes) -> (r: Result<FileDescriptorProto, DecodeError>) { unimplemented!() }
}

// ---------------------------------------------------------------- maps and sets of names
pub struct HashMap<K, V> { pub k: std::marker::PhantomData<K>, pub m: Ghost<Map<Seq<char>, V>> }
impl<K, V> View for HashMap<K, V> { type V = Map<Seq<char>, V>; open spec fn view(&self) -> Map<Seq<char>, V> { self.m@ } }
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &String) -> (r: Option<&mut V>)
        ensures match r {
            Some(x) => old(self)@.contains_key(k@) && *x == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(x)),
            None => !old(self)@.contains_key(k@) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_at(&self, k: &str) -> (r: &V) requires self@.contains_key(k@) ensures *r == self@[k@] { unimplemented!() }
}
pub struct HashSet { pub s: Ghost<Set<Seq<char>>> }
impl View for HashSet { type V = Set<Seq<char>>; open spec fn view(&self) -> Set<Seq<char>> { self.s@ } }
impl HashSet {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &String) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
}

// ---------------------------------------------------------------- prost-reflect
// The pool is a list of descriptors; adding checks one against those before it.
pub struct DescriptorPool { pub v: Ghost<Seq<FileDescriptorProto>> }
impl View for DescriptorPool { type V = Seq<FileDescriptorProto>; open spec fn view(&self) -> Seq<FileDescriptorProto> { self.v@ } }
pub open spec fn has_file(s: Seq<FileDescriptorProto>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && fname(#[trigger] s[i]) == n }
pub open spec fn deps(d: FileDescriptorProto) -> Seq<Seq<char>> { Seq::new(d.dependency@.len(), |i: int| d.dependency@[i]@) }
/// What the pool makes of a descriptor (names resolved, options interpreted).
pub uninterp spec fn pooled(a: Seq<FileDescriptorProto>, d: FileDescriptorProto) -> FileDescriptorProto;
/// A file of a name the pool knows is ignored, any other is appended.
pub open spec fn added(a: Seq<FileDescriptorProto>, b: Seq<FileDescriptorProto>, d: FileDescriptorProto) -> bool {
    &&& b == (if has_file(a, fname(d)) { a } else { a.push(pooled(a, d)) })
    &&& fname(pooled(a, d)) == fname(d) && deps(pooled(a, d)) == deps(d)
}
pub uninterp spec fn decoded(b: Bytes) -> FileDescriptorProto;
impl DescriptorPool {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn add_file_descriptor_proto(&mut self, d: FileDescriptorProto) -> (r: Result<(), DescriptorError>)
        ensures r is Ok ==> added(old(self)@, final(self)@, d), r is Err ==> final(self)@ == old(self)@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn decode_file_descriptor_proto(&mut self, b: Bytes) -> (r: Result<(), DescriptorError>)
        ensures r is Ok ==> added(old(self)@, final(self)@, decoded(b)), r is Err ==> final(self)@ == old(self)@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn files(&self) -> (r: Vec<FileDescriptor>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).d@ == self@[i]
    { unimplemented!() }
}
pub struct FileDescriptor { pub d: Ghost<FileDescriptorProto> }
impl FileDescriptor {
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == fname(self.d@) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_descriptor_proto(&self) -> (r: &FileDescriptorProto) ensures *r == self.d@ { unimplemented!() }
}

} // verus!
}

@use
use crate::vx::*;
use crate::vxp::*;
use crate::prost_types;
use crate::prost_types::FileDescriptorProto;
use crate::px_error::*;
use crate::px_file::*;
@items
pub open spec fn set_opens(v: Seq<FileDescriptor>, n: Seq<char>, r: Result<File, Error>) -> bool {
    match r {
        Ok(f) => f.path is None && f.source is None && exists|k: int| 0 <= k < v.len() && f.descriptor == (#[trigger] v[k]).file && f.encoded == v[k].encoded
            && fname(f.descriptor) == n && forall|j: int| 0 <= j < k ==> fname((#[trigger] v[j]).file) != n,
        Err(e) => is_nf(e, n) && forall|j: int| 0 <= j < v.len() ==> fname((#[trigger] v[j]).file) != n,
    }
}
pub open spec fn names_of(v: Seq<FileDescriptor>, k: int) -> Set<Seq<char>>
    decreases k
{ if k <= 0 { Set::empty() } else { names_of(v, k - 1).union(deps(v[k - 1].file).to_set()) } }
pub proof fn lemma_names(v: Seq<FileDescriptor>, k: int, i: int, n: Seq<char>)
    requires 0 <= i < k <= v.len(), deps(v[i].file).contains(n)
    ensures names_of(v, k).contains(n)
    decreases k
{ if i < k - 1 { lemma_names(v, k - 1, i, n); } }
impl FileResolver for DescriptorSetFileResolver {
    open spec fn maps(&self, path: Path, r: Option<Seq<char>>) -> bool { r is None }
    open spec fn opens(&self, name: Seq<char>, r: Result<File, Error>) -> bool { set_opens(self.set@, name, r) }
    open spec fn names(&self) -> Set<Seq<char>> { names_of(self.set@, self.set@.len() as int) }
    /// the encoded files are what they were decoded to
    open spec fn honest(&self) -> bool { forall|k: int| 0 <= k < self.set@.len() ==> ((#[trigger] self.set@[k]).encoded matches Some(b) ==> fname(decoded(b)) == fname(self.set@[k].file) && deps(decoded(b)) == deps(self.set@[k].file)) }
    fn resolve_path(&self, path: &Path) -> (r: Option<String>) { None }
    fn open_file(&self, name: &str) -> (r: Result<File, Error>) { DescriptorSetFileResolver::open_file(self, name) }
}
@fn px_dset::DescriptorSetFileResolver::open_file [C24,C26]
ensures
- [C26] set_opens(self.set@, name@, res)
- self.honest() ==> (res matches Ok(f) ==> file_ok(f, name@) && imports_in(f, self.names()))
@loop 0
invariant
- it0.seq().len() == self.set@.len()
- forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.set@[i]
- [C26] forall|j: int| 0 <= j < it0.index() ==> fname((#[trigger] self.set@[j]).file) != name@
@ghost loop 0 start
 proof { let k = it0.index() as int; assert forall|i: int| 0 <= i < deps(self.set@[k].file).len() implies self.names().contains(#[trigger] deps(self.set@[k].file)[i]) by { lemma_names(self.set@, self.set@.len() as int, k, deps(self.set@[k].file)[i]); } }
@fn px_dset::DescriptorSetFileResolver::decode [C26]
@external decodes bytes with prost
@fn px_dset::DescriptorSetFileResolver::new [C26]
@external a plain conversion
@fn px_dset::FileDescriptor::decode [C26]
@external decodes bytes with prost

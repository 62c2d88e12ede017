@use
use crate::vx::*;
use crate::vxp::*;
use crate::px_error::*;
use crate::px_file::*;
@items
/// Resolver k answered, the ones before it did not know.
pub open spec fn no_map(r: Box<dyn FileResolver>, p: Path) -> bool { r.maps(p, None) }
pub open spec fn no_file(r: Box<dyn FileResolver>, n: Seq<char>) -> bool { exists|e: Error| nf_k(*e.kind) && #[trigger] r.opens(n, Err(e)) }
pub open spec fn chain_maps(v: Seq<Box<dyn FileResolver>>, p: Path, r: Option<Seq<char>>) -> bool {
    match r {
        Some(_) => exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).maps(p, r) && forall|j: int| 0 <= j < k ==> no_map(#[trigger] v[j], p),
        None => forall|j: int| 0 <= j < v.len() ==> no_map(#[trigger] v[j], p),
    }
}
pub open spec fn known(r: Result<File, Error>) -> bool { r matches Err(e) ==> !nf_k(*e.kind) }
pub open spec fn chain_opens(v: Seq<Box<dyn FileResolver>>, n: Seq<char>, r: Result<File, Error>) -> bool {
    if known(r) { exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).opens(n, r) && forall|j: int| 0 <= j < k ==> no_file(#[trigger] v[j], n) }
    else { is_nf(r->Err_0, n) && forall|j: int| 0 <= j < v.len() ==> no_file(#[trigger] v[j], n) }
}
pub open spec fn names_of(v: Seq<Box<dyn FileResolver>>, k: int) -> Set<Seq<char>>
    decreases k
{ if k <= 0 { Set::empty() } else { names_of(v, k - 1).union(v[k - 1].names()) } }
pub proof fn lemma_names(v: Seq<Box<dyn FileResolver>>, k: int, i: int, f: File)
    requires 0 <= i < k <= v.len(), imports_in(f, v[i].names())
    ensures imports_in(f, names_of(v, k))
    decreases k
{ if i < k - 1 { lemma_names(v, k - 1, i, f); } }
impl FileResolver for ChainFileResolver {
    open spec fn maps(&self, path: Path, r: Option<Seq<char>>) -> bool { chain_maps(self.resolvers@, path, r) }
    open spec fn opens(&self, name: Seq<char>, r: Result<File, Error>) -> bool { chain_opens(self.resolvers@, name, r) }
    open spec fn names(&self) -> Set<Seq<char>> { names_of(self.resolvers@, self.resolvers@.len() as int) }
    open spec fn honest(&self) -> bool { forall|k: int| 0 <= k < self.resolvers@.len() ==> (#[trigger] self.resolvers@[k]).honest() }
    fn resolve_path(&self, path: &Path) -> (r: Option<String>) { ChainFileResolver::resolve_path(self, path) }
    fn open_file(&self, name: &str) -> (r: Result<File, Error>) { ChainFileResolver::open_file(self, name) }
}
@fn px_chain::ChainFileResolver::add [C23]
ensures
- [C23] final(self).resolvers@.len() == old(self).resolvers@.len() + 1
- [C23] same_resolver(&*final(self).resolvers@.last(), &resolver)
- [C23] forall|i: int| 0 <= i < old(self).resolvers@.len() ==> #[trigger] final(self).resolvers@[i] == old(self).resolvers@[i]
@fn px_chain::ChainFileResolver::resolve_path [C23]
ensures
- [C23] chain_maps(self.resolvers@, *path, match res { Some(s) => Some(s@), None => None })
@loop 0
invariant
- [C23] it0.seq().len() == self.resolvers@.len()
- forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.resolvers@[i]
- [C23] forall|j: int| 0 <= j < it0.index() ==> no_map(#[trigger] self.resolvers@[j], *path)
@fn px_chain::ChainFileResolver::open_file [C23]
ensures
- self.honest() ==> (res matches Ok(f) ==> file_ok(f, name@) && imports_in(f, self.names()))
- [C23] chain_opens(self.resolvers@, name@, res)
@loop 0
invariant
- [C23] it0.seq().len() == self.resolvers@.len()
- forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.resolvers@[i]
- [C23] forall|j: int| 0 <= j < it0.index() ==> no_file(#[trigger] self.resolvers@[j], name@)
@ghost loop 0 start
 proof { assert forall|f: File| #[trigger] imports_in(f, self.resolvers@[it0.index() as int].names()) implies imports_in(f, self.names()) by { lemma_names(self.resolvers@, self.resolvers@.len() as int, it0.index() as int, f); } }

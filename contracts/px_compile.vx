@use
use crate::vx::*;
use crate::vxp::*;
use crate::prost_types;
use crate::prost_types::*;
use crate::px_error::*;
use crate::px_file::*;
use crate::px_include::*;
@items
// ---- the state of a compiler
pub type Pool = Seq<FileDescriptorProto>;
pub open spec fn has_before(s: Pool, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && i < s.len() && fname(#[trigger] s[i]) == n }
pub open spec fn distinct(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
/// Every file once, after all it imports, none of them twice.
pub open spec fn pool_ok(s: Pool) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> fname(#[trigger] s[i]) != fname(#[trigger] s[j])
    &&& forall|j: int, d: int| 0 <= j < s.len() && 0 <= d < deps(s[j]).len() ==> has_before(s, j, #[trigger] deps(s[j])[d])
    &&& forall|j: int| 0 <= j < s.len() ==> distinct(deps(#[trigger] s[j]))
}
pub open spec fn inv(c: Compiler) -> bool {
    &&& c.resolver.honest()
    &&& pool_ok(c.pool@)
    &&& forall|n: Seq<char>| #[trigger] c.files@.contains_key(n) == has_file(c.pool@, n)
    &&& forall|n: Seq<char>| #[trigger] c.files@.contains_key(n) ==> c.files@[n].name@ == n
}
/// What was loaded keeps its place.
pub open spec fn pool_grown(a: Pool, b: Pool) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub open spec fn same_conf(a: Compiler, b: Compiler) -> bool { a.resolver == b.resolver && a.include_imports == b.include_imports && a.include_source_info == b.include_source_info }
/// Files were added, all as imports.
pub open spec fn grown(a: Compiler, b: Compiler) -> bool {
    &&& same_conf(a, b) && pool_grown(a.pool@, b.pool@)
    &&& forall|n: Seq<char>| #[trigger] a.files@.contains_key(n) ==> b.files@.contains_key(n) && b.files@[n] == a.files@[n]
    &&& forall|n: Seq<char>| #[trigger] b.files@.contains_key(n) && !a.files@.contains_key(n) ==> b.files@[n].is_import
}
/// The file n was opened explicitly, what else was added are imports.
pub open spec fn opened(a: Compiler, b: Compiler, n: Seq<char>) -> bool {
    &&& same_conf(a, b) && pool_grown(a.pool@, b.pool@) && has_file(b.pool@, n)
    &&& b.files@.contains_key(n) && !b.files@[n].is_import
    &&& forall|m: Seq<char>| m != n && #[trigger] a.files@.contains_key(m) ==> b.files@.contains_key(m) && b.files@[m] == a.files@[m]
    &&& forall|m: Seq<char>| m != n && #[trigger] b.files@.contains_key(m) && !a.files@.contains_key(m) ==> b.files@[m].is_import
}
pub proof fn lemma_grown_has(a: Pool, b: Pool, n: Seq<char>)
    requires pool_grown(a, b), has_file(a, n)
    ensures has_file(b, n)
{ let i = choose|i: int| 0 <= i < a.len() && fname(#[trigger] a[i]) == n; assert(fname(b[i]) == n); }
pub proof fn lemma_push(s: Pool, d: FileDescriptorProto)
    requires pool_ok(s), !has_file(s, fname(d)), distinct(deps(d)), forall|k: int| 0 <= k < deps(d).len() ==> has_file(s, #[trigger] deps(d)[k])
    ensures pool_ok(s.push(d)), pool_grown(s, s.push(d)), forall|n: Seq<char>| #[trigger] has_file(s.push(d), n) == (has_file(s, n) || n == fname(d))
{
    let t = s.push(d);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies fname(#[trigger] t[i]) != fname(#[trigger] t[j]) by { if j == s.len() { assert(fname(s[i]) != fname(d)); } }
    assert forall|j: int, k: int| 0 <= j < t.len() && 0 <= k < deps(t[j]).len() implies has_before(t, j, #[trigger] deps(t[j])[k]) by {
        let n = deps(t[j])[k];
        if j < s.len() {
            assert(has_before(s, j, deps(s[j])[k]));
            let i = choose|i: int| 0 <= i < j && i < s.len() && fname(#[trigger] s[i]) == n;
            assert(fname(t[i]) == n);
        } else {
            assert(has_file(s, deps(d)[k]));
            let i = choose|i: int| 0 <= i < s.len() && fname(#[trigger] s[i]) == n;
            assert(fname(t[i]) == n);
        }
    }
    assert forall|n: Seq<char>| #[trigger] has_file(t, n) == (has_file(s, n) || n == fname(d)) by {
        if has_file(s, n) { lemma_grown_has(s, t, n); }
        if n == fname(d) { assert(fname(t[s.len() as int]) == n); }
        if has_file(t, n) { let i = choose|i: int| 0 <= i < t.len() && fname(#[trigger] t[i]) == n; if i < s.len() { assert(fname(s[i]) == n); } }
    }
}
/// A checked file joins the pool.
pub proof fn lemma_add(a: Compiler, b: Compiler, d: FileDescriptorProto, m: FileMetadata)
    requires
        inv(a), !has_file(a.pool@, fname(d)), distinct(deps(d)), forall|k: int| 0 <= k < deps(d).len() ==> has_file(a.pool@, #[trigger] deps(d)[k]),
        added(a.pool@, b.pool@, d), b.files@ == a.files@.insert(fname(d), m), m.name@ == fname(d), same_conf(a, b),
    ensures
        inv(b), has_file(b.pool@, fname(d)), pool_grown(a.pool@, b.pool@),
        forall|n: Seq<char>| #[trigger] has_file(b.pool@, n) == (has_file(a.pool@, n) || n == fname(d)),
        m.is_import ==> grown(a, b), !m.is_import ==> opened(a, b, fname(d)),
{
    lemma_push(a.pool@, pooled(a.pool@, d));
}
pub proof fn lemma_grown_trans(a: Compiler, b: Compiler, c: Compiler)
    requires grown(a, b)
    ensures grown(b, c) ==> grown(a, c), forall|n: Seq<char>| !a.files@.contains_key(n) && #[trigger] opened(b, c, n) ==> opened(a, c, n)
{ }
pub open spec fn sv(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// The names being imported: distinct, and not loaded yet.
pub open spec fn stack_ok(c: Compiler, st: Seq<String>) -> bool { distinct(sv(st)) && forall|k: int| 0 <= k < st.len() ==> !has_file(c.pool@, #[trigger] st[k]@) }
pub open spec fn on_stack(st: Seq<String>, n: Seq<char>) -> bool { exists|k: int| 0 <= k < st.len() && (#[trigger] st[k])@ == n }
/// Names that may still be pushed.
pub open spec fn left(ns: Set<Seq<char>>, st: Seq<String>) -> Set<Seq<char>> { ns.difference(sv(st).to_set()) }
pub proof fn lemma_left(ns: Set<Seq<char>>, st: Seq<String>, s: String)
    requires ns.contains(s@), !on_stack(st, s@)
    ensures left(ns, st.push(s)).len() < left(ns, st).len()
{
    let (a, b) = (left(ns, st), left(ns, st.push(s)));
    assert(sv(st.push(s)) =~= sv(st).push(s@));
    assert(!sv(st).contains(s@)) by { if sv(st).contains(s@) { let k = choose|k: int| 0 <= k < sv(st).len() && sv(st)[k] == s@; assert(st[k]@ == s@); } }
    assert(a.contains(s@));
    assert(b =~= a.remove(s@)) by {
        assert forall|n: Seq<char>| b.contains(n) == a.remove(s@).contains(n) by {
            assert(sv(st).push(s@).contains(n) == (sv(st).contains(n) || n == s@)) by {
                if sv(st).contains(n) { let k = choose|k: int| 0 <= k < sv(st).len() && sv(st)[k] == n; assert(sv(st).push(s@)[k] == n); }
                if n == s@ { assert(sv(st).push(s@)[st.len() as int] == n); }
            }
        }
    }
}
pub proof fn lemma_stack_push(c: Compiler, st: Seq<String>, s: String)
    requires stack_ok(c, st), !on_stack(st, s@), !has_file(c.pool@, s@)
    ensures stack_ok(c, st.push(s)), sv(st.push(s)) == sv(st).push(s@)
{
    let t = st.push(s);
    assert(sv(t) =~= sv(st).push(s@));
    assert forall|i: int, j: int| 0 <= i < j < sv(t).len() implies #[trigger] sv(t)[i] != #[trigger] sv(t)[j] by { if j == st.len() { assert(st[i]@ != s@); } else { assert(sv(st)[i] != sv(st)[j]); } }
}
pub proof fn lemma_stack_sub(c: Compiler, st: Seq<String>, t: Seq<String>)
    requires stack_ok(c, t), t.len() == st.len() + 1, forall|k: int| 0 <= k < st.len() ==> #[trigger] st[k] == t[k]
    ensures stack_ok(c, st)
{
    assert forall|i: int, j: int| 0 <= i < j < sv(st).len() implies #[trigger] sv(st)[i] != #[trigger] sv(st)[j] by { assert(st[i] == t[i] && st[j] == t[j]); assert(sv(t)[i] != sv(t)[j]); }
    assert forall|k: int| 0 <= k < st.len() implies !has_file(c.pool@, #[trigger] st[k]@) by { assert(!has_file(c.pool@, t[k]@)); }
}

// ---- where an error of an import comes from
/// The names of the stack and the one they lead back to.
pub open spec fn cycle_text(st: Seq<Seq<char>>) -> Seq<char>
    decreases st.len()
{ if st.len() == 0 { seq![] } else { cycle_text(st.drop_last()) + st.last() + " -> "@ } }
pub open spec fn circular(e: Error, st: Seq<Seq<char>>, n: Seq<char>) -> bool {
    st.contains(n) && (*e.kind matches ErrorKind::CircularImport { name, cycle } && name@ == n && cycle@ == cycle_text(st) + n)
}
pub open spec fn listed_twice(s: Seq<Seq<char>>, i: int) -> bool { exists|j: int| 0 <= j < i && i < s.len() && #[trigger] s[j] == s[i] }
pub type Res = Box<dyn FileResolver>;
pub open spec fn is_check(e: Error) -> bool { *e.kind is Check }
/// An error of adding file f, whose imports fail at most k levels below it.
pub open spec fn file_err(c: Res, st: Seq<Seq<char>>, f: File, e: Error, k: nat) -> bool
    decreases k, 0nat
{
    ||| exists|i: int| #[trigger] listed_twice(deps(f.descriptor), i) && dup_error(e, f, deps(f.descriptor)[i])
    ||| is_check(e)
    ||| exists|i: int, e0: Error| 0 <= i < deps(f.descriptor).len() && k > 0 && imp_k(c, st, #[trigger] deps(f.descriptor)[i], e0, (k - 1) as nat) && #[trigger] import_error(e0, fname(f.descriptor), e)
}
/// An error of importing n below the files st.
pub open spec fn imp_k(c: Res, st: Seq<Seq<char>>, n: Seq<char>, e: Error, k: nat) -> bool
    decreases k, 1nat
{
    ||| circular(e, st, n)
    ||| c.opens(n, Err(e))
    ||| exists|f: File| #[trigger] c.opens(n, Ok(f)) && file_err(c, st.push(n), f, e, k)
}
pub open spec fn imp(c: Res, st: Seq<Seq<char>>, n: Seq<char>, e: Error) -> bool {
    ||| circular(e, st, n)
    ||| c.opens(n, Err(e))
    ||| exists|f: File, k: nat| #[trigger] c.opens(n, Ok(f)) && #[trigger] file_err(c, st.push(n), f, e, k)
}
pub proof fn lemma_up(c: Res, st: Seq<Seq<char>>, f: File, i: int, e0: Error, e: Error)
    requires 0 <= i < deps(f.descriptor).len(), imp(c, st, deps(f.descriptor)[i], e0), import_error(e0, fname(f.descriptor), e)
    ensures exists|k: nat| file_err(c, st, f, e, k)
{
    let n = deps(f.descriptor)[i];
    let k = if circular(e0, st, n) || c.opens(n, Err(e0)) { 0nat } else {
        let (g, k) = choose|g: File, k: nat| #[trigger] c.opens(n, Ok(g)) && #[trigger] file_err(c, st.push(n), g, e0, k);
        k
    };
    assert(imp_k(c, st, n, e0, k));
    assert(file_err(c, st, f, e, k + 1));
}
/// The errors of a step of the loop over the imports of f.
pub proof fn lemma_steps(c: Res, st: Seq<Seq<char>>, f: File, i: int)
    requires 0 <= i < deps(f.descriptor).len()
    ensures
        forall|e0: Error, e: Error| #[trigger] imp(c, st, deps(f.descriptor)[i], e0) && #[trigger] import_error(e0, fname(f.descriptor), e) ==> exists|k: nat| file_err(c, st, f, e, k),
        listed_twice(deps(f.descriptor), i) ==> forall|e: Error| #[trigger] dup_error(e, f, deps(f.descriptor)[i]) ==> file_err(c, st, f, e, 0),
{
    assert forall|e0: Error, e: Error| #[trigger] imp(c, st, deps(f.descriptor)[i], e0) && #[trigger] import_error(e0, fname(f.descriptor), e) implies exists|k: nat| file_err(c, st, f, e, k) by { lemma_up(c, st, f, i, e0, e); }
}
pub proof fn lemma_take_distinct(d: Seq<Seq<char>>, i: int)
    requires 0 <= i < d.len(), distinct(d.take(i)), !listed_twice(d, i)
    ensures distinct(d.take(i + 1))
{
    let t = d.take(i + 1);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies #[trigger] t[a] != #[trigger] t[b] by {
        if b == i { assert(d[a] != d[i]); } else { assert(d.take(i)[a] != d.take(i)[b]); }
    }
}
/// The errors of opening a path whose name is n.
pub open spec fn root_err(c: Res, p: Path, n: Seq<char>, resolved: bool, e: Error) -> bool {
    ||| resolved && (*e.kind matches ErrorKind::FileShadowed { name, path, shadow } && name@ == n && path == p && sig(comps(&shadow)) != sig(comps(&p)))
    ||| exists|e0: Error| #[trigger] c.opens(n, Err(e0)) && (if nf_k(*e0.kind) { *e.kind matches ErrorKind::FileNotIncluded { path } && path == p } else { e == e0 })
    ||| exists|f: File, k: nat| #[trigger] c.opens(n, Ok(f)) && #[trigger] file_err(c, seq![n], f, e, k)
}
/// The path has no name but its own.
pub open spec fn own_name(c: Res, p: Path) -> Option<Seq<char>> { file_name_of(comps(&p)) }
pub open spec fn open_ok_rel(a: Compiler, b: Compiler, p: Path) -> bool {
    ||| exists|n: Seq<char>| #[trigger] a.resolver.maps(p, Some(n)) && opened(a, b, n)
    ||| a.resolver.maps(p, None) && (file_name_of(comps(&p)) matches Some(n) && opened(a, b, n))
}
pub open spec fn open_err_rel(a: Compiler, p: Path, e: Error) -> bool {
    ||| exists|n: Seq<char>| #[trigger] a.resolver.maps(p, Some(n)) && root_err(a.resolver, p, n, true, e)
    ||| a.resolver.maps(p, None) && match file_name_of(comps(&p)) { Some(n) => root_err(a.resolver, p, n, false, e), None => *e.kind matches ErrorKind::FileNotIncluded { path } && path == p }
}
/// What checking and recording an opened file leads to.
pub proof fn lemma_finish(a0: Compiler, a: Compiler, d: FileDescriptorProto)
    requires grown(a0, a), inv(a), !has_file(a.pool@, fname(d)), distinct(deps(d)), forall|k: int| 0 <= k < deps(d).len() ==> has_file(a.pool@, #[trigger] deps(d)[k])
    ensures
        forall|b: Compiler| #![trigger inv(b)] added(a.pool@, b.pool@, d) && b.files@ == a.files@.insert(fname(d), b.files@[fname(d)]) && b.files@[fname(d)].name@ == fname(d) && same_conf(a, b) ==>
            inv(b) && has_file(b.pool@, fname(d)) && pool_ok(b.pool@) && pool_grown(a0.pool@, b.pool@) && (if b.files@[fname(d)].is_import { grown(a0, b) } else { opened(a0, b, fname(d)) })
                && (forall|n: Seq<char>| n != fname(d) ==> #[trigger] has_file(b.pool@, n) == has_file(a.pool@, n))
{
    assert forall|b: Compiler| #![trigger inv(b)] added(a.pool@, b.pool@, d) && b.files@ == a.files@.insert(fname(d), b.files@[fname(d)]) && b.files@[fname(d)].name@ == fname(d) && same_conf(a, b) implies
            inv(b) && has_file(b.pool@, fname(d)) && pool_ok(b.pool@) && pool_grown(a0.pool@, b.pool@) && (if b.files@[fname(d)].is_import { grown(a0, b) } else { opened(a0, b, fname(d)) })
                && (forall|n: Seq<char>| n != fname(d) ==> #[trigger] has_file(b.pool@, n) == has_file(a.pool@, n)) by {
        lemma_add(a, b, d, b.files@[fname(d)]);
        assert(!a.files@.contains_key(fname(d)));
    }
}
// ---- where the files are (C22)
pub open spec fn from_resolver(r: Res, n: Seq<char>, p: Option<PathBuf>) -> bool { exists|f: File| #[trigger] r.opens(n, Ok(f)) && f.path == p }
/// Every file is recorded at the path its resolver found it at.
pub open spec fn paths_ok(c: Compiler) -> bool { forall|n: Seq<char>| #[trigger] c.files@.contains_key(n) ==> from_resolver(c.resolver, n, c.files@[n].path) }
/// The file of a resolved path is the one at that path.
pub open spec fn unshadowed(a: Compiler, b: Compiler, p: Path) -> bool {
    ||| a.resolver.maps(p, None)
    ||| exists|n: Seq<char>| #[trigger] a.resolver.maps(p, Some(n)) && b.files@.contains_key(n) && (b.files@[n].path matches Some(q) ==> sig(comps(&q)) == sig(comps(&p)))
}
pub open spec fn the_desc(f: File) -> FileDescriptorProto { match f.encoded { Some(b) => decoded(b), None => f.descriptor } }

// ---- the output
pub open spec fn out_file(d: FileDescriptorProto, info: bool) -> FileDescriptorProto { if info { d } else { FileDescriptorProto { source_code_info: None, ..d } } }
pub open spec fn kept(c: Compiler, d: FileDescriptorProto) -> bool { c.include_imports || !c.files@[fname(d)].is_import }
pub open spec fn output(c: Compiler, s: Pool) -> Seq<FileDescriptorProto>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { let r = output(c, s.drop_last()); if kept(c, s.last()) { r.push(out_file(s.last(), c.include_source_info)) } else { r } } }
pub proof fn lemma_output(c: Compiler, v: Seq<FileDescriptor>, s: Pool, bs: Seq<bool>)
    requires v.len() == s.len(), bs.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i]).d@ == s[i] && bs[i] == kept(c, s[i])
    ensures
        sel_true(v, bs).len() == output(c, s).len(),
        forall|i: int| 0 <= i < output(c, s).len() ==> #[trigger] output(c, s)[i] == out_file(sel_true(v, bs)[i].d@, c.include_source_info)
    decreases s.len()
{
    if s.len() > 0 {
        let (v1, s1, b1) = (v.drop_last(), s.drop_last(), bs.drop_last());
        assert forall|i: int| 0 <= i < s1.len() implies (#[trigger] v1[i]).d@ == s1[i] && b1[i] == kept(c, s1[i]) by { assert(v1[i] == v[i]); }
        lemma_output(c, v1, s1, b1);
        assert(v.last() == v[v.len() - 1]);
    }
}
@fn px_compile::Compiler::new [C24]
@external generic over iterators; combines contracted parts
@fn px_compile::Compiler::open_files [C24]
@external generic over iterators; calls open_file for each
@fn px_compile::Compiler::encode_file_descriptor_set [C25]
@external works by run-time reflection of prost-reflect
@fn px_compile::Compiler::descriptor_pool [C25]
@external a plain clone
@fn px_compile::Compiler::with_file_resolver [C22,C24,C25]
requires
- resolver.honest()
ensures
- inv(res)
- [C24,C25] res.pool@.len() == 0 && !res.include_imports && !res.include_source_info && res.files@ == Map::<Seq<char>, FileMetadata>::empty()
- [C24] same_resolver(&*res.resolver, &resolver)
- [C22] paths_ok(res)
@fn px_compile::Compiler::include_source_info [C25]
ensures
- [C25] *res == (Compiler { include_source_info: yes, ..*old(self) })
- [C25] *final(self) == *final(res)
@fn px_compile::Compiler::include_imports [C25]
ensures
- [C25] *res == (Compiler { include_imports: yes, ..*old(self) })
- [C25] *final(self) == *final(res)
@fn px_compile::Compiler::open_file [C22,C24,C25,C26]
@attr #[verifier::loop_isolation(false)]
requires
- inv(*old(self))
ensures
- res matches Ok(c) ==> inv(*c) && *final(self) == *final(c)
- res is Err ==> inv(*final(self))
- [C24] res matches Ok(c) ==> inv(*c) && pool_ok(c.pool@) && pool_grown(old(self).pool@, c.pool@)
- [C24] res is Err ==> pool_ok(final(self).pool@) && pool_grown(old(self).pool@, final(self).pool@)
- [C24,C25] res matches Ok(c) ==> inv(*c) && open_ok_rel(*old(self), *c, path.pv())
- [C25] res is Err ==> grown(*old(self), *final(self))
- [C22,C24,C26] res matches Err(e) ==> open_err_rel(*old(self), path.pv(), e)
- [C22] res matches Ok(c) ==> unshadowed(*old(self), *c, path.pv())
- [C22] paths_ok(*old(self)) ==> (match res { Ok(c) => paths_ok(*c), Err(_) => paths_ok(*final(self)) })
@loop 0
invariant
- inv(*self)
- grown(*old(self), *self)
- [C22] paths_ok(*old(self)) ==> paths_ok(*self)
- it0.seq().len() == file.descriptor.dependency@.len()
- forall|k: int| 0 <= k < it0.seq().len() ==> (#[trigger] it0.seq()[k]).0 == k && *it0.seq()[k].1 == file.descriptor.dependency@[k]
- stack_ok(*self, import_stack@)
- import_stack@.len() == 1 && import_stack@[0]@ == name@
- forall|k: int| 0 <= k < it0.index() ==> has_file(self.pool@, #[trigger] deps(file.descriptor)[k])
- [C24] distinct(deps(file.descriptor).take(it0.index() as int))
- [C24] forall|n: Seq<char>| #[trigger] already_imported@.contains(n) == exists|k: int| 0 <= k < it0.index() && #[trigger] deps(file.descriptor)[k] == n
@ghost loop 0 start
 let ghost s1 = *self;
 proof {
     let d = deps(file.descriptor);
     let k = it0.index() as int;
     assert(d[k] == import@);
     assert(sv(import_stack@) =~= seq![name@]);
     lemma_steps(self.resolver, seq![name@], file, k);
     if !listed_twice(d, k) { lemma_take_distinct(d, k); }
     assert forall|b: Compiler| #[trigger] grown(s1, b) implies grown(*old(self), b) && forall|j: int| 0 <= j < k ==> has_file(b.pool@, #[trigger] d[j]) by {
         lemma_grown_trans(*old(self), s1, b);
         assert forall|j: int| 0 <= j < k implies has_file(b.pool@, #[trigger] d[j]) by { lemma_grown_has(s1.pool@, b.pool@, d[j]); }
     }
 }
@ghost after loop 0
 proof {
     let d = deps(file.descriptor);
     assert(d.take(d.len() as int) =~= d);
     assert(!has_file(self.pool@, import_stack@[0]@));
     lemma_finish(*old(self), *self, the_desc(file));
     assert forall|e: Error| #[trigger] is_check(e) implies file_err(self.resolver, seq![name@], file, e, 0) by { }
 }
@fn px_compile::Compiler::file_descriptor_set [C25]
requires
- inv(*self)
ensures
- [C25] res.file@ =~= output(*self, self.pool@)
@ghost start
 proof {
     assert forall|v: Seq<FileDescriptor>, bs: Seq<bool>| #![trigger sel_true(v, bs)] v.len() == self.pool@.len() && bs.len() == v.len()
         && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).d@ == self.pool@[i]) && (forall|i: int| 0 <= i < v.len() ==> #[trigger] bs[i] == kept(*self, v[i].d@))
         implies sel_true(v, bs).len() == output(*self, self.pool@).len()
             && forall|i: int| 0 <= i < output(*self, self.pool@).len() ==> #[trigger] output(*self, self.pool@)[i] == out_file(sel_true(v, bs)[i].d@, self.include_source_info)
     by { lemma_output(*self, v, self.pool@, bs); }
 }
@closure 0
(&FileDescriptor) -> (b: bool) requires self.files@.contains_key(fname($1.d@)) ensures b == kept(*self, $1.d@)
@closure 1
(FileDescriptor) -> (b: prost_types::FileDescriptorProto) ensures b == out_file($1.d@, self.include_source_info)
@fn px_compile::Compiler::files [C24,C25]
requires
- inv(*self)
ensures
- [C24,C25] res@.len() == self.pool@.len()
- [C24,C25] forall|i: int| 0 <= i < res@.len() ==> *(#[trigger] res@[i]) == self.files@[fname(self.pool@[i])]
@closure 0
(FileDescriptor) -> (b: &FileMetadata) requires self.files@.contains_key(fname($1.d@)) ensures *b == self.files@[fname($1.d@)]
@fn px_compile::Compiler::add_import [C22,C24,C25,C26]
@attr #[verifier::loop_isolation(false)]
requires
- inv(*old(self))
- stack_ok(*old(self), old(import_stack)@)
- old(self).resolver.names().contains(file_name@)
ensures
- inv(*final(self)) && stack_ok(*final(self), old(import_stack)@)
- res is Ok ==> final(import_stack)@ == old(import_stack)@
- [C24] res is Ok ==> has_file(final(self).pool@, file_name@)
- [C24,C25] grown(*old(self), *final(self))
- [C22] paths_ok(*old(self)) ==> paths_ok(*final(self))
- [C24,C26] res matches Err(e) ==> imp(old(self).resolver, sv(old(import_stack)@), file_name@, e)
decreases
- left(old(self).resolver.names(), old(import_stack)@).len()
@closure 0
(&String) -> (b: bool) ensures b == ($1@ == file_name@)
@ghost start
 let ghost st0 = import_stack@;
 proof { assert forall|k: int| 0 <= k < st0.len() implies #[trigger] st0[k]@ == sv(st0)[k] by { } assert(sv(st0).take(st0.len() as int) =~= sv(st0)); assert(sv(st0).take(0) =~= seq![]); }
@loop 0
invariant
- it0.seq().len() == st0.len()
- forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == st0[k]
- [C24] cycle@ == cycle_text(sv(st0).take(it0.index() as int))
@ghost loop 0 start
 proof { let k = it0.index() as int; let t = sv(st0).take(k + 1); assert(t.drop_last() =~= sv(st0).take(k)); assert(t.last() == st0[k]@); reveal_strlit(" -> "); }
@loop 1
invariant
- inv(*self)
- grown(*old(self), *self)
- [C22] paths_ok(*old(self)) ==> paths_ok(*self)
- it1.seq().len() == file.descriptor.dependency@.len()
- forall|k: int| 0 <= k < it1.seq().len() ==> (#[trigger] it1.seq()[k]).0 == k && *it1.seq()[k].1 == file.descriptor.dependency@[k]
- stack_ok(*self, import_stack@)
- import_stack@.len() == st0.len() + 1 && import_stack@.drop_last() == st0 && import_stack@.last()@ == file_name@
- forall|k: int| 0 <= k < it1.index() ==> has_file(self.pool@, #[trigger] deps(file.descriptor)[k])
- [C24] distinct(deps(file.descriptor).take(it1.index() as int))
- [C24] forall|n: Seq<char>| #[trigger] already_imported@.contains(n) == exists|k: int| 0 <= k < it1.index() && #[trigger] deps(file.descriptor)[k] == n
@ghost before loop 1
 proof {
     let s = import_stack@.last();
     assert(import_stack@ =~= st0.push(s));
     assert(import_stack@.drop_last() =~= st0);
     assert(!on_stack(st0, s@));
     lemma_stack_push(*self, st0, s);
     lemma_left(self.resolver.names(), st0, s);
 }
@ghost loop 1 start
 let ghost s1 = *self;
 proof {
     let d = deps(file.descriptor);
     let k = it1.index() as int;
     assert(d[k] == import@);
     assert(import_stack@ =~= st0.push(import_stack@.last()));
     assert(sv(import_stack@) =~= sv(st0).push(file_name@));
     lemma_left(self.resolver.names(), st0, import_stack@.last());
     lemma_steps(self.resolver, sv(st0).push(file_name@), file, k);
     if !listed_twice(d, k) { lemma_take_distinct(d, k); }
     let st1 = import_stack@;
     assert forall|b: Compiler| #[trigger] grown(s1, b) implies grown(*old(self), b) && forall|j: int| 0 <= j < k ==> has_file(b.pool@, #[trigger] d[j]) by {
         lemma_grown_trans(*old(self), s1, b);
         assert forall|j: int| 0 <= j < k implies has_file(b.pool@, #[trigger] d[j]) by { lemma_grown_has(s1.pool@, b.pool@, d[j]); }
     }
     assert forall|b: Compiler| #[trigger] stack_ok(b, st1) implies stack_ok(b, st0) by { lemma_stack_sub(b, st0, st1); }
 }
@ghost after loop 1
 proof {
     let d = deps(file.descriptor);
     let st1 = import_stack@;
     assert(d.take(d.len() as int) =~= d);
     assert(!has_file(self.pool@, st1.last()@));
     lemma_stack_sub(*self, st0, st1);
     lemma_finish(*old(self), *self, the_desc(file));
     assert forall|e: Error| #[trigger] is_check(e) implies file_err(self.resolver, sv(st0).push(file_name@), file, e, 0) by { }
 }
@fn px_compile::Compiler::check_file [C22,C24,C25,C26]
ensures
- same_conf(*old(self), *final(self)) && final(self).files == old(self).files
- res is Err ==> final(self).pool@ == old(self).pool@
- [C26] res matches Err(e) ==> is_check(e)
- [C22] res matches Ok(p) ==> p == vx_arg_0.path
- [C24,C25] res matches Ok(p) ==> added(old(self).pool@, final(self).pool@, the_desc(vx_arg_0))

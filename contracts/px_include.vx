@use
use crate::vx::*;
use crate::vxp::*;
use crate::px_error::*;
use crate::px_file::*;
use vstd::utf8::*;
use vstd::std_specs::cmp::*;
@items
/// The components but the `.` ones.
pub open spec fn sig(s: Seq<CompV>) -> Seq<CompV>
    decreases s.len()
{ if s.len() == 0 { seq![] } else if s[0] is CurDir { sig(s.drop_first()) } else { seq![s[0]] + sig(s.drop_first()) } }
pub open spec fn no_cur(s: Seq<CompV>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is CurDir) }
pub proof fn lemma_sig_id(s: Seq<CompV>)
    requires no_cur(s)
    ensures sig(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        assert(no_cur(s.drop_first())) by { assert forall|i: int| 0 <= i < s.drop_first().len() implies !(#[trigger] s.drop_first()[i] is CurDir) by { assert(s.drop_first()[i] == s[i + 1]); } }
        lemma_sig_id(s.drop_first());
        assert(seq![s[0]] + s.drop_first() =~= s);
    } else { assert(s =~= seq![]); }
}
/// All ordinary components with UTF-8 names.
pub open spec fn plain(s: Seq<CompV>) -> bool { forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) matches CompV::Normal(b) && valid_utf8(b)) }
pub open spec fn nm(c: CompV) -> Seq<char> { match c { CompV::Normal(b) => decode_utf8(b), _ => seq![] } }
/// The names joined by '/'.
pub open spec fn join_names(s: Seq<CompV>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { seq![] } else if s.len() == 1 { nm(s[0]) } else { join_names(s.drop_last()) + seq!['/'] + nm(s.last()) } }
pub open spec fn file_name_of(s: Seq<CompV>) -> Option<Seq<char>> { if plain(s) && s.len() > 0 { Some(join_names(s)) } else { None } }
/// The name of a path below an include path.
pub open spec fn include_name(p: Seq<CompV>, inc: Seq<CompV>) -> Option<Seq<char>> {
    let (a, b) = (sig(p), sig(inc));
    if b.is_prefix_of(a) { file_name_of(a.subrange(b.len() as int, a.len() as int)) } else { None }
}
pub open spec fn sview(r: Option<String>) -> Option<Seq<char>> { match r { Some(s) => Some(s@), None => None } }
impl FileResolver for IncludeFileResolver {
    open spec fn maps(&self, path: Path, r: Option<Seq<char>>) -> bool { r == include_name(comps(&path), comps(&self.include)) }
    open spec fn opens(&self, name: Seq<char>, r: Result<File, Error>) -> bool { open_ok(name, joined(&self.include, name), r) }
    uninterp spec fn names(&self) -> Set<Seq<char>>;
    /// (the files below a path are finitely many: `names` is what they import)
    open spec fn honest(&self) -> bool { forall|n: Seq<char>, f: File| #[trigger] open_ok(n, joined(&self.include, n), Ok(f)) ==> imports_in(f, self.names()) }
    fn resolve_path(&self, path: &Path) -> (r: Option<String>) { IncludeFileResolver::resolve_path(self, path) }
    fn open_file(&self, name: &str) -> (r: Result<File, Error>) { IncludeFileResolver::open_file(self, name) }
}
pub proof fn lemma_nonempty(s: Seq<CompV>)
    requires plain(s), s.len() > 0, forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) matches CompV::Normal(b) ==> b.len() > 0)
    ensures join_names(s).len() > 0
    decreases s.len()
{ if s.len() == 1 { lemma_nm(s[0]); } }
pub proof fn lemma_nm(c: CompV)
    requires c matches CompV::Normal(b) && valid_utf8(b) && b.len() > 0
    ensures nm(c).len() > 0
{ let b = c->Normal_0; vstd::utf8::decode_utf8_encode_utf8(b); if decode_utf8(b).len() == 0 { assert(decode_utf8(b) =~= seq![]); } }
pub proof fn lemma_sig_step(s: Seq<CompV>)
    requires s.len() > 0
    ensures s[0] is CurDir ==> sig(s) == sig(s.drop_first()),
        !(s[0] is CurDir) ==> sig(s) == seq![s[0]] + sig(s.drop_first()) && sig(s).len() > 0 && sig(s)[0] == s[0] && sig(s).drop_first() == sig(s.drop_first())
{ if !(s[0] is CurDir) { assert((seq![s[0]] + sig(s.drop_first())).drop_first() =~= sig(s.drop_first())); } }
pub proof fn lemma_no_cur(s: Seq<CompV>)
    requires cwf(s), s.len() > 0 ==> !(s[0] is CurDir)
    ensures no_cur(s)
{ assert forall|i: int| 0 <= i < s.len() implies !(#[trigger] s[i] is CurDir) by { if i > 0 { } } }
/// One step through two component lists.
pub proof fn lemma_step2(a: Seq<CompV>, b: Seq<CompV>)
    ensures
        a.len() == 0 ==> sig(a).len() == 0,
        b.len() == 0 ==> sig(b).len() == 0,
        a.len() > 0 ==> (a[0] is CurDir ==> sig(a) == sig(a.drop_first())) && (!(a[0] is CurDir) ==> sig(a).len() > 0),
        b.len() > 0 ==> (b[0] is CurDir ==> sig(b) == sig(b.drop_first())) && (!(b[0] is CurDir) ==> sig(b).len() > 0),
        a.len() > 0 && b.len() > 0 && !(a[0] is CurDir) && !(b[0] is CurDir) ==> {
            &&& (sig(a) == sig(b)) == (a[0] == b[0] && sig(a.drop_first()) == sig(b.drop_first()))
            &&& (sig(a).is_prefix_of(sig(b))) == (a[0] == b[0] && sig(a.drop_first()).is_prefix_of(sig(b.drop_first())))
            &&& (a[0] == b[0] ==> forall|x: Seq<CompV>| #[trigger] (sig(a.drop_first()) + x) == sig(b.drop_first()) ==> sig(a) + x == sig(b))
        },
        sig(a).len() == 0 ==> sig(a).is_prefix_of(sig(b)),
        sig(a).len() > 0 && sig(b).len() == 0 ==> !sig(a).is_prefix_of(sig(b)) && sig(a) != sig(b),
{
    if a.len() > 0 { lemma_sig_step(a); }
    if b.len() > 0 { lemma_sig_step(b); }
    if sig(a).len() == 0 { assert(sig(a) =~= sig(b).subrange(0, 0)); }
    if a.len() > 0 && b.len() > 0 && !(a[0] is CurDir) && !(b[0] is CurDir) {
        let (x, y) = (sig(a.drop_first()), sig(b.drop_first()));
        assert(sig(a) == seq![a[0]] + x && sig(b) == seq![b[0]] + y);
        if sig(a) == sig(b) { assert(sig(a)[0] == sig(b)[0]); assert(x == y); }
        if sig(a).is_prefix_of(sig(b)) {
            assert(sig(a)[0] == sig(b)[0]);
            assert(x =~= y.subrange(0, x.len() as int)) by { assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(x[i] == sig(a)[i + 1] && y[i] == sig(b)[i + 1]); } }
        }
        if a[0] == b[0] && x.is_prefix_of(y) {
            assert(sig(a) =~= sig(b).subrange(0, sig(a).len() as int)) by {
                assert forall|i: int| 0 <= i < sig(a).len() implies sig(a)[i] == sig(b)[i] by { if i > 0 { assert(sig(a)[i] == x[i - 1] && sig(b)[i] == y[i - 1]); } }
            }
        }
        if a[0] == b[0] {
            assert forall|z: Seq<CompV>| #[trigger] (x + z) == y implies sig(a) + z == sig(b) by { assert(seq![a[0]] + x + z =~= seq![b[0]] + (x + z)); }
        }
    }
}
pub proof fn lemma_rest(a: Seq<CompV>, b: Seq<CompV>, r: Seq<CompV>)
    requires sig(a) == sig(b) + r
    ensures sig(b).is_prefix_of(sig(a)), r == sig(a).subrange(sig(b).len() as int, sig(a).len() as int)
{ assert(sig(b) =~= sig(a).subrange(0, sig(b).len() as int)); assert(r =~= sig(a).subrange(sig(b).len() as int, sig(a).len() as int)); }
/// One more component of a name.
pub proof fn lemma_join_push(s: Seq<CompV>, k: int)
    requires 0 <= k < s.len()
    ensures
        join_names(s.take(k + 1)) == (if k == 0 { nm(s[0]) } else { join_names(s.take(k)) + seq!['/'] + nm(s[k]) }),
        plain(s.take(k + 1)) == (plain(s.take(k)) && (s[k] matches CompV::Normal(b) && valid_utf8(b)))
{
    let t = s.take(k + 1);
    assert(t.drop_last() =~= s.take(k));
    assert(t.last() == s[k]);
    if plain(t) { assert(t[k] == s[k]); assert forall|i: int| 0 <= i < k implies ((#[trigger] s.take(k)[i]) matches CompV::Normal(b) && valid_utf8(b)) by { assert(t[i] == s.take(k)[i]); } }
    if plain(s.take(k)) && (s[k] matches CompV::Normal(b) && valid_utf8(b)) { assert forall|i: int| 0 <= i < t.len() implies ((#[trigger] t[i]) matches CompV::Normal(b) && valid_utf8(b)) by { if i < k { assert(t[i] == s.take(k)[i]); } } }
}
@fn px_include::IncludeFileResolver::new [C22]
ensures
- [C22] res.include == include
@fn px_include::IncludeFileResolver::resolve_path [C22]
ensures
- [C22] sview(res) == include_name(comps(path), comps(&self.include))
@fn px_include::IncludeFileResolver::open_file [C22,C26]
ensures
- self.honest() ==> (res matches Ok(f) ==> file_ok(f, name@) && imports_in(f, self.names()))
- [C22,C26] open_ok(name@, joined(&self.include, name@), res)
@fn px_include::path_to_file_name [C22]
ensures
- [C22] sview(res) == file_name_of(comps(path))
@loop 0
invariant
- it0.seq().len() == comps(path).len()
- forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i])@ == comps(path)[i]
- [C22] plain(comps(path).take(it0.index() as int))
- [C22] name@ == join_names(comps(path).take(it0.index() as int))
- it0.index() > 0 ==> name@.len() > 0
@ghost loop 0 start
 proof {
     let s = comps(path);
     let k = it0.index() as int;
     ax_normal(path);
     lemma_join_push(s, k);
     assert(s.take(s.len() as int) =~= s);
     if s[k] is Normal && valid_utf8(s[k]->Normal_0) { lemma_nm(s[k]); }
     if !(s[k] is Normal && valid_utf8(s[k]->Normal_0)) { assert(!plain(s)); }
 }
@ghost start
 proof { let s = comps(path); assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= seq![]); }
@fn px_include::check_shadow [C22]
ensures
- [C22] res is Ok == (actual_path matches Some(p) ==> sig(comps(p)) == sig(comps(expected_path)))
- [C22] res matches Err(e) ==> (*e.kind matches ErrorKind::FileShadowed { name, path, shadow } && name@ == file@ && path == *expected_path && Some(&shadow) == actual_path)
@fn px_include::strip_prefix [C22]
ensures
- [C22] match res { Some(r) => sig(comps(prefix)).is_prefix_of(sig(comps(path))) && comps(r) == sig(comps(path)).subrange(sig(comps(prefix)).len() as int, sig(comps(path)).len() as int), None => !sig(comps(prefix)).is_prefix_of(sig(comps(path))) }
@fn px_include::path_eq [C22]
ensures
- [C22] res == (sig(comps(l)) == sig(comps(r)))
@loop 0
invariant
- [C22] (sig(comps(l)) == sig(comps(r))) == (sig(lhs.cv()) == sig(rhs.cv()))
decreases
- lhs.cv().len() + rhs.cv().len()
@ghost loop 0 start
 proof { lemma_step2(lhs.cv(), rhs.cv()); lemma_step2(rhs.cv(), lhs.cv()); }
@fn px_include::iter_after [C22]
@attr #[verifier::loop_isolation(false)]
requires
- cwf(iter.cv())
ensures
- [C22] res is Some == sig(prefix.cv()).is_prefix_of(sig(iter.cv()))
- [C22] res matches Some(r) ==> sig(iter.cv()) == sig(prefix.cv()) + r.cv() && no_cur(r.cv())
@loop 0
invariant
- cwf(iter.cv())
- [C22] sig(p0.cv()).is_prefix_of(sig(i0.cv())) == sig(prefix.cv()).is_prefix_of(sig(iter.cv()))
- [C22] forall|x: Seq<CompV>| #[trigger] (sig(prefix.cv()) + x) == sig(iter.cv()) ==> sig(p0.cv()) + x == sig(i0.cv())
decreases
- iter.cv().len() + prefix.cv().len()
@ghost start
 let ghost (i0, p0) = (iter, prefix);
@ghost loop 0 start
 proof {
     let (a, b) = (prefix.cv(), iter.cv());
     lemma_step2(a, b);
     lemma_step2(b, a);
     if b.len() > 0 && !(b[0] is CurDir) { lemma_no_cur(b); lemma_sig_id(b); }
     if b.len() == 0 { lemma_sig_id(b); }
     if a.len() == 0 { assert(sig(a) + b =~= b); assert(sig(a) =~= seq![]); }
 }
@fn px_include::path_component_eq [C22]
ensures
- [C22] res == (l@ == r@)

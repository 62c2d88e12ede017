@use
use crate::root::*;
use vstd::utf8::*;
@items
/// Line and column of a byte offset: newlines before it, bytes since the last one.
pub open spec fn count_nl(b: Seq<u8>, off: int) -> int
    decreases off
{
    if off <= 0 { 0 } else { count_nl(b, off - 1) + (if off <= b.len() && b[off - 1] == 10 { 1int } else { 0 }) }
}
pub open spec fn col_of(b: Seq<u8>, off: int) -> int
    decreases off
{
    if off <= 0 { 0 } else if off <= b.len() && b[off - 1] == 10 { 0 } else { col_of(b, off - 1) + 1 }
}
pub open spec fn span_vec(b: Seq<u8>, start: int, end: int) -> Seq<int> {
    if count_nl(b, start) == count_nl(b, end) { seq![count_nl(b, start), col_of(b, start), col_of(b, end)] }
    else { seq![count_nl(b, start), col_of(b, start), count_nl(b, end), col_of(b, end)] }
}
pub open spec fn ints(s: Seq<i32>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
impl LineResolver {
    /// The table holds the offsets right after each newline of `b`, ascending.
    pub open spec fn wf(&self, b: Seq<u8>) -> bool {
        &&& b.len() <= i32::MAX
        &&& forall|i: int, j: int| 0 <= i < j < self.lines@.len() ==> self.lines@[i] < self.lines@[j]
        &&& forall|i: int| 0 <= i < self.lines@.len() ==> 0 < #[trigger] self.lines@[i] <= b.len() && b[self.lines@[i] - 1] == 10
        &&& forall|p: int| 0 <= p < b.len() && #[trigger] b[p] == 10 ==> exists|i: int| 0 <= i < self.lines@.len() && #[trigger] self.lines@[i] == p + 1
    }
    pub open spec fn ready(&self) -> bool { exists|b: Seq<u8>| self.wf(b) }
    /// The text the table was made from, as far as lines and columns go.
    pub open spec fn src(&self) -> Seq<u8> { choose|b: Seq<u8>| self.wf(b) }
    /// Number of table entries <= off, given that k is the insertion point.
    pub proof fn lemma_count(&self, b: Seq<u8>, off: int, k: int)
        requires self.wf(b), 0 <= off, 0 <= k <= self.lines@.len(),
            forall|j: int| 0 <= j < k ==> self.lines@[j] <= off,
            forall|j: int| k <= j < self.lines@.len() ==> self.lines@[j] > off,
        ensures count_nl(b, off) == k,
            col_of(b, off) == (if k == 0 { off } else { off - self.lines@[k - 1] }),
        decreases off
    {
        if off <= 0 {
            if k > 0 { assert(self.lines@[0] > 0); }
        } else if off <= b.len() && b[off - 1] == 10 {
            let i = choose|i: int| 0 <= i < self.lines@.len() && #[trigger] self.lines@[i] == off - 1 + 1;
            assert(i == k - 1) by {
                if i < k - 1 { assert(self.lines@[i] < self.lines@[k - 1]); }
                if i > k - 1 { assert(self.lines@[i] > off); }
            }
            self.lemma_count(b, off - 1, k - 1);
        } else {
            if k > 0 { assert(self.lines@[k - 1] != off); }
            assert forall|j: int| 0 <= j < k implies self.lines@[j] <= off - 1 by {
                assert(b[self.lines@[j] - 1] == 10);
            }
            self.lemma_count(b, off - 1, k);
        }
    }
    pub open spec fn ins(&self, off: int, k: int) -> bool {
        &&& 0 <= k <= self.lines@.len()
        &&& forall|j: int| 0 <= j < k ==> self.lines@[j] <= off
        &&& forall|j: int| k <= j < self.lines@.len() ==> self.lines@[j] > off
    }
    pub proof fn lemma_ins(&self, off: int, n: int) -> (k: int)
        requires self.ready(), 0 <= n <= self.lines@.len(), n < self.lines@.len() ==> self.lines@[n] > off
        ensures self.ins(off, k)
        decreases n
    {
        if n > 0 && self.lines@[n - 1] > off { self.lemma_ins(off, n - 1) } else { n }
    }
    /// Lines and columns do not depend on which text is taken for the table.
    pub proof fn lemma_unique(&self, a: Seq<u8>, b: Seq<u8>, off: int)
        requires self.wf(a), self.wf(b), 0 <= off
        ensures count_nl(a, off) == count_nl(b, off), col_of(a, off) == col_of(b, off)
    {
        let k = self.lemma_ins(off, self.lines@.len() as int);
        self.lemma_count(a, off, k);
        self.lemma_count(b, off, k);
    }
    pub proof fn lemma_src(&self, b: Seq<u8>)
        requires self.wf(b)
        ensures self.ready(), forall|s: int, e: int| 0 <= s && 0 <= e ==> #[trigger] span_vec(self.src(), s, e) == span_vec(b, s, e)
    {
        assert(self.wf(self.src()));
        assert forall|s: int, e: int| 0 <= s && 0 <= e implies #[trigger] span_vec(self.src(), s, e) == span_vec(b, s, e) by {
            self.lemma_unique(self.src(), b, s);
            self.lemma_unique(self.src(), b, e);
        }
    }
}
/// Ascending positive entries: the k-th is at least k, so the table is no longer than its last entry.
pub proof fn lemma_lines_bound(l: Seq<i32>, n: int)
    requires 0 <= n <= l.len(), forall|i: int, j: int| 0 <= i < j < l.len() ==> l[i] < l[j],
        forall|i: int| 0 <= i < l.len() ==> 0 < #[trigger] l[i],
    ensures n > 0 ==> l[n - 1] >= n,
    decreases n
{
    if n > 1 { lemma_lines_bound(l, n - 1); assert(l[n - 2] < l[n - 1]); }
}
pub proof fn lemma_count_mono(b: Seq<u8>, x: int, y: int)
    requires 0 <= x <= y,
    ensures 0 <= count_nl(b, x) <= count_nl(b, y), 0 <= col_of(b, x) <= x,
    decreases y
{
    if y > x { lemma_count_mono(b, x, y - 1); } else if y > 0 { lemma_count_mono(b, x - 1, y - 1); }
}
@fn lines::LineResolver::new [C09]
requires
- [C01,C09] encode_utf8(source_code@).len() <= i32::MAX
ensures
- [C09] res.wf(encode_utf8(source_code@))
@closure 0
((usize, ())) -> (x: i32) requires $1.0 + 1 <= i32::MAX ensures x as int == $1.0 + 1
@fn lines::LineResolver::resolve [C09]
requires
- [C01,C09] self.ready()
- [C01,C09] offset <= i32::MAX
ensures
- [C09] forall|b: Seq<u8>| #[trigger] self.wf(b) ==> res.0 as int == count_nl(b, offset as int)
- [C09] forall|b: Seq<u8>| #[trigger] self.wf(b) ==> res.1 as int == col_of(b, offset as int)
@ghost start
 proof { lemma_lines_bound(self.lines@, self.lines@.len() as int); }
@ghost end
 proof {
    assert forall|b: Seq<u8>| #[trigger] self.wf(b) implies
        res.0 as int == count_nl(b, offset as int) && res.1 as int == col_of(b, offset as int) by {
        self.lemma_count(b, offset as int, res.0 as int);
    }
 }
@fn lines::LineResolver::resolve_span [C09]
requires
- [C01,C09] self.ready()
- [C01,C09] span.start <= i32::MAX && span.end <= i32::MAX
ensures
- [C09] ints(res@) == span_vec(self.src(), span.start as int, span.end as int)
@ghost end
 proof { assert(self.wf(self.src())); assert(ints(res@) =~= span_vec(self.src(), span.start as int, span.end as int)); }

@use
use vstd::utf8::*;
@items
pub open spec fn ident_tail(b: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < b.len() ==> is_alnum(#[trigger] b[i] as int) || b[i] == 95
}
/// An identifier: a letter or underscore followed by letters, digits and underscores.
pub open spec fn is_ident(b: Seq<u8>) -> bool {
    b.len() > 0 && (is_alpha(b[0] as int) || b[0] == 95) && ident_tail(b.subrange(1, b.len() as int))
}
pub open spec fn is_group_name(b: Seq<u8>) -> bool {
    b.len() > 0 && is_upper(b[0] as int) && ident_tail(b.subrange(1, b.len() as int))
}
/// PascalCase: underscores are removed and the character after one (or at the start) is
/// ASCII-uppercased; everything else is kept. `up` says whether the next character starts a word.
pub open spec fn pascal_state(s: Seq<char>) -> (Seq<char>, bool)
    decreases s.len()
{
    if s.len() == 0 { (Seq::empty(), true) }
    else {
        let (r, up) = pascal_state(s.drop_last());
        let c = s.last();
        if c == '_' { (r, true) } else if up { (r.push(upper(c)), false) } else { (r.push(c), false) }
    }
}
pub open spec fn pascal(s: Seq<char>) -> Seq<char> { pascal_state(s).0 }
pub proof fn lemma_empty(s: &str)
    ensures (s@.len() == 0) == (encode_utf8(s@).len() == 0)
{
    reveal_with_fuel(encode_utf8, 2);
}
@fn case::is_valid_ident [C20]
ensures
- [C20] res == is_ident(encode_utf8(s@))
@ghost start
 proof { lemma_empty(s); }
@closure 0
(&u8) -> (b: bool) ensures b == (is_alnum(*$1 as int) || *$1 == 95)
@fn case::is_valid_group_name [C20]
ensures
- [C20] res == is_group_name(encode_utf8(s@))
@ghost start
 proof { lemma_empty(s); }
@closure 0
(&u8) -> (b: bool) ensures b == (is_alnum(*$1 as int) || *$1 == 95)
@fn case::to_pascal_case [C20,C14]
ensures
- [C20,C14] res@ == pascal(name@)
@loop 0
invariant
- it0.seq() == name@
- (result@, uppercase_next) == pascal_state(name@.take(it0.index() as int))
@ghost loop 0 start
 proof { assert(name@.take(it0.index() as int + 1).drop_last() =~= name@.take(it0.index() as int)); }
@ghost after loop 0
 proof { assert(name@.take(name@.len() as int) =~= name@); }

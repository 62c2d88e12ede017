@use
use crate::vx::*;
@items
/// The comments collected since the last token, as text.
pub struct CV { pub det: Seq<Seq<char>>, pub lead: Option<Seq<char>>, pub trail: Option<Seq<char>>, pub is_tr: bool, pub is_line: bool }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
impl Comments {
    pub open spec fn cv(&self) -> CV {
        CV { det: texts(self.leading_detached@), lead: text(self.leading), trail: text(self.trailing), is_tr: self.is_trailing, is_line: self.is_line_comment }
    }
}
pub open spec fn cv_ok(c: CV) -> bool { c.is_tr ==> c.det.len() == 0 }
pub open spec fn cv_new() -> CV { CV { det: seq![], lead: None, trail: None, is_tr: false, is_line: false } }
/// right after a token: the next comment may still belong to it
pub open spec fn cv_reset() -> CV { CV { is_tr: true, ..cv_new() } }
/// a comment is complete: it trails the previous token if it is the first, else it is detached
pub open spec fn cv_flush(c: CV) -> CV {
    if c.is_tr { CV { trail: c.lead, lead: None, is_tr: false, is_line: false, ..c } }
    else { CV { det: match c.lead { Some(x) => c.det.push(x), None => c.det }, lead: None, is_line: false, ..c } }
}
pub open spec fn cv_line(c: CV, t: Seq<char>) -> CV {
    let d = if c.lead is Some && !c.is_line { cv_flush(c) } else { c };
    CV { lead: Some(match d.lead { Some(x) => x + t, None => t }), is_line: true, ..d }
}
pub open spec fn cv_block(c: CV, t: Seq<char>) -> CV {
    let d = if c.lead is Some { cv_flush(c) } else { c };
    CV { lead: Some(t), ..d }
}
pub open spec fn cv_detach(c: CV) -> CV { CV { is_tr: false, ..c } }
@fn comments::Comments::new [C16]
ensures
- [C16] res.cv() == cv_new()
@ghost end
 proof { assert(res.cv().det =~= cv_new().det); }
@fn comments::Comments::block_comment [C16]
requires
- [C01] cv_ok(old(self).cv())
ensures
- [C16] final(self).cv() == cv_block(old(self).cv(), comment@)
- cv_ok(final(self).cv())
@fn comments::Comments::line_comment [C16]
requires
- [C01] cv_ok(old(self).cv())
ensures
- [C16] final(self).cv() == cv_line(old(self).cv(), comment@)
- cv_ok(final(self).cv())
@fn comments::Comments::detach [C16]
ensures
- [C16] final(self).cv() == cv_detach(old(self).cv())
@fn comments::Comments::flush [C16]
requires
- [C01] cv_ok(old(self).cv())
ensures
- [C16] final(self).cv() == cv_flush(old(self).cv())
- cv_ok(final(self).cv())
@ghost end
 proof {
     assert(final(self).cv().det =~= cv_flush(old(self).cv()).det);
 }
@fn comments::Comments::reset [C16]
ensures
- [C16] final(self).cv() == cv_reset()
@ghost end
 proof { assert(self.cv().det =~= cv_reset().det); }
@fn comments::Comments::take_leading [C16]
ensures
- [C16] texts(res.0@) == old(self).cv().det && text(res.1) == old(self).cv().lead
- [C16] final(self).cv() == (CV { det: seq![], lead: None, ..old(self).cv() })
@ghost end
 proof { assert(self.cv().det =~= seq![]); }
@fn comments::Comments::take_trailing [C16]
ensures
- [C16] text(res) == old(self).cv().trail
- [C16] final(self).cv() == (CV { trail: None, ..old(self).cv() })

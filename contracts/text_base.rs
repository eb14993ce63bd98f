// ---- texts: positions in bytes, ends, what is printed ----
//@broadcast vxb::lemma_cpos
pub mod vxb {
use vstd::prelude::*;
use std::collections::HashMap;
use crate::*;

// ---- byte positions (Rust's &str offsets) ----
/// bytes of one character in UTF-8
pub open spec fn clen(c: char) -> int { let u = c as u32; if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 } }
/// bytes of the first i characters
pub open spec fn bpos(s: Seq<char>, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { bpos(s, i - 1) + clen(s[i - 1]) } }
pub open spec fn blen(s: Seq<char>) -> int { bpos(s, s.len() as int) }
pub open spec fn on_boundary(s: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && #[trigger] bpos(s, i) == b }
/// the character position of a byte position
pub open spec fn cpos(s: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= s.len() && #[trigger] bpos(s, i) == b }
pub proof fn bpos_monotone(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j
    ensures bpos(s, i) + (j - i) <= bpos(s, j)
    decreases j
{ if i < j - 1 { bpos_monotone(s, i, j - 1); } }
pub broadcast proof fn lemma_cpos(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures cpos(s, #[trigger] bpos(s, i)) == i, on_boundary(s, bpos(s, i)), i <= bpos(s, i)
{
    let b = bpos(s, i);
    let k = cpos(s, b);
    assert(0 <= k <= s.len() && bpos(s, k) == b);
    if k < i { bpos_monotone(s, k, i); } else if i < k { bpos_monotone(s, i, k); }
    if i > 0 { bpos_monotone(s, 0, i); }
}
pub proof fn bpos_same(a: Seq<char>, b: Seq<char>, i: int)
    requires forall|k: int| 0 <= k < i ==> a[k] == b[k], 0 <= i
    ensures bpos(a, i) == bpos(b, i)
    decreases i
{ if i > 0 { bpos_same(a, b, i - 1); } }

/// str/String/Vec/HashMap::len; a text's length is in bytes
pub trait VxLen { spec fn vx_size(&self) -> int; fn vx_len(&self) -> (r: usize) ensures r as int == self.vx_size(); }
impl VxLen for str {
    open spec fn vx_size(&self) -> int { blen(self@) }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { self.len() }
}
impl VxLen for String {
    open spec fn vx_size(&self) -> int { blen(self@) }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { self.len() }
}
impl<T> VxLen for Vec<T> {
    open spec fn vx_size(&self) -> int { self@.len() as int }
    fn vx_len(&self) -> (r: usize) { self.len() }
}
impl<T> VxLen for [T] {
    open spec fn vx_size(&self) -> int { self@.len() as int }
    fn vx_len(&self) -> (r: usize) { self.len() }
}
impl<V> VxLen for HashMap<String, V> {
    open spec fn vx_size(&self) -> int { self@.len() as int }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { self.len() }
}
/// slicing a text by byte positions panics off a character boundary
pub trait VxSlice {
    spec fn vx_text(&self) -> Seq<char>;
    fn vx_slice(&self, a: usize, b: usize) -> (r: &str)
        requires on_boundary(self.vx_text(), a as int), on_boundary(self.vx_text(), b as int), a <= b
        ensures r@ == self.vx_text().subrange(cpos(self.vx_text(), a as int), cpos(self.vx_text(), b as int));
    fn vx_slice_from(&self, a: usize) -> (r: &str)
        requires on_boundary(self.vx_text(), a as int)
        ensures r@ == self.vx_text().skip(cpos(self.vx_text(), a as int));
    fn vx_slice_to(&self, b: usize) -> (r: &str)
        requires on_boundary(self.vx_text(), b as int)
        ensures r@ == self.vx_text().take(cpos(self.vx_text(), b as int));
}
impl VxSlice for str {
    open spec fn vx_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_slice(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body]
    fn vx_slice_from(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body]
    fn vx_slice_to(&self, b: usize) -> (r: &str) { &self[..b] }
}
/// String::replace_range
pub trait VxReplace {
    spec fn vx_whole(&self) -> Seq<char>;
    fn vx_replace_range(&mut self, r: core::ops::Range<usize>, with: &str)
        requires on_boundary(old(self).vx_whole(), r.start as int), on_boundary(old(self).vx_whole(), r.end as int), r.start <= r.end
        ensures final(self).vx_whole() == old(self).vx_whole().take(cpos(old(self).vx_whole(), r.start as int)) + with@ + old(self).vx_whole().skip(cpos(old(self).vx_whole(), r.end as int));
}
impl VxReplace for String {
    open spec fn vx_whole(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_replace_range(&mut self, r: core::ops::Range<usize>, with: &str) { self.replace_range(r, with) }
}

// ---- white space at the ends ----
pub open spec fn blank(c: char) -> bool { is_ws(c) }
pub open spec fn trim_front(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && blank(s[0]) { trim_front(s.drop_first()) } else { s } }
pub open spec fn trim_back(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && blank(s.last()) { trim_back(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { trim_back(trim_front(s)) }
pub trait VxTrim {
    spec fn vx_untrimmed(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.vx_untrimmed());
}
impl VxTrim for str {
    open spec fn vx_untrimmed(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { self.trim() }
}

/// comparison with a literal
pub trait VxIs {
    spec fn vx_compared(&self) -> Seq<char>;
    fn vx_is(&self, t: &str) -> (r: bool) ensures r == (self.vx_compared() == t@);
}
impl VxIs for str {
    open spec fn vx_compared(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_is(&self, t: &str) -> (r: bool) { self == t }
}
impl VxIs for String {
    open spec fn vx_compared(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_is(&self, t: &str) -> (r: bool) { self == t }
}
// ---- numbers ----
pub uninterp spec fn int_text(i: int) -> Seq<char>;
pub uninterp spec fn float_text(f: f64) -> Seq<char>;
pub open spec fn bool_text(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
/// Display of a type, and to_string which is the text Display writes
pub trait VxShow {
    spec fn shown(&self) -> Seq<char>;
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.shown();
}
impl VxShow for str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxShow for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxShow for i64 {
    open spec fn shown(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxShow for f64 {
    open spec fn shown(&self) -> Seq<char> { float_text(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxShow for bool {
    open spec fn shown(&self) -> Seq<char> { bool_text(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl<T: VxShow + ?Sized> VxShow for &T {
    open spec fn shown(&self) -> Seq<char> { (**self).shown() }
    fn vx_to_string(&self) -> (r: String) { (**self).vx_to_string() }
}
impl<T: VxShow> VxShow for Box<T> {
    open spec fn shown(&self) -> Seq<char> { (**self).shown() }
    fn vx_to_string(&self) -> (r: String) { (**self).vx_to_string() }
}
/// Debug of the types printed with {:?}
pub trait VxDebug { spec fn debug_text(&self) -> Seq<char>; }
impl<T: VxDebug> VxDebug for &T { open spec fn debug_text(&self) -> Seq<char> { (**self).debug_text() } }
pub trait VxPush {
    fn vx_push_text(&mut self, t: &str);
    fn vx_push_shown<T: VxShow + ?Sized>(&mut self, t: &T);
    fn vx_push_debug<T: VxDebug + ?Sized>(&mut self, t: &T);
}
impl VxPush for String {
    #[verifier::external_body]
    fn vx_push_text(&mut self, t: &str) ensures final(self)@ == old(self)@ + t@ { unimplemented!() }
    #[verifier::external_body]
    fn vx_push_shown<T: VxShow + ?Sized>(&mut self, t: &T) ensures final(self)@ == old(self)@ + t.shown() { unimplemented!() }
    #[verifier::external_body]
    fn vx_push_debug<T: VxDebug + ?Sized>(&mut self, t: &T) ensures final(self)@ == old(self)@ + t.debug_text() { unimplemented!() }
}
pub fn vx_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn vx_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
/// a formatter is the text written so far
pub struct Formatter { pub buf: String }
pub struct VxFmtError { pub p: () }
impl Formatter {
    pub fn write_str(&mut self, t: &str) -> (r: core::result::Result<(), VxFmtError>) ensures final(self).buf@ == old(self).buf@ + t@, r is Ok { self.buf.vx_push_text(t); Ok(()) }
    pub fn write_char(&mut self, c: char) -> (r: core::result::Result<(), VxFmtError>) ensures final(self).buf@ == old(self).buf@.push(c), r is Ok { self.buf.push(c); Ok(()) }
}
pub trait Display { fn fmt(&self, f: &mut Formatter) -> core::result::Result<(), VxFmtError>; }
} // mod vxb
pub use vxb::*;

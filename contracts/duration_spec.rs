// ---- durations on the command line ----
pub mod vxd {
use vstd::prelude::*;
use crate::*;

pub open spec fn digits_value(s: Seq<char>) -> Option<int>
    decreases s.len()
{
    if s.len() == 0 { Some(0) } else {
        match digits_value(s.drop_last()) { Some(v) => if '0' <= s.last() <= '9' { Some(v * 10 + (s.last() as int - '0' as int)) } else { None }, None => None }
    }
}
/// an unsigned number: digits, an optional plus sign before them
pub open spec fn unsigned_of(s: Seq<char>) -> Option<int> {
    let d = if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s };
    if d.len() == 0 { None } else { digits_value(d) }
}
pub open spec fn u64_of(s: Seq<char>) -> Option<u64> { match unsigned_of(s) { Some(v) => if 0 <= v <= u64::MAX { Some(v as u64) } else { None }, None => None } }
/// so many of a unit, in seconds
pub open spec fn seconds_of(v: int, c: char) -> Option<int> { if c == 's' { Some(v) } else if c == 'm' { Some(v * 60) } else if c == 'h' { Some(v * 3600) } else { None } }
/// the seconds a text means
pub open spec fn duration_of(s: Seq<char>) -> Option<int> {
    if s.len() == 0 { None } else {
        match u64_of(s.drop_last()) {
            Some(v) => match seconds_of(v as int, s.last()) { Some(n) => if n <= u64::MAX { Some(n) } else { None }, None => None },
            None => None }
    }
}
/// std::time::Duration
#[verifier::external_body]
pub struct VxDuration { p: core::time::Duration }
impl VxDuration {
    pub uninterp spec fn nanos(&self) -> int;
    #[verifier::external_body]
    pub fn from_secs(n: u64) -> (r: VxDuration) ensures r.nanos() == n * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(n: u64) -> (r: VxDuration) ensures r.nanos() == n * 1_000_000 { unimplemented!() }
}
/// std::str::Chars
#[verifier::external_body]
pub struct VxChars<'a> { p: &'a str }
impl<'a> VxChars<'a> {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r { Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<char>)
        ensures match r { Some(c) => old(self).rest().len() > 0 && c == old(self).rest().last() && final(self).rest() == old(self).rest().drop_last(), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.rest() { unimplemented!() }
}
pub struct VxParseError { pub p: () }
pub trait VxNumber {
    spec fn txt(&self) -> Seq<char>;
    fn vx_chars<'a>(&'a self) -> (r: VxChars<'a>) ensures r.rest() == self.txt();
    fn vx_parse_u64(&self) -> (r: Result<u64, VxParseError>) ensures match r { Ok(v) => u64_of(self.txt()) == Some(v), Err(_) => u64_of(self.txt()) is None };
}
impl VxNumber for str {
    open spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_chars<'a>(&'a self) -> (r: VxChars<'a>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_u64(&self) -> (r: Result<u64, VxParseError>) { unimplemented!() }
}
} // mod vxd
pub use vxd::*;

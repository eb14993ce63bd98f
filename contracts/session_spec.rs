// ---- C23: an interactive session ----
pub mod vxs {
use vstd::prelude::*;
use std::collections::HashMap;
use crate::*;
/// std::io::Error
#[verifier::external_body]
pub struct VxIoError { p: () }
impl VxIoError {
    pub uninterp spec fn spec_kind(&self) -> VxErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: VxErrorKind) ensures r == self.spec_kind() { unimplemented!() }
}
/// every line of the input up to its end, as BufRead::lines gives them
pub uninterp spec fn input_lines() -> Seq<Result<String, VxIoError>>;
#[verifier::external_body]
pub struct VxStdin { p: () }
#[verifier::external_body]
pub fn vx_stdin() -> VxStdin { unimplemented!() }
impl VxStdin {
    pub fn lock(self) -> VxStdin { self }
    #[verifier::external_body]
    pub fn lines(self) -> (r: Vec<Result<String, VxIoError>>) ensures r@ == input_lines() { unimplemented!() }
}
impl VxTrim for String {
    open spec fn vx_untrimmed(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { self.trim() }
}
pub trait VxEmpty { spec fn none(&self) -> bool; fn vx_is_empty(&self) -> (r: bool) ensures r == self.none(); }
impl VxEmpty for str {
    open spec fn none(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl VxEmpty for String {
    open spec fn none(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
}
/// what a text parses to, if it does
pub struct Program { pub exprs: Seq<Expr>, pub requests: Map<String, (String, Vec<Expr>)>, pub tests: Map<String, Vec<Expr>> }
pub uninterp spec fn program_of(text: Seq<char>) -> Option<Program>;
/// lib::Parser; its contract is proved in unit parser
pub struct Parser { pub vx_text: Ghost<Seq<char>> }
impl Parser {
    pub fn new(text: &str) -> (r: Parser) ensures r.vx_text@ == text@ { Parser { vx_text: Ghost(text@) } }
    #[verifier::external_body]
    pub fn parse(&mut self) -> (r: Result<Source, String>)
        ensures match r {
            Ok(s) => program_of(old(self).vx_text@) == Some(Program { exprs: s.exprs@, requests: s.requests@, tests: s.tests@ }),
            Err(_) => program_of(old(self).vx_text@) is None,
        }
    { unimplemented!() }
}
pub trait VxOrDefault { fn vx_unwrap_or_default(self) -> Context; }
impl VxOrDefault for Option<Context> {
    fn vx_unwrap_or_default(self) -> (r: Context) ensures (match self { Some(c) => r == c, None => fresh(r) }) { match self { Some(c) => c, None => Context::default() } }
}
pub open spec fn fresh(c: Context) -> bool { c.inner@ == Map::<String, Value>::empty() && no_requests(c.requests@) && c.records@.len() == 0 }
/// text o, then one line
pub open spec fn line(o: Seq<char>, t: Seq<char>) -> Seq<char> { o + t + "\n"@ }
/// evaluating the text took context a to b, and o to p on the console: the value of the last expression, or the error, is printed once
pub open spec fn evaluated(text: Seq<char>, a: Context, o: Seq<char>, b: Context, p: Seq<char>) -> bool {
    match program_of(text) {
        None => b == a && exists|t: Seq<char>| p == #[trigger] line(o, t),
        Some(src) => {
            let requests = a.requests@.union_prefer_right(src.requests);
            let run = ev_block(src.exprs, 0, Value::Null, a.inner@, requests, b.records@, At { n: a.records@.len() as int, o });
            b.requests@ == requests && b.inner@ == run.env && run.n.n == b.records@.len() && extends(b.records@, a.records@)
            && match run.v { Out::Value(v) => p == line(run.n.o, show(v)), Out::Error => exists|t: Seq<char>| p == #[trigger] line(run.n.o, t), Out::Wrong => false }
        },
    }
}
/// the line that ends a session: exit, or input that cannot be read
pub open spec fn ends(l: Result<String, VxIoError>) -> bool { match l { Ok(t) => t@ == "exit"@, Err(e) => e.spec_kind() != VxErrorKind::InvalidData } }
/// a line that is passed over: blank, or not text
pub open spec fn passes(l: Result<String, VxIoError>) -> bool { match l { Ok(t) => trimmed(t@).len() == 0, Err(_) => true } }
/// the first k lines went through contexts c and console texts o
pub open spec fn went(ls: Seq<Result<String, VxIoError>>, k: int, c: Seq<Context>, o: Seq<Seq<char>>) -> bool {
    &&& 0 <= k <= ls.len() && c.len() == k + 1 && o.len() == k + 1
    &&& forall|i: int| 0 <= i < k ==> !ends(#[trigger] ls[i]) && (if passes(ls[i]) { c[i + 1] == c[i] && o[i + 1] == o[i] } else { evaluated(ls[i]->Ok_0@, c[i], o[i], c[i + 1], o[i + 1]) })
}
/// a session over these lines that starts with o on the console and ends with p
pub open spec fn session(ls: Seq<Result<String, VxIoError>>, o: Seq<char>, p: Seq<char>) -> bool {
    exists|k: int, cs: Seq<Context>, os: Seq<Seq<char>>| #[trigger] went(ls, k, cs, os) && fresh(cs[0]) && os[0] == o && os[k] == p && (k == ls.len() || ends(ls[k]))
}
} // mod vxs
pub use vxs::*;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum VxErrorKind { InvalidData, Other }

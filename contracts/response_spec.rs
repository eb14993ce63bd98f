// ---- the value of a response ----
//@broadcast vxq::axiom_map_of_view
use vstd::std_specs::iter::IteratorSpec;
use std::slice::Iter;
pub mod vxq {
use vstd::prelude::*;
use std::collections::HashMap;
use crate::*;

// a HashMap is determined by its entries
pub uninterp spec fn map_of(m: Map<String, Value>) -> HashMap<String, Value>;
#[verifier::external_body]
pub broadcast proof fn axiom_map_of_view(m: HashMap<String, Value>)
    ensures map_of(#[trigger] m@) == m
{ }

/// the value a literal stands for; everything else is null
pub open spec fn lit(e: Expr) -> Value
    decreases e, 0int
{
    match e {
        Expr::Integer(i) => Value::Integer(i),
        Expr::Float(f) => Value::Float(f),
        Expr::Boolean(b) => Value::Boolean(b),
        Expr::String(s) => Value::String(s),
        Expr::Array(items) => Value::Array(vec_of(lits(items@, items@.len() as int))),
        Expr::Map(pairs) => Value::Map(map_of(lit_pairs(pairs@, pairs@.len() as int))),
        Expr::Unary(t, a) => match (t.kind, lit(*a)) {
            (Kind::Sub, Value::Integer(i)) => if i == i64::MIN { Value::Null } else { Value::Integer((-i) as i64) },
            (Kind::Sub, Value::Float(f)) => Value::Float(fneg(f)),
            _ => Value::Null,
        },
        _ => Value::Null,
    }
}
pub open spec fn lits(s: Seq<Expr>, n: int) -> Seq<Value>
    decreases s, n
{ if 0 < n <= s.len() { lits(s, n - 1).push(lit(s[n - 1])) } else { Seq::empty() } }
/// a later pair of the same key replaces an earlier one
pub open spec fn lit_pairs(s: Seq<(Expr, Expr)>, n: int) -> Map<String, Value>
    decreases s, n
{ if 0 < n <= s.len() { lit_pairs(s, n - 1).insert(str_of(show(lit(s[n - 1].0))), lit(s[n - 1].1)) } else { Map::empty() } }

/// the values of a header, in order
pub open spec fn values_of(h: Seq<Header>, name: String, n: int) -> Seq<Value>
    decreases n
{ if 0 < n <= h.len() { if h[n - 1].name == name { values_of(h, name, n - 1).push(Value::String(h[n - 1].value)) } else { values_of(h, name, n - 1) } } else { Seq::empty() } }
/// each header name, and nothing else, has the array of its values
pub open spec fn header_map(m: Map<String, Value>, h: Seq<Header>, n: int) -> bool {
    forall|k: String| (#[trigger] m.contains_key(k) <==> values_of(h, k, n).len() > 0) && (m.contains_key(k) ==> (m[k] matches Value::Array(a) && a@ == values_of(h, k, n)))
}
/// what the body says, read as a program: its first expression
pub open spec fn says(body: Seq<char>) -> Option<Expr> {
    match p_program(lex(body).push(token(Kind::Eof, Seq::empty())), 0, no_program()) { Some(g) => if g.exprs.len() > 0 { Some(g.exprs[0]) } else { None }, None => None }
}
pub open spec fn key(k: Seq<char>) -> String { str_of(k) }
pub open spec fn response_map(m: Map<String, Value>, r: Response) -> bool {
    &&& m.contains_key(key("version"@)) && m[key("version"@)] == Value::String(r.version)
    &&& m.contains_key(key("status"@)) && m[key("status"@)] == Value::Integer(r.status as i64)
    &&& m.contains_key(key("reason"@)) && m[key("reason"@)] == Value::String(r.reason)
    &&& m.contains_key(key("body"@)) && m[key("body"@)] == Value::String(r.body)
    &&& m.contains_key(key("headers"@)) && (m[key("headers"@)] matches Value::Map(h) && header_map(h@, r.headers.inner@, r.headers.inner@.len() as int))
    &&& match says(r.body@) { Some(e) => m.contains_key(key("json"@)) && m[key("json"@)] == lit(e), None => !m.contains_key(key("json"@)) }
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> k == key("version"@) || k == key("status"@) || k == key("reason"@) || k == key("body"@) || k == key("headers"@) || k == key("json"@)
}
pub proof fn keys_differ()
    ensures "version"@ != "status"@, "version"@ != "reason"@, "version"@ != "body"@, "version"@ != "headers"@, "version"@ != "json"@,
        "status"@ != "reason"@, "status"@ != "body"@, "status"@ != "headers"@, "status"@ != "json"@, "reason"@ != "body"@, "reason"@ != "headers"@, "reason"@ != "json"@,
        "body"@ != "headers"@, "body"@ != "json"@, "headers"@ != "json"@,
{
    reveal_strlit("version"); reveal_strlit("status"); reveal_strlit("reason"); reveal_strlit("body"); reveal_strlit("headers"); reveal_strlit("json");
    assert("version"@[0] == 'v' && "status"@[0] == 's' && "reason"@[0] == 'r' && "body"@[0] == 'b' && "headers"@[0] == 'h' && "json"@[0] == 'j');
}
// String::from
#[verifier::external_body]
pub fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { String::from(s) }
pub trait VxFirst<T> { spec fn vx_items(&self) -> Seq<T>; fn vx_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vx_items().len() > 0 && *x == self.vx_items()[0], None => self.vx_items().len() == 0 }; }
impl<T> VxFirst<T> for Vec<T> {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_first(&self) -> (r: Option<&T>) { self.first() }
}
} // mod vxq
pub use vxq::*;

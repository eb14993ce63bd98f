//@broadcast vxpr::vx_assoc
//@broadcast vxpr::joined_list
//@broadcast vxpr::joined_pairs
// ---- the text of an expression ----
pub mod vxpr {
use vstd::prelude::*;
use crate::*;
pub open spec fn show_token(t: Token) -> Seq<char> { t.literal@ }
/// an expression as it is written in a record: subexpressions in full, the parts of a list separated, nothing added or left out
pub open spec fn show_expr(e: Expr) -> Seq<char>
    decreases e
{
    match e {
        Expr::Integer(i) => int_text(i as int),
        Expr::Float(f) => float_text(f),
        Expr::Boolean(b) => bool_text(b),
        Expr::String(s) => "\""@ + s@ + "\""@,
        Expr::Ident(s) => s@,
        Expr::Array(items) => "["@ + show_list(items@, items@.len() as int, ", "@) + "]"@,
        Expr::Map(pairs) => "{"@ + show_pairs(pairs@, pairs@.len() as int) + "}"@,
        Expr::Index(left, index) => show_expr(*left) + "["@ + show_expr(*index) + "]"@,
        Expr::Field(left, field) => show_expr(*left) + "."@ + field@,
        Expr::Let(name, value) => "let "@ + name@ + " = "@ + show_expr(*value),
        Expr::Unary(token, right) => show_token(token) + show_expr(*right),
        Expr::Binary(token, left, right) => show_expr(*left) + " "@ + show_token(token) + " "@ + show_expr(*right),
        Expr::Paren(value) => "("@ + show_expr(*value) + ")"@,
        Expr::If(condition, yes, no) => "if ("@ + show_expr(*condition) + ") { "@ + show_list(yes@, yes@.len() as int, ";"@)
            + (if no@.len() == 0 { Seq::empty() } else { "} else { "@ + show_list(no@, no@.len() as int, ";"@) }) + " }"@,
        Expr::Call(function, arguments) => function@ + "("@ + show_list(arguments@, arguments@.len() as int, ", "@) + ")"@,
    }
}
/// the first n of a list
pub open spec fn show_list(items: Seq<Expr>, n: int, sep: Seq<char>) -> Seq<char>
    decreases items, n
{
    if !(0 < n <= items.len()) { Seq::empty() } else if n == 1 { show_expr(items[0]) } else { show_list(items, n - 1, sep) + sep + show_expr(items[n - 1]) }
}
pub open spec fn show_pair(p: (Expr, Expr)) -> Seq<char>
    decreases p
{ show_expr(p.0) + ": "@ + show_expr(p.1) }
pub open spec fn show_pairs(pairs: Seq<(Expr, Expr)>, n: int) -> Seq<char>
    decreases pairs, n
{
    if !(0 < n <= pairs.len()) { Seq::empty() } else if n == 1 { show_pair(pairs[0]) } else { show_pairs(pairs, n - 1) + ", "@ + show_pair(pairs[n - 1]) }
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn joined(parts: Seq<Seq<char>>, n: int, sep: Seq<char>) -> Seq<char>
    decreases n
{ if !(0 < n <= parts.len()) { Seq::empty() } else if n == 1 { parts[0] } else { joined(parts, n - 1, sep) + sep + parts[n - 1] } }
/// [String]::join
pub trait VxJoin { fn vx_join(&self, sep: &str) -> String; }
impl VxJoin for Vec<String> {
    #[verifier::external_body]
    fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(texts(self@), self@.len() as int, sep@) { unimplemented!() }
}
pub open spec fn items_done(acc: Seq<String>, items: Seq<Expr>) -> bool { forall|k: int| 0 <= k < acc.len() ==> (#[trigger] acc[k])@ == show_expr(items[k]) }
pub open spec fn pairs_done(acc: Seq<String>, items: Seq<(Expr, Expr)>) -> bool { forall|k: int| 0 <= k < acc.len() ==> (#[trigger] acc[k])@ == show_pair(items[k]) }
pub broadcast proof fn vx_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] (a + (b + c)) == (a + b) + c
{ assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn joined_list(acc: Seq<String>, items: Seq<Expr>, sep: Seq<char>)
    requires #[trigger] items_done(acc, items), acc.len() == items.len()
    ensures #[trigger] joined(texts(acc), acc.len() as int, sep) == show_list(items, items.len() as int, sep)
{ joined_part(acc, items, sep, acc.len() as int); }
proof fn joined_part(acc: Seq<String>, items: Seq<Expr>, sep: Seq<char>, n: int)
    requires items_done(acc, items), acc.len() == items.len(), 0 <= n <= acc.len()
    ensures joined(texts(acc), n, sep) == show_list(items, n, sep)
    decreases n
{ if n > 0 { assert(acc[n - 1]@ == show_expr(items[n - 1])); joined_part(acc, items, sep, n - 1); } }
pub broadcast proof fn joined_pairs(acc: Seq<String>, items: Seq<(Expr, Expr)>)
    requires #[trigger] pairs_done(acc, items), acc.len() == items.len()
    ensures #[trigger] joined(texts(acc), acc.len() as int, ", "@) == show_pairs(items, items.len() as int)
{ joined_pairs_part(acc, items, acc.len() as int); }
proof fn joined_pairs_part(acc: Seq<String>, items: Seq<(Expr, Expr)>, n: int)
    requires pairs_done(acc, items), acc.len() == items.len(), 0 <= n <= acc.len()
    ensures joined(texts(acc), n, ", "@) == show_pairs(items, n)
    decreases n
{ if n > 0 { assert(acc[n - 1]@ == show_pair(items[n - 1])); joined_pairs_part(acc, items, n - 1); } }
}
pub use vxpr::*;
impl VxShow for Token {
    open spec fn shown(&self) -> Seq<char> { show_token(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxShow for Expr {
    open spec fn shown(&self) -> Seq<char> { show_expr(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

// ---- C02, C03, C04: what a token sequence parses to ----
pub mod vxp {
use vstd::prelude::*;
use crate::*;
// std: str::parse
pub struct VxError;
pub uninterp spec fn i64_of(s: Seq<char>) -> Option<i64>;
pub uninterp spec fn f64_of(s: Seq<char>) -> Option<f64>;
pub open spec fn bool_of(s: Seq<char>) -> Option<bool> { if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None } }
pub trait VxParse {
    fn vx_parse_i64(&self) -> Result<i64, VxError>;
    fn vx_parse_f64(&self) -> Result<f64, VxError>;
    fn vx_parse_bool(&self) -> Result<bool, VxError>;
}
impl VxParse for str {
    #[verifier::external_body]
    fn vx_parse_i64(&self) -> (r: Result<i64, VxError>) ensures r.ok() == i64_of(self@) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse_f64(&self) -> (r: Result<f64, VxError>) ensures r.ok() == f64_of(self@) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse_bool(&self) -> (r: Result<bool, VxError>) ensures r.ok() == bool_of(self@) { unimplemented!() }
}
impl VxParse for String {
    #[verifier::external_body]
    fn vx_parse_i64(&self) -> (r: Result<i64, VxError>) ensures r.ok() == i64_of(self@) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse_f64(&self) -> (r: Result<f64, VxError>) ensures r.ok() == f64_of(self@) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse_bool(&self) -> (r: Result<bool, VxError>) ensures r.ok() == bool_of(self@) { unimplemented!() }
}
} // mod vxp
pub use vxp::*;

/// binding strength, loosest first; 0 ends an expression
pub open spec fn strength(k: Kind) -> int {
    match k {
        Kind::Lo => 1, Kind::La => 2, Kind::Bo => 3, Kind::Bx => 4, Kind::Ba => 5,
        Kind::Eq | Kind::Ne => 6,
        Kind::Lt | Kind::Gt | Kind::Le | Kind::Ge => 7,
        Kind::Sl | Kind::Sr => 8,
        Kind::Add | Kind::Sub => 9,
        Kind::Mul | Kind::Div | Kind::Rem => 10,
        Kind::Not => 11,
        Kind::Lp => 12,
        Kind::Ls | Kind::Dot => 13,
        _ => 0,
    }
}
pub open spec fn prefix_strength() -> int { 11 }
pub open spec fn is_binary(k: Kind) -> bool { 1 <= strength(k) <= 10 }

pub open spec fn wf_tokens(ts: Seq<Token>) -> bool { ts.len() > 0 && ts.last().kind is Eof && spelled(ts) }
/// the tokens of true and false are spelled that way
#[verifier::opaque]
pub open spec fn spelled(ts: Seq<Token>) -> bool { forall|i: int| 0 <= i < ts.len() ==> spells(#[trigger] ts[i]) }
pub open spec fn spells(t: Token) -> bool { (t.kind is True ==> t.literal@ == "true"@) && (t.kind is False ==> t.literal@ == "false"@) }
pub proof fn lex_spelled(s: Seq<char>)
    ensures spelled(lex(s))
    decreases s.len()
{
    reveal(spelled);
    if s.len() > 0 {
        if is_ws(s[0]) { lex_spelled(s.skip(1)); }
        else {
            let (k, t, n) = first(s);
            if 0 < n <= s.len() { lex_spelled(s.skip(n)); assert(spells(token(k, t))); assert(lex(s) =~= seq![token(k, t)] + lex(s.skip(n))); }
        }
    }
}
/// the token after position i, if there is one
pub open spec fn peek(ts: Seq<Token>, i: int) -> Option<Kind> { if 0 <= i + 1 < ts.len() { Some(ts[i + 1].kind) } else { None } }
/// position i + 1 if its token is of kind k
pub open spec fn expect(ts: Seq<Token>, i: int, k: Kind) -> Option<int> { if peek(ts, i) == Some(k) { Some(i + 1) } else { None } }
pub open spec fn skip_if(ts: Seq<Token>, i: int, k: Kind) -> int { if peek(ts, i) == Some(k) { i + 1 } else { i } }

// Every function below gives the tree of the construct that starts (or goes on) at position i and
// the position of its last token, or None where the text is malformed. `i < j` guards only carry termination.

pub open spec fn p_expr(ts: Seq<Token>, i: int, p: int) -> Option<(Expr, int)>
    decreases ts.len() - i, 3int
{
    if !(0 <= i < ts.len()) { None } else {
        let k = ts[i].kind;
        let head: Option<(Expr, int)> = match k {
            Kind::Ident => Some((Expr::Ident(ts[i].literal), i)),
            Kind::Integer => match i64_of(ts[i].literal@) { Some(x) => Some((Expr::Integer(x), i)), None => None },
            Kind::Float => match f64_of(ts[i].literal@) { Some(x) => Some((Expr::Float(x), i)), None => None },
            Kind::True | Kind::False => match bool_of(ts[i].literal@) { Some(x) => Some((Expr::Boolean(x), i)), None => None },
            Kind::String => Some((Expr::String(ts[i].literal), i)),
            Kind::Let => p_let(ts, i),
            Kind::Not | Kind::Sub => p_unary(ts, i),
            Kind::Lp => p_paren(ts, i),
            Kind::If => p_if(ts, i),
            Kind::Ls => p_array(ts, i),
            Kind::Lb => p_map(ts, i),
            _ => None,
        };
        match head {
            None => None,
            // a binding takes everything to its right
            Some((e, j)) => if k is Let { head } else if i <= j < ts.len() { p_tail(ts, j, e, p) } else { None },
        }
    }
}
/// what follows a complete operand: operators that bind tighter than p, grouped to the left
pub open spec fn p_tail(ts: Seq<Token>, i: int, left: Expr, p: int) -> Option<(Expr, int)>
    decreases ts.len() - i, 1int
{
    match peek(ts, i) {
        None => Some((left, i)),
        Some(k) => if k is Semi || strength(k) <= p { Some((left, i)) } else {
            let next: Option<(Expr, int)> =
                if !(i >= 0) { None }
                else if is_binary(k) { p_binary(ts, i + 1, left) }
                else if k is Lp { p_call(ts, i + 1, left) }
                else if k is Ls { p_index(ts, i + 1, left) }
                else if k is Dot { p_field(ts, i + 1, left) }
                else { Some((left, i)) };
            match next {
                None => None,
                Some((e, j)) => if i < j < ts.len() { p_tail(ts, j, e, p) } else { next },
            }
        },
    }
}
pub open spec fn p_let(ts: Seq<Token>, i: int) -> Option<(Expr, int)>
    decreases ts.len() - i, 2int
{
    match expect(ts, i, Kind::Ident) { None => None, Some(n) =>
    match expect(ts, n, Kind::Assign) { None => None, Some(a) =>
    match (if 0 <= i < a + 1 < ts.len() { p_expr(ts, a + 1, 0) } else { None }) { None => None, Some((e, j)) =>
        Some((Expr::Let(ts[n].literal, Box::new(e)), skip_if(ts, j, Kind::Semi))) } } }
}
pub open spec fn p_unary(ts: Seq<Token>, i: int) -> Option<(Expr, int)>
    decreases ts.len() - i, 2int
{
    match (if 0 <= i < i + 1 < ts.len() { p_expr(ts, i + 1, prefix_strength()) } else { None }) { None => None, Some((e, j)) => Some((Expr::Unary(ts[i], Box::new(e)), j)) }
}
pub open spec fn p_binary(ts: Seq<Token>, i: int, left: Expr) -> Option<(Expr, int)>
    decreases ts.len() - i, 2int
{
    match (if 0 <= i < i + 1 < ts.len() { p_expr(ts, i + 1, strength(ts[i].kind)) } else { None }) { None => None, Some((e, j)) => Some((Expr::Binary(ts[i], Box::new(left), Box::new(e)), j)) }
}
pub open spec fn p_paren(ts: Seq<Token>, i: int) -> Option<(Expr, int)>
    decreases ts.len() - i, 2int
{
    match (if 0 <= i < i + 1 < ts.len() { p_expr(ts, i + 1, 0) } else { None }) { None => None, Some((e, j)) =>
    match expect(ts, j, Kind::Rp) { None => None, Some(r) => Some((Expr::Paren(Box::new(e)), r)) } }
}
pub open spec fn p_if(ts: Seq<Token>, i: int) -> Option<(Expr, int)>
    decreases ts.len() - i, 2int
{
    match expect(ts, i, Kind::Lp) { None => None, Some(l) =>
    match (if 0 <= i < l + 1 < ts.len() { p_expr(ts, l + 1, 0) } else { None }) { None => None, Some((c, j)) =>
    match expect(ts, j, Kind::Rp) { None => None, Some(r) =>
    if !(i < r) { None } else {
    match p_block(ts, r) { None => None, Some((a, m)) =>
        if peek(ts, m) == Some(Kind::Else) && i < m {
            match p_block(ts, m + 1) { None => None, Some((b, n)) => Some((Expr::If(Box::new(c), vec_of(a), vec_of(b)), n)) }
        } else { Some((Expr::If(Box::new(c), vec_of(a), vec_of(Seq::empty())), m)) } } } } } }
}
pub open spec fn p_array(ts: Seq<Token>, i: int) -> Option<(Expr, int)>
    decreases ts.len() - i, 2int
{
    match p_list(ts, i, Kind::Rs, Seq::empty()) { None => None, Some((s, j)) => Some((Expr::Array(vec_of(s)), j)) }
}
pub open spec fn p_map(ts: Seq<Token>, i: int) -> Option<(Expr, int)>
    decreases ts.len() - i, 2int
{
    match p_pairs(ts, i, Seq::empty()) { None => None, Some((s, j)) => Some((Expr::Map(vec_of(s)), j)) }
}
pub open spec fn p_call(ts: Seq<Token>, i: int, f: Expr) -> Option<(Expr, int)>
    decreases ts.len() - i, 2int
{
    match p_list(ts, i, Kind::Rp, Seq::empty()) { None => None, Some((s, j)) =>
    match f { Expr::Ident(name) => Some((Expr::Call(name, vec_of(s)), j)), _ => None } }
}
pub open spec fn p_index(ts: Seq<Token>, i: int, left: Expr) -> Option<(Expr, int)>
    decreases ts.len() - i, 2int
{
    match (if 0 <= i < i + 1 < ts.len() { p_expr(ts, i + 1, 0) } else { None }) { None => None, Some((e, j)) =>
    match expect(ts, j, Kind::Rs) { None => None, Some(r) => Some((Expr::Index(Box::new(left), Box::new(e)), r)) } }
}
pub open spec fn p_field(ts: Seq<Token>, i: int, left: Expr) -> Option<(Expr, int)>
    decreases ts.len() - i, 2int
{
    match expect(ts, i, Kind::Ident) { None => None, Some(n) => Some((Expr::Field(Box::new(left), ts[n].literal), n)) }
}
/// items separated by commas, a last comma allowed, up to the closing token
pub open spec fn p_list(ts: Seq<Token>, i: int, end: Kind, got: Seq<Expr>) -> Option<(Seq<Expr>, int)>
    decreases ts.len() - i, 1int
{
    if peek(ts, i) == Some(end) { Some((got, i + 1)) } else {
        match (if 0 <= i < i + 1 < ts.len() { p_expr(ts, i + 1, 0) } else { None }) { None => None, Some((e, j)) =>
            if !(i < j < ts.len()) { None }
            else if peek(ts, j) == Some(end) { Some((got.push(e), j + 1)) }
            else if peek(ts, j) == Some(Kind::Comma) { p_list(ts, j + 1, end, got.push(e)) }
            else { None } }
    }
}
/// key: value pairs separated by commas, a last comma allowed, up to the closing brace
pub open spec fn p_pairs(ts: Seq<Token>, i: int, got: Seq<(Expr, Expr)>) -> Option<(Seq<(Expr, Expr)>, int)>
    decreases ts.len() - i, 1int
{
    if peek(ts, i) == Some(Kind::Rb) { Some((got, i + 1)) } else {
        match (if 0 <= i < i + 1 < ts.len() { p_expr(ts, i + 1, 0) } else { None }) { None => None, Some((k, j)) =>
        match expect(ts, j, Kind::Colon) { None => None, Some(c) =>
        match (if 0 <= i < c + 1 < ts.len() { p_expr(ts, c + 1, 0) } else { None }) { None => None, Some((v, m)) =>
            if !(i < m < ts.len()) { None }
            else if peek(ts, m) == Some(Kind::Rb) { Some((got.push((k, v)), m + 1)) }
            else if peek(ts, m) == Some(Kind::Comma) { p_pairs(ts, m + 1, got.push((k, v))) }
            else { None } } } }
    }
}
pub open spec fn p_block(ts: Seq<Token>, i: int) -> Option<(Seq<Expr>, int)>
    decreases ts.len() - i, 2int
{
    match expect(ts, i, Kind::Lb) { None => None, Some(l) => if !(0 <= i) { None } else { p_stmts(ts, l, Seq::empty()) } }
}
/// statements, each optionally followed by a semicolon, up to the closing brace
pub open spec fn p_stmts(ts: Seq<Token>, i: int, got: Seq<Expr>) -> Option<(Seq<Expr>, int)>
    decreases ts.len() - i, 1int
{
    if peek(ts, i) == Some(Kind::Rb) { Some((got, i + 1)) } else {
        match (if 0 <= i < i + 1 < ts.len() { p_expr(ts, i + 1, 0) } else { None }) { None => None, Some((e, j)) =>
            if i < j < ts.len() { p_stmts(ts, skip_if(ts, j, Kind::Semi), got.push(e)) } else { None } }
    }
}
pub open spec fn p_request(ts: Seq<Token>, i: int) -> Option<((String, String, Vec<Expr>), int)> {
    match expect(ts, i, Kind::Ident) { None => None, Some(n) =>
    match expect(ts, n, Kind::Template) { None => None, Some(t) =>
        if peek(ts, t) == Some(Kind::Ls) {
            match p_list(ts, t + 1, Kind::Rs, Seq::empty()) { None => None, Some((a, j)) => Some(((ts[n].literal, ts[t].literal, vec_of(a)), j)) }
        } else { Some(((ts[n].literal, ts[t].literal, vec_of(Seq::empty())), t)) } } }
}
pub open spec fn p_test(ts: Seq<Token>, i: int) -> Option<((String, Vec<Expr>), int)> {
    match expect(ts, i, Kind::Ident) { None => None, Some(n) =>
    match p_block(ts, n) { None => None, Some((b, j)) => Some(((ts[n].literal, vec_of(b)), j)) } }
}
pub struct Program { pub exprs: Seq<Expr>, pub requests: Map<String, (String, Vec<Expr>)>, pub tests: Map<String, Vec<Expr>> }
/// the declarations and statements from position i on, after those already in `g`
pub open spec fn p_program(ts: Seq<Token>, i: int, g: Program) -> Option<Program>
    decreases ts.len() - i
{
    if !(0 <= i < ts.len()) || ts[i].kind is Eof { Some(g) } else {
        let next: Option<(Program, int)> = match ts[i].kind {
            Kind::Request => match p_request(ts, i) { None => None, Some((r, j)) => Some((Program { requests: g.requests.insert(r.0, (r.1, r.2)), ..g }, j)) },
            Kind::Test => match p_test(ts, i) { None => None, Some((t, j)) => Some((Program { tests: g.tests.insert(t.0, t.1), ..g }, j)) },
            _ => match p_expr(ts, i, 0) { None => None, Some((e, j)) => Some((Program { exprs: g.exprs.push(e), ..g }, j)) },
        };
        match next { None => None, Some((g2, j)) => if i <= j < ts.len() { p_program(ts, skip_if(ts, j, Kind::Semi) + 1, g2) } else { None } }
    }
}
pub open spec fn no_program() -> Program { Program { exprs: Seq::empty(), requests: Map::empty(), tests: Map::empty() } }

pub open spec fn wf(p: Parser) -> bool { wf_tokens(p.tokens@) && p.index < p.tokens@.len() }
pub open spec fn here(p: Parser) -> Kind { p.tokens@[p.index as int].kind }
/// a parsing step gave what the specification says, reads on, and left the tokens alone
pub open spec fn parsed<T>(r: Result<T, String>, want: Option<(T, int)>, a: Parser, b: Parser) -> bool {
    b.tokens == a.tokens && a.index <= b.index && b.index < b.tokens@.len() && match r {
        Ok(e) => want == Some((e, b.index as int)) && !(b.tokens@[b.index as int].kind is Eof),
        Err(_) => want is None,
    }
}
pub open spec fn parsed_seq(r: Result<Vec<Expr>, String>, want: Option<(Seq<Expr>, int)>, a: Parser, b: Parser) -> bool {
    b.tokens == a.tokens && a.index <= b.index && b.index < b.tokens@.len() && match r {
        Ok(e) => want == Some((e@, b.index as int)) && !(b.tokens@[b.index as int].kind is Eof) && a.index < b.index,
        Err(_) => want is None,
    }
}

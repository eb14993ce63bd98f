// ---- C07, C08, C09, C10, C11, C17: what evaluating a program means ----
//@broadcast vxe::axiom_map_of_view
//@broadcast vxe::axiom_requests_of_view
//@broadcast vxe::lemma_extends
//@broadcast vxe::axiom_values_fit
pub mod vxe {
use vstd::prelude::*;
use std::collections::HashMap;
use crate::*;
// a HashMap is determined by its entries
pub uninterp spec fn map_of(m: Map<String, Value>) -> HashMap<String, Value>;
#[verifier::external_body]
pub broadcast proof fn axiom_map_of_view(m: HashMap<String, Value>)
    ensures map_of(#[trigger] m@) == m
{ }
pub uninterp spec fn requests_of(m: Map<String, (String, Vec<Expr>)>) -> HashMap<String, (String, Vec<Expr>)>;
#[verifier::external_body]
pub broadcast proof fn axiom_requests_of_view(m: HashMap<String, (String, Vec<Expr>)>)
    ensures requests_of(#[trigger] m@) == m
{ }
// derived / standard Clone
impl VxOwned for HashMap<String, Value> {
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: Self) { unimplemented!() }
}
impl VxOwned for HashMap<String, (String, Vec<Expr>)> {
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: Self) { unimplemented!() }
}
// HashMap::extend: entries of the argument win
pub trait VxExtend {
    fn vx_extend(&mut self, o: HashMap<String, (String, Vec<Expr>)>);
}
impl VxExtend for HashMap<String, (String, Vec<Expr>)> {
    #[verifier::external_body]
    fn vx_extend(&mut self, o: HashMap<String, (String, Vec<Expr>)>)
        ensures final(self)@ == old(self)@.union_prefer_right(o@)
    { unimplemented!() }
}
// std::mem::take on a list
#[verifier::external_body]
pub fn vx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r == *old(v), final(v)@ == Seq::<T>::empty() { unimplemented!() }
// Result::unwrap_or, Option::unwrap_or
pub trait VxOr<T> { fn vx_unwrap_or(self, d: T) -> T; }
impl<T, E> VxOr<T> for Result<T, E> {
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self { Ok(v) => v, Err(_) => d }) {
        match self { Ok(v) => v, Err(_) => d }
    }
}
impl<T> VxOr<T> for Option<T> {
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self { Some(v) => v, None => d }) {
        match self { Some(v) => v, None => d }
    }
}
// `as usize` on a 64-bit machine
#[verifier::external_body]
pub fn vx_i2u(a: i64) -> (r: usize) ensures r as int == (if a >= 0 { a as int } else { a + 0x1_0000_0000_0000_0000 }) { a as usize }

/// a list of values fits the address space
#[verifier::external_body]
pub broadcast proof fn axiom_values_fit(v: Vec<Value>) ensures (#[trigger] v@.len()) <= isize::MAX { }
/// the list only grew
pub open spec fn extends(b: Seq<Record>, a: Seq<Record>) -> bool {
    a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> b[i] == #[trigger] a[i]
}
pub broadcast proof fn lemma_extends(a: Seq<Record>, b: Seq<Record>, c: Seq<Record>)
    ensures #![trigger extends(c, b), extends(b, a)] extends(c, b) && extends(b, a) ==> extends(c, a)
{ if extends(c, b) && extends(b, a) { assert forall|i: int| 0 <= i < a.len() implies c[i] == #[trigger] a[i] by { assert(b[i] == a[i]); assert(c[i] == b[i]); } } }
pub proof fn extends_self(a: Seq<Record>) ensures extends(a, a) { }
} // mod vxe
pub use vxe::*;

// ---- types whose contents this unit does not look at ----
#[verifier::external_body]
pub struct Request { p: () }
#[verifier::external_body]
pub struct Response { p: () }
#[verifier::external_body]
pub struct Duration { p: () }
pub uninterp spec fn duration_text(d: Duration) -> Seq<char>;
impl VxDebug for Duration { open spec fn debug_text(&self) -> Seq<char> { duration_text(*self) } }
impl Response {
    // proved in unit http: Response::to_map
    #[verifier::external_body]
    pub fn to_map(&self) -> (r: HashMap<String, Value>) ensures r@ == response_value(*self) { unimplemented!() }
}
/// the network
#[verifier::external_body]
pub struct Client { p: () }
#[verifier::external_body]
pub fn vx_client() -> Client { unimplemented!() }
impl Client {
    #[verifier::external_body]
    pub fn send(&self, message: &str) -> (r: (Request, Response, Time, String)) ensures answered(message@, r.0, r.1, r.2, r.3) { unimplemented!() }
}

/// the console, handed on as an argument
pub struct VxConsole { pub buf: String }

// ---- built-in functions ----
pub open spec fn n_format(args: Seq<Value>) -> Option<Value> {
    if args.len() == 0 { None } else {
        match args[0] {
            Value::String(s) => if holes(s@, 0).len() == args.len() - 1 { Some(Value::String(str_of(fill(s@, 0, 0, argument_text(args.skip(1)))))) } else { None },
            _ => None,
        }
    }
}
pub open spec fn n_print(args: Seq<Value>) -> Option<Value> { match n_format(args) { Some(_) => Some(Value::Null), None => None } }
/// what a built-in function prints
pub open spec fn printed(name: Seq<char>, args: Seq<Value>) -> Seq<char> {
    match n_format(args) {
        Some(x) => if name == "println"@ { show(x) + "\n"@ } else if name == "print"@ { show(x) } else { Seq::empty() },
        None => Seq::empty(),
    }
}
pub open spec fn n_length(args: Seq<Value>) -> Option<Value> {
    if args.len() != 1 { None } else {
        match args[0] {
            Value::String(s) => Some(Value::Integer(blen(s@) as i64)),
            Value::Array(items) => Some(Value::Integer(items@.len() as i64)),
            Value::Map(m) => Some(Value::Integer(m@.len() as i64)),
            _ => None,
        }
    }
}
pub open spec fn n_append(args: Seq<Value>) -> Option<Value> {
    if args.len() == 0 { None } else { match args[0] { Value::Array(items) => Some(Value::Array(vec_of(items@ + args.skip(1)))), _ => None } }
}
pub open spec fn native(name: Seq<char>, args: Seq<Value>) -> Option<Value> {
    if name == "println"@ || name == "print"@ { n_print(args) }
    else if name == "format"@ { n_format(args) }
    else if name == "length"@ { n_length(args) }
    else if name == "append"@ { n_append(args) }
    else { None }
}

// ---- what a record prints ----
pub open spec fn assert_line(a: Assert) -> Seq<char> { a.expr@ + " => "@ + a.left@ + " "@ + a.compare@ + " "@ + a.right@ + " => "@ + bool_text(a.result) + "\n"@ }
pub open spec fn assert_lines(s: Seq<Assert>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { Seq::empty() } else { assert_lines(s, n - 1) + assert_line(s[n - 1]) } }
pub open spec fn all_hold(s: Seq<Assert>, n: int) -> bool { forall|k: int| 0 <= k < n ==> (#[trigger] s[k]).result }
pub open spec fn record_text(r: Record) -> Seq<char> {
    "=== TEST  "@ + r.name@ + "\n"@ + assert_lines(r.asserts@, r.asserts@.len() as int)
    + "--- "@ + (if all_hold(r.asserts@, r.asserts@.len() as int) { "PASS"@ } else { "FAIL"@ }) + "  "@ + r.name@ + " ("@ + duration_text(r.time.total) + ")"@
}

// what a server, or the network, may answer to a message
pub uninterp spec fn answered(message: Seq<char>, request: Request, response: Response, time: Time, error: String) -> bool;
/// the value of a response (given by the contract of Response::to_map, C16)
pub uninterp spec fn response_value(r: Response) -> Map<String, Value>;

pub enum Out { Value(Value), Error, Wrong }
/// the outcome of evaluating something: value, variables afterwards, number of records and printed text afterwards
/// how far a run got: records made, text printed
pub struct At { pub n: int, pub o: Seq<char> }
pub struct Run { pub v: Out, pub env: Map<String, Value>, pub n: At }
pub struct Lst { pub v: Option<Seq<Value>>, pub wrong: bool, pub env: Map<String, Value>, pub n: At }

pub open spec fn no_requests(reqs: Map<String, (String, Vec<Expr>)>) -> bool { reqs == Map::<String, (String, Vec<Expr>)>::empty() }
pub open spec fn level(reqs: Map<String, (String, Vec<Expr>)>) -> int { if no_requests(reqs) { 0 } else { 1 } }
pub open spec fn done(v: Option<Value>, r: Run) -> Run { Run { v: match v { Some(x) => Out::Value(x), None => Out::Error }, env: r.env, n: r.n } }
pub open spec fn decides_false(v: Value) -> bool { v == Value::Null || v == Value::Boolean(false) }

pub open spec fn v_not(v: Value) -> Value {
    match v { Value::Boolean(b) => Value::Boolean(!b), Value::Null => Value::Boolean(true), Value::Integer(i) => Value::Integer(!i), _ => Value::Boolean(false) }
}
pub open spec fn v_neg(v: Value) -> Option<Value> {
    match v { Value::Integer(i) => int_res(-i), Value::Float(f) => Some(Value::Float(fneg(f))), _ => None }
}
pub open spec fn is_comparison(k: Kind) -> bool { k is Lt || k is Gt || k is Le || k is Ge || k is Eq || k is Ne }
pub open spec fn v_compare(k: Kind, a: Value, b: Value) -> bool {
    match k {
        Kind::Lt => v_cmp(a, b) == Some(Ordering::Less),
        Kind::Gt => v_cmp(a, b) == Some(Ordering::Greater),
        Kind::Le => v_cmp(a, b) == Some(Ordering::Less) || v_cmp(a, b) == Some(Ordering::Equal),
        Kind::Ge => v_cmp(a, b) == Some(Ordering::Greater) || v_cmp(a, b) == Some(Ordering::Equal),
        Kind::Eq => v_eq(a, b),
        _ => !v_eq(a, b),
    }
}
pub open spec fn v_operate(k: Kind, a: Value, b: Value) -> Option<Value> {
    match k {
        Kind::Add => v_add(a, b), Kind::Sub => v_sub(a, b), Kind::Mul => v_mul(a, b), Kind::Div => v_div(a, b), Kind::Rem => v_rem(a, b),
        Kind::Bx => v_bitxor(a, b), Kind::Bo => v_bitor(a, b), Kind::Ba => v_bitand(a, b), Kind::Sl => v_shl(a, b), Kind::Sr => v_shr(a, b),
        _ => Some(Value::Boolean(v_compare(k, a, b))),
    }
}
pub open spec fn is_operator(k: Kind) -> bool {
    is_comparison(k) || k is Add || k is Sub || k is Mul || k is Div || k is Rem || k is Bx || k is Bo || k is Ba || k is Sl || k is Sr
}
/// element of an array by position, of a map by the text of the key
pub open spec fn v_index(v: Value, index: Value) -> Option<Value> {
    match (v, index) {
        (Value::Array(items), Value::Integer(i)) => Some(if 0 <= i < items@.len() { items@[i as int] } else { Value::Null }),
        (Value::Map(m), k) => Some(v_entry(m@, str_of(show(k)))),
        _ => None,
    }
}
pub open spec fn v_entry(m: Map<String, Value>, k: String) -> Value { if m.contains_key(k) { m[k] } else { Value::Null } }
pub open spec fn v_field(v: Value, f: String) -> Option<Value> { match v { Value::Map(m) => Some(v_entry(m@, f)), _ => None } }

/// evaluating e with these variables and declared requests, when the records of the whole run are `log` and n.n of them and the text n.o exist before
pub open spec fn ev(e: Expr, env: Map<String, Value>, reqs: Map<String, (String, Vec<Expr>)>, log: Seq<Record>, n: At) -> Run
    decreases level(reqs), e, 0int
{
    let here = Run { v: Out::Error, env, n };
    match e {
        Expr::Integer(i) => done(Some(Value::Integer(i)), here),
        Expr::Float(f) => done(Some(Value::Float(f)), here),
        Expr::Boolean(b) => done(Some(Value::Boolean(b)), here),
        Expr::String(s) => done(Some(Value::String(s)), here),
        Expr::Array(items) => {
            let l = ev_list(items@, 0, Seq::empty(), env, reqs, log, n);
            Run { v: if l.wrong { Out::Wrong } else { match l.v { Some(s) => Out::Value(Value::Array(vec_of(s))), None => Out::Error } }, env: l.env, n: l.n }
        },
        Expr::Map(pairs) => ev_pairs(pairs@, 0, Map::empty(), env, reqs, log, n),
        Expr::Index(value, index) => {
            let a = ev(*value, env, reqs, log, n);
            match a.v { Out::Value(x) => { let b = ev(*index, a.env, reqs, log, a.n); match b.v { Out::Value(y) => done(v_index(x, y), b), _ => b } }, _ => a }
        },
        Expr::Field(value, field) => {
            let a = ev(*value, env, reqs, log, n);
            match a.v { Out::Value(x) => done(v_field(x, field), a), _ => a }
        },
        Expr::Ident(name) => done(if env.contains_key(name) { Some(env[name]) } else { None }, here),
        Expr::Let(name, value) => {
            let a = ev(*value, env, reqs, log, n);
            match a.v { Out::Value(x) => Run { v: a.v, env: a.env.insert(name, x), n: a.n }, _ => a }
        },
        Expr::Unary(token, right) => {
            let a = ev(*right, env, reqs, log, n);
            match a.v { Out::Value(x) => done(match token.kind { Kind::Not => Some(v_not(x)), Kind::Sub => v_neg(x), _ => None }, a), _ => a }
        },
        Expr::Binary(token, left, right) => {
            if token.kind is Lo || token.kind is La {
                let a = ev(*left, env, reqs, log, n);
                match a.v {
                    // the right operand only when the left one does not decide
                    Out::Value(x) => if decides_false(x) == (token.kind is Lo) { ev(*right, a.env, reqs, log, a.n) } else { a },
                    _ => a,
                }
            } else if !is_operator(token.kind) { here } else {
                let a = ev(*left, env, reqs, log, n);
                match a.v { Out::Value(x) => { let b = ev(*right, a.env, reqs, log, a.n); match b.v { Out::Value(y) => done(v_operate(token.kind, x, y), b), _ => b } }, _ => a }
            }
        },
        Expr::Paren(inner) => ev(*inner, env, reqs, log, n),
        Expr::If(condition, consequence, alternative) => {
            let a = ev(*condition, env, reqs, log, n);
            match a.v {
                Out::Value(x) => if decides_false(x) { ev_block(alternative@, 0, Value::Null, a.env, reqs, log, a.n) } else { ev_block(consequence@, 0, Value::Null, a.env, reqs, log, a.n) },
                _ => a,
            }
        },
        Expr::Call(name, arguments) => {
            let l = ev_list(arguments@, 0, Seq::empty(), env, reqs, log, n);
            if l.wrong { Run { v: Out::Wrong, env: l.env, n: l.n } } else {
                match l.v {
                    None => Run { v: Out::Error, env: l.env, n: l.n },
                    Some(args) => if reqs.contains_key(name) {
                        let rec = log[l.n.n];
                        // a declared request: one record, whose assertions see the response only
                        let c = if no_requests(reqs) { Checked { got: Seq::empty(), env: Map::empty(), o: l.n.o } } else { ev_asserts(reqs[name].1@, 0, Seq::empty(), response_value(rec.response), l.n.o) };
                        if rec.name@ == name@ && rec.asserts@ == c.got && answered(filled(reqs[name].0@, l.env), rec.request, rec.response, rec.time, rec.error)
                        { Run { v: Out::Value(Value::Map(map_of(c.env))), env: l.env, n: At { n: l.n.n + 1, o: c.o } } } else { Run { v: Out::Wrong, env: l.env, n: At { n: l.n.n + 1, o: c.o } } }
                    } else {
                        Run { v: match native(name@, args) { Some(x) => Out::Value(x), None => Out::Error }, env: l.env, n: At { n: l.n.n, o: l.n.o + printed(name@, args) } }
                    },
                }
            }
        },
    }
}
pub open spec fn ev_list(items: Seq<Expr>, i: int, got: Seq<Value>, env: Map<String, Value>, reqs: Map<String, (String, Vec<Expr>)>, log: Seq<Record>, n: At) -> Lst
    decreases level(reqs), items, items.len() - i
{
    if !(0 <= i < items.len()) { Lst { v: Some(got), wrong: false, env, n } } else {
        let a = ev(items[i], env, reqs, log, n);
        match a.v { Out::Value(x) => ev_list(items, i + 1, got.push(x), a.env, reqs, log, a.n), _ => Lst { v: None, wrong: a.v is Wrong, env: a.env, n: a.n } }
    }
}
pub open spec fn ev_pairs(pairs: Seq<(Expr, Expr)>, i: int, got: Map<String, Value>, env: Map<String, Value>, reqs: Map<String, (String, Vec<Expr>)>, log: Seq<Record>, n: At) -> Run
    decreases level(reqs), pairs, pairs.len() - i
{
    if !(0 <= i < pairs.len()) { Run { v: Out::Value(Value::Map(map_of(got))), env, n } } else {
        let a = ev(pairs[i].0, env, reqs, log, n);
        match a.v { Out::Value(k) => {
            let b = ev(pairs[i].1, a.env, reqs, log, a.n);
            match b.v { Out::Value(x) => ev_pairs(pairs, i + 1, got.insert(str_of(show(k)), x), b.env, reqs, log, b.n), _ => b }
        }, _ => a }
    }
}
/// the statements from position i on; the value is the last one's
pub open spec fn ev_block(exprs: Seq<Expr>, i: int, last: Value, env: Map<String, Value>, reqs: Map<String, (String, Vec<Expr>)>, log: Seq<Record>, n: At) -> Run
    decreases level(reqs), exprs, exprs.len() - i
{
    if !(0 <= i < exprs.len()) { Run { v: Out::Value(last), env, n } } else {
        let a = ev(exprs[i], env, reqs, log, n);
        match a.v { Out::Value(x) => ev_block(exprs, i + 1, x, a.env, reqs, log, a.n), _ => a }
    }
}
pub struct Checked { pub got: Seq<Assert>, pub env: Map<String, Value>, pub o: Seq<char> }
pub open spec fn or_null(o: Out) -> Value { match o { Out::Value(v) => v, _ => Value::Null } }
/// one result per comparison assertion, in order; operands that fail count as null
pub open spec fn ev_asserts(asserts: Seq<Expr>, i: int, got: Seq<Assert>, env: Map<String, Value>, o: Seq<char>) -> Checked
    decreases 0int, asserts, asserts.len() - i
{
    if !(0 <= i < asserts.len()) { Checked { got, env, o } } else {
        match asserts[i] {
            Expr::Binary(token, left, right) => {
                let a = ev(*left, env, Map::empty(), Seq::empty(), At { n: 0, o });
                let b = ev(*right, a.env, Map::empty(), Seq::empty(), At { n: 0, o: a.n.o });
                let (x, y) = (or_null(a.v), or_null(b.v));
                ev_asserts(asserts, i + 1, if is_comparison(token.kind) { got.push(Assert {
                    expr: str_of(show_expr(*left) + " "@ + show_token(token) + " "@ + show_expr(*right)),
                    left: str_of(show(x)), compare: str_of(show_token(token)), right: str_of(show(y)), result: v_compare(token.kind, x, y) }) } else { got }, b.env, b.n.o)
            },
            _ => ev_asserts(asserts, i + 1, got, env, o),
        }
    }
}

/// the size of a program text, for termination
pub open spec fn size(e: Expr) -> nat
    decreases e, 0int
{
    match e {
        Expr::Array(items) => 1 + size_from(items@, 0),
        Expr::Map(pairs) => 1 + size_pairs(pairs@, 0),
        Expr::Index(a, b) => 1 + size(*a) + size(*b),
        Expr::Field(a, _) => 1 + size(*a),
        Expr::Let(_, a) => 1 + size(*a),
        Expr::Unary(_, a) => 1 + size(*a),
        Expr::Binary(_, a, b) => 1 + size(*a) + size(*b),
        Expr::Paren(a) => 1 + size(*a),
        Expr::If(c, a, b) => 1 + size(*c) + size_from(a@, 0) + size_from(b@, 0),
        Expr::Call(_, a) => 1 + size_from(a@, 0),
        _ => 1,
    }
}
pub open spec fn size_from(s: Seq<Expr>, i: int) -> nat
    decreases s, s.len() - i
{ if 0 <= i < s.len() { 1 + size(s[i]) + size_from(s, i + 1) } else { 0 } }
pub open spec fn size_pairs(s: Seq<(Expr, Expr)>, i: int) -> nat
    decreases s, s.len() - i
{ if 0 <= i < s.len() { 1 + size(s[i].0) + size(s[i].1) + size_pairs(s, i + 1) } else { 0 } }

pub open spec fn kept(a: Context, b: Context) -> bool {
    b.requests == a.requests && extends(b.records@, a.records@) && (no_requests(a.requests@) ==> b.records@ == a.records@)
}
/// how far the run has got
pub open spec fn at(c: Context, o: VxConsole) -> At { At { n: c.records@.len() as int, o: o.buf@ } }
/// the same outcome: value or error
pub open spec fn same_out(v: Out, r: Result<Value, String>) -> bool { match r { Ok(x) => v == Out::Value(x), Err(_) => v is Error } }
/// evaluating e took context a to b, whatever is recorded later
pub open spec fn moved(e: Expr, a: Context, oa: VxConsole, b: Context, ob: VxConsole) -> bool {
    kept(a, b) && forall|w: Seq<Record>| #[trigger] extends(w, b.records@) ==> {
        let run = ev(e, a.inner@, a.requests@, w, at(a, oa)); run.env == b.inner@ && run.n == at(b, ob) }
}
/// evaluating e from context a to b gave r
pub open spec fn gave(e: Expr, a: Context, oa: VxConsole, b: Context, ob: VxConsole, r: Result<Value, String>) -> bool {
    forall|w: Seq<Record>| #[trigger] extends(w, b.records@) ==> same_out(ev(e, a.inner@, a.requests@, w, at(a, oa)).v, r)
}
pub open spec fn moved_block(s: Seq<Expr>, a: Context, oa: VxConsole, b: Context, ob: VxConsole) -> bool {
    kept(a, b) && forall|w: Seq<Record>| #[trigger] extends(w, b.records@) ==> {
        let run = ev_block(s, 0, Value::Null, a.inner@, a.requests@, w, at(a, oa)); run.env == b.inner@ && run.n == at(b, ob) }
}
pub open spec fn gave_block(s: Seq<Expr>, a: Context, oa: VxConsole, b: Context, ob: VxConsole, r: Result<Value, String>) -> bool {
    forall|w: Seq<Record>| #[trigger] extends(w, b.records@) ==> same_out(ev_block(s, 0, Value::Null, a.inner@, a.requests@, w, at(a, oa)).v, r)
}
pub open spec fn moved_list(s: Seq<Expr>, a: Context, oa: VxConsole, b: Context, ob: VxConsole) -> bool {
    kept(a, b) && forall|w: Seq<Record>| #[trigger] extends(w, b.records@) ==> {
        let run = ev_list(s, 0, Seq::empty(), a.inner@, a.requests@, w, at(a, oa)); run.env == b.inner@ && run.n == at(b, ob) }
}
pub open spec fn gave_list(s: Seq<Expr>, a: Context, oa: VxConsole, b: Context, ob: VxConsole, r: Result<Vec<Value>, String>) -> bool {
    forall|w: Seq<Record>| #[trigger] extends(w, b.records@) ==> {
        let run = ev_list(s, 0, Seq::empty(), a.inner@, a.requests@, w, at(a, oa)); !run.wrong && match r { Ok(v) => run.v == Some(v@), Err(_) => run.v is None } }
}
/// a range that was taken from placeholder h, with its name
pub open spec fn names_hole(x: (&str, core::ops::Range<usize>), s: Seq<char>, h: Hole) -> bool {
    x.0@ == hole_name(s, h.from, h.to) && x.1.start as int == bpos(s, h.from) && x.1.end as int == bpos(s, h.to)
}
pub open spec fn covers_hole(x: core::ops::Range<usize>, s: Seq<char>, h: Hole) -> bool { x.start as int == bpos(s, h.from) && x.end as int == bpos(s, h.to) }

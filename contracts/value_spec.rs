// ---- runtime values: arithmetic and comparison ----
//@broadcast vxv::axiom_f64_add
//@broadcast vxv::axiom_f64_sub
//@broadcast vxv::axiom_f64_mul
//@broadcast vxv::axiom_f64_div
//@broadcast vxv::axiom_f64_rem
//@broadcast vxv::axiom_f64_cmp
//@broadcast vxv::axiom_f64_eq
//@broadcast vxv::axiom_f64_ordered
//@broadcast vxv::axiom_string_ordered
//@broadcast vxv::axiom_string_cmp
pub mod vxv {
use vstd::prelude::*;
use super::vxc::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
// Floating point: the five IEEE operations and the comparison are functions of their operands;
// nothing else is assumed about them (they stay uninterpreted).
#[verifier::external_body]
pub broadcast proof fn axiom_f64_add(a: f64, b: f64)
    ensures #![trigger a.add_spec(b)] #![trigger a.add_req(b)] <f64 as AddSpec>::obeys_add_spec(), a.add_req(b) { }
#[verifier::external_body]
pub broadcast proof fn axiom_f64_sub(a: f64, b: f64)
    ensures #![trigger a.sub_spec(b)] #![trigger a.sub_req(b)] <f64 as SubSpec>::obeys_sub_spec(), a.sub_req(b) { }
#[verifier::external_body]
pub broadcast proof fn axiom_f64_mul(a: f64, b: f64)
    ensures #![trigger a.mul_spec(b)] #![trigger a.mul_req(b)] <f64 as MulSpec>::obeys_mul_spec(), a.mul_req(b) { }
#[verifier::external_body]
pub broadcast proof fn axiom_f64_div(a: f64, b: f64)
    ensures #![trigger a.div_spec(b)] #![trigger a.div_req(b)] <f64 as DivSpec>::obeys_div_spec(), a.div_req(b) { }
#[verifier::external_body]
pub broadcast proof fn axiom_f64_rem(a: f64, b: f64)
    ensures #![trigger a.rem_spec(b)] #![trigger a.rem_req(b)] <f64 as RemSpec>::obeys_rem_spec(), a.rem_req(b) { }
#[verifier::external_body]
pub broadcast proof fn axiom_f64_cmp(a: f64, b: f64)
    ensures #![trigger a.partial_cmp_spec(&b)] <f64 as PartialOrdSpec>::obeys_partial_cmp_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_f64_ordered()
    ensures #[trigger] <f64 as PartialOrdSpec>::obeys_partial_cmp_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_string_ordered()
    ensures #[trigger] <String as PartialOrdSpec>::obeys_partial_cmp_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_f64_eq(a: f64, b: f64)
    ensures #![trigger a.eq_spec(&b)] <f64 as PartialEqSpec>::obeys_eq_spec() { }
/// strings are ordered by their characters, the shorter first when one is a prefix of the other
pub open spec fn text_cmp(a: Seq<char>, b: Seq<char>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if a[0] > b[0] { Ordering::Greater }
    else { text_cmp(a.drop_first(), b.drop_first()) }
}
#[verifier::external_body]
pub broadcast proof fn axiom_string_cmp(a: String, b: String)
    ensures #![trigger a.partial_cmp_spec(&b)] <String as PartialOrdSpec>::obeys_partial_cmp_spec(), a.partial_cmp_spec(&b) == Some(text_cmp(a@, b@)) { }
pub assume_specification [i64::checked_neg] (a: i64) -> (r: Option<i64>)
    ensures r == (if a == i64::MIN { None } else { Some((-a) as i64) });
pub uninterp spec fn i2f(a: i64) -> f64;
// `as f64` rounds to the nearest float (left uninterpreted)
#[verifier::external_body]
pub fn vx_i2f(a: i64) -> (r: f64) ensures r == i2f(a) { a as f64 }
pub uninterp spec fn fneg(a: f64) -> f64;
pub trait VxNeg: Sized {
    spec fn neg_ok(self) -> bool;
    spec fn neg_is(self) -> Self;
    fn vx_negate(self) -> (r: Self) requires self.neg_ok() ensures r == self.neg_is();
}
impl VxNeg for i64 {
    open spec fn neg_ok(self) -> bool { self != i64::MIN }
    open spec fn neg_is(self) -> i64 { (-self) as i64 }
    fn vx_negate(self) -> (r: i64) { -self }
}
impl VxNeg for f64 {
    open spec fn neg_ok(self) -> bool { true }
    open spec fn neg_is(self) -> f64 { fneg(self) }
    #[verifier::external_body]
    fn vx_negate(self) -> (r: f64) { -self }
}
pub fn vx_neg<T: VxNeg>(a: T) -> (r: T) requires a.neg_ok() ensures r == a.neg_is() { a.vx_negate() }
#[verifier::external_body]
pub fn vx_concat(a: String, b: &String) -> (r: String) ensures r@ == a@ + b@ { a + b }
} // mod vxv
pub use vxv::*;
use core::cmp::Ordering;
use std::ops::{Add, Sub, Mul, Div, Rem, BitXor, BitOr, BitAnd, Shl, Shr};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;

/// an exec result that is exactly this value, or any error when there is none
pub open spec fn gives(r: Result<Value, String>, v: Option<Value>) -> bool {
    match v { Some(x) => r == Ok::<Value, String>(x), None => r is Err }
}
pub open spec fn int_res(x: int) -> Option<Value> {
    if i64::MIN <= x <= i64::MAX { Some(Value::Integer(x as i64)) } else { None }
}
/// quotient truncated toward zero, and the remainder that goes with it
/// (`/` and `%` on int are Euclidean; `truncation` below states what these are)
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn trem(a: int, b: int) -> int { if a >= 0 { a % b } else { -((-a) % b) } }
/// tdiv/trem are the quotient rounded toward zero and its remainder
pub proof fn truncation(a: int, b: int)
    requires b != 0
    ensures
        a == tdiv(a, b) * b + trem(a, b),
        -abs(b) < trem(a, b) < abs(b),
        a >= 0 ==> trem(a, b) >= 0,
        a <= 0 ==> trem(a, b) <= 0,
{
    let x = if a >= 0 { a } else { -a };
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, b);
    let q = x / b;
    assert(b * q == q * b) by (nonlinear_arith);
    assert((-q) * b == -(q * b)) by (nonlinear_arith);
    assert(0 <= x % b < abs(b)) by (nonlinear_arith) requires b != 0;
    assert(x == 0 ==> x % b == 0) by (nonlinear_arith) requires b != 0;
}
/// the quotient of two i64 fits unless it is i64::MIN / -1
pub proof fn quotient_fits(a: int, b: int)
    requires b != 0, i64::MIN <= a <= i64::MAX, i64::MIN <= b <= i64::MAX
    ensures
        (a == i64::MIN && b == -1) <==> !(i64::MIN <= tdiv(a, b) <= i64::MAX),
        i64::MIN <= trem(a, b) <= i64::MAX,
        -(abs(a)) <= tdiv(a, b) <= abs(a),
{
    truncation(a, b);
    let x = abs(a);
    assert(-x <= x / b <= x) by (nonlinear_arith) requires x >= 0, b != 0;
    if b == -1 { assert(x / -1 == -x) by (nonlinear_arith); }
    else if x > 0 { assert(x / b > -x) by (nonlinear_arith) requires x > 0, b != 0, b != -1; }
}
pub proof fn values_quotient_fits(a: Value, b: Value)
    ensures match (a, b) {
        (Value::Integer(x), Value::Integer(y)) => y != 0 ==> {
            &&& (x == i64::MIN && y == -1) <==> !(i64::MIN <= tdiv(x as int, y as int) <= i64::MAX)
            &&& i64::MIN <= trem(x as int, y as int) <= i64::MAX
        },
        _ => true,
    }
{
    if let (Value::Integer(x), Value::Integer(y)) = (a, b) { if y != 0 { quotient_fits(x as int, y as int); } }
}
pub open spec fn abs(x: int) -> int { if x >= 0 { x } else { -x } }
pub open spec fn v_add(a: Value, b: Value) -> Option<Value> {
    match (a, b) {
        (Value::Integer(x), Value::Integer(y)) => int_res(x + y),
        (Value::Float(x), Value::Float(y)) => Some(Value::Float(x.add_spec(y))),
        (Value::Integer(x), Value::Float(y)) => Some(Value::Float(i2f(x).add_spec(y))),
        (Value::Float(x), Value::Integer(y)) => Some(Value::Float(x.add_spec(i2f(y)))),
        (Value::String(x), Value::String(y)) => Some(Value::String(str_of(x@ + y@))),
        _ => None,
    }
}
pub open spec fn v_sub(a: Value, b: Value) -> Option<Value> {
    match (a, b) {
        (Value::Integer(x), Value::Integer(y)) => int_res(x - y),
        (Value::Float(x), Value::Float(y)) => Some(Value::Float(x.sub_spec(y))),
        (Value::Integer(x), Value::Float(y)) => Some(Value::Float(i2f(x).sub_spec(y))),
        (Value::Float(x), Value::Integer(y)) => Some(Value::Float(x.sub_spec(i2f(y)))),
        _ => None,
    }
}
pub open spec fn v_mul(a: Value, b: Value) -> Option<Value> {
    match (a, b) {
        (Value::Integer(x), Value::Integer(y)) => int_res(x * y),
        (Value::Float(x), Value::Float(y)) => Some(Value::Float(x.mul_spec(y))),
        (Value::Integer(x), Value::Float(y)) => Some(Value::Float(i2f(x).mul_spec(y))),
        (Value::Float(x), Value::Integer(y)) => Some(Value::Float(x.mul_spec(i2f(y)))),
        _ => None,
    }
}
pub open spec fn v_div(a: Value, b: Value) -> Option<Value> {
    match (a, b) {
        (Value::Integer(x), Value::Integer(y)) => if y == 0 || (x == i64::MIN && y == -1) { None } else { int_res(tdiv(x as int, y as int)) },
        (Value::Float(x), Value::Float(y)) => Some(Value::Float(x.div_spec(y))),
        (Value::Integer(x), Value::Float(y)) => Some(Value::Float(i2f(x).div_spec(y))),
        (Value::Float(x), Value::Integer(y)) => Some(Value::Float(x.div_spec(i2f(y)))),
        _ => None,
    }
}
pub open spec fn v_rem(a: Value, b: Value) -> Option<Value> {
    match (a, b) {
        // i64::MIN % -1: the quotient does not fit, the pair is reported as out of range
        (Value::Integer(x), Value::Integer(y)) => if y == 0 || (x == i64::MIN && y == -1) { None } else { int_res(trem(x as int, y as int)) },
        (Value::Float(x), Value::Float(y)) => Some(Value::Float(x.rem_spec(y))),
        (Value::Integer(x), Value::Float(y)) => Some(Value::Float(i2f(x).rem_spec(y))),
        (Value::Float(x), Value::Integer(y)) => Some(Value::Float(x.rem_spec(i2f(y)))),
        _ => None,
    }
}
pub open spec fn v_bitxor(a: Value, b: Value) -> Option<Value> {
    match (a, b) { (Value::Integer(x), Value::Integer(y)) => Some(Value::Integer(x ^ y)), _ => None }
}
pub open spec fn v_bitor(a: Value, b: Value) -> Option<Value> {
    match (a, b) { (Value::Integer(x), Value::Integer(y)) => Some(Value::Integer(x | y)), _ => None }
}
pub open spec fn v_bitand(a: Value, b: Value) -> Option<Value> {
    match (a, b) { (Value::Integer(x), Value::Integer(y)) => Some(Value::Integer(x & y)), _ => None }
}
pub open spec fn v_shl(a: Value, b: Value) -> Option<Value> {
    match (a, b) { (Value::Integer(x), Value::Integer(y)) => if 0 <= y <= 63 { Some(Value::Integer(x << y)) } else { None }, _ => None }
}
pub open spec fn v_shr(a: Value, b: Value) -> Option<Value> {
    match (a, b) { (Value::Integer(x), Value::Integer(y)) => if 0 <= y <= 63 { Some(Value::Integer(x >> y)) } else { None }, _ => None }
}
pub open spec fn v_cmp(a: Value, b: Value) -> Option<Ordering> {
    match (a, b) {
        (Value::Integer(x), Value::Integer(y)) => Some(if x < y { Ordering::Less } else if x == y { Ordering::Equal } else { Ordering::Greater }),
        (Value::Float(x), Value::Float(y)) => x.partial_cmp_spec(&y),
        (Value::Integer(x), Value::Float(y)) => i2f(x).partial_cmp_spec(&y),
        (Value::Float(x), Value::Integer(y)) => x.partial_cmp_spec(&i2f(y)),
        (Value::String(x), Value::String(y)) => Some(text_cmp(x@, y@)),
        _ => None,
    }
}
/// == of runtime values: same type and same content
pub open spec fn v_eq(a: Value, b: Value) -> bool
    decreases a
{
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Integer(x), Value::Integer(y)) => x == y,
        (Value::Float(x), Value::Float(y)) => x.eq_spec(&y),
        (Value::Boolean(x), Value::Boolean(y)) => x == y,
        (Value::String(x), Value::String(y)) => x@ == y@,
        (Value::Array(x), Value::Array(y)) => x@.len() == y@.len() && forall|i: int| 0 <= i < x@.len() ==> #[trigger] v_eq(x@[i], y@[i]),
        (Value::Map(x), Value::Map(y)) => x@.dom() == y@.dom() && forall|k: String| x@.dom().contains(k) ==> #[trigger] v_eq(x@[k], y@[k]),
        _ => false,
    }
}

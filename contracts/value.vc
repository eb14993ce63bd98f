@unit value
@spec shim_core.rs value_spec.rs
@method to_owned = vx_to_owned
@method clone = vx_to_owned
@cast f64 = vx_i2f
@source lib/src/value.rs
@traitimpl impl Add for Value
@traitimpl impl Sub for Value
@traitimpl impl Mul for Value
@traitimpl impl Div for Value
@traitimpl impl Rem for Value
@traitimpl impl BitXor for Value
@traitimpl impl BitOr for Value
@traitimpl impl BitAnd for Value
@traitimpl impl Shl for Value
@traitimpl impl Shr for Value
@traitimpl impl PartialOrd for Value
@fn Add for Value::add
    ensures gives(r, v_add(self, other)),
@fn Sub for Value::sub
    ensures gives(r, v_sub(self, other)),
@fn Mul for Value::mul
    ensures gives(r, v_mul(self, other)),
@fn Div for Value::div attr=#[verifier::spinoff_prover]
    ensures gives(r, v_div(self, other)),
@hint entry
    proof { values_quotient_fits(self, other); }
@fn Rem for Value::rem attr=#[verifier::spinoff_prover]
    ensures gives(r, v_rem(self, other)),
@hint entry
    proof { values_quotient_fits(self, other); }
@fn BitXor for Value::bitxor
    ensures gives(r, v_bitxor(self, other)),
@fn BitOr for Value::bitor
    ensures gives(r, v_bitor(self, other)),
@fn BitAnd for Value::bitand
    ensures gives(r, v_bitand(self, other)),
@fn Shl for Value::shl
    ensures gives(r, v_shl(self, other)),
@fn Shr for Value::shr
    ensures gives(r, v_shr(self, other)),
@fn PartialOrd for Value::partial_cmp
    ensures r == v_cmp(*self, *other),
@raw
impl VxOwned for Value {
    // derived Clone
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: Self) { unimplemented!() }
}
// derived PartialEq compares type and content
impl PartialEq for Value {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) ensures r == v_eq(*self, *other) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Value {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { v_eq(*self, *other) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Value {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { v_cmp(*self, *other) }
}
// the operators have no functional spec beyond their contracts (error texts are unspecified)
impl vstd::std_specs::ops::AddSpecImpl for Value {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Value) -> bool { true }
    open spec fn add_spec(self, rhs: Value) -> Result<Value, String> { arbitrary() }
}
impl vstd::std_specs::ops::SubSpecImpl for Value {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Value) -> bool { true }
    open spec fn sub_spec(self, rhs: Value) -> Result<Value, String> { arbitrary() }
}
impl vstd::std_specs::ops::MulSpecImpl for Value {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Value) -> bool { true }
    open spec fn mul_spec(self, rhs: Value) -> Result<Value, String> { arbitrary() }
}
impl vstd::std_specs::ops::DivSpecImpl for Value {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: Value) -> bool { true }
    open spec fn div_spec(self, rhs: Value) -> Result<Value, String> { arbitrary() }
}
impl vstd::std_specs::ops::RemSpecImpl for Value {
    open spec fn obeys_rem_spec() -> bool { false }
    open spec fn rem_req(self, rhs: Value) -> bool { true }
    open spec fn rem_spec(self, rhs: Value) -> Result<Value, String> { arbitrary() }
}
impl vstd::std_specs::ops::BitXorSpecImpl for Value {
    open spec fn obeys_bitxor_spec() -> bool { false }
    open spec fn bitxor_req(self, rhs: Value) -> bool { true }
    open spec fn bitxor_spec(self, rhs: Value) -> Result<Value, String> { arbitrary() }
}
impl vstd::std_specs::ops::BitOrSpecImpl for Value {
    open spec fn obeys_bitor_spec() -> bool { false }
    open spec fn bitor_req(self, rhs: Value) -> bool { true }
    open spec fn bitor_spec(self, rhs: Value) -> Result<Value, String> { arbitrary() }
}
impl vstd::std_specs::ops::BitAndSpecImpl for Value {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Value) -> bool { true }
    open spec fn bitand_spec(self, rhs: Value) -> Result<Value, String> { arbitrary() }
}
impl vstd::std_specs::ops::ShlSpecImpl for Value {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, rhs: Value) -> bool { true }
    open spec fn shl_spec(self, rhs: Value) -> Result<Value, String> { arbitrary() }
}
impl vstd::std_specs::ops::ShrSpecImpl for Value {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, rhs: Value) -> bool { true }
    open spec fn shr_spec(self, rhs: Value) -> Result<Value, String> { arbitrary() }
}

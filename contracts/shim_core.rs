// ---- assumed library contracts used by every unit ----
//@broadcast vstd::std_specs::hash::group_hash_axioms
//@broadcast vxc::axiom_vec_of_view
//@broadcast vxc::axiom_str_of_view
//@broadcast vxc::axiom_slice_of_view
//@broadcast vxc::axiom_string_key_model
//@broadcast vxc::axiom_str_contains
//@broadcast vxc::axiom_str_maps
//@broadcast vxc::axiom_str_removed
pub mod vxc {
use vstd::prelude::*;
use std::collections::HashMap;
use vstd::std_specs::hash::*;

// A Vec/String is determined by its contents (capacity is not observable).
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
#[verifier::external_body]
pub broadcast proof fn axiom_vec_of_view<T>(v: Vec<T>)
    ensures #[trigger] vec_of(v@) == v
{ }
pub uninterp spec fn str_of(s: Seq<char>) -> String;
#[verifier::external_body]
pub broadcast proof fn axiom_str_of_view(s: String)
    ensures str_of(#[trigger] s@) == s
{ }
// a string slice is determined by its text
pub uninterp spec fn slice_of(s: Seq<char>) -> &'static str;
#[verifier::external_body]
pub broadcast proof fn axiom_slice_of_view(s: &str)
    ensures slice_of(#[trigger] s@) == s
{ }
// String is a well-behaved hash key, looked up by &str through its text
#[verifier::external_body]
pub broadcast proof fn axiom_string_key_model()
    ensures #[trigger] obeys_key_model::<String>()
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_str_contains<V>(m: Map<String, V>, k: &str)
    ensures #[trigger] contains_borrowed_key::<String, V, str>(m, k) <==> m.contains_key(str_of(k@))
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_str_maps<V>(m: Map<String, V>, k: &str, v: V)
    ensures #[trigger] maps_borrowed_key_to_value::<String, V, str>(m, k, v) <==> m.contains_key(str_of(k@)) && m[str_of(k@)] == v
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_str_removed<V>(m: Map<String, V>, m2: Map<String, V>, k: &str)
    ensures #[trigger] borrowed_key_removed::<String, V, str>(m, m2, k) <==> m2 == m.remove(str_of(k@))
{ }

/// Unicode white space (the ASCII members are spelled out where a proof needs them)
pub uninterp spec fn is_ws(c: char) -> bool;

// format!(..) and print!(..): only totality is assumed, the text is unspecified
#[verifier::external_body]
pub fn vx_format<A>(a: A) -> String { unimplemented!() }
#[verifier::external_body]
pub fn vx_print<A>(a: A) { unimplemented!() }

// derived / standard Clone and ToOwned of the listed types return an equal value
pub trait VxOwned: Sized {
    fn vx_to_owned(&self) -> (r: Self) ensures r == *self;
}
impl VxOwned for String {
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: Self) { unimplemented!() }
}

// HashMap::get_mut: a hit lends out exactly that entry, a miss changes nothing
pub trait VxMapMut<V> {
    spec fn vx_view(&self) -> Map<String, V>;
    fn vx_get_mut(&mut self, k: &String) -> (r: Option<&mut V>)
        ensures
            match r {
                Some(v) => old(self).vx_view().contains_key(*k) && *v == old(self).vx_view()[*k]
                    && final(self).vx_view() == old(self).vx_view().insert(*k, *final(v)),
                None => !old(self).vx_view().contains_key(*k) && final(self).vx_view() == old(self).vx_view(),
            };
}
impl<V> VxMapMut<V> for HashMap<String, V> {
    open spec fn vx_view(&self) -> Map<String, V> { self@ }
    #[verifier::external_body]
    fn vx_get_mut(&mut self, k: &String) -> (r: Option<&mut V>) { unimplemented!() }
}
// an iterator over a list: what is still to come
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { p: core::marker::PhantomData<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() }
    { unimplemented!() }
}
pub trait VxIntoIter<T> { spec fn listed(&self) -> Seq<T>; fn vx_into_iter(self) -> (r: VxIter<T>) where Self: Sized ensures r.rest() == self.listed(); }
impl<T> VxIntoIter<T> for Vec<T> {
    open spec fn listed(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() }
}
} // mod vxc
pub use vxc::*;

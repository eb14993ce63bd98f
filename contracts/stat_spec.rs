// ---- statistics: the running record equals the summary of the history of observations ----
pub open spec fn seq_sum(h: Seq<u128>) -> int
    decreases h.len()
{ if h.len() == 0 { 0 } else { seq_sum(h.drop_last()) + h.last() as int } }
pub open spec fn seq_max(h: Seq<u128>) -> int
    decreases h.len()
{ if h.len() == 0 { 0 } else if h.len() == 1 { h[0] as int } else { let m = seq_max(h.drop_last()); if h.last() as int > m { h.last() as int } else { m } } }
pub open spec fn seq_min(h: Seq<u128>) -> int
    decreases h.len()
{ if h.len() == 0 { 0 } else if h.len() == 1 { h[0] as int } else { let m = seq_min(h.drop_last()); if (h.last() as int) < m { h.last() as int } else { m } } }
/// the statistics `s` summarise exactly the non-empty history `h`
pub open spec fn summarises(s: Stat, h: Seq<u128>) -> bool {
    h.len() > 0 && s.count == h.len() && s.sum == seq_sum(h) && s.avg == seq_sum(h) / (h.len() as int)
        && s.max == seq_max(h) && s.min == seq_min(h)
}
/// per name histories: names with an entry are exactly the names observed
pub open spec fn all_summarised(m: Map<String, Stat>, h: Map<String, Seq<u128>>) -> bool {
    m.dom() =~= h.dom() && forall|k: String| #[trigger] m.contains_key(k) ==> summarises(m[k], h[k])
}
pub open spec fn observe(h: Map<String, Seq<u128>>, k: String, x: u128) -> Map<String, Seq<u128>> {
    h.insert(k, (if h.contains_key(k) { h[k] } else { Seq::empty() }).push(x))
}
/// what one observation does to one record, stated without history (used by the contract of `add`)
pub open spec fn stepped(a: Stat, b: Stat, x: u128) -> bool {
    b.count == a.count + 1 && b.sum == a.sum + x && b.avg as int == (a.sum + x) / (a.count + 1)
        && b.max == (if x > a.max { x } else { a.max }) && b.min == (if x < a.min { x } else { a.min })
}
pub open spec fn fits(m: Map<String, Stat>, k: String, x: u128) -> bool {
    m.contains_key(k) ==> m[k].count + 1 <= u128::MAX && m[k].sum + x <= u128::MAX && m[k].min <= m[k].max
}
/// the map after one observation
pub open spec fn observed(m: Map<String, Stat>, m2: Map<String, Stat>, k: String, x: u128) -> bool {
    m2.dom() =~= m.dom().insert(k)
    && (forall|j: String| #[trigger] m2.contains_key(j) && j != k ==> m2[j] == m[j])
    && (if m.contains_key(k) { stepped(m[k], m2[k], x) } else { summarises(m2[k], seq![x]) })
}
/// the smallest observation is not above the largest: what `add` may rely on
pub proof fn min_max(s: Stat, h: Seq<u128>)
    requires summarises(s, h)
    ensures s.min <= s.max
{ assert(seq_min(h) <= seq_max(h)) by { ends_of(h); } }
pub proof fn ends_of(h: Seq<u128>)
    requires h.len() > 0
    ensures seq_min(h) <= seq_max(h)
    decreases h.len()
{ if h.len() > 1 { ends_of(h.drop_last()); } }
/// C19 over whole histories: the invariant is established by the empty statistics and kept by every observation
pub proof fn stats_empty()
    ensures all_summarised(Map::<String, Stat>::empty(), Map::<String, Seq<u128>>::empty())
{ }
pub proof fn stats_step(m: Map<String, Stat>, m2: Map<String, Stat>, h: Map<String, Seq<u128>>, k: String, x: u128)
    requires all_summarised(m, h), observed(m, m2, k, x)
    ensures all_summarised(m2, observe(h, k, x))
{
    let h2 = observe(h, k, x);
    assert forall|j: String| #[trigger] m2.contains_key(j) implies summarises(m2[j], h2[j]) by {
        if j == k {
            if m.contains_key(k) {
                let hh = h[k].push(x);
                assert(hh.drop_last() =~= h[k]);
                assert(hh.last() == x);
            } else {
                assert(Seq::<u128>::empty().push(x) =~= seq![x]);
            }
        } else {
            assert(m.contains_key(j));
        }
    }
}
// ---- how statistics are printed ----
//@broadcast vxst::listing_order
pub mod vxst {
use vstd::prelude::*;
use crate::Stat;
use crate::Stats;
use crate::vxb::*;
pub open spec fn stat_text(s: Stat) -> Seq<char> {
    "count="@ + int_text(s.count as int) + "  sum="@ + int_text(s.sum as int) + "  avg="@ + int_text(s.avg as int) + "  max="@ + int_text(s.max as int) + "  min="@ + int_text(s.min as int)
}
pub open spec fn stat_lines(m: Map<String, Stat>, order: Seq<String>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { Seq::empty() } else { stat_lines(m, order, n - 1) + (order[n - 1]@ + " "@ + stat_text(m[order[n - 1]]) + "\n"@) } }
/// a text that gives every entry once, in some order
pub open spec fn spelled(m: Map<String, Stat>, t: Seq<char>) -> bool {
    exists|order: Seq<String>| #[trigger] each_once(m, order) && t == stat_lines(m, order, order.len() as int)
}
/// `order` names every entry of `m` once
pub open spec fn each_once(m: Map<String, Stat>, order: Seq<String>) -> bool {
    order.no_duplicates() && forall|k: String| #[trigger] order.contains(k) <==> m.contains_key(k)
}
/// what iterating over the entries gives: each entry once
pub open spec fn listing(m: Map<String, Stat>, s: Seq<(&String, &Stat)>) -> bool {
    s.no_duplicates()
    && (forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1)
    && (forall|k: String| m.contains_key(k) ==> #[trigger] s.contains((&k, &m[k])))
}
pub open spec fn names(s: Seq<(&String, &Stat)>) -> Seq<String> { Seq::new(s.len(), |i: int| *s[i].0) }
pub broadcast proof fn listing_order(m: Map<String, Stat>, s: Seq<(&String, &Stat)>)
    requires #[trigger] listing(m, s)
    ensures each_once(m, names(s)), names(s).len() == s.len()
{
    let order = names(s);
    assert forall|i: int, j: int| 0 <= i < order.len() && 0 <= j < order.len() && i != j implies order[i] != order[j] by {
        if order[i] == order[j] { assert(*s[i].1 == *s[j].1); assert(s[i] == s[j]); }
    }
    assert forall|k: String| #[trigger] order.contains(k) <==> m.contains_key(k) by {
        if order.contains(k) { let i = order.index_of(k); assert(order[i] == k); assert(m.contains_key(*s[i].0)); }
        if m.contains_key(k) { assert(s.contains((&k, &m[k]))); let i = s.index_of((&k, &m[k])); assert(s[i] == (&k, &m[k])); assert(order[i] == k); }
    }
}
}
pub use vxst::*;
impl VxShow for Stat {
    open spec fn shown(&self) -> Seq<char> { stat_text(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxShow for u128 {
    open spec fn shown(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

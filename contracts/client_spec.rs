// ---- clock readings, connections ----
pub mod vxcl {
use vstd::prelude::*;
use super::*;
pub use std::sync::Arc;
pub use vstd::multiset::Multiset;
// how long an attempt is given before the next one starts; no contract depends on it
pub const RACE: VxDuration = VxDuration { p: 200_000_000 };

/// std::time::Duration in nanoseconds; subtracting a longer one panics
pub struct VxDuration { pub p: u128 }
impl Copy for VxDuration {}
impl Clone for VxDuration { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl VxDuration {
    pub open spec fn ns(&self) -> int { self.p as int }
    pub const ZERO: VxDuration = VxDuration { p: 0 };
    #[verifier::external_body]
    pub fn default() -> (r: VxDuration) ensures r.ns() == 0 { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<VxDuration> for VxDuration {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: VxDuration) -> bool { self.ns() >= rhs.ns() }
    open spec fn sub_spec(self, rhs: VxDuration) -> VxDuration { self }
}
impl core::ops::Sub<VxDuration> for VxDuration {
    type Output = VxDuration;
    #[verifier::external_body]
    fn sub(self, rhs: VxDuration) -> (r: VxDuration) ensures r.ns() == self.ns() - rhs.ns() { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<VxDuration> for VxDuration {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: VxDuration) -> bool { self.ns() + rhs.ns() <= longest() }
    open spec fn add_spec(self, rhs: VxDuration) -> VxDuration { self }
}
impl core::ops::Add<VxDuration> for VxDuration {
    type Output = VxDuration;
    #[verifier::external_body]
    fn add(self, rhs: VxDuration) -> (r: VxDuration) ensures r.ns() == self.ns() + rhs.ns() { unimplemented!() }
}
impl VxDuration {
    #[verifier::external_body]
    pub fn saturating_sub(self, rhs: VxDuration) -> (r: VxDuration) ensures r.ns() == (if self.ns() >= rhs.ns() { self.ns() - rhs.ns() } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, rhs: VxDuration) -> (r: Option<VxDuration>) ensures match r { Some(d) => self.ns() >= rhs.ns() && d.ns() == self.ns() - rhs.ns(), None => self.ns() < rhs.ns() } { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, rhs: VxDuration) -> (r: VxDuration) ensures r.ns() == (if self.ns() + rhs.ns() <= longest() { self.ns() + rhs.ns() } else { longest() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(self, rhs: VxDuration) -> (r: Option<VxDuration>) ensures match r { Some(d) => self.ns() + rhs.ns() <= longest() && d.ns() == self.ns() + rhs.ns(), None => self.ns() + rhs.ns() > longest() } { unimplemented!() }
    #[verifier::external_body]
    pub fn abs_diff(self, rhs: VxDuration) -> (r: VxDuration) ensures r.ns() == (if self.ns() >= rhs.ns() { self.ns() - rhs.ns() } else { rhs.ns() - self.ns() }) { unimplemented!() }
    pub fn max(self, rhs: VxDuration) -> (r: VxDuration) ensures r.ns() == (if self.ns() > rhs.ns() { self.ns() } else { rhs.ns() }) { if self.p > rhs.p { self } else { rhs } }
    pub fn min(self, rhs: VxDuration) -> (r: VxDuration) ensures r.ns() == (if self.ns() < rhs.ns() { self.ns() } else { rhs.ns() }) { if self.p < rhs.p { self } else { rhs } }
    pub fn from_secs(n: u64) -> (r: VxDuration) ensures r.ns() == n * 1_000_000_000int { VxDuration { p: n as u128 * 1_000_000_000 } }
    pub fn from_millis(n: u64) -> (r: VxDuration) ensures r.ns() == n * 1_000_000int { VxDuration { p: n as u128 * 1_000_000 } }
    pub fn from_micros(n: u64) -> (r: VxDuration) ensures r.ns() == n * 1_000int { VxDuration { p: n as u128 * 1_000 } }
    pub fn from_nanos(n: u64) -> (r: VxDuration) ensures r.ns() == n { VxDuration { p: n as u128 } }
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.ns() == 0) { self.p == 0 }
    pub fn as_nanos(&self) -> (r: u128) ensures r as int == self.ns() { self.p }
    pub fn as_micros(&self) -> (r: u128) ensures r as int == self.ns() / 1_000 { self.p / 1_000 }
    pub fn as_millis(&self) -> (r: u128) ensures r as int == self.ns() / 1_000_000 { self.p / 1_000_000 }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for VxDuration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VxDuration) -> bool { self.p == o.p }
}
impl PartialEq for VxDuration { fn eq(&self, o: &VxDuration) -> bool { self.p == o.p } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for VxDuration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &VxDuration) -> Option<core::cmp::Ordering> { if self.p < o.p { Some(core::cmp::Ordering::Less) } else if self.p > o.p { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } }
}
impl PartialOrd for VxDuration { fn partial_cmp(&self, o: &VxDuration) -> Option<core::cmp::Ordering> { if self.p < o.p { Some(core::cmp::Ordering::Less) } else if self.p > o.p { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
/// Duration::MAX
pub open spec fn longest() -> int { 0xffff_ffff_ffff_ffffint * 1_000_000_000int + 999_999_999int }
impl VxDefault for VxDuration {
    open spec fn standard(r: Self) -> bool { r.ns() == 0 }
    #[verifier::external_body]
    fn vx_default() -> (r: Self) { unimplemented!() }
}
/// std::time::Instant: readings of one clock that never runs backwards
pub struct VxInstant { p: u64 }
impl Copy for VxInstant {}
impl Clone for VxInstant { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl VxInstant {
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn now(c: &mut VxClock) -> (r: VxInstant) ensures final(c).after(*old(c)), r.at() == final(c).now() { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed(&self, c: &mut VxClock) -> (r: VxDuration) ensures final(c).after(*old(c)), r.ns() == (if final(c).now() >= self.at() { final(c).now() - self.at() } else { 0 }), r.ns() <= longest() { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(&self, o: VxInstant) -> (r: VxDuration) ensures r.ns() == (if self.at() >= o.at() { self.at() - o.at() } else { 0 }), r.ns() <= longest() { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_duration_since(&self, o: VxInstant) -> (r: VxDuration) ensures r.ns() == (if self.at() >= o.at() { self.at() - o.at() } else { 0 }), r.ns() <= longest() { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_duration_since(&self, o: VxInstant) -> (r: Option<VxDuration>) ensures match r { Some(d) => self.at() >= o.at() && d.ns() == self.at() - o.at() && d.ns() <= longest(), None => self.at() < o.at() } { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<VxInstant> for VxInstant {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: VxInstant) -> bool { true }
    open spec fn sub_spec(self, rhs: VxInstant) -> VxDuration { VxDuration { p: 0 } }
}
impl core::ops::Sub<VxInstant> for VxInstant {
    type Output = VxDuration;
    #[verifier::external_body]
    fn sub(self, rhs: VxInstant) -> (r: VxDuration) ensures r.ns() == (if self.at() >= rhs.at() { self.at() - rhs.at() } else { 0 }), r.ns() <= longest() { unimplemented!() }
}
/// the time at which the program is; no reading is later than `end`
pub struct VxClock { p: u64 }
impl VxClock {
    pub uninterp spec fn now(&self) -> int;
    pub uninterp spec fn end(&self) -> int;
    pub open spec fn after(&self, c: VxClock) -> bool { c.now() <= self.now() && self.end() == c.end() && (c.now() <= c.end() ==> self.now() <= self.end()) }
}
/// a closure given to a function: when it was called, and that it was called at most once
pub struct VxThunk { pub vx_clock: VxClock, pub vx_net: VxNet }
impl VxThunk {
    pub uninterp spec fn called(&self) -> bool;
    /// it was called, and was over, between these two moments
    pub open spec fn within(&self, a: VxClock, b: VxClock) -> bool { a.now() <= self.vx_clock.now() <= self.vx_clock.end() <= b.now() }
    #[verifier::external_body]
    pub fn new() -> (r: VxThunk) ensures !r.called() { unimplemented!() }
    #[verifier::external_body]
    pub fn ran(&self) -> (r: bool) ensures r == self.called() { unimplemented!() }
    #[verifier::external_body]
    pub fn run(&mut self, c: &mut VxClock)
        requires !old(self).called()
        ensures final(self).called(), final(c).after(*old(c)), final(self).within(*old(c), *final(c))
    { unimplemented!() }
}
pub struct VxWallTime { p: u64 }
pub struct VxWallError { p: u64 }
pub const VX_EPOCH: u64 = 0;
impl VxWallTime {
    #[verifier::external_body]
    pub fn now() -> VxWallTime { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(&self, e: u64) -> Result<VxDuration, VxWallError> { unimplemented!() }
}
pub open spec fn zero_parts(t: Time) -> bool { t.total.ns() == 0 && t.resolve.ns() == 0 && t.connect.ns() == 0 && t.write.ns() == 0 && t.delay.ns() == 0 && t.read.ns() == 0 }
/// no part is negative and they add up to the total
pub open spec fn parts_add_up(t: Time) -> bool {
    &&& 0 <= t.resolve.ns() && 0 <= t.connect.ns() && 0 <= t.write.ns() && 0 <= t.delay.ns() && 0 <= t.read.ns()
    &&& t.resolve.ns() + t.connect.ns() + t.write.ns() + t.delay.ns() + t.read.ns() == t.total.ns()
}
pub uninterp spec fn io_text(e: VxIoError) -> Seq<char>;
pub type VxIoResult<T> = core::result::Result<T, VxIoError>;
impl VxIoError {
    pub uninterp spec fn spec_kind(&self) -> VxIoKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: VxIoKind) ensures r == self.spec_kind() { unimplemented!() }
    // Display of std::io::Error writes some text
    #[verifier::external_body]
    pub fn fmt(&self, f: &mut Formatter) -> (r: core::result::Result<(), VxFmtError>) ensures final(f).buf@ == old(f).buf@ + io_text(*self), io_text(*self).len() > 0 { unimplemented!() }
}
pub uninterp spec fn error_text(e: Error) -> Seq<char>;
impl Error {
    // to_string: what Display (proved below to write some text) writes
    #[verifier::external_body]
    pub fn vx_to_string(&self) -> (r: String) ensures r@ == error_text(*self), r@.len() > 0 { unimplemented!() }
}
impl Response {
    // derived Default
    #[verifier::external_body]
    pub fn default() -> (r: Response) ensures r.version@.len() == 0, r.status == 0, r.reason@.len() == 0, r.headers.inner@.len() == 0, r.body@.len() == 0 { unimplemented!() }
}
// ---- TCP and TLS ----
/// the address a connection was made to
pub uninterp spec fn peer_of(id: int) -> VxAddr;
/// the two ways of a connection that bytes take: as they are, or through TLS
pub uninterp spec fn plain_wire(id: int) -> int;
pub uninterp spec fn tls_wire(id: int) -> int;
/// what comes back on it until it ends, and whether it ends in an error
pub uninterp spec fn replied(wire: int) -> Seq<u8>;
pub uninterp spec fn broken(wire: int) -> bool;
/// bytes as a text, as far as they are one
pub uninterp spec fn decoded(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn is_text(b: Seq<u8>) -> bool;
/// n bytes were read
pub open spec fn came(was: Seq<u8>, is: Seq<u8>, breaks: bool, buf: Seq<u8>, n: int) -> bool {
    &&& 0 <= n <= buf.len() && n <= was.len() && buf.take(n) =~= was.take(n) && is =~= was.skip(n)
    &&& n == 0 && buf.len() > 0 ==> was.len() == 0 && !breaks
}
/// a first part of the bytes was taken
pub open spec fn went(was: Seq<u8>, is: Seq<u8>, buf: Seq<u8>, r: VxIoResult<usize>) -> bool { r matches Ok(n) ==> n <= buf.len() && is == was + buf.take(n as int) }
/// how a TLS connection ends: as it should, cut off (taken for the end, on purpose), given up by the other
/// side (which is answered, or the answer fails), or with another error
pub enum Ending { Closed, Cut, Left { answered: bool }, Broken }
pub struct VxTcp { p: u64 }
pub struct VxAddr { p: u64 }
impl Copy for VxAddr {}
impl Clone for VxAddr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl VxAddr {
    pub uninterp spec fn v6(&self) -> bool;
    #[verifier::external_body]
    pub fn is_ipv6(&self) -> (r: bool) ensures r == self.v6() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_ipv4(&self) -> (r: bool) ensures r == !self.v6() { unimplemented!() }
}
pub struct VxAddrs { p: u64 }
pub struct VxTls { p: u64 }
pub struct VxTlsBuilder { p: u64 }
pub struct VxTlsConfig { p: u64 }
pub struct VxTlsError { p: u64 }
pub struct VxServerName { p: u64 }
/// what has become of connection attempts, and of the channel their outcomes are sent over
pub struct VxNet { p: u64 }
impl VxNet {
    /// the addresses attempts were begun on, in order
    pub uninterp spec fn tried(&self) -> Seq<VxAddr>;
    /// the addresses attempts are known to have failed on
    pub uninterp spec fn refused(&self) -> Multiset<VxAddr>;
    /// the attempts of threads whose outcome has not been received
    pub uninterp spec fn pending(&self) -> Multiset<VxAddr>;
    /// the outcomes sent by this thread
    pub uninterp spec fn posted(&self) -> Seq<VxAddr>;
    /// the channel, and whether the receiving thread itself can still send over it
    pub uninterp spec fn channel(&self) -> int;
    pub uninterp spec fn held(&self) -> bool;
    pub open spec fn same_channel(&self, o: VxNet) -> bool { self.channel() == o.channel() && self.held() == o.held() }
}
/// the addresses a host has, None if it has none or is not found
pub uninterp spec fn resolves(host: Seq<char>, port: u16) -> Option<Seq<VxAddr>>;
pub open spec fn of_kind(s: Seq<VxAddr>, six: bool) -> Seq<VxAddr>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { let r = of_kind(s.drop_last(), six); if s.last().v6() == six { r.push(s.last()) } else { r } }
}
/// one of each in turn, then what is left of the longer one
pub open spec fn in_turns<T>(a: Seq<T>, b: Seq<T>) -> Seq<T>
    decreases a.len()
{
    if a.len() == 0 { b } else if b.len() == 0 { a } else { seq![a[0], b[0]] + in_turns(a.drop_first(), b.drop_first()) }
}
pub open spec fn turns_left<T>(c: Option<T>, a: Seq<T>, b: Seq<T>) -> Seq<T> { match c { Some(x) => seq![x] + in_turns(a, b), None => in_turns(a, b) } }
/// the addresses in the order of the attempts: the two kinds in turns
pub open spec fn alternating(order: Seq<VxAddr>, addrs: Seq<VxAddr>) -> bool {
    order == in_turns(of_kind(addrs, true), of_kind(addrs, false)) || order == in_turns(of_kind(addrs, false), of_kind(addrs, true))
}
pub open spec fn tried_one(a: VxNet, b: VxNet, x: VxAddr) -> bool { b.tried() == a.tried().push(x) && b.pending() == a.pending() && b.posted() == a.posted() && b.same_channel(a) }
pub open spec fn tried_first(a: VxNet, b: VxNet, order: Seq<VxAddr>, k: int) -> bool { 0 <= k <= order.len() && b.tried() == a.tried() + order.take(k) }
/// attempts were begun on the first addresses of the alternating order
pub open spec fn attempts(a: VxNet, b: VxNet, addrs: Seq<VxAddr>) -> bool { exists|order: Seq<VxAddr>, k: int| alternating(order, addrs) && #[trigger] tried_first(a, b, order, k) }
/// every address was tried, and every attempt failed
pub open spec fn all_refused(a: VxNet, b: VxNet, addrs: Seq<VxAddr>) -> bool {
    &&& exists|order: Seq<VxAddr>| alternating(order, addrs) && #[trigger] tried_first(a, b, order, order.len() as int)
    &&& b.refused() == a.refused().add(addrs.to_multiset())
}
pub open spec fn accepted(a: VxNet, b: VxNet, host: Seq<char>, port: u16, peer: VxAddr) -> bool { resolves(host, port) matches Some(addrs) && attempts(a, b, addrs) && addrs.contains(peer) }
pub open spec fn not_reached(a: VxNet, b: VxNet, host: Seq<char>, port: u16, e: Error) -> bool {
    match resolves(host, port) { None => e is HostNotFound, Some(addrs) => e is SetReadTimeoutFailed || all_refused(a, b, addrs) }
}
pub proof fn kinds_of_all(s: Seq<VxAddr>)
    ensures of_kind(s, true).to_multiset().add(of_kind(s, false).to_multiset()) == s.to_multiset()
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        let t = s.drop_last();
        kinds_of_all(t);
        assert(s =~= t.push(s.last()));
        let six = s.last().v6();
        assert(of_kind(s, six) =~= of_kind(t, six).push(s.last()));
        assert(of_kind(s, !six) =~= of_kind(t, !six));
        assert(of_kind(s, true).to_multiset().add(of_kind(s, false).to_multiset()) =~= s.to_multiset());
    } else {
        assert(of_kind(s, true).to_multiset().add(of_kind(s, false).to_multiset()) =~= s.to_multiset());
    }
}
pub proof fn turns_of_all<T>(a: Seq<T>, b: Seq<T>)
    ensures in_turns(a, b).to_multiset() == a.to_multiset().add(b.to_multiset())
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if a.len() == 0 {
        assert(in_turns(a, b).to_multiset() =~= a.to_multiset().add(b.to_multiset()));
    } else if b.len() == 0 {
        assert(in_turns(a, b).to_multiset() =~= a.to_multiset().add(b.to_multiset()));
    } else {
        let (x, y) = (a.drop_first(), b.drop_first());
        turns_of_all(x, y);
        let h = seq![a[0], b[0]];
        vstd::seq_lib::lemma_multiset_commutative(h, in_turns(x, y));
        vstd::seq_lib::lemma_multiset_commutative(seq![a[0]], x);
        vstd::seq_lib::lemma_multiset_commutative(seq![b[0]], y);
        vstd::seq_lib::lemma_multiset_commutative(seq![a[0]], seq![b[0]]);
        assert(a =~= seq![a[0]] + x);
        assert(b =~= seq![b[0]] + y);
        assert(h =~= seq![a[0]] + seq![b[0]]);
        assert(in_turns(a, b).to_multiset() =~= a.to_multiset().add(b.to_multiset()));
    }
}
pub proof fn order_of_all(order: Seq<VxAddr>, addrs: Seq<VxAddr>)
    requires alternating(order, addrs)
    ensures order.to_multiset() == addrs.to_multiset(), forall|x: VxAddr| order.contains(x) ==> addrs.contains(x)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let (a, b) = (of_kind(addrs, true), of_kind(addrs, false));
    kinds_of_all(addrs);
    turns_of_all(a, b);
    turns_of_all(b, a);
    assert(order.to_multiset() =~= addrs.to_multiset());
    assert forall|x: VxAddr| order.contains(x) implies addrs.contains(x) by { assert(order.to_multiset().contains(x)); assert(addrs.to_multiset().contains(x)); }
}
pub proof fn single_alternates(s: Seq<VxAddr>)
    requires s.len() == 1
    ensures alternating(s, s)
{
    let t = s.drop_last();
    assert(t.len() == 0);
    assert(of_kind(t, true) =~= Seq::empty() && of_kind(t, false) =~= Seq::empty());
    let six = s.last().v6();
    assert(of_kind(s, six) =~= s);
    assert(of_kind(s, !six) =~= Seq::empty());
    assert(in_turns(s, Seq::empty()) == s);
}
impl VxTcp {
    /// names the connection
    pub uninterp spec fn id(&self) -> int;
    /// the address it is connected to
    pub open spec fn peer(&self) -> VxAddr { peer_of(self.id()) }
    /// the bytes still to be read before the connection ends, or breaks
    pub uninterp spec fn arrives(&self) -> Seq<u8>;
    pub uninterp spec fn breaks(&self) -> bool;
    /// the bytes it took
    pub uninterp spec fn sent(&self) -> Seq<u8>;
    pub open spec fn fresh(&self) -> bool { self.arrives() == replied(plain_wire(self.id())) && self.breaks() == broken(plain_wire(self.id())) && self.sent() == Seq::<u8>::empty() }
    pub open spec fn same(&self, o: VxTcp) -> bool { self.id() == o.id() && self.arrives() == o.arrives() && self.breaks() == o.breaks() && self.sent() == o.sent() }
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: VxIoResult<usize>)
        ensures final(self).id() == old(self).id(), final(self).sent() == old(self).sent(), final(self).breaks() == old(self).breaks(), final(buf)@.len() == old(buf)@.len(),
            match r { Ok(n) => came(old(self).arrives(), final(self).arrives(), old(self).breaks(), final(buf)@, n as int), Err(_) => old(self).breaks() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, buf: &[u8]) -> (r: VxIoResult<usize>)
        ensures final(self).id() == old(self).id(), final(self).arrives() == old(self).arrives(), final(self).breaks() == old(self).breaks(), went(old(self).sent(), final(self).sent(), buf@, r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: VxIoResult<()>)
        ensures final(self).same(*old(self)), r is Ok ==> delivered(plain_wire(final(self).id()), final(self).sent()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_read_timeout(&self, d: Option<VxDuration>) -> Result<(), VxIoError> { unimplemented!() }
    #[verifier::external_body]
    pub fn connect(a: &VxAddr, n: &mut VxNet) -> (r: Result<VxTcp, VxIoError>)
        ensures tried_one(*old(n), *final(n), *a), match r { Ok(s) => s.peer() == *a && s.fresh() && final(n).refused() == old(n).refused(), Err(_) => final(n).refused() == old(n).refused().insert(*a) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn connect_timeout(a: &VxAddr, d: VxDuration, n: &mut VxNet) -> (r: Result<VxTcp, VxIoError>)
        ensures tried_one(*old(n), *final(n), *a), match r { Ok(s) => s.peer() == *a && s.fresh() && final(n).refused() == old(n).refused(), Err(_) => final(n).refused() == old(n).refused().insert(*a) }
    { unimplemented!() }
}
pub trait VxToSocketAddrs {
    spec fn addresses(&self) -> Option<Seq<VxAddr>>;
    fn vx_to_socket_addrs(&self) -> (r: Result<VxAddrs, VxIoError>) ensures match r { Ok(l) => self.addresses() == Some(l.rest()), Err(_) => self.addresses() is None };
}
impl VxToSocketAddrs for (&str, u16) {
    open spec fn addresses(&self) -> Option<Seq<VxAddr>> { resolves(self.0@, self.1) }
    #[verifier::external_body]
    fn vx_to_socket_addrs(&self) -> (r: Result<VxAddrs, VxIoError>) { unimplemented!() }
}
impl VxAddrs {
    pub uninterp spec fn rest(&self) -> Seq<VxAddr>;
    #[verifier::external_body]
    pub fn vx_collect(self) -> (r: Vec<VxAddr>) ensures r@ == self.rest() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_count<T>(v: &Vec<T>) -> (r: usize) ensures r == v@.len() { v.len() }
/// an iterator that stays at its end
pub trait VxFused {
    type Item;
    spec fn left(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures match r { Some(x) => old(self).left().len() > 0 && x == old(self).left()[0] && final(self).left() == old(self).left().drop_first(), None => old(self).left().len() == 0 && final(self).left() == old(self).left() };
}
impl<T> VxFused for VxIter<T> {
    type Item = T;
    open spec fn left(&self) -> Seq<T> { self.rest() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
}
// ---- a channel of outcomes ----
pub struct VxSender { p: u64 }
pub struct VxReceiver { p: u64 }
pub struct VxSendError { p: u64 }
pub struct VxRecvError { p: u64 }
impl VxSender {
    pub uninterp spec fn channel(&self) -> int;
    /// not a clone
    pub uninterp spec fn original(&self) -> bool;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: VxSender) ensures r.channel() == self.channel(), !r.original() { unimplemented!() }
    /// a thread sends what became of the attempt on the address it names
    #[verifier::external_body]
    pub fn send(&self, m: (VxAddr, Result<VxTcp, Error>), n: &mut VxNet) -> (r: Result<(), VxSendError>)
        requires match m.1 { Ok(s) => s.peer() == m.0 && s.fresh(), Err(_) => old(n).refused().contains(m.0) }
        ensures final(n).posted() == old(n).posted().push(m.0), final(n).tried() == old(n).tried(), final(n).refused() == old(n).refused(), final(n).pending() == old(n).pending(), final(n).same_channel(*old(n))
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_channel(n: &mut VxNet) -> (r: (VxSender, VxReceiver))
    ensures r.0.original(), r.0.channel() == final(n).channel(), r.1.channel() == final(n).channel(), final(n).held(), final(n).pending() == Multiset::<VxAddr>::empty(),
        final(n).tried() == old(n).tried(), final(n).refused() == old(n).refused(), final(n).posted() == old(n).posted()
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_drop_sender(s: VxSender, n: &mut VxNet)
    ensures final(n).held() == (old(n).held() && !(s.original() && s.channel() == old(n).channel())), final(n).channel() == old(n).channel(),
        final(n).tried() == old(n).tried(), final(n).refused() == old(n).refused(), final(n).posted() == old(n).posted(), final(n).pending() == old(n).pending()
{ unimplemented!() }
/// a thread is begun that does what Stream::connect_happy_thread0 is proved to do: one attempt on the address, its outcome sent once
#[verifier::external_body]
pub fn vx_spawn_connect_happy_thread0(s: VxSender, a: VxAddr, t: Option<VxDuration>, n: &mut VxNet)
    requires s.channel() == old(n).channel()
    ensures final(n).tried() == old(n).tried().push(a), final(n).pending() == old(n).pending().insert(a), final(n).refused() == old(n).refused(), final(n).posted() == old(n).posted(),
        final(n).channel() == old(n).channel(), final(n).held() == (old(n).held() && !s.original())
{ unimplemented!() }
pub open spec fn outcome(a: VxNet, b: VxNet, m: (VxAddr, Result<VxTcp, Error>)) -> bool {
    &&& a.pending().contains(m.0) && b.pending() == a.pending().remove(m.0)
    &&& b.tried() == a.tried() && b.posted() == a.posted() && b.same_channel(a)
    &&& match m.1 { Ok(s) => s.peer() == m.0 && s.fresh() && b.refused() == a.refused(), Err(_) => b.refused() == a.refused().insert(m.0) }
}
pub open spec fn same_net(a: VxNet, b: VxNet) -> bool { b.tried() == a.tried() && b.posted() == a.posted() && b.same_channel(a) && b.refused() == a.refused() && b.pending() == a.pending() }
impl VxReceiver {
    pub uninterp spec fn channel(&self) -> int;
    #[verifier::external_body]
    pub fn recv_timeout(&self, d: VxDuration, n: &mut VxNet) -> (r: Result<(VxAddr, Result<VxTcp, Error>), VxRecvError>)
        requires self.channel() == old(n).channel()
        ensures match r { Ok(m) => outcome(*old(n), *final(n), m), Err(_) => same_net(*old(n), *final(n)) }
    { unimplemented!() }
    /// waits for the next outcome; ends when every sender is gone, so nobody may wait who holds one
    #[verifier::external_body]
    pub fn vx_receive(&self, n: &mut VxNet) -> (r: Option<(VxAddr, Result<VxTcp, Error>)>)
        requires self.channel() == old(n).channel(), !old(n).held()
        ensures match r { Some(m) => outcome(*old(n), *final(n), m), None => same_net(*old(n), *final(n)) && final(n).pending() == Multiset::<VxAddr>::empty() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn recv(&self, n: &mut VxNet) -> (r: Result<(VxAddr, Result<VxTcp, Error>), VxRecvError>)
        requires self.channel() == old(n).channel(), !old(n).held()
        ensures match r { Ok(m) => outcome(*old(n), *final(n), m), Err(_) => same_net(*old(n), *final(n)) && final(n).pending() == Multiset::<VxAddr>::empty() }
    { unimplemented!() }
}
impl VxTlsBuilder {
    #[verifier::external_body]
    pub fn new() -> VxTlsBuilder { unimplemented!() }
    #[verifier::external_body]
    pub fn with_platform_verifier(self) -> VxTlsBuilder { unimplemented!() }
    #[verifier::external_body]
    pub fn with_no_client_auth(self) -> VxTlsConfig { unimplemented!() }
}
impl VxTls {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn arrives(&self) -> Seq<u8>;
    pub uninterp spec fn ending(&self) -> Ending;
    pub uninterp spec fn sent(&self) -> Seq<u8>;
    pub open spec fn breaks(&self) -> bool { self.ending() is Broken || (self.ending() matches Ending::Left { answered } && !answered) }
    pub open spec fn same(&self, o: VxTls) -> bool { self.id() == o.id() && self.arrives() == o.arrives() && self.ending() == o.ending() && self.sent() == o.sent() }
    #[verifier::external_body]
    pub fn new(c: std::sync::Arc<VxTlsConfig>, n: VxServerName) -> (r: Result<VxTls, VxTlsError>)
        ensures r matches Ok(t) ==> t.arrives() == replied(tls_wire(t.id())) && t.breaks() == broken(tls_wire(t.id())) && t.sent() == Seq::<u8>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn send_close_notify(&mut self) ensures final(self).same(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn complete_io(&mut self, s: &mut VxTcp) -> (r: VxIoResult<(usize, usize)>)
        ensures final(self).same(*old(self)), final(s).id() == old(s).id(), old(self).ending() matches Ending::Left { answered } ==> answered == (r is Ok)
    { unimplemented!() }
}
pub trait VxAsMut<T> { fn vx_as_mut(&mut self) -> (r: &mut T); }
impl VxAsMut<VxTls> for Box<VxTls> {
    #[verifier::external_body]
    fn vx_as_mut(&mut self) -> (r: &mut VxTls) ensures *r == **old(self), *final(r) == **final(self) { unimplemented!() }
}
/// rustls::Stream
pub struct VxTlsStream<'a> { pub a: &'a mut VxTls, pub s: &'a mut VxTcp }
impl<'a> VxTlsStream<'a> {
    pub fn new(a: &'a mut VxTls, s: &'a mut VxTcp) -> (r: VxTlsStream<'a>) ensures *r.a == *old(a), *r.s == *old(s), *final(r.a) == *final(a), *final(r.s) == *final(s) { VxTlsStream { a, s } }
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: VxIoResult<usize>)
        ensures final(self).a.id() == old(self).a.id(), final(self).a.sent() == old(self).a.sent(), final(self).a.ending() == old(self).a.ending(), final(self).s.id() == old(self).s.id(), final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(n) => came(old(self).a.arrives(), final(self).a.arrives(), !(old(self).a.ending() is Closed), final(buf)@, n as int),
                Err(e) => final(self).a.arrives() == old(self).a.arrives() && old(self).a.arrives().len() == 0 && match e.spec_kind() { VxIoKind::ConnectionAborted => old(self).a.ending() is Left, VxIoKind::UnexpectedEof => old(self).a.ending() is Cut, VxIoKind::Other => old(self).a.ending() is Broken },
            },
            *final(final(self).a) == *final(old(self).a), *final(final(self).s) == *final(old(self).s),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, buf: &[u8]) -> (r: VxIoResult<usize>)
        ensures final(self).a.id() == old(self).a.id(), final(self).a.arrives() == old(self).a.arrives(), final(self).a.ending() == old(self).a.ending(), final(self).s.id() == old(self).s.id(),
            went(old(self).a.sent(), final(self).a.sent(), buf@, r),
            *final(final(self).a) == *final(old(self).a), *final(final(self).s) == *final(old(self).s),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: VxIoResult<()>)
        ensures final(self).a.same(*old(self).a), final(self).s.id() == old(self).s.id(),
            r is Ok ==> delivered(tls_wire(final(self).a.id()), final(self).a.sent()),
            *final(final(self).a) == *final(old(self).a), *final(final(self).s) == *final(old(self).s),
    { unimplemented!() }
}
pub trait VxTryInto { fn vx_try_into(self) -> Result<VxServerName, VxTlsError>; }
impl VxTryInto for String {
    #[verifier::external_body]
    fn vx_try_into(self) -> Result<VxServerName, VxTlsError> { unimplemented!() }
}
impl Stream {
    /// the time resolving the host took
    pub open spec fn took(&self) -> int { match self { Stream::Plain { resolve, .. } => resolve.ns(), Stream::Cipher { resolve, .. } => resolve.ns() } }
    /// the address it is connected to
    pub open spec fn peer(&self) -> VxAddr { match self { Stream::Plain { stream, .. } => stream.peer(), Stream::Cipher { stream, .. } => stream.peer() } }
    /// the way its bytes take, the bytes still to come on it, whether it ends in an error, and the bytes it took
    pub open spec fn wire(&self) -> int { match self { Stream::Plain { stream, .. } => plain_wire(stream.id()), Stream::Cipher { attach, .. } => tls_wire(attach.id()) } }
    pub open spec fn arrives(&self) -> Seq<u8> { match self { Stream::Plain { stream, .. } => stream.arrives(), Stream::Cipher { attach, .. } => attach.arrives() } }
    pub open spec fn breaks(&self) -> bool { match self { Stream::Plain { stream, .. } => stream.breaks(), Stream::Cipher { attach, .. } => attach.breaks() } }
    pub open spec fn sent(&self) -> Seq<u8> { match self { Stream::Plain { stream, .. } => stream.sent(), Stream::Cipher { attach, .. } => attach.sent() } }
    pub open spec fn fresh(&self) -> bool { self.arrives() == replied(self.wire()) && self.breaks() == broken(self.wire()) && self.sent() == Seq::<u8>::empty() }
    /// still the connection it was
    pub open spec fn goes_on(&self, o: Stream) -> bool { self.wire() == o.wire() && self.peer() == o.peer() && self.took() == o.took() && (self is Cipher <==> o is Cipher) }
    pub uninterp spec fn refused(&self) -> bool;
}
// what the implementations of std::io::Read and std::io::Write for Stream do, proved below
pub open spec fn stream_read(a: Stream, b: Stream, buf: Seq<u8>, r: VxIoResult<usize>) -> bool {
    b.goes_on(a) && b.sent() == a.sent() && b.breaks() == a.breaks() && match r { Ok(n) => came(a.arrives(), b.arrives(), a.breaks(), buf, n as int), Err(_) => a.breaks() }
}
pub open spec fn stream_write(a: Stream, b: Stream, buf: Seq<u8>, r: VxIoResult<usize>) -> bool {
    b.goes_on(a) && b.arrives() == a.arrives() && b.breaks() == a.breaks() && went(a.sent(), b.sent(), buf, r)
}
pub open spec fn stream_flush(a: Stream, b: Stream, r: VxIoResult<()>) -> bool {
    b.goes_on(a) && b.arrives() == a.arrives() && b.breaks() == a.breaks() && b.sent() == a.sent() && (r is Ok ==> delivered(b.wire(), b.sent()))
}
// std::io::Write::write_all and write_fmt over the write and flush proved below
impl VxWrite for Stream {
    open spec fn sink(&self) -> int { self.wire() }
    open spec fn taken(&self) -> Seq<u8> { self.sent() }
    open spec fn failed(&self) -> bool { self.refused() }
    #[verifier::prophetic]
    open spec fn gives_back(&self) -> bool { true }
    #[verifier::external_body]
    fn write_all(&mut self, b: &Vec<u8>) -> (r: Result<(), VxIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_write_text(&mut self, t: String) -> (r: Result<(), VxIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), VxIoError>) { unimplemented!() }
}
impl VxWrite for &mut Stream {
    open spec fn sink(&self) -> int { (**self).sink() }
    open spec fn taken(&self) -> Seq<u8> { (**self).taken() }
    open spec fn failed(&self) -> bool { (**self).failed() }
    #[verifier::prophetic]
    open spec fn gives_back(&self) -> bool { (*final(*self)).goes_on(**self) && (*final(*self)).arrives() == (**self).arrives() && (*final(*self)).breaks() == (**self).breaks() }
    #[verifier::external_body]
    fn write_all(&mut self, b: &Vec<u8>) -> (r: Result<(), VxIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_write_text(&mut self, t: String) -> (r: Result<(), VxIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), VxIoError>) { unimplemented!() }
}
/// a stream made for the URL of the request
pub open spec fn made_for(a: VxNet, b: VxNet, q: Request, s: Stream) -> bool { accepted(a, b, q.url.host@, q.url.port, s.peer()) && (s is Cipher <==> q.url.scheme is Https) }
/// the whole request went out on it, once
pub open spec fn sent_on(a: VxNet, b: VxNet, q: Request, c: Content, s: Stream) -> bool { made_for(a, b, q, s) && delivered(s.wire(), request_bytes(q, c)) }
/// the response is what came back on it, which ended as it should
pub open spec fn answered_on(a: VxNet, b: VxNet, q: Request, p: Response, s: Stream) -> bool {
    made_for(a, b, q, s) && !broken(s.wire()) && is_text(replied(s.wire())) && response_is(p, decoded(replied(s.wire())))
}
pub open spec fn some_content(c: Content) -> bool { true }
pub open spec fn some_stream(s: Stream) -> bool { true }
pub open spec fn no_response(p: Response) -> bool { p.version@.len() == 0 && p.status == 0 && p.reason@.len() == 0 && p.headers.inner@.len() == 0 && p.body@.len() == 0 }
impl VxReader<Stream> {
    #[verifier::external_body]
    pub fn new(s: Stream) -> (r: VxReader<Stream>) ensures r.text() == decoded(s.arrives()), r.clean() == (!s.breaks() && is_text(s.arrives())) { unimplemented!() }
}
} // mod vxcl
pub use vxcl::*;
/// std::io::ErrorKind, those named
#[derive(PartialEq, Eq, Structural)]
pub enum VxIoKind { ConnectionAborted, UnexpectedEof, Other }

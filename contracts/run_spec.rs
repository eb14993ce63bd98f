// ---- C21: the threads of a test ----
pub mod vxr {
use vstd::prelude::*;
use std::collections::HashMap;
pub use std::sync::Arc;
use crate::*;
#[verifier::external_body]
pub struct VxPath { p: () }
#[derive(Debug)]
#[verifier::external_body]
pub struct VxEnvError { p: () }
/// the current directory is there
#[verifier::external_body]
pub fn vx_current_dir() -> (r: Result<VxPath, VxEnvError>) ensures r is Ok { unimplemented!() }
pub trait VxPathOr { fn vx_path_or(self, d: VxPath) -> VxPath; }
impl VxPathOr for Option<VxPath> {
    fn vx_path_or(self, d: VxPath) -> (r: VxPath) ensures r == (match self { Some(p) => p, None => d }) { match self { Some(p) => p, None => d } }
}
/// the text of the program at a path; read_to_string is proved in unit load
pub uninterp spec fn source_text(p: VxPath) -> Seq<char>;
/// an environment variable, empty if there is none
pub uninterp spec fn env_text(name: Seq<char>) -> Seq<char>;
pub uninterp spec fn joined(p: VxPath, name: Seq<char>) -> VxPath;
#[verifier::external_body]
pub struct VxVar { p: () }
#[verifier::external_body]
pub fn vx_env_var(name: &str) -> (r: VxVar) ensures r.text() == env_text(name@) { unimplemented!() }
impl VxVar {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_text_or_default(self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
impl VxPath {
    #[verifier::external_body]
    pub fn join(&self, name: String) -> (r: VxPath) ensures r == joined(*self, name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> VxPathText { unimplemented!() }
}
#[verifier::external_body]
pub struct VxPathText { p: () }
#[verifier::external_body]
pub fn vx_panic<A, T>(a: A) -> (r: T) ensures false { panic!() }
#[verifier::external_body]
pub struct File { p: () }
impl File {
    pub uninterp spec fn path(&self) -> VxPath;
    #[verifier::external_body]
    pub fn create(p: &VxPath) -> (r: Result<File, VxEnvError>) ensures r matches Ok(f) ==> f.path() == *p { unimplemented!() }
}
impl VxShow for u32 {
    open spec fn shown(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
/// {:0n}
pub open spec fn padded(t: Seq<char>, n: int) -> Seq<char> { Seq::new((if t.len() < n { n - t.len() } else { 0 }) as nat, |i: int| '0') + t }
pub trait VxPad { fn vx_push_padded<T: VxShow>(&mut self, t: &T, n: usize); }
impl VxPad for String {
    #[verifier::external_body]
    fn vx_push_padded<T: VxShow>(&mut self, t: &T, n: usize) ensures final(self)@ == old(self)@ + padded(t.shown(), n as int) { unimplemented!() }
}
/// where the records of a thread are written: the directory it is given, the pod, the number of the thread in six digits
pub open spec fn record_name(thread: u32) -> Seq<char> { env_text("POD"@) + padded(int_text(thread as int), 6) }
pub open spec fn record_file(p: VxPath, thread: u32) -> VxPath { joined(p, record_name(thread)) }
pub open spec fn digit(d: int) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
pub open spec fn decimal(n: int) -> Seq<char>
    decreases n
{ if n < 10 { seq![digit(n)] } else { decimal(n / 10).push(digit(n % 10)) } }
// Display of an unsigned integer
#[verifier::external_body]
pub proof fn unsigned_text(n: u32) ensures int_text(n as int) == decimal(n as int) { }
pub open spec fn number_of(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { number_of(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
pub proof fn decimal_back(n: int)
    requires n >= 0
    ensures number_of(decimal(n)) == n
    decreases n
{
    reveal_with_fuel(number_of, 2);
    if n >= 10 { decimal_back(n / 10); assert(decimal(n).drop_last() =~= decimal(n / 10)); } else { assert(decimal(n).drop_last() =~= Seq::empty()); }
}
pub proof fn padding_counts_nothing(z: Seq<char>, t: Seq<char>)
    requires forall|i: int| 0 <= i < z.len() ==> z[i] == '0'
    ensures number_of(z + t) == number_of(t)
    decreases z.len() + t.len()
{
    if t.len() > 0 {
        padding_counts_nothing(z, t.drop_last());
        assert((z + t).drop_last() =~= z + t.drop_last());
    } else if z.len() > 0 {
        padding_counts_nothing(z.drop_last(), t);
        assert(z + t =~= z);
        assert(z.drop_last() + t =~= z.drop_last());
    } else { assert(z + t =~= t); }
}
/// no two threads write records to the same name
pub proof fn own_names(a: u32, b: u32)
    requires record_name(a) == record_name(b)
    ensures a == b
{
    let e = env_text("POD"@);
    let (x, y) = (padded(int_text(a as int), 6), padded(int_text(b as int), 6));
    assert(x =~= (e + x).skip(e.len() as int));
    assert(y =~= (e + y).skip(e.len() as int));
    unsigned_text(a); unsigned_text(b);
    decimal_back(a as int); decimal_back(b as int);
    padding_counts_nothing(Seq::new((if int_text(a as int).len() < 6 { 6 - int_text(a as int).len() } else { 0 }) as nat, |i: int| '0'), int_text(a as int));
    padding_counts_nothing(Seq::new((if int_text(b as int).len() < 6 { 6 - int_text(b as int).len() } else { 0 }) as nat, |i: int| '0'), int_text(b as int));
}
pub open spec fn file_of(record: Option<VxPath>, thread: u32) -> Option<VxPath> { match record { Some(p) => Some(record_file(p, thread)), None => None } }
// u32::default, u32::from(bool)
pub fn vx_zero_u32() -> (r: u32) ensures r == 0 { 0 }
pub fn vx_u32_from_bool(b: bool) -> (r: u32) ensures r == (if b { 1u32 } else { 0u32 }) { if b { 1 } else { 0 } }
// as_ref
pub trait VxAsRef { type To: ?Sized; spec fn refers(&self, r: &Self::To) -> bool; fn vx_as_ref(&self) -> (r: &Self::To) ensures self.refers(r); }
impl VxAsRef for Vec<Expr> {
    type To = [Expr];
    open spec fn refers(&self, r: &[Expr]) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &[Expr]) { self }
}
impl VxAsRef for Arc<Vec<Expr>> {
    type To = [Expr];
    open spec fn refers(&self, r: &[Expr]) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &[Expr]) { self }
}
impl Duration {
    pub uninterp spec fn millis(&self) -> u128;
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) ensures r == self.millis() { unimplemented!() }
}
/// a duration has at most u64::MAX seconds
#[verifier::external_body]
pub proof fn millis_bounded(d: Duration) ensures d.millis() < 0x400_0000_0000_0000_0000 { }
/// std::sync::atomic::AtomicBool
#[verifier::external_body]
pub struct VxFlag { p: () }
impl VxFlag {
    pub uninterp spec fn id(&self) -> int;
    /// what it was made with
    pub uninterp spec fn initially(&self) -> bool;
    #[verifier::external_body]
    pub fn new(b: bool) -> (r: VxFlag) ensures r.initially() == b { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: VxOrder, w: &mut VxRun) -> (r: bool)
        ensures final(w).seen(self.id()) == old(w).seen(self.id()) + (if r { 1int } else { 0 }), final(w).cleared(self.id()) == (old(w).cleared(self.id()) || !r), final(w).same_but_seen(*old(w))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, b: bool, o: VxOrder, w: &mut VxRun)
        ensures final(w).stores() == old(w).stores().push((self.id(), b, old(w).slept())), final(w).slept() == old(w).slept(), final(w).sent() == old(w).sent(), final(w).written() == old(w).written()
    { unimplemented!() }
}
/// what one thread has done
#[verifier::external_body]
pub struct VxRun { p: () }
pub struct Written { pub file: VxPath, pub records: Seq<Record>, pub name: Seq<char>, pub thread: u32, pub number: u32 }
impl VxRun {
    /// how often it found the flag set
    pub uninterp spec fn seen(&self, flag: int) -> int;
    /// it found the flag cleared
    pub uninterp spec fn cleared(&self, flag: int) -> bool;
    pub uninterp spec fn stores(&self) -> Seq<(int, bool, int)>;
    /// milliseconds
    pub uninterp spec fn slept(&self) -> int;
    pub uninterp spec fn sent(&self) -> Seq<(int, Seq<Record>)>;
    pub uninterp spec fn written(&self) -> Seq<Written>;
    /// what was received, one record after another
    pub uninterp spec fn received(&self) -> Seq<Record>;
    /// how much is still to be received
    pub uninterp spec fn coming(&self) -> nat;
    /// nothing more can come
    pub uninterp spec fn ended(&self) -> bool;
    pub open spec fn same_but_seen(&self, a: VxRun) -> bool { self.sent() == a.sent() && self.written() == a.written() && self.stores() == a.stores() && self.slept() == a.slept() && self.received() == a.received() && self.ended() == a.ended() }
    pub open spec fn same_seen(&self, a: VxRun) -> bool { (forall|f: int| #[trigger] self.seen(f) == a.seen(f)) && forall|f: int| #[trigger] self.cleared(f) == a.cleared(f) }
}
#[verifier::external_body]
pub fn vx_sleep(d: Duration, w: &mut VxRun)
    ensures final(w).slept() == old(w).slept() + d.millis(), final(w).stores() == old(w).stores(), final(w).sent() == old(w).sent(), final(w).written() == old(w).written()
{ unimplemented!() }
/// lib::Writer over the file of a thread; what it writes for records is proved in unit writer
#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
pub struct VxWriter<F = File> { p: core::marker::PhantomData<F> }
impl VxWriter<File> {
    #[verifier::external_body]
    pub fn new(f: File) -> (r: VxWriter<File>) ensures r.file() == f.path() { unimplemented!() }
}
impl<F> VxWriter<F> {
    pub uninterp spec fn file(&self) -> VxPath;
    #[verifier::external_body]
    pub fn write(&mut self, records: &Vec<Record>, name: &String, thread: u32, number: u32, w: &mut VxRun)
        ensures final(self).file() == old(self).file(),
            final(w).written() == old(w).written().push(Written { file: old(self).file(), records: records@, name: name@, thread, number }),
            final(w).same_seen(*old(w)), final(w).sent() == old(w).sent(), final(w).stores() == old(w).stores(), final(w).slept() == old(w).slept()
    { unimplemented!() }
}
// ---- the channel of records ----
#[verifier::external_body]
pub struct VxSender { p: () }
#[verifier::external_body]
pub struct VxReceiver { p: () }
#[verifier::external_body]
pub struct VxSendError { p: () }
impl VxSender {
    pub uninterp spec fn channel(&self) -> int;
    /// not a clone
    pub uninterp spec fn original(&self) -> bool;
    #[verifier::external_body]
    pub fn send(&self, m: Vec<Record>, w: &mut VxRun) -> (r: Result<(), VxSendError>)
        ensures final(w).sent() == old(w).sent().push((self.channel(), m@)), final(w).same_seen(*old(w)), final(w).written() == old(w).written(), final(w).stores() == old(w).stores(), final(w).slept() == old(w).slept()
    { unimplemented!() }
}
impl VxReceiver {
    pub uninterp spec fn channel(&self) -> int;
    /// no program makes 2^50 records
    #[verifier::external_body]
    pub fn vx_receive(&self, w: &mut VxRun) -> (r: Option<Vec<Record>>)
        ensures match r {
                Some(v) => final(w).received() == old(w).received() + v@ && final(w).received().len() < 0x4_0000_0000_0000 && final(w).coming() < old(w).coming(),
                None => final(w).received() == old(w).received() && final(w).ended(),
            },
            final(w).stores() == old(w).stores(), final(w).slept() == old(w).slept(), final(w).sent() == old(w).sent(), final(w).written() == old(w).written()
    { unimplemented!() }
}
// ---- threads ----
pub struct Worker { pub flag: int, pub maximum: u32, pub test: Seq<Expr>, pub context: Context, pub file: Option<VxPath>, pub name: Seq<char>, pub thread: u32, pub stat: bool, pub channel: int, pub id: int }
pub struct Single { pub test: Seq<Expr>, pub context: Context, pub file: Option<VxPath>, pub name: Seq<char>, pub thread: u32, pub stat: bool, pub channel: int, pub id: int }
/// the threads the program has begun and waited for
#[verifier::external_body]
pub struct VxWork { p: () }
impl VxWork {
    pub uninterp spec fn workers(&self) -> Seq<Worker>;
    pub uninterp spec fn singles(&self) -> Seq<Single>;
    /// how long, then which flag
    pub uninterp spec fn timers(&self) -> Seq<(Duration, int)>;
    /// whether it counts, what channel, and its id
    pub uninterp spec fn counters(&self) -> Seq<(bool, int, int)>;
    /// the flags an interrupt clears
    pub uninterp spec fn handlers(&self) -> Seq<int>;
    pub uninterp spec fn joined(&self) -> Set<int>;
    pub uninterp spec fn begun(&self) -> int;
    pub uninterp spec fn channel(&self) -> int;
    /// the program itself can still send over the channel
    pub uninterp spec fn held(&self) -> bool;
    pub open spec fn nothing(&self) -> bool { self.workers().len() == 0 && self.singles().len() == 0 && self.timers().len() == 0 && self.counters().len() == 0 }
    pub open spec fn same_channel(&self, a: VxWork) -> bool { self.channel() == a.channel() && self.held() == a.held() && self.joined() == a.joined() }
    pub open spec fn same_threads(&self, a: VxWork) -> bool { self.workers() == a.workers() && self.singles() == a.singles() && self.timers() == a.timers() && self.counters() == a.counters() && self.begun() == a.begun() }
}
pub open spec fn file_of_writer(w: Option<VxWriter>) -> Option<VxPath> { match w { Some(x) => Some(x.file()), None => None } }
#[verifier::external_body]
pub struct VxHandle { p: () }
#[verifier::external_body]
pub struct VxJoinError { p: () }
impl VxHandle {
    pub uninterp spec fn id(&self) -> int;
    /// a thread that receives ends only when nothing can send any more
    #[verifier::external_body]
    pub fn join(self, w: &mut VxWork) -> (r: Result<(), VxJoinError>)
        requires !old(w).held()
        ensures final(w).joined() == old(w).joined().insert(self.id()), final(w).same_threads(*old(w)), final(w).channel() == old(w).channel(), final(w).held() == old(w).held()
    { unimplemented!() }
}
pub open spec fn all_of(v: Vec<VxHandle>) -> Seq<VxHandle> { v@ }
#[verifier::external_body]
pub fn vx_channel(w: &mut VxWork) -> (r: (VxSender, VxReceiver))
    ensures r.0.original(), r.0.channel() == final(w).channel(), r.1.channel() == final(w).channel(), final(w).held(), final(w).joined() == old(w).joined(), final(w).same_threads(*old(w))
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_drop_sender(s: VxSender, w: &mut VxWork)
    ensures final(w).held() == (old(w).held() && !(s.original() && s.channel() == old(w).channel())), final(w).channel() == old(w).channel(), final(w).joined() == old(w).joined(), final(w).same_threads(*old(w))
{ unimplemented!() }
// clones: of a shared pointer, of a sender, of a context (proved below: Clone for Context)
pub trait VxCloned: Sized { spec fn cloned(&self, r: Self) -> bool; fn vx_cloned(&self) -> (r: Self) ensures self.cloned(r); }
impl<T> VxCloned for Arc<T> {
    open spec fn cloned(&self, r: Self) -> bool { r == *self }
    #[verifier::external_body]
    fn vx_cloned(&self) -> (r: Self) { self.clone() }
}
impl VxCloned for VxSender {
    open spec fn cloned(&self, r: Self) -> bool { r.channel() == self.channel() && !r.original() }
    #[verifier::external_body]
    fn vx_cloned(&self) -> (r: Self) { unimplemented!() }
}
pub open spec fn fork(a: Context, b: Context) -> bool { b.inner@ == a.inner@ && b.requests@ == a.requests@ && b.records@.len() == 0 }
impl VxCloned for Context {
    open spec fn cloned(&self, r: Self) -> bool { fork(*self, r) }
    fn vx_cloned(&self) -> (r: Self) { self.clone() }
}
// HashMap::into_iter: every entry once, in some order
pub open spec fn lists(v: Seq<(String, Vec<Expr>)>, m: Map<String, Vec<Expr>>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m.contains_pair((#[trigger] v[i]).0, v[i].1)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == k
}
pub trait VxListed { fn vx_listed(self) -> Vec<(String, Vec<Expr>)>; }
impl VxListed for HashMap<String, Vec<Expr>> {
    #[verifier::external_body]
    fn vx_listed(self) -> (r: Vec<(String, Vec<Expr>)>) ensures lists(r@, self@), r@.len() <= usize::MAX { unimplemented!() }
}
// HashMap::remove
pub trait VxRemove { fn vx_remove(&mut self, k: &String) -> Option<Vec<Expr>>; }
impl VxRemove for HashMap<String, Vec<Expr>> {
    #[verifier::external_body]
    fn vx_remove(&mut self, k: &String) -> (r: Option<Vec<Expr>>)
        ensures match r { Some(v) => old(self)@.contains_pair(*k, v), None => !old(self)@.contains_key(*k) }, final(self)@ == old(self)@.remove(*k)
    { unimplemented!() }
}
impl Stats {
    // derived Default
    #[verifier::external_body]
    pub fn default() -> (r: Stats) ensures r.stats@ == Map::<String, Stat>::empty() { unimplemented!() }
}
// ---- what a thread does ----
pub open spec fn record_lines(rs: Seq<Record>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { Seq::empty() } else { line(record_lines(rs, n - 1), record_text(rs[n - 1])) } }
pub open spec fn evaluates(test: Seq<Expr>, a: Context, o: Seq<char>, rs: Seq<Record>) -> Run { ev_block(test, 0, Value::Null, a.inner@, a.requests@, rs, At { n: 0, o }) }
pub open spec fn failed(test: Seq<Expr>, a: Context, o: Seq<char>, rs: Seq<Record>) -> bool { evaluates(test, a, o, rs).v is Error }
/// one run of a test from context a and console o to b and p: it makes the records rs, each of which is printed once
pub open spec fn one_run(test: Seq<Expr>, a: Context, o: Seq<char>, b: Context, p: Seq<char>, rs: Seq<Record>) -> bool {
    let run = evaluates(test, a, o, rs);
    &&& a.records@.len() == 0 && b.records@.len() == 0 && b.requests@ == a.requests@
    &&& b.inner@ == run.env && run.n.n == rs.len()
    &&& match run.v { Out::Value(_) => p == run.n.o + record_lines(rs, rs.len() as int), Out::Error => exists|t: Seq<char>| p == #[trigger] line(run.n.o + record_lines(rs, rs.len() as int), t), Out::Wrong => false }
}
/// k runs one after the other
pub open spec fn runs(test: Seq<Expr>, k: int, cs: Seq<Context>, os: Seq<Seq<char>>, rs: Seq<Seq<Record>>) -> bool {
    &&& 0 <= k && cs.len() == k + 1 && os.len() == k + 1 && rs.len() == k
    &&& forall|i: int| 0 <= i < k ==> #[trigger] one_run(test, cs[i], os[i], cs[i + 1], os[i + 1], rs[i])
}
pub open spec fn rows_written(file: Option<VxPath>, rs: Seq<Seq<Record>>, name: Seq<char>, thread: u32) -> Seq<Written> {
    match file { Some(f) => Seq::new(rs.len(), |i: int| Written { file: f, records: rs[i], name, thread, number: i as u32 }), None => Seq::empty() }
}
pub open spec fn lots_sent(stat: bool, channel: int, rs: Seq<Seq<Record>>) -> Seq<(int, Seq<Record>)> {
    if stat { Seq::new(rs.len(), |i: int| (channel, rs[i])) } else { Seq::empty() }
}
pub open spec fn worked(test: Seq<Expr>, maximum: u32, context: Context, a: VxRun, o: Seq<char>, b: VxRun, p: Seq<char>, file: Option<VxPath>, name: Seq<char>, thread: u32, stat: bool, channel: int, flag: int, k: int, cs: Seq<Context>, os: Seq<Seq<char>>, rs: Seq<Seq<Record>>) -> bool {
    &&& runs(test, k, cs, os, rs) && k <= maximum && cs[0] == context && os[0] == o && os[k] == p
    &&& b.written() == a.written() + rows_written(file, rs, name, thread)
    &&& b.sent() == a.sent() + lots_sent(stat, channel, rs)
    // no run after a run that failed, none without the flag having been seen set
    &&& forall|i: int| 0 <= i < k - 1 ==> !failed(test, cs[i], os[i], #[trigger] rs[i])
    &&& b.seen(flag) - a.seen(flag) >= k
}
/// why there was no further run: there were enough, the last one failed, or the flag was found cleared
pub open spec fn over(test: Seq<Expr>, maximum: u32, b: VxRun, flag: int, k: int, cs: Seq<Context>, os: Seq<Seq<char>>, rs: Seq<Seq<Record>>) -> bool { k == maximum || stopped(test, k, cs, os, rs) || b.cleared(flag) }
/// one run more
pub proof fn one_more(test: Seq<Expr>, maximum: u32, context: Context, a: VxRun, o: Seq<char>, b: VxRun, p: Seq<char>, file: Option<VxPath>, name: Seq<char>, thread: u32, stat: bool, channel: int, flag: int, k: int, cs: Seq<Context>, os: Seq<Seq<char>>, rs: Seq<Seq<Record>>, c2: Context, b2: VxRun, p2: Seq<char>, r2: Seq<Record>)
    requires worked(test, maximum, context, a, o, b, p, file, name, thread, stat, channel, flag, k, cs, os, rs), !stopped(test, k, cs, os, rs), k < maximum,
        one_run(test, cs[k], os[k], c2, p2, r2), b2.seen(flag) > b.seen(flag),
        b2.written() == (match file { Some(f) => b.written().push(Written { file: f, records: r2, name, thread, number: k as u32 }), None => b.written() }),
        b2.sent() == (if stat { b.sent().push((channel, r2)) } else { b.sent() }),
    ensures worked(test, maximum, context, a, o, b2, p2, file, name, thread, stat, channel, flag, k + 1, cs.push(c2), os.push(p2), rs.push(r2)),
        stopped(test, k + 1, cs.push(c2), os.push(p2), rs.push(r2)) == failed(test, cs[k], os[k], r2),
{
    let (cs2, os2, rs2) = (cs.push(c2), os.push(p2), rs.push(r2));
    assert(cs2[k] == cs[k] && os2[k] == os[k]);
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] one_run(test, cs2[i], os2[i], cs2[i + 1], os2[i + 1], rs2[i]) by {
        if i < k { assert(one_run(test, cs[i], os[i], cs[i + 1], os[i + 1], rs[i])); assert(cs2[i + 1] == cs[i + 1] && os2[i + 1] == os[i + 1]); }
    }
    assert forall|i: int| 0 <= i < k implies !failed(test, cs2[i], os2[i], #[trigger] rs2[i]) by {
        if i < k - 1 { assert(!failed(test, cs[i], os[i], rs[i])); }
    }
    assert(rows_written(file, rs2, name, thread) =~= (match file { Some(f) => rows_written(file, rs, name, thread).push(Written { file: f, records: r2, name, thread, number: k as u32 }), None => Seq::empty() }));
    assert(lots_sent(stat, channel, rs2) =~= (if stat { lots_sent(stat, channel, rs).push((channel, r2)) } else { Seq::empty() }));
    assert(b2.written() =~= a.written() + rows_written(file, rs2, name, thread));
    assert(b2.sent() =~= a.sent() + lots_sent(stat, channel, rs2));
}
pub open spec fn stopped(test: Seq<Expr>, k: int, cs: Seq<Context>, os: Seq<Seq<char>>, rs: Seq<Seq<Record>>) -> bool { k > 0 && failed(test, cs[k - 1], os[k - 1], rs[k - 1]) }
/// per name, the times of the records in the order they came
pub open spec fn history(rs: Seq<Record>, n: int) -> Map<String, Seq<u128>>
    decreases n
{ if n <= 0 { Map::empty() } else { observe(history(rs, n - 1), rs[n - 1].name, rs[n - 1].time.total.millis()) } }
pub proof fn history_bound(rs: Seq<Record>, n: int, k: String)
    requires 0 <= n
    ensures history(rs, n).contains_key(k) ==> history(rs, n)[k].len() <= n && seq_sum(history(rs, n)[k]) <= history(rs, n)[k].len() * 0x400_0000_0000_0000_0000
    decreases n
{
    if n > 0 {
        history_bound(rs, n - 1, k);
        let h = history(rs, n - 1);
        let r = rs[n - 1];
        millis_bounded(r.time.total);
        if r.name == k {
            let l = if h.contains_key(k) { h[k] } else { Seq::empty() };
            assert(l.push(r.time.total.millis()).drop_last() =~= l);
            assert(seq_sum(l) <= l.len() * 0x400_0000_0000_0000_0000) by { if l.len() == 0 { } }
            assert((l.len() + 1) * 0x400_0000_0000_0000_0000 == l.len() * 0x400_0000_0000_0000_0000 + 0x400_0000_0000_0000_0000) by (nonlinear_arith);
        }
    }
}
/// the records before do not change the history of the first n
pub proof fn history_prefix(a: Seq<Record>, b: Seq<Record>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures history(a, n) == history(b, n)
    decreases n
{ if n > 0 { history_prefix(a, b, n - 1); } }
/// a record more can be counted
pub proof fn countable(m: Map<String, Stat>, rs: Seq<Record>, n: int, k: String, x: u128)
    requires all_summarised(m, history(rs, n)), 0 <= n < 0x4_0000_0000_0000, x < 0x400_0000_0000_0000_0000
    ensures fits(m, k, x)
{
    history_bound(rs, n, k);
    if m.contains_key(k) {
        let l = history(rs, n)[k].len() as int;
        assert(summarises(m[k], history(rs, n)[k]));
        min_max(m[k], history(rs, n)[k]);
        assert(l * 0x400_0000_0000_0000_0000 <= 0x4_0000_0000_0000 * 0x400_0000_0000_0000_0000) by (nonlinear_arith) requires l <= 0x4_0000_0000_0000;
    }
}
/// what a thread that counts prints at the end
pub open spec fn counts(stat: bool, a: VxRun, o: Seq<char>, b: VxRun, p: Seq<char>) -> bool {
    if stat { b.ended() && exists|s: Stats, t: Seq<char>| #[trigger] all_summarised(s.stats@, history(b.received(), b.received().len() as int)) && #[trigger] spelled(s.stats@, t) && p == o + t } else { p == o }
}
/// the only run of a test that was not named
pub open spec fn once(test: Seq<Expr>, c: Context, a: VxRun, o: Seq<char>, b: VxRun, p: Seq<char>, file: Option<VxPath>, name: Seq<char>, thread: u32, stat: bool, channel: int, rs: Seq<Record>) -> bool {
    let run = evaluates(test, c, o, rs);
    &&& run.n.n == rs.len()
    &&& match run.v { Out::Value(_) => p == run.n.o + record_lines(rs, rs.len() as int), Out::Error => exists|t: Seq<char>| p == #[trigger] line(run.n.o, t) + record_lines(rs, rs.len() as int), Out::Wrong => false }
    &&& b.written() == (match file { Some(f) => a.written().push(Written { file: f, records: rs, name, thread, number: 0 }), None => a.written() })
    &&& b.sent() == (if stat { a.sent().push((channel, rs)) } else { a.sent() })
}
// proved in unit stat: Display for Stats writes a text that gives every entry once; the same value is written in the same way
//@broadcast vxsd::stats_spelled
pub mod vxsd {
use vstd::prelude::*;
use crate::{Stats, spelled};
pub uninterp spec fn stats_text(s: Stats) -> Seq<char>;
#[verifier::external_body]
pub broadcast proof fn stats_spelled(s: Stats)
    ensures spelled(s.stats@, #[trigger] stats_text(s))
{ }
}
pub use vxsd::*;
impl VxShow for Stats {
    open spec fn shown(&self) -> Seq<char> { stats_text(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
// proved in unit eval: Display for Record
impl VxShow for Record {
    open spec fn shown(&self) -> Seq<char> { record_text(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
// ---- what a test begins ----
pub open spec fn share(number: u32, threads: u32, thread: int) -> int { number as int / threads as int + (if thread < number as int % threads as int { 1int } else { 0 }) }
pub open spec fn total(ws: Seq<Worker>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { total(ws, n - 1) + ws[n - 1].maximum } }
pub proof fn total_prefix(ws: Seq<Worker>, w: Worker, n: int)
    requires 0 <= n <= ws.len()
    ensures total(ws.push(w), n) == total(ws, n)
    decreases n
{ if n > 0 { total_prefix(ws, w, n - 1); } }
/// how many runs the first n threads have
pub open spec fn shared(number: u32, threads: u32, n: int) -> int { n * (number as int / threads as int) + (if n < number as int % threads as int { n } else { number as int % threads as int }) }
pub proof fn shares(number: u32, threads: u32, thread: int)
    requires 0 <= thread < threads
    ensures share(number, threads, thread) <= number, number as int / threads as int >= 0, shared(number, threads, thread) + share(number, threads, thread) == shared(number, threads, thread + 1), shared(number, threads, threads as int) == number, shared(number, threads, 0) == 0
{
    let (q, m) = (number as int / threads as int, number as int % threads as int);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(number as int, threads as int);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(number as int, threads as int);
    vstd::arithmetic::div_mod::lemma_mod_bound(number as int, threads as int);
    vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(q, thread, 1);
    assert((thread + 1) * q == thread * q + q) by (nonlinear_arith);
    assert(threads as int * q >= q) by (nonlinear_arith) requires threads >= 1, q >= 0;
    assert(0 * q == 0);
}
pub open spec fn set_up(src: Program, c: Context, o: Seq<char>, p: Seq<char>) -> bool {
    let run = ev_block(src.exprs, 0, Value::Null, Map::empty(), src.requests, c.records@, At { n: 0, o });
    run.v is Value && c.inner@ == run.env && c.requests@ == src.requests && p == run.n.o && run.n.n == c.records@.len()
}
pub open spec fn set_up_fails(src: Program, o: Seq<char>) -> bool { exists|rs: Seq<Record>| #[trigger] ev_block(src.exprs, 0, Value::Null, Map::empty(), src.requests, rs, At { n: 0, o }).v is Error }
/// the workers of a named test: each has its own context as set up, its own file, all share one flag and one channel
pub open spec fn is_worker(w: Worker, i: int, c: Context, n: Seq<char>, test: Seq<Expr>, record: Option<VxPath>, stat: bool, flag: int, channel: int) -> bool {
    w.flag == flag && w.test == test && fork(c, w.context) && w.file == file_of(record, i as u32) && w.name == n && w.thread == i && w.stat == stat && w.channel == channel
}
pub open spec fn is_single(s: Single, i: int, c: Context, n: Seq<char>, test: Seq<Expr>, record: Option<VxPath>, stat: bool, channel: int) -> bool {
    s.test == test && fork(c, s.context) && s.file == file_of(record, i as u32) && s.name == n && s.thread == i as u32 && s.stat == stat && s.channel == channel
}
pub open spec fn counted(w: VxWork, stat: bool) -> bool { w.counters().len() == 1 && w.counters()[0].0 == stat && w.counters()[0].1 == w.channel() && w.joined().contains(w.counters()[0].2) }
pub open spec fn named(w: VxWork, c: Context, n: Seq<char>, test: Seq<Expr>, threads: u32, duration: Duration, number: u32, record: Option<VxPath>, stat: bool) -> bool {
    &&& w.workers().len() == threads && w.singles().len() == 0 && counted(w, stat)
    &&& w.timers().len() == 1 && w.timers()[0].0 == duration
    &&& forall|i: int| 0 <= i < threads ==> is_worker(#[trigger] w.workers()[i], i, c, n, test, record, stat, w.timers()[0].1, w.channel()) && w.joined().contains(w.workers()[i].id)
    &&& threads > 0 ==> total(w.workers(), threads as int) == number
}
pub open spec fn unnamed(w: VxWork, c: Context, tests: Map<String, Vec<Expr>>, record: Option<VxPath>, stat: bool) -> bool {
    &&& w.workers().len() == 0 && w.timers().len() == 0 && counted(w, stat)
    &&& exists|l: Seq<(String, Vec<Expr>)>| #[trigger] lists(l, tests) && w.singles().len() == l.len()
        && forall|i: int| 0 <= i < l.len() ==> is_single(#[trigger] w.singles()[i], i, c, l[i].0@, l[i].1@, record, stat, w.channel()) && w.joined().contains(w.singles()[i].id)
}
pub open spec fn tested(text: Seq<char>, name: Option<String>, threads: u32, duration: Duration, number: u32, record: Option<VxPath>, stat: bool, o: Seq<char>, w: VxWork) -> bool {
    match program_of(text) {
        None => w.nothing(),
        Some(src) => (set_up_fails(src, o) && w.nothing()) || exists|c: Context, p: Seq<char>| #[trigger] set_up(src, c, o, p) && match name {
            Some(n) => if src.tests.contains_key(n) { named(w, c, n@, src.tests[n]@, threads, duration, number, record, stat) } else { w.workers().len() == 0 && w.singles().len() == 0 && w.timers().len() == 0 },
            None => unnamed(w, c, src.tests, record, stat),
        },
    }
}
// ---- the command line ----
#[verifier::external_body]
pub exec const VX_FOREVER: Duration ensures VX_FOREVER == forever() { Duration { p: () } }
/// Duration::MAX
pub uninterp spec fn forever() -> Duration;
/// what the program was called with
pub uninterp spec fn arguments() -> Interface;
/// clap fills the structure from the command line
#[verifier::external_body]
pub fn vx_arguments() -> (r: Interface) ensures r == arguments() { unimplemented!() }
/// without a duration the clock does not end a test, with one the number of runs does not
pub open spec fn lasting(d: Option<Duration>) -> Duration { match d { Some(t) => t, None => forever() } }
pub open spec fn asked(d: Option<Duration>, number: u32) -> u32 { match d { Some(_) => u32::MAX, None => number } }
/// what a call of the program does
pub open spec fn called(a: Interface, o: Seq<char>, p: Seq<char>, w: VxWork) -> bool {
    match a.command {
        Some(Commands::Eval { text }) => w.nothing() && exists|c: Context, d: Context| fresh(c) && #[trigger] evaluated(text@, c, o, d, p),
        Some(Commands::Test { name, threads, duration, number, path, record, stat }) => exists|d: VxPath| (path matches Some(x) ==> d == x)
            && #[trigger] tested(source_text(d), name, threads, lasting(duration), asked(duration, number), record, stat, o, w),
        None => w.nothing() && session(input_lines(), o, p),
    }
}
// ---- beginning a thread: it does what its body is proved to do ----
#[verifier::external_body]
pub fn vx_spawn_test_thread0(continuous: Arc<VxFlag>, maximun: u32, test: Arc<Vec<Expr>>, context: Context, writer: Option<VxWriter>, name: Arc<String>, thread: u32, stat: bool, sender: VxSender, w: &mut VxWork) -> (r: VxHandle)
    requires context.records@.len() == 0, continuous.initially()
    ensures final(w).workers() == old(w).workers().push(Worker { flag: continuous.id(), maximum: maximun, test: test@, context, file: file_of_writer(writer), name: name@, thread, stat, channel: sender.channel(), id: r.id() }),
        r.id() == old(w).begun(), final(w).begun() == old(w).begun() + 1, final(w).singles() == old(w).singles(), final(w).timers() == old(w).timers(), final(w).counters() == old(w).counters(),
        final(w).channel() == old(w).channel(), final(w).joined() == old(w).joined(), final(w).held() == (old(w).held() && !sender.original())
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_spawn_test_thread1(duration: Duration, continuous: Arc<VxFlag>, w: &mut VxWork) -> (r: VxHandle)
    ensures final(w).timers() == old(w).timers().push((duration, continuous.id())),
        r.id() == old(w).begun(), final(w).begun() == old(w).begun() + 1, final(w).workers() == old(w).workers(), final(w).singles() == old(w).singles(), final(w).counters() == old(w).counters(), final(w).same_channel(*old(w))
{ unimplemented!() }
/// ctrlc::set_handler: the function runs, if at all, when the program is interrupted
#[verifier::external_body]
pub fn vx_spawn_handle_interrupt_thread0(continuous: Arc<VxFlag>, w: &mut VxWork) -> (r: Result<(), VxJoinError>)
    ensures final(w).handlers() == old(w).handlers().push(continuous.id()), final(w).same_threads(*old(w)), final(w).same_channel(*old(w))
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_spawn_test_thread2(test: Vec<Expr>, context: Context, writer: Option<VxWriter>, name: String, thread: usize, stat: bool, sender: VxSender, w: &mut VxWork) -> (r: VxHandle)
    requires context.records@.len() == 0
    ensures final(w).singles() == old(w).singles().push(Single { test: test@, context, file: file_of_writer(writer), name: name@, thread: thread as u32, stat, channel: sender.channel(), id: r.id() }),
        r.id() == old(w).begun(), final(w).begun() == old(w).begun() + 1, final(w).workers() == old(w).workers(), final(w).timers() == old(w).timers(), final(w).counters() == old(w).counters(),
        final(w).channel() == old(w).channel(), final(w).joined() == old(w).joined(), final(w).held() == (old(w).held() && !sender.original())
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_spawn_test_thread3(stat: bool, receiver: VxReceiver, w: &mut VxWork) -> (r: VxHandle)
    ensures final(w).counters() == old(w).counters().push((stat, receiver.channel(), r.id())),
        r.id() == old(w).begun(), final(w).begun() == old(w).begun() + 1, final(w).workers() == old(w).workers(), final(w).singles() == old(w).singles(), final(w).timers() == old(w).timers(), final(w).same_channel(*old(w))
{ unimplemented!() }
} // mod vxr
pub use vxr::*;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum VxOrder { Relaxed, Release, Acquire, AcqRel, SeqCst }

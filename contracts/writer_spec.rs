// ---- the record file: Avro ----
//@meta META
//@broadcast vxw::lemma_into_push
//@broadcast vxw::axiom_raw_bytes
//@broadcast vxw::axiom_raw_text
pub mod vxw {
use vstd::prelude::*;
use crate::*;

// ---- numbers ----
pub open spec fn zig(i: i64) -> u64 { if i >= 0 { (2 * i) as u64 } else { (-2 * i - 1) as u64 } }
pub open spec fn unzig(z: u64) -> i64 { if z % 2 == 0 { (z / 2) as i64 } else { (-1 - (z / 2)) as i64 } }
pub proof fn zigzag(i: i64)
    ensures ((i << 1) ^ (i >> 63)) as u64 == zig(i), unzig(zig(i)) == i
{
    assert(i >= 0 ==> ((i << 1) ^ (i >> 63)) as u64 == 2 * (i as u64)) by (bit_vector);
    assert(i < 0 ==> ((i << 1) ^ (i >> 63)) as u64 == 2 * ((-(i + 1)) as u64) + 1) by (bit_vector);
}
/// seven bits a byte, the lowest first, the high bit on all but the last
pub open spec fn vlq(z: u64) -> Seq<u8>
    decreases z
{ if z < 128 { seq![z as u8] } else { seq![(128 + z % 128) as u8] + vlq(z / 128) } }
pub proof fn bits(z: u64)
    ensures (z & 0x7F) as u8 as int == z % 128, (0x80 | (z & 0x7f)) as u8 as int == 128 + z % 128, z >> 7 == z / 128
{
    assert((z & 0x7F) as u8 == z % 128) by (bit_vector);
    assert((0x80 | (z & 0x7f)) as u8 == 128 + z % 128) by (bit_vector);
    assert(z >> 7 == z / 128) by (bit_vector);
}
pub open spec fn enc_long(i: i64) -> Seq<u8> { vlq(zig(i)) }
pub open spec fn enc_bytes(b: Seq<u8>) -> Seq<u8> { enc_long(b.len() as i64) + b }
pub open spec fn enc_bool(b: bool) -> Seq<u8> { seq![if b { 1u8 } else { 0u8 }] }

// ---- records ----
pub struct PairB { pub name: Seq<u8>, pub value: Seq<u8> }
pub struct CheckB { pub expr: Seq<u8>, pub left: Seq<u8>, pub compare: Seq<u8>, pub right: Seq<u8>, pub result: bool }
pub enum Field { Long(i64), Bytes(Seq<u8>), Pairs(Seq<PairB>), Checks(Seq<CheckB>) }
pub enum Shape { Long, Bytes, Pairs, Checks }
pub open spec fn pair_into(b: Seq<u8>, p: PairB) -> Seq<u8> { b + enc_long(2) + enc_bytes(p.name) + enc_bytes(p.value) + enc_long(0) }
pub open spec fn pairs_into(b: Seq<u8>, h: Seq<PairB>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { b } else { pair_into(pairs_into(b, h, n - 1), h[n - 1]) } }
pub open spec fn check_into(b: Seq<u8>, c: CheckB) -> Seq<u8> { b + enc_bytes(c.expr) + enc_bytes(c.left) + enc_bytes(c.compare) + enc_bytes(c.right) + enc_bool(c.result) }
pub open spec fn checks_into(b: Seq<u8>, h: Seq<CheckB>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { b } else { check_into(checks_into(b, h, n - 1), h[n - 1]) } }
/// an array without items is just its end
pub open spec fn counted(b: Seq<u8>, n: int) -> Seq<u8> { if n > 0 { b + enc_long(n as i64) } else { b } }
pub open spec fn field_into(b: Seq<u8>, f: Field) -> Seq<u8> {
    match f {
        Field::Long(i) => b + enc_long(i),
        Field::Bytes(t) => b + enc_bytes(t),
        Field::Pairs(h) => pairs_into(counted(b, h.len() as int), h, h.len() as int) + enc_long(0),
        Field::Checks(h) => checks_into(counted(b, h.len() as int), h, h.len() as int) + enc_long(0),
    }
}
pub open spec fn into(b: Seq<u8>, fs: Seq<Field>) -> Seq<u8>
    decreases fs.len()
{ if fs.len() == 0 { b } else { field_into(into(b, fs.drop_last()), fs.last()) } }
pub broadcast proof fn lemma_into_push(b: Seq<u8>, fs: Seq<Field>, f: Field)
    ensures #[trigger] into(b, fs.push(f)) == field_into(into(b, fs), f)
{ assert(fs.push(f).drop_last() =~= fs); }
pub proof fn take_step(b: Seq<u8>, fs: Seq<Field>, k: int)
    requires 0 <= k < fs.len()
    ensures into(b, fs.take(k + 1)) == field_into(into(b, fs.take(k)), fs[k])
{ assert(fs.take(k + 1).drop_last() =~= fs.take(k)); }
/// the row, one field after the other
pub proof fn row_steps(b: Seq<u8>, fs: Seq<Field>)
    requires fs.len() == 25
    ensures into(b, fs.take(0)) == b, fs.take(25) == fs,
        into(b, fs.take(1)) == field_into(into(b, fs.take(0)), fs[0]),
        into(b, fs.take(2)) == field_into(into(b, fs.take(1)), fs[1]),
        into(b, fs.take(3)) == field_into(into(b, fs.take(2)), fs[2]),
        into(b, fs.take(4)) == field_into(into(b, fs.take(3)), fs[3]),
        into(b, fs.take(5)) == field_into(into(b, fs.take(4)), fs[4]),
        into(b, fs.take(6)) == field_into(into(b, fs.take(5)), fs[5]),
        into(b, fs.take(7)) == field_into(into(b, fs.take(6)), fs[6]),
        into(b, fs.take(8)) == field_into(into(b, fs.take(7)), fs[7]),
        into(b, fs.take(9)) == field_into(into(b, fs.take(8)), fs[8]),
        into(b, fs.take(10)) == field_into(into(b, fs.take(9)), fs[9]),
        into(b, fs.take(11)) == field_into(into(b, fs.take(10)), fs[10]),
        into(b, fs.take(12)) == field_into(into(b, fs.take(11)), fs[11]),
        into(b, fs.take(13)) == field_into(into(b, fs.take(12)), fs[12]),
        into(b, fs.take(14)) == field_into(into(b, fs.take(13)), fs[13]),
        into(b, fs.take(15)) == field_into(into(b, fs.take(14)), fs[14]),
        into(b, fs.take(16)) == field_into(into(b, fs.take(15)), fs[15]),
        into(b, fs.take(17)) == field_into(into(b, fs.take(16)), fs[16]),
        into(b, fs.take(18)) == field_into(into(b, fs.take(17)), fs[17]),
        into(b, fs.take(19)) == field_into(into(b, fs.take(18)), fs[18]),
        into(b, fs.take(20)) == field_into(into(b, fs.take(19)), fs[19]),
        into(b, fs.take(21)) == field_into(into(b, fs.take(20)), fs[20]),
        into(b, fs.take(22)) == field_into(into(b, fs.take(21)), fs[21]),
        into(b, fs.take(23)) == field_into(into(b, fs.take(22)), fs[22]),
        into(b, fs.take(24)) == field_into(into(b, fs.take(23)), fs[23]),
        into(b, fs.take(25)) == field_into(into(b, fs.take(24)), fs[24]),
{
    assert(fs.take(25) =~= fs);
    take_step(b, fs, 0); take_step(b, fs, 1); take_step(b, fs, 2); take_step(b, fs, 3); take_step(b, fs, 4); take_step(b, fs, 5); take_step(b, fs, 6); take_step(b, fs, 7); take_step(b, fs, 8); take_step(b, fs, 9); take_step(b, fs, 10); take_step(b, fs, 11); take_step(b, fs, 12); take_step(b, fs, 13); take_step(b, fs, 14); take_step(b, fs, 15); take_step(b, fs, 16); take_step(b, fs, 17); take_step(b, fs, 18); take_step(b, fs, 19); take_step(b, fs, 20); take_step(b, fs, 21); take_step(b, fs, 22); take_step(b, fs, 23); take_step(b, fs, 24);
}
pub open spec fn rows_into(b: Seq<u8>, rows: Seq<Seq<Field>>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { b } else { into(rows_into(b, rows, n - 1), rows[n - 1]) } }
pub open spec fn pairs_b(h: Seq<Header>) -> Seq<PairB> { h.map_values(|x: Header| PairB { name: utf8(x.name@), value: utf8(x.value@) }) }
pub open spec fn checks_b(a: Seq<Assert>) -> Seq<CheckB> { a.map_values(|x: Assert| CheckB { expr: utf8(x.expr@), left: utf8(x.left@), compare: utf8(x.compare@), right: utf8(x.right@), result: x.result }) }
/// what the file says about a record, in the order of the schema
pub open spec fn row_of(r: Record, test: Seq<char>, thread: u32, number: u32, order: int) -> Seq<Field> {
    seq![
        Field::Bytes(utf8(test)), Field::Long(thread as i64), Field::Long(number as i64), Field::Long(order as i64),
        Field::Long(r.time.start.nanos() as i64), Field::Long(r.time.end.nanos() as i64), Field::Long(r.time.total.nanos() as i64), Field::Long(r.time.resolve.nanos() as i64),
        Field::Long(r.time.connect.nanos() as i64), Field::Long(r.time.write.nanos() as i64), Field::Long(r.time.delay.nanos() as i64), Field::Long(r.time.read.nanos() as i64),
        Field::Bytes(utf8(r.name@)), Field::Bytes(utf8(method_text(r.request.method))), Field::Bytes(utf8(r.request.url.shown())), Field::Bytes(utf8(version_text(r.request.version))),
        Field::Pairs(pairs_b(r.request.headers.inner@)), Field::Bytes(utf8(r.request.body@)),
        Field::Bytes(utf8(r.response.version@)), Field::Long(r.response.status as i64), Field::Bytes(utf8(r.response.reason@)),
        Field::Pairs(pairs_b(r.response.headers.inner@)), Field::Bytes(utf8(r.response.body@)),
        Field::Checks(checks_b(r.asserts@)), Field::Bytes(utf8(r.error@)),
    ]
}
/// the published schema
pub open spec fn schema() -> Seq<Shape> {
    seq![
        Shape::Bytes, Shape::Long, Shape::Long, Shape::Long,
        Shape::Long, Shape::Long, Shape::Long, Shape::Long, Shape::Long, Shape::Long, Shape::Long, Shape::Long,
        Shape::Bytes, Shape::Bytes, Shape::Bytes, Shape::Bytes, Shape::Pairs, Shape::Bytes,
        Shape::Bytes, Shape::Long, Shape::Bytes, Shape::Pairs, Shape::Bytes, Shape::Checks, Shape::Bytes,
    ]
}
pub open spec fn rows_of(records: Seq<Record>, test: Seq<char>, thread: u32, number: u32) -> Seq<Seq<Field>> {
    Seq::new(records.len(), |i: int| row_of(records[i], test, thread, number, i))
}
pub open spec fn marker() -> Seq<u8> { seq![97u8, 102, 105, 108, 101, 115, 121, 110, 99, 109, 97, 114, 107, 101, 114, 2] }
pub open spec fn magic() -> Seq<u8> { seq![79u8, 98, 106, 1] }
pub open spec fn block(rows: Seq<Seq<Field>>) -> Seq<u8> {
    let data = rows_into(Seq::empty(), rows, rows.len() as int);
    enc_long(rows.len() as i64) + enc_long(data.len() as i64) + data + marker()
}
pub open spec fn meta_into(b: Seq<u8>, m: Seq<(&str, &str)>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { b } else { meta_into(b, m, n - 1) + enc_bytes(utf8(m[n - 1].0@)) + enc_bytes(utf8(m[n - 1].1@)) } }
pub open spec fn file_header(m: Seq<(&str, &str)>) -> Seq<u8> { meta_into(magic() + enc_long(m.len() as i64), m, m.len() as int) + seq![0u8] + marker() }

// ---- library ----
/// AsRef<[u8]>
pub uninterp spec fn raw<B: ?Sized>(b: &B) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn axiom_raw_bytes(b: &[u8]) ensures #[trigger] raw::<[u8]>(b) == b@ { }
#[verifier::external_body]
pub broadcast proof fn axiom_raw_text(b: &str) ensures #[trigger] raw::<str>(b) == utf8(b@) { }
pub trait VxRaw<T: ?Sized> { fn vx_as_ref(&self) -> (r: &[u8]) ensures r@ == raw::<Self>(self); }
impl VxRaw<[u8]> for str {
    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
impl VxRaw<[u8]> for [u8] {
    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &[u8]) { self }
}
/// u8::from of a bool
#[verifier::external_body]
pub fn vx_u8(b: bool) -> (r: u8) ensures r == if b { 1u8 } else { 0u8 } { u8::from(b) }
/// std::time::Duration
#[verifier::external_body]
pub struct VxDuration { p: core::time::Duration }
impl VxDuration {
    pub uninterp spec fn nanos(&self) -> u128;
    #[verifier::external_body]
    pub fn as_nanos(&self) -> (r: u128) ensures r == self.nanos() { unimplemented!() }
}

// ---- reading it back ----
pub open spec fn dec_var(b: Seq<u8>) -> Option<(int, Seq<u8>)>
    decreases b.len()
{
    if b.len() == 0 { None } else if b[0] < 128 { Some((b[0] as int, b.skip(1))) }
    else { match dec_var(b.skip(1)) { Some((v, r)) => Some((b[0] - 128 + 128 * v, r)), None => None } }
}
pub open spec fn dec_long(b: Seq<u8>) -> Option<(i64, Seq<u8>)> {
    match dec_var(b) { Some((v, r)) => if 0 <= v <= u64::MAX { Some((unzig(v as u64), r)) } else { None }, None => None }
}
pub open spec fn dec_bytes(b: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match dec_long(b) { Some((n, r)) => if 0 <= n <= r.len() { Some((r.take(n as int), r.skip(n as int))) } else { None }, None => None }
}
pub open spec fn dec_bool(b: Seq<u8>) -> Option<(bool, Seq<u8>)> { if b.len() > 0 && b[0] <= 1 { Some((b[0] == 1, b.skip(1))) } else { None } }
/// an array of two texts
pub open spec fn dec_pair(b: Seq<u8>) -> Option<(PairB, Seq<u8>)> {
    match dec_long(b) { Some((2i64, b1)) => match dec_bytes(b1) { Some((name, b2)) => match dec_bytes(b2) { Some((value, b3)) => match dec_long(b3) {
        Some((0i64, b4)) => Some((PairB { name, value }, b4)), _ => None }, None => None }, None => None }, _ => None }
}
pub open spec fn dec_check(b: Seq<u8>) -> Option<(CheckB, Seq<u8>)> {
    match dec_bytes(b) { Some((expr, b1)) => match dec_bytes(b1) { Some((left, b2)) => match dec_bytes(b2) { Some((compare, b3)) => match dec_bytes(b3) { Some((right, b4)) => match dec_bool(b4) {
        Some((result, b5)) => Some((CheckB { expr, left, compare, right, result }, b5)), None => None }, None => None }, None => None }, None => None }, None => None }
}
pub open spec fn dec_pairs(n: int, b: Seq<u8>) -> Option<(Seq<PairB>, Seq<u8>)>
    decreases n
{ if n <= 0 { Some((Seq::empty(), b)) } else { match dec_pair(b) { Some((p, b1)) => match dec_pairs(n - 1, b1) { Some((ps, b2)) => Some((seq![p] + ps, b2)), None => None }, None => None } } }
pub open spec fn dec_checks(n: int, b: Seq<u8>) -> Option<(Seq<CheckB>, Seq<u8>)>
    decreases n
{ if n <= 0 { Some((Seq::empty(), b)) } else { match dec_check(b) { Some((p, b1)) => match dec_checks(n - 1, b1) { Some((ps, b2)) => Some((seq![p] + ps, b2)), None => None }, None => None } } }
pub open spec fn dec_field(k: Shape, b: Seq<u8>) -> Option<(Field, Seq<u8>)> {
    match k {
        Shape::Long => match dec_long(b) { Some((i, r)) => Some((Field::Long(i), r)), None => None },
        Shape::Bytes => match dec_bytes(b) { Some((t, r)) => Some((Field::Bytes(t), r)), None => None },
        Shape::Pairs => match dec_long(b) {
            Some((n, r)) => if n == 0 { Some((Field::Pairs(Seq::empty()), r)) } else if n < 0 { None } else { match dec_pairs(n as int, r) { Some((h, r2)) => match dec_long(r2) { Some((0i64, r3)) => Some((Field::Pairs(h), r3)), _ => None }, None => None } },
            None => None },
        Shape::Checks => match dec_long(b) {
            Some((n, r)) => if n == 0 { Some((Field::Checks(Seq::empty()), r)) } else if n < 0 { None } else { match dec_checks(n as int, r) { Some((h, r2)) => match dec_long(r2) { Some((0i64, r3)) => Some((Field::Checks(h), r3)), _ => None }, None => None } },
            None => None },
    }
}
pub open spec fn dec_row(k: Seq<Shape>, b: Seq<u8>) -> Option<(Seq<Field>, Seq<u8>)>
    decreases k.len()
{ if k.len() == 0 { Some((Seq::empty(), b)) } else { match dec_field(k[0], b) { Some((f, b1)) => match dec_row(k.drop_first(), b1) { Some((fs, b2)) => Some((seq![f] + fs, b2)), None => None }, None => None } } }
pub open spec fn dec_rows(n: int, b: Seq<u8>) -> Option<(Seq<Seq<Field>>, Seq<u8>)>
    decreases n
{ if n <= 0 { Some((Seq::empty(), b)) } else { match dec_row(schema(), b) { Some((f, b1)) => match dec_rows(n - 1, b1) { Some((fs, b2)) => Some((seq![f] + fs, b2)), None => None }, None => None } } }
pub open spec fn dec_block(b: Seq<u8>) -> Option<(Seq<Seq<Field>>, Seq<u8>)> {
    match dec_long(b) { Some((n, b1)) => match dec_long(b1) {
        Some((m, b2)) => if n > 0 && 0 <= m && m + 16 <= b2.len() && b2.subrange(m as int, m + 16) == marker() {
            match dec_rows(n as int, b2.take(m as int)) { Some((rows, left)) => if left.len() == 0 { Some((rows, b2.skip(m + 16))) } else { None }, None => None }
        } else { None },
        None => None }, None => None }
}
pub open spec fn dec_blocks(b: Seq<u8>) -> Option<Seq<Seq<Field>>>
    decreases b.len()
{ if b.len() == 0 { Some(Seq::empty()) } else { match dec_block(b) { Some((rows, b1)) => if b1.len() < b.len() { match dec_blocks(b1) { Some(more) => Some(rows + more), None => None } } else { None }, None => None } } }

// ---- what was written is read back ----
pub proof fn var_back(z: u64, rest: Seq<u8>)
    ensures dec_var(vlq(z) + rest) == Some((z as int, rest)), vlq(z).len() > 0
    decreases z
{
    let b = vlq(z) + rest;
    if z < 128 { assert(b.skip(1) =~= rest); }
    else { var_back(z / 128, rest); assert(b.skip(1) =~= vlq(z / 128) + rest); assert(b[0] == 128 + z % 128); }
}
pub proof fn long_back(i: i64, rest: Seq<u8>)
    ensures dec_long(enc_long(i) + rest) == Some((i, rest)), enc_long(i).len() > 0
{ var_back(zig(i), rest); zigzag(i); }
pub open spec fn short(b: Seq<u8>) -> bool { b.len() <= i64::MAX }
pub proof fn bytes_back(t: Seq<u8>, rest: Seq<u8>)
    requires short(t)
    ensures dec_bytes(enc_bytes(t) + rest) == Some((t, rest))
{
    long_back(t.len() as i64, t + rest);
    assert(enc_bytes(t) + rest =~= enc_long(t.len() as i64) + (t + rest));
    assert((t + rest).take(t.len() as int) =~= t);
    assert((t + rest).skip(t.len() as int) =~= rest);
}
pub proof fn pair_back(p: PairB, rest: Seq<u8>)
    requires short(p.name), short(p.value)
    ensures dec_pair(pair_into(Seq::empty(), p) + rest) == Some((p, rest))
{
    let r3 = enc_long(0) + rest; let r2 = enc_bytes(p.value) + r3; let r1 = enc_bytes(p.name) + r2;
    assert(pair_into(Seq::empty(), p) + rest =~= enc_long(2) + r1);
    long_back(2, r1); bytes_back(p.name, r2); bytes_back(p.value, r3); long_back(0, rest);
}
pub proof fn check_back(c: CheckB, rest: Seq<u8>)
    requires short(c.expr), short(c.left), short(c.compare), short(c.right)
    ensures dec_check(check_into(Seq::empty(), c) + rest) == Some((c, rest))
{
    let r4 = enc_bool(c.result) + rest; let r3 = enc_bytes(c.right) + r4; let r2 = enc_bytes(c.compare) + r3; let r1 = enc_bytes(c.left) + r2;
    assert(check_into(Seq::empty(), c) + rest =~= enc_bytes(c.expr) + r1);
    bytes_back(c.expr, r1); bytes_back(c.left, r2); bytes_back(c.compare, r3); bytes_back(c.right, r4);
    assert(r4.skip(1) =~= rest);
}
/// appending to a base is appending to nothing, put after the base
pub proof fn pairs_base(b: Seq<u8>, h: Seq<PairB>, n: int)
    ensures pairs_into(b, h, n) == b + pairs_into(Seq::empty(), h, n)
    decreases n
{
    if n <= 0 { assert(b + Seq::<u8>::empty() =~= b); }
    else {
        pairs_base(b, h, n - 1);
        let e = pairs_into(Seq::empty(), h, n - 1);
        assert(pair_into(b + e, h[n - 1]) =~= b + pair_into(e, h[n - 1]));
    }
}
pub proof fn checks_base(b: Seq<u8>, h: Seq<CheckB>, n: int)
    ensures checks_into(b, h, n) == b + checks_into(Seq::empty(), h, n)
    decreases n
{
    if n <= 0 { assert(b + Seq::<u8>::empty() =~= b); }
    else {
        checks_base(b, h, n - 1);
        let e = checks_into(Seq::empty(), h, n - 1);
        assert(check_into(b + e, h[n - 1]) =~= b + check_into(e, h[n - 1]));
    }
}
/// the first item comes first
pub proof fn pairs_first(h: Seq<PairB>, n: int)
    requires 0 < n <= h.len()
    ensures pairs_into(Seq::empty(), h, n) == pair_into(Seq::empty(), h[0]) + pairs_into(Seq::empty(), h.drop_first(), n - 1)
    decreases n
{
    let e = Seq::<u8>::empty();
    reveal_with_fuel(pairs_into, 2);
    if n == 1 { assert(pair_into(e, h[0]) + e =~= pair_into(e, h[0])); }
    else {
        pairs_first(h, n - 1);
        let x = pair_into(e, h[0]); let y = pairs_into(e, h.drop_first(), n - 2);
        assert(h.drop_first()[n - 2] == h[n - 1]);
        assert(pair_into(x + y, h[n - 1]) =~= x + pair_into(y, h[n - 1]));
    }
}
pub proof fn checks_first(h: Seq<CheckB>, n: int)
    requires 0 < n <= h.len()
    ensures checks_into(Seq::empty(), h, n) == check_into(Seq::empty(), h[0]) + checks_into(Seq::empty(), h.drop_first(), n - 1)
    decreases n
{
    let e = Seq::<u8>::empty();
    reveal_with_fuel(checks_into, 2);
    if n == 1 { assert(check_into(e, h[0]) + e =~= check_into(e, h[0])); }
    else {
        checks_first(h, n - 1);
        let x = check_into(e, h[0]); let y = checks_into(e, h.drop_first(), n - 2);
        assert(h.drop_first()[n - 2] == h[n - 1]);
        assert(check_into(x + y, h[n - 1]) =~= x + check_into(y, h[n - 1]));
    }
}
pub open spec fn short_pairs(h: Seq<PairB>) -> bool { h.len() <= i64::MAX && forall|i: int| 0 <= i < h.len() ==> short((#[trigger] h[i]).name) && short(h[i].value) }
pub open spec fn short_checks(h: Seq<CheckB>) -> bool { h.len() <= i64::MAX && forall|i: int| 0 <= i < h.len() ==> short((#[trigger] h[i]).expr) && short(h[i].left) && short(h[i].compare) && short(h[i].right) }
pub proof fn pairs_back(h: Seq<PairB>, rest: Seq<u8>)
    requires short_pairs(h)
    ensures dec_pairs(h.len() as int, pairs_into(Seq::empty(), h, h.len() as int) + rest) == Some((h, rest))
    decreases h.len()
{
    hide(dec_pair); hide(pair_into);
    let e = Seq::<u8>::empty();
    if h.len() == 0 { assert(e + rest =~= rest); assert(h =~= Seq::empty()); }
    else {
        let t = h.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies short((#[trigger] t[i]).name) && short(t[i].value) by { assert(t[i] == h[i + 1]); }
        pairs_first(h, h.len() as int);
        pairs_back(t, rest);
        let tail = pairs_into(e, t, t.len() as int) + rest;
        assert(pairs_into(e, h, h.len() as int) + rest =~= pair_into(e, h[0]) + tail);
        pair_back(h[0], tail);
        assert(seq![h[0]] + t =~= h);
    }
}
pub proof fn checks_back(h: Seq<CheckB>, rest: Seq<u8>)
    requires short_checks(h)
    ensures dec_checks(h.len() as int, checks_into(Seq::empty(), h, h.len() as int) + rest) == Some((h, rest))
    decreases h.len()
{
    hide(dec_check); hide(check_into);
    let e = Seq::<u8>::empty();
    if h.len() == 0 { assert(e + rest =~= rest); assert(h =~= Seq::empty()); }
    else {
        let t = h.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies short((#[trigger] t[i]).expr) && short(t[i].left) && short(t[i].compare) && short(t[i].right) by { assert(t[i] == h[i + 1]); }
        checks_first(h, h.len() as int);
        checks_back(t, rest);
        let tail = checks_into(e, t, t.len() as int) + rest;
        assert(checks_into(e, h, h.len() as int) + rest =~= check_into(e, h[0]) + tail);
        check_back(h[0], tail);
        assert(seq![h[0]] + t =~= h);
    }
}
pub open spec fn enc_field(f: Field) -> Seq<u8> { field_into(Seq::empty(), f) }
pub open spec fn shape(f: Field) -> Shape { match f { Field::Long(_) => Shape::Long, Field::Bytes(_) => Shape::Bytes, Field::Pairs(_) => Shape::Pairs, Field::Checks(_) => Shape::Checks } }
pub open spec fn short_field(f: Field) -> bool { match f { Field::Long(_) => true, Field::Bytes(t) => short(t), Field::Pairs(h) => short_pairs(h), Field::Checks(h) => short_checks(h) } }
pub open spec fn short_row(fs: Seq<Field>) -> bool { forall|i: int| 0 <= i < fs.len() ==> short_field(#[trigger] fs[i]) }
pub proof fn field_base(b: Seq<u8>, f: Field)
    ensures field_into(b, f) == b + enc_field(f)
{
    let e = Seq::<u8>::empty();
    match f {
        Field::Long(i) => { assert(e + enc_long(i) =~= enc_long(i)); },
        Field::Bytes(t) => { assert(e + enc_bytes(t) =~= enc_bytes(t)); },
        Field::Pairs(h) => {
            let n = h.len() as int;
            pairs_base(counted(b, n), h, n); pairs_base(counted(e, n), h, n);
            assert(counted(b, n) =~= b + counted(e, n));
            assert(field_into(b, f) =~= b + enc_field(f));
        },
        Field::Checks(h) => {
            let n = h.len() as int;
            checks_base(counted(b, n), h, n); checks_base(counted(e, n), h, n);
            assert(counted(b, n) =~= b + counted(e, n));
            assert(field_into(b, f) =~= b + enc_field(f));
        },
    }
}
pub proof fn field_back(f: Field, rest: Seq<u8>)
    requires short_field(f)
    ensures dec_field(shape(f), enc_field(f) + rest) == Some((f, rest)), enc_field(f).len() > 0
{
    let e = Seq::<u8>::empty();
    match f {
        Field::Long(i) => { long_back(i, rest); assert(e + enc_long(i) =~= enc_long(i)); },
        Field::Bytes(t) => { bytes_back(t, rest); assert(e + enc_bytes(t) =~= enc_bytes(t)); long_back(t.len() as i64, rest); },
        Field::Pairs(h) => {
            let n = h.len() as int;
            let body = pairs_into(e, h, n);
            pairs_base(counted(e, n), h, n);
            long_back(0, rest);
            if n > 0 {
                assert(enc_field(f) + rest =~= enc_long(n as i64) + (body + (enc_long(0) + rest)));
                long_back(n as i64, body + (enc_long(0) + rest));
                pairs_back(h, enc_long(0) + rest);
            } else { assert(enc_field(f) + rest =~= enc_long(0) + rest); assert(h =~= Seq::empty()); }
        },
        Field::Checks(h) => {
            let n = h.len() as int;
            let body = checks_into(e, h, n);
            checks_base(counted(e, n), h, n);
            long_back(0, rest);
            if n > 0 {
                assert(enc_field(f) + rest =~= enc_long(n as i64) + (body + (enc_long(0) + rest)));
                long_back(n as i64, body + (enc_long(0) + rest));
                checks_back(h, enc_long(0) + rest);
            } else { assert(enc_field(f) + rest =~= enc_long(0) + rest); assert(h =~= Seq::empty()); }
        },
    }
}
pub proof fn into_base(b: Seq<u8>, fs: Seq<Field>)
    ensures into(b, fs) == b + into(Seq::empty(), fs)
    decreases fs.len()
{
    if fs.len() == 0 { assert(b + Seq::<u8>::empty() =~= b); }
    else {
        into_base(b, fs.drop_last());
        let e = into(Seq::empty(), fs.drop_last());
        field_base(b + e, fs.last()); field_base(e, fs.last());
        assert(b + e + enc_field(fs.last()) =~= b + (e + enc_field(fs.last())));
    }
}
pub proof fn into_first(fs: Seq<Field>)
    requires fs.len() > 0
    ensures into(Seq::empty(), fs) == enc_field(fs[0]) + into(Seq::empty(), fs.drop_first())
    decreases fs.len()
{
    let e = Seq::<u8>::empty();
    reveal_with_fuel(into, 2);
    if fs.len() == 1 { assert(enc_field(fs[0]) + e =~= enc_field(fs[0])); assert(fs.drop_first().len() == 0); assert(into(e, fs.drop_last()) == e); }
    else {
        into_first(fs.drop_last());
        assert(fs.drop_last().drop_first() =~= fs.drop_first().drop_last());
        let x = enc_field(fs[0]); let y = into(e, fs.drop_first().drop_last());
        field_base(x + y, fs.last()); field_base(y, fs.last());
        assert(x + y + enc_field(fs.last()) =~= x + (y + enc_field(fs.last())));
    }
}
pub open spec fn shapes(fs: Seq<Field>) -> Seq<Shape> { fs.map_values(|f: Field| shape(f)) }
pub proof fn row_back(fs: Seq<Field>, rest: Seq<u8>)
    requires short_row(fs)
    ensures dec_row(shapes(fs), into(Seq::empty(), fs) + rest) == Some((fs, rest))
    decreases fs.len()
{
    let e = Seq::<u8>::empty();
    if fs.len() == 0 { assert(e + rest =~= rest); assert(fs =~= Seq::empty()); }
    else {
        let t = fs.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies short_field(#[trigger] t[i]) by { assert(t[i] == fs[i + 1]); }
        into_first(fs);
        row_back(t, rest);
        field_back(fs[0], into(e, t) + rest);
        assert(into(e, fs) + rest =~= enc_field(fs[0]) + (into(e, t) + rest));
        assert(shapes(fs).drop_first() =~= shapes(t));
        assert(seq![fs[0]] + t =~= fs);
    }
}
pub open spec fn good_rows(rows: Seq<Seq<Field>>) -> bool { forall|i: int| 0 <= i < rows.len() ==> short_row(#[trigger] rows[i]) && shapes(rows[i]) == schema() }
pub proof fn rows_base(b: Seq<u8>, rows: Seq<Seq<Field>>, n: int)
    ensures rows_into(b, rows, n) == b + rows_into(Seq::empty(), rows, n)
    decreases n
{
    if n <= 0 { assert(b + Seq::<u8>::empty() =~= b); }
    else {
        rows_base(b, rows, n - 1);
        let e = rows_into(Seq::empty(), rows, n - 1);
        into_base(b + e, rows[n - 1]); into_base(e, rows[n - 1]);
        assert(b + e + into(Seq::empty(), rows[n - 1]) =~= b + (e + into(Seq::empty(), rows[n - 1])));
    }
}
pub proof fn rows_first(rows: Seq<Seq<Field>>, n: int)
    requires 0 < n <= rows.len()
    ensures rows_into(Seq::empty(), rows, n) == into(Seq::empty(), rows[0]) + rows_into(Seq::empty(), rows.drop_first(), n - 1)
    decreases n
{
    let e = Seq::<u8>::empty();
    reveal_with_fuel(rows_into, 2);
    if n == 1 { assert(into(e, rows[0]) + e =~= into(e, rows[0])); }
    else {
        rows_first(rows, n - 1);
        let x = into(e, rows[0]); let y = rows_into(e, rows.drop_first(), n - 2);
        assert(rows.drop_first()[n - 2] == rows[n - 1]);
        into_base(x + y, rows[n - 1]); into_base(y, rows[n - 1]);
        assert(x + y + into(e, rows[n - 1]) =~= x + (y + into(e, rows[n - 1])));
    }
}
pub proof fn rows_back(rows: Seq<Seq<Field>>, rest: Seq<u8>)
    requires good_rows(rows)
    ensures dec_rows(rows.len() as int, rows_into(Seq::empty(), rows, rows.len() as int) + rest) == Some((rows, rest))
    decreases rows.len()
{
    hide(dec_row); hide(into); hide(schema); hide(shapes); hide(short_row);
    let e = Seq::<u8>::empty();
    if rows.len() == 0 { assert(e + rest =~= rest); assert(rows =~= Seq::empty()); }
    else {
        let t = rows.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies short_row(#[trigger] t[i]) && shapes(t[i]) == schema() by { assert(t[i] == rows[i + 1]); }
        rows_first(rows, rows.len() as int);
        rows_back(t, rest);
        let tail = rows_into(e, t, t.len() as int) + rest;
        row_back(rows[0], tail);
        assert(rows_into(e, rows, rows.len() as int) + rest =~= into(e, rows[0]) + tail);
        assert(seq![rows[0]] + t =~= rows);
    }
}
/// a block is read back as the rows written
pub proof fn block_back(rows: Seq<Seq<Field>>, rest: Seq<u8>)
    requires good_rows(rows), 0 < rows.len() <= i64::MAX, rows_into(Seq::empty(), rows, rows.len() as int).len() <= i64::MAX
    ensures dec_block(block(rows) + rest) == Some((rows, rest)), block(rows).len() > 0
{
    let data = rows_into(Seq::empty(), rows, rows.len() as int);
    let b2 = data + marker() + rest;
    assert(block(rows) + rest =~= enc_long(rows.len() as i64) + (enc_long(data.len() as i64) + b2));
    long_back(rows.len() as i64, enc_long(data.len() as i64) + b2);
    long_back(data.len() as i64, b2);
    assert(b2.subrange(data.len() as int, data.len() as int + 16) =~= marker());
    assert(b2.take(data.len() as int) =~= data + Seq::empty());
    assert(b2.skip(data.len() as int + 16) =~= rest);
    rows_back(rows, Seq::empty());
}
pub open spec fn blocks(batches: Seq<Seq<Seq<Field>>>) -> Seq<u8>
    decreases batches.len()
{ if batches.len() == 0 { Seq::empty() } else { block(batches[0]) + blocks(batches.drop_first()) } }
pub open spec fn all_rows(batches: Seq<Seq<Seq<Field>>>) -> Seq<Seq<Field>>
    decreases batches.len()
{ if batches.len() == 0 { Seq::empty() } else { batches[0] + all_rows(batches.drop_first()) } }
/// a file of any number of blocks is read back as all the rows, in order
pub proof fn file_back(batches: Seq<Seq<Seq<Field>>>)
    requires forall|i: int| 0 <= i < batches.len() ==> good_rows(#[trigger] batches[i]) && 0 < batches[i].len() <= i64::MAX && rows_into(Seq::empty(), batches[i], batches[i].len() as int).len() <= i64::MAX
    ensures dec_blocks(blocks(batches)) == Some(all_rows(batches))
    decreases batches.len()
{
    if batches.len() > 0 {
        let t = batches.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies good_rows(#[trigger] t[i]) && 0 < t[i].len() <= i64::MAX && rows_into(Seq::empty(), t[i], t[i].len() as int).len() <= i64::MAX by { assert(t[i] == batches[i + 1]); }
        file_back(t);
        block_back(batches[0], blocks(t));
    }
}
/// rows have the shape of the schema
pub proof fn rows_fit_schema(r: Record, test: Seq<char>, thread: u32, number: u32, order: int)
    ensures shapes(row_of(r, test, thread, number, order)) == schema()
{ assert(shapes(row_of(r, test, thread, number, order)) =~= schema()); }
/// what Writer::write appends reads back as the records it was given, whatever follows
pub proof fn records_back(records: Seq<Record>, test: Seq<char>, thread: u32, number: u32, rest: Seq<u8>)
    requires 0 < records.len() <= i64::MAX,
        forall|i: int| 0 <= i < records.len() ==> short_row(#[trigger] row_of(records[i], test, thread, number, i)),
        rows_into(Seq::empty(), rows_of(records, test, thread, number), records.len() as int).len() <= i64::MAX,
    ensures dec_block(block(rows_of(records, test, thread, number)) + rest) == Some((rows_of(records, test, thread, number), rest)),
{
    hide(dec_block); hide(row_of); hide(schema); hide(shapes); hide(short_row);
    let rows = rows_of(records, test, thread, number);
    assert forall|i: int| 0 <= i < rows.len() implies short_row(#[trigger] rows[i]) && shapes(rows[i]) == schema() by {
        rows_fit_schema(records[i], test, thread, number, i);
        assert(rows[i] == row_of(records[i], test, thread, number, i));
    }
    block_back(rows, rest);
}

// ---- the head of the file ----
pub open spec fn entry(e: (&str, &str)) -> PairB { PairB { name: utf8(e.0@), value: utf8(e.1@) } }
pub open spec fn entries(m: Seq<(&str, &str)>) -> Seq<PairB> { m.map_values(|e: (&str, &str)| entry(e)) }
pub open spec fn dec_entries(n: int, b: Seq<u8>) -> Option<(Seq<PairB>, Seq<u8>)>
    decreases n
{
    if n <= 0 { Some((Seq::empty(), b)) } else { match dec_bytes(b) { Some((name, b1)) => match dec_bytes(b1) { Some((value, b2)) => match dec_entries(n - 1, b2) {
        Some((es, b3)) => Some((seq![PairB { name, value }] + es, b3)), None => None }, None => None }, None => None } }
}
/// four magic bytes, the meta data (a map), the marker
pub open spec fn dec_head(b: Seq<u8>) -> Option<(Seq<PairB>, Seq<u8>)> {
    if b.len() < 4 || b.take(4) != magic() { None } else { match dec_long(b.skip(4)) {
        Some((n, b1)) => if n <= 0 { None } else { match dec_entries(n as int, b1) { Some((es, b2)) => match dec_long(b2) {
            Some((0i64, b3)) => if b3.len() >= 16 && b3.take(16) == marker() { Some((es, b3.skip(16))) } else { None }, _ => None }, None => None } },
        None => None } }
}
pub open spec fn enc_entry(e: (&str, &str)) -> Seq<u8> { enc_bytes(utf8(e.0@)) + enc_bytes(utf8(e.1@)) }
pub open spec fn enc_entries(m: Seq<(&str, &str)>) -> Seq<u8>
    decreases m.len()
{ if m.len() == 0 { Seq::empty() } else { enc_entry(m[0]) + enc_entries(m.drop_first()) } }
pub proof fn entries_last(m: Seq<(&str, &str)>)
    requires m.len() > 0
    ensures enc_entries(m) == enc_entries(m.drop_last()) + enc_entry(m.last())
    decreases m.len()
{
    if m.len() == 1 { assert(m.drop_first().len() == 0); assert(m.drop_last().len() == 0); assert(enc_entries(m.drop_first()) =~= Seq::empty()); assert(enc_entries(m) =~= enc_entries(m.drop_last()) + enc_entry(m.last())); }
    else {
        entries_last(m.drop_first());
        assert(m.drop_first().drop_last() =~= m.drop_last().drop_first());
        assert(enc_entries(m) =~= enc_entries(m.drop_last()) + enc_entry(m.last()));
    }
}
pub proof fn meta_base(b: Seq<u8>, m: Seq<(&str, &str)>, n: int)
    requires 0 <= n <= m.len()
    ensures meta_into(b, m, n) == b + enc_entries(m.take(n))
    decreases n
{
    if n == 0 { assert(b + enc_entries(m.take(0)) =~= b); }
    else {
        meta_base(b, m, n - 1);
        assert(m.take(n).drop_last() =~= m.take(n - 1));
        entries_last(m.take(n));
        assert(meta_into(b, m, n) =~= b + enc_entries(m.take(n)));
    }
}
pub proof fn entries_back(m: Seq<(&str, &str)>, rest: Seq<u8>)
    requires forall|i: int| 0 <= i < m.len() ==> short((#[trigger] entry(m[i])).name) && short(entry(m[i]).value)
    ensures dec_entries(m.len() as int, enc_entries(m) + rest) == Some((entries(m), rest))
    decreases m.len()
{
    hide(dec_bytes); hide(enc_bytes);
    if m.len() == 0 { assert(enc_entries(m) + rest =~= rest); assert(entries(m) =~= Seq::empty()); }
    else {
        let t = m.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies short((#[trigger] entry(t[i])).name) && short(entry(t[i]).value) by { assert(t[i] == m[i + 1]); }
        entries_back(t, rest);
        let e = entry(m[0]);
        let b2 = enc_entries(t) + rest;
        assert(enc_entries(m) + rest =~= enc_bytes(e.name) + (enc_bytes(e.value) + b2));
        bytes_back(e.name, enc_bytes(e.value) + b2);
        bytes_back(e.value, b2);
        assert(entries(m) =~= seq![e] + entries(t));
    }
}
/// the head is read back as the meta data, whatever follows
pub proof fn head_back(m: Seq<(&str, &str)>, rest: Seq<u8>)
    requires 0 < m.len() <= i64::MAX, forall|i: int| 0 <= i < m.len() ==> short((#[trigger] entry(m[i])).name) && short(entry(m[i]).value)
    ensures dec_head(file_header(m) + rest) == Some((entries(m), rest))
{
    let b = file_header(m) + rest;
    let n = m.len() as i64;
    meta_base(magic() + enc_long(n), m, m.len() as int);
    assert(m.take(m.len() as int) =~= m);
    assert(enc_long(0) =~= seq![0u8]);
    let b3 = marker() + rest;
    let b2 = enc_long(0) + b3;
    let b1 = enc_entries(m) + b2;
    assert(b =~= magic() + (enc_long(n) + b1));
    assert(b.take(4) =~= magic()); assert(b.skip(4) =~= enc_long(n) + b1);
    long_back(n, b1);
    entries_back(m, b2);
    long_back(0, b3);
    assert(b3.take(16) =~= marker()); assert(b3.skip(16) =~= rest);
}
/// the file as a whole: the published meta data, then every row written
pub proof fn container_back(m: Seq<(&str, &str)>, batches: Seq<Seq<Seq<Field>>>)
    requires 0 < m.len() <= i64::MAX, forall|i: int| 0 <= i < m.len() ==> short((#[trigger] entry(m[i])).name) && short(entry(m[i]).value),
        forall|i: int| 0 <= i < batches.len() ==> good_rows(#[trigger] batches[i]) && 0 < batches[i].len() <= i64::MAX && rows_into(Seq::empty(), batches[i], batches[i].len() as int).len() <= i64::MAX
    ensures dec_head(file_header(m) + blocks(batches)) == Some((entries(m), blocks(batches))), dec_blocks(blocks(batches)) == Some(all_rows(batches))
{ head_back(m, blocks(batches)); file_back(batches); }

// ---- the published schema ----
/// the columns of a row: their names and what they hold
pub open spec fn columns() -> Seq<(&'static str, Shape)> {
    seq![
        ("name", Shape::Bytes), ("thread", Shape::Long), ("number", Shape::Long), ("order", Shape::Long),
        ("time_start", Shape::Long), ("time_end", Shape::Long), ("time_total", Shape::Long), ("time_resolve", Shape::Long),
        ("time_connect", Shape::Long), ("time_write", Shape::Long), ("time_delay", Shape::Long), ("time_read", Shape::Long),
        ("request_name", Shape::Bytes), ("request_method", Shape::Bytes), ("request_url", Shape::Bytes), ("request_version", Shape::Bytes),
        ("request_headers", Shape::Pairs), ("request_body", Shape::Bytes),
        ("response_version", Shape::Bytes), ("response_status", Shape::Long), ("response_reason", Shape::Bytes),
        ("response_headers", Shape::Pairs), ("response_body", Shape::Bytes),
        ("asserts", Shape::Checks), ("error", Shape::Bytes),
    ]
}
pub proof fn columns_of_rows() ensures columns().map_values(|c: (&'static str, Shape)| c.1) == schema()
{ assert(columns().map_values(|c: (&'static str, Shape)| c.1) =~= schema()); }
/// vx_meta_*: the constant META of the source, read as JSON by tools/vc.py on every run
pub proof fn schema_is_published()
    ensures vx_meta_columns().len() == columns().len(),
        forall|i: int| 0 <= i < columns().len() ==> #[trigger] vx_meta_columns()[i] == (columns()[i].0, Some(columns()[i].1)),
        vx_meta_codec() == "null",
{
    assert(vx_meta_columns() =~= columns().map_values(|c: (&'static str, Shape)| (c.0, Some(c.1))));
}
} // mod vxw
pub use vxw::*;

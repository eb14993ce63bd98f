@unit writer
@includeext http.vc
@spec writer_spec.rs
@method to_string = vx_to_string
@call u8::from = vx_u8
@type AsRef = VxRaw
@type Duration = VxDuration
@source lib/src/http/time.rs
drop impl Default for Time
@source lib/src/context.rs
only Record
only Assert
@source lib/src/writer.rs
@fn Writer::new opt=exact
    ensures r.w.sink() == w.sink(), r.w.failed() || r.w.taken() == w.taken() + file_header(META@),
@fn Writer::write opt=exact,method:len=len,method:is_empty=is_empty
    ensures final(self).w.sink() == old(self).w.sink(),
        records@.len() == 0 ==> final(self).w.taken() == old(self).w.taken(),
        records@.len() > 0 ==> final(self).w.failed() || final(self).w.taken() == old(self).w.taken() + block(rows_of(records@, name@, thread, number)),
@hint entry
    let vx_len = records.len();
@loop 0
    invariant vx_len == records@.len(), vxit0.seq().len() == records@.len(), forall|i: int| 0 <= i < records@.len() ==> *#[trigger] vxit0.seq()[i] == records@[i], vx_n1 == vxit0.index@,
        data@ == rows_into(Seq::empty(), rows_of(records@, name@, thread, number), vxit0.index@),
@hint 0#begin
    let ghost vx_i = vxit0.index@;
    let ghost vx_b0 = data@;
    let ghost vx_row = row_of(*record, name@, thread, number, vx_i);
    proof { row_steps(vx_b0, vx_row); assert(rows_of(records@, name@, thread, number)[vx_i] == vx_row); }
@loop 1
    invariant vxit1.seq().len() == record.request.headers.inner@.len(), forall|i: int| 0 <= i < vxit1.seq().len() ==> *#[trigger] vxit1.seq()[i] == record.request.headers.inner@[i],
        data@ == pairs_into(counted(into(vx_b0, vx_row.take(16)), vxit1.seq().len() as int), pairs_b(record.request.headers.inner@), vxit1.index@),
@loop 2
    invariant vxit2.seq().len() == record.response.headers.inner@.len(), forall|i: int| 0 <= i < vxit2.seq().len() ==> *#[trigger] vxit2.seq()[i] == record.response.headers.inner@[i],
        data@ == pairs_into(counted(into(vx_b0, vx_row.take(21)), vxit2.seq().len() as int), pairs_b(record.response.headers.inner@), vxit2.index@),
@loop 3
    invariant vxit3.seq().len() == record.asserts@.len(), forall|i: int| 0 <= i < vxit3.seq().len() ==> *#[trigger] vxit3.seq()[i] == record.asserts@[i],
        data@ == checks_into(counted(into(vx_b0, vx_row.take(23)), vxit3.seq().len() as int), checks_b(record.asserts@), vxit3.index@),
@fn header opt=exact,method:len=len
    ensures r@ == file_header(META@),
@loop 0
    invariant vxit0.seq().len() == META@.len(), forall|i: int| 0 <= i < META@.len() ==> *#[trigger] vxit0.seq()[i] == META@[i],
        header@ == meta_into(magic() + enc_long(META@.len() as i64), META@, vxit0.index@),
@fn encode_bool
    ensures final(buffer)@ == old(buffer)@ + enc_bool(b),
@fn encode_bytes
    ensures final(buffer)@ == old(buffer)@ + enc_bytes(raw(s)),
@fn encode_long
    ensures final(buffer)@ == old(buffer)@ + enc_long(i),
@hint entry
    proof { zigzag(i); }
@fn encode_variable
    ensures final(buffer)@ == old(buffer)@ + vlq(z),
@hint entry
    let ghost vx_z0 = z; let ghost vx_b0 = buffer@;
@loop 0
    invariant_except_break buffer@ + vlq(z) == vx_b0 + vlq(vx_z0),
    ensures buffer@ == vx_b0 + vlq(vx_z0),
    decreases z,
@hint 0#begin
    proof { bits(z); }

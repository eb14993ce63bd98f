@unit eval
@arg console vx_out VxConsole
@rlimit 15
@includeext value.vc
@spec text_base.rs text_spec.rs eval_spec.rs
@derive Kind = Copy, Clone, PartialEq, Eq, Structural
@method to_owned = vx_to_owned
@method to_string = vx_to_string
@method extend = vx_extend
@method unwrap_or = vx_unwrap_or
@method trim = vx_trim
@method replace_range = vx_replace_range
@call std::mem::take = vx_take
@call http::Client::default = vx_client
@call regex::Regex::new = VxRegex::new
@cast usize = vx_i2u
@traitimpl impl Display for Value
@traitimpl impl Display for Token
@traitimpl impl Display for Assert
@traitimpl impl Display for Record
@source lib/src/token.rs
drop Token::precedence
drop Token::new
@source lib/src/syntax.rs
drop Expr::eval
@source lib/src/context.rs
drop impl Clone for Context
@source lib/src/http/time.rs
drop impl Default for Time
@source lib/src/native.rs
@source lib/src/evaluator.rs
@fn Display for Value::fmt opt=exact
    ensures final(f).buf@ == old(f).buf@ + show(*self),
@fn Display for Token::fmt opt=exact
    ensures final(f).buf@ == old(f).buf@ + show_token(*self),
@fn Display for Assert::fmt opt=exact
    ensures r is Ok,
@fn Display for Record::fmt opt=exact,boolassign
    ensures final(f).buf@ == old(f).buf@ + record_text(*self),
@loop 0
    invariant f.buf@ == old(f).buf@ + ("=== TEST  "@ + self.name@ + "\n"@) + assert_lines(self.asserts@, vxit0.index@),
        flag == all_hold(self.asserts@, vxit0.index@),
@fn Context::new
    ensures r.inner@ == Map::<String, Value>::empty(), no_requests(r.requests@), r.records@.len() == 0,
@fn Context::from
    ensures r.inner == inner, no_requests(r.requests@), r.records@.len() == 0,
@fn Context::extend
    ensures final(self).inner == old(self).inner, final(self).records == old(self).records, final(self).requests@ == old(self).requests@.union_prefer_right(requests@),
@fn Context::get
    ensures r == (if self.inner@.contains_key(str_of(key@)) { Some(&self.inner@[str_of(key@)]) } else { None }),
@fn Context::set
    ensures final(self).inner@ == old(self).inner@.insert(key, value), final(self).requests == old(self).requests, final(self).records == old(self).records,
@fn Context::request
    ensures r == (if self.requests@.contains_key(str_of(name@)) { Some(&self.requests@[str_of(name@)]) } else { None }),
@fn Context::push
    ensures final(self).inner == old(self).inner, final(self).requests == old(self).requests, final(self).records@ == old(self).records@.push(record),
@fn Context::into_map
    ensures r == self.inner,
@fn Context::records
    ensures r == old(self).records, final(self).records@.len() == 0, final(self).inner == old(self).inner, final(self).requests == old(self).requests,
@fn println opt=console
    ensures gives(r, n_print(values@)), final(vx_out).buf@ == old(vx_out).buf@ + printed("println"@, values@),
@fn print opt=console
    ensures gives(r, n_print(values@)), final(vx_out).buf@ == old(vx_out).buf@ + printed("print"@, values@),
@fn format
    ensures gives(r, n_format(values@)),
@hint entry
    let ghost vx_args = values@;
@hint 0#before
    let ghost vx_m = string@;
    let ghost vx_h = holes(vx_m, 0);
    let ghost vx_t = vx_args.skip(1);
    let ghost vx_f = argument_text(vx_t);
    proof { holes_tile(vx_m, 0); replace_ends(vx_m, vx_f); assert(values@ =~= vx_t.reverse()); }
@loop 0
    invariant tiles(vx_m, vx_h), vxit0.seq().len() == vx_h.len(), forall|k: int| 0 <= k < vx_h.len() ==> (#[trigger] vxit0.seq()[k]).of(vx_m, vx_h[k]),
        ranges@.len() == vxit0.index@, forall|k: int| 0 <= k < ranges@.len() ==> covers_hole(#[trigger] ranges@[k], vx_m, vx_h[k]),
@hint 0#after
    let ghost vx_r = ranges@;
@loop 1
    invariant vx_h == holes(vx_m, 0), vx_f == argument_text(vx_t), vx_r.len() == vx_h.len(), vx_t.len() == vx_h.len(), vxit1.seq().len() == vx_h.len(),
        forall|k: int| 0 <= k < vx_h.len() ==> (#[trigger] vxit1.seq()[k]).0 == vx_r[vx_h.len() - 1 - k] && *vxit1.seq()[k].1 == vx_t[vx_h.len() - 1 - k],
        forall|k: int| 0 <= k < vx_r.len() ==> covers_hole(#[trigger] vx_r[k], vx_m, vx_h[k]),
        string@ == right_filled(vx_m, vx_h.len() - vxit1.index@, vx_f),
@hint 1#begin
    proof { replace_step(vx_m, vx_h.len() - vxit1.index@ - 1, vx_f); }
@fn length opt=method:len=vx_len
    ensures gives(r, n_length(values@)),
@fn append
    ensures gives(r, n_append(values@)),
@hint entry
    let ghost vx_args = values@;
@hint 0#before
    let ghost vx_all = array@ + values@.reverse();
    proof { assert(values@.reverse() =~= vx_args.skip(1)); }
@loop 0
    invariant array@ + values@.reverse() == vx_all,
    ensures values@.len() == 0,
    decreases values@.len(),
@hint 0#end
    proof { assert(array@ + values@.reverse() =~= vx_all); }
@hint 0#after
    proof { assert(array@ =~= vx_all); }
@fn eval_expr opt=console
    ensures moved(*expr, *old(context), *old(vx_out), *final(context), *final(vx_out)),
        gave(*expr, *old(context), *old(vx_out), *final(context), *final(vx_out), r),
    decreases level(old(context).requests@), size(*expr), 2int,
@fn eval_integer_literal
    ensures r == Ok::<Value, String>(Value::Integer(*integer)),
@fn eval_float_literal
    ensures r == Ok::<Value, String>(Value::Float(*float)),
@fn eval_boolean_literal
    ensures r == Ok::<Value, String>(Value::Boolean(*boolean)),
@fn eval_string_literal
    ensures r == Ok::<Value, String>(Value::String(*string)),
@fn eval_array_literal opt=console
    requires vec_of(items@)@ == items@,
    ensures moved(Expr::Array(vec_of(items@)), *old(context), *old(vx_out), *final(context), *final(vx_out)),
        gave(Expr::Array(vec_of(items@)), *old(context), *old(vx_out), *final(context), *final(vx_out), r),
    decreases level(old(context).requests@), 1 + size_from(items@, 0), 1int,
@fn eval_map_literal opt=console
    ensures moved(Expr::Map(*pairs), *old(context), *old(vx_out), *final(context), *final(vx_out)),
        gave(Expr::Map(*pairs), *old(context), *old(vx_out), *final(context), *final(vx_out), r),
    decreases level(old(context).requests@), 1 + size_pairs(pairs@, 0), 1int,
@loop 0
    invariant kept(*old(context), *context),
        size_pairs(pairs@, vxit0.index@) <= size_pairs(pairs@, 0),
        forall|w: Seq<Record>| #[trigger] extends(w, context.records@) ==>
            ev(Expr::Map(*pairs), old(context).inner@, old(context).requests@, w, at(*old(context), *old(vx_out)))
            == ev_pairs(pairs@, vxit0.index@, map_@, context.inner@, context.requests@, w, at(*context, *vx_out)),
@hint 0#begin
    proof { reveal_with_fuel(ev_pairs, 2); reveal_with_fuel(size_pairs, 2); }
@fn eval_index_expr opt=console
    ensures moved(Expr::Index(Box::new(*value), Box::new(*index)), *old(context), *old(vx_out), *final(context), *final(vx_out)),
        gave(Expr::Index(Box::new(*value), Box::new(*index)), *old(context), *old(vx_out), *final(context), *final(vx_out), r),
    decreases level(old(context).requests@), 1 + size(*value) + size(*index), 1int,
@fn eval_field_expr opt=console
    ensures moved(Expr::Field(Box::new(*map_), *field), *old(context), *old(vx_out), *final(context), *final(vx_out)),
        gave(Expr::Field(Box::new(*map_), *field), *old(context), *old(vx_out), *final(context), *final(vx_out), r),
    decreases level(old(context).requests@), 1 + size(*map_), 1int,
@fn eval_ident_expr opt=console
    ensures moved(Expr::Ident(*ident), *old(context), *old(vx_out), *final(context), *final(vx_out)),
        gave(Expr::Ident(*ident), *old(context), *old(vx_out), *final(context), *final(vx_out), r),
@fn eval_let_expr opt=console
    ensures moved(Expr::Let(*name, Box::new(*expr)), *old(context), *old(vx_out), *final(context), *final(vx_out)),
        gave(Expr::Let(*name, Box::new(*expr)), *old(context), *old(vx_out), *final(context), *final(vx_out), r),
    decreases level(old(context).requests@), 1 + size(*expr), 1int,
@fn eval_unary_expr opt=console
    ensures moved(Expr::Unary(*token, Box::new(*right)), *old(context), *old(vx_out), *final(context), *final(vx_out)),
        gave(Expr::Unary(*token, Box::new(*right)), *old(context), *old(vx_out), *final(context), *final(vx_out), r),
    decreases level(old(context).requests@), 1 + size(*right), 1int,
@fn eval_binary_expr opt=console
    ensures moved(Expr::Binary(*token, Box::new(*left), Box::new(*right)), *old(context), *old(vx_out), *final(context), *final(vx_out)),
        gave(Expr::Binary(*token, Box::new(*left), Box::new(*right)), *old(context), *old(vx_out), *final(context), *final(vx_out), r),
    decreases level(old(context).requests@), 1 + size(*left) + size(*right), 1int,
@fn eval_if_expr opt=console
    requires vec_of(consequence@)@ == consequence@, vec_of(alternative@)@ == alternative@,
    ensures moved(Expr::If(Box::new(*condition), vec_of(consequence@), vec_of(alternative@)), *old(context), *old(vx_out), *final(context), *final(vx_out)),
        gave(Expr::If(Box::new(*condition), vec_of(consequence@), vec_of(alternative@)), *old(context), *old(vx_out), *final(context), *final(vx_out), r),
    decreases level(old(context).requests@), 1 + size(*condition) + size_from(consequence@, 0) + size_from(alternative@, 0), 1int,
@fn eval_call_expr opt=console,exact,optmap,strindex,method:len=vx_len
    requires vec_of(arguments@)@ == arguments@, str_of(name@)@ == name@,
    ensures moved(Expr::Call(str_of(name@), vec_of(arguments@)), *old(context), *old(vx_out), *final(context), *final(vx_out)),
        gave(Expr::Call(str_of(name@), vec_of(arguments@)), *old(context), *old(vx_out), *final(context), *final(vx_out), r),
    decreases level(old(context).requests@), 1 + size_from(arguments@, 0), 1int,
@hint entry
    let ghost vx_e = Expr::Call(str_of(name@), vec_of(arguments@));
@hint let#arguments
    let ghost vx_c = *context;
@hint 0#before
    let ghost vx_m = message@;
    let ghost vx_as = asserts@;
    let ghost vx_h = holes(vx_m, 0);
    let ghost vx_f = variable_text(context.inner@);
    proof { holes_tile(vx_m, 0); replace_ends(vx_m, vx_f); }
@loop 0
    invariant tiles(vx_m, vx_h), vxit0.seq().len() == vx_h.len(), forall|k: int| 0 <= k < vx_h.len() ==> (#[trigger] vxit0.seq()[k]).of(vx_m, vx_h[k]),
        ranges@.len() == vxit0.index@, forall|k: int| 0 <= k < ranges@.len() ==> names_hole(#[trigger] ranges@[k], vx_m, vx_h[k]),
@hint 0#begin
    proof { between_braces(vx_m, vx_h[vxit0.index@]); }
@hint 0#after
    let ghost vx_r = ranges@;
@hint 1#before
    proof { assert(message@ == right_filled(vx_m, vx_h.len() as int, vx_f)); }
@loop 1
    invariant vx_h == holes(vx_m, 0), vx_f == variable_text(context.inner@), vxit1.seq() == vx_r.reverse(), vx_r.len() == vx_h.len(),
        forall|k: int| 0 <= k < vx_r.len() ==> names_hole(#[trigger] vx_r[k], vx_m, vx_h[k]),
        message@ == right_filled(vx_m, vx_h.len() - vxit1.index@, vx_f),
@hint 1#begin
    proof { replace_step(vx_m, vx_h.len() - vxit1.index@ - 1, vx_f); }
@hint let#client
    let ghost vx_o = vx_out.buf@;
    proof { assert(message@ == filled(vx_m, context.inner@)); }
@hint 2#before
    let ghost vx_none = Seq::<Record>::empty();
    proof { assert(extends(vx_none, local.records@)); }
@loop 2
    invariant !no_requests(old(context).requests@), no_requests(local.requests@), local.records@ == vx_none, vx_none == Seq::<Record>::empty(), extends(vx_none, vx_none), !no_requests(context.requests@),
        ev_asserts(asserts@, 0, Seq::empty(), map_@, vx_o) == ev_asserts(asserts@, vxit2.index@, vx_list2@, local.inner@, vx_out.buf@),
@hint 2#begin
    proof { reveal_with_fuel(ev_asserts, 2); }
@hint let#asserts
    proof { reveal_with_fuel(ev_asserts, 2); let ghost vx_ck = ev_asserts(vx_as, 0, Seq::empty(), response_value(response), vx_o); assert(asserts@ == vx_ck.got && local.inner@ == vx_ck.env && vx_out.buf@ == vx_ck.o); }
@hint call#context.push
    proof {
        let ghost vx_k = vx_c.records@.len() as int;
        assert forall|w: Seq<Record>| #[trigger] extends(w, context.records@) implies ({ let run = ev(vx_e, old(context).inner@, old(context).requests@, w, at(*old(context), *old(vx_out))); run.env == context.inner@ && run.n == at(*context, *vx_out) && same_out(run.v, Ok(Value::Map(local.inner))) }) by {
            assert(extends(context.records@, vx_c.records@));
            assert(extends(w, vx_c.records@));
            assert(w[vx_k] == context.records@[vx_k]);
        }
    }
@fn eval_block opt=console
    ensures moved_block(exprs@, *old(context), *old(vx_out), *final(context), *final(vx_out)),
        gave_block(exprs@, *old(context), *old(vx_out), *final(context), *final(vx_out), r),
    decreases level(old(context).requests@), size_from(exprs@, 0), 0int,
@loop 0
    invariant kept(*old(context), *context),
        size_from(exprs@, vxit0.index@) <= size_from(exprs@, 0),
        forall|w: Seq<Record>| #[trigger] extends(w, context.records@) ==>
            ev_block(exprs@, 0, Value::Null, old(context).inner@, old(context).requests@, w, at(*old(context), *old(vx_out)))
            == ev_block(exprs@, vxit0.index@, result, context.inner@, context.requests@, w, at(*context, *vx_out)),
@hint 0#begin
    proof { reveal_with_fuel(ev_block, 2); reveal_with_fuel(size_from, 2); }
@fn eval_list opt=console
    ensures moved_list(items@, *old(context), *old(vx_out), *final(context), *final(vx_out)),
        gave_list(items@, *old(context), *old(vx_out), *final(context), *final(vx_out), r),
    decreases level(old(context).requests@), size_from(items@, 0), 0int,
@loop 0
    invariant kept(*old(context), *context),
        size_from(items@, vxit0.index@) <= size_from(items@, 0),
        forall|w: Seq<Record>| #[trigger] extends(w, context.records@) ==>
            ev_list(items@, 0, Seq::empty(), old(context).inner@, old(context).requests@, w, at(*old(context), *old(vx_out)))
            == ev_list(items@, vxit0.index@, values@, context.inner@, context.requests@, w, at(*context, *vx_out)),
@hint 0#begin
    proof { reveal_with_fuel(ev_list, 2); reveal_with_fuel(size_from, 2); }

@unit response
@includeext value.vc
@includeext parser.vc
@spec text_base.rs text_spec.rs response_spec.rs
@derive Kind = Copy, Clone, PartialEq, Eq, Structural
@method to_string = vx_to_string
@method get_mut = vx_get_mut
@method first = vx_first
@call String::from = vx_string_from
@fnvalue Value::Integer
@source lib/src/syntax.rs
@source lib/src/http/header.rs
drop impl IntoIterator for Headers
@source lib/src/http/response.rs
drop Response::from
drop parse
@fn Headers::iter external
    ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().len() == self.inner@.len(), forall|i: int| 0 <= i < self.inner@.len() ==> *#[trigger] r.remaining()[i] == self.inner@[i],
@fn Expr::eval opt=optmap
    ensures r == lit(*self),
    decreases *self,
@loop 0
    invariant *self == Expr::Array(*items), vxit0.seq().len() == items@.len(), forall|i: int| 0 <= i < items@.len() ==> *#[trigger] vxit0.seq()[i] == items@[i], vx_list0@ == lits(items@, vxit0.index@),
@hint 0#begin
    proof { assert(*items == self->Array_0); assert(decreases_to!(*self => self->Array_0[vxit0.index@])); assert(*e == items[vxit0.index@]); reveal_with_fuel(lits, 2); }
@loop 1
    invariant *self == Expr::Map(*pairs), vxit1.seq().len() == pairs@.len(), forall|i: int| 0 <= i < pairs@.len() ==> *#[trigger] vxit1.seq()[i] == pairs@[i], vx_list1@ == lit_pairs(pairs@, vxit1.index@),
@hint 1#begin
    proof { assert(*pairs == self->Map_0); assert(decreases_to!(*self => self->Map_0[vxit1.index@])); assert(*k == pairs[vxit1.index@].0 && *v == pairs[vxit1.index@].1); reveal_with_fuel(lit_pairs, 2); }
@fn Response::to_map
    ensures response_map(r@, *self),
@hint entry
    proof { keys_differ(); }
@loop 0
    invariant header_map(headers@, self.headers.inner@, vxit0.index@), vxit0.seq().len() == self.headers.inner@.len(), forall|i: int| 0 <= i < self.headers.inner@.len() ==> *#[trigger] vxit0.seq()[i] == self.headers.inner@[i],
@hint 0#begin
    let ghost vx_m = headers@; let ghost vx_i = vxit0.index@; let ghost vx_h = self.headers.inner@;
    proof { assert(*header == vx_h[vx_i]); assert(header_map(vx_m, vx_h, vx_i)); reveal_with_fuel(values_of, 2); }
@hint 0#end
    proof {
        assert forall|k: String| (#[trigger] headers@.contains_key(k) <==> values_of(vx_h, k, vx_i + 1).len() > 0) && (headers@.contains_key(k) ==> (headers@[k] matches Value::Array(a) && a@ == values_of(vx_h, k, vx_i + 1))) by {
            assert(vx_m.contains_key(k) <==> values_of(vx_h, k, vx_i).len() > 0);
            if vx_h[vx_i].name == k {
                assert(values_of(vx_h, k, vx_i + 1) == values_of(vx_h, k, vx_i).push(Value::String(header.value)));
                if values_of(vx_h, k, vx_i).len() == 0 { assert(values_of(vx_h, k, vx_i).push(Value::String(header.value)) =~= seq![Value::String(header.value)]); }
            }
        }
    }

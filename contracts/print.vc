@unit print
@spec shim_core.rs text_base.rs print_spec.rs
@method join = vx_join
@method to_string = vx_to_string
@traitimpl impl Display for Token
@traitimpl impl Display for Expr
@source lib/src/token.rs
drop Token::precedence
drop Token::new
@source lib/src/syntax.rs
drop Expr::eval
@fn Display for Token::fmt opt=exact
    ensures final(f).buf@ == old(f).buf@ + show_token(*self), r is Ok,
@fn Display for Expr::fmt opt=exact
    ensures final(f).buf@ =~= old(f).buf@ + show_expr(*self), r is Ok,
@loop 0
    invariant items_done(vx_list0@, items@), vx_list0@.len() == vxit0.index@, vxit0.seq().len() == items@.len(), forall|i: int| 0 <= i < items@.len() ==> *(#[trigger] vxit0.seq()[i]) == items@[i],
@loop 1
    invariant pairs_done(vx_list1@, pairs@), vx_list1@.len() == vxit1.index@, vxit1.seq().len() == pairs@.len(), forall|i: int| 0 <= i < pairs@.len() ==> *(#[trigger] vxit1.seq()[i]) == pairs@[i],
@loop 2
    invariant items_done(vx_list2@, consequence@), vx_list2@.len() == vxit2.index@, vxit2.seq().len() == consequence@.len(), forall|i: int| 0 <= i < consequence@.len() ==> *(#[trigger] vxit2.seq()[i]) == consequence@[i],
@loop 3
    invariant items_done(vx_list3@, alternative@), vx_list3@.len() == vxit3.index@, vxit3.seq().len() == alternative@.len(), forall|i: int| 0 <= i < alternative@.len() ==> *(#[trigger] vxit3.seq()[i]) == alternative@[i],
@loop 4
    invariant items_done(vx_list4@, arguments@), vx_list4@.len() == vxit4.index@, vxit4.seq().len() == arguments@.len(), forall|i: int| 0 <= i < arguments@.len() ==> *(#[trigger] vxit4.seq()[i]) == arguments@[i],

@unit parser
@includeext lexer.vc
@spec parser_spec.rs
@method clone = vx_to_owned
@source lib/src/token.rs
@source lib/src/syntax.rs
drop Expr::eval
@source lib/src/parser.rs
@fn Token::precedence
    ensures r == strength(self.kind),
@fn Parser::new
    ensures wf(r), r.tokens@ == lex(text@).push(token(Kind::Eof, Seq::empty())), r.index == 0,
@hint exit
    proof { lex_spelled(text@); reveal(spelled); let l = lex(text@); let e = token(Kind::Eof, Seq::empty());
        assert forall|i: int| 0 <= i < l.push(e).len() implies spells(#[trigger] l.push(e)[i]) by { if i < l.len() { assert(spells(l[i])); } } }
@fn Parser::next_token
    requires wf(*old(self)),
    ensures final(self).tokens == old(self).tokens, final(self).index == (if old(self).index + 1 < old(self).tokens@.len() { old(self).index + 1 } else { old(self).index as int }),
@hint entry
    proof { assert(self.tokens.len() <= usize::MAX); }
@fn Parser::current_token
    requires wf(*self),
    ensures *r == self.tokens@[self.index as int],
@fn Parser::peek_token
    requires wf(*self),
    ensures match r { Some(t) => self.index + 1 < self.tokens@.len() && *t == self.tokens@[self.index + 1], None => self.index + 1 == self.tokens@.len() },
@hint entry
    proof { assert(self.tokens.len() <= usize::MAX); }
@fn Parser::peek_token_is
    requires wf(*self),
    ensures r == (peek(self.tokens@, self.index as int) == Some(kind)),
@fn Parser::peek_token_expect
    requires wf(*old(self)),
    ensures
        final(self).tokens == old(self).tokens,
        match r {
            Ok(_) => expect(old(self).tokens@, old(self).index as int, kind) == Some(final(self).index as int),
            Err(_) => expect(old(self).tokens@, old(self).index as int, kind) is None && final(self).index == old(self).index,
        },
@fn Parser::current_precedence
    requires wf(*self),
    ensures r == strength(self.tokens@[self.index as int].kind),
@fn Parser::peek_precedence
    requires wf(*self),
    ensures r == (match peek(self.tokens@, self.index as int) { Some(k) => strength(k), None => 0 }),
@fn Parser::parse_current_string
    requires wf(*self),
    ensures r == self.tokens@[self.index as int].literal,
@fn Parser::parse_ident_expr
    requires wf(*self),
    ensures r == Expr::Ident(self.tokens@[self.index as int].literal),
@fn Parser::parse_string_literal
    requires wf(*self),
    ensures r == Expr::String(self.tokens@[self.index as int].literal),
@fn Parser::parse_integer_literal
    requires wf(*self),
    ensures r.ok() == (match i64_of(self.tokens@[self.index as int].literal@) { Some(x) => Some(Expr::Integer(x)), None => None }),
@fn Parser::parse_float_literal
    requires wf(*self),
    ensures r.ok() == (match f64_of(self.tokens@[self.index as int].literal@) { Some(x) => Some(Expr::Float(x)), None => None }),
@fn Parser::parse_boolean_literal
    requires wf(*self), here(*self) is True || here(*self) is False,
    ensures r.ok() == (match bool_of(self.tokens@[self.index as int].literal@) { Some(x) => Some(Expr::Boolean(x)), None => None }),
@hint entry
    proof { reveal(spelled); assert(spells(self.tokens@[self.index as int])); reveal_strlit("true"); reveal_strlit("false"); assert("true"@.len() != "false"@.len()); }
@fn Parser::parse_expr attr=#[verifier::loop_isolation(false)]
    requires wf(*old(self)),
    ensures parsed(r, p_expr(old(self).tokens@, old(self).index as int, precedence as int), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 3int,
@hint entry
    let ghost vx_p = precedence; proof { reveal_with_fuel(p_expr, 2); reveal_with_fuel(p_tail, 2); }
@loop 0
    invariant wf(*self), self.tokens == old(self).tokens, old(self).index <= self.index, !(self.tokens@[self.index as int].kind is Eof),
        p_expr(old(self).tokens@, old(self).index as int, vx_p as int) == p_tail(self.tokens@, self.index as int, left, precedence as int),
    decreases self.tokens@.len() - self.index,
@hint 0#begin
    proof { reveal_with_fuel(p_tail, 2); }
@fn Parser::parse_let_expr
    requires wf(*old(self)),
    ensures parsed(r, p_let(old(self).tokens@, old(self).index as int), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 2int,
@fn Parser::parse_unary_expr
    requires wf(*old(self)), here(*old(self)) is Not || here(*old(self)) is Sub,
    ensures parsed(r, p_unary(old(self).tokens@, old(self).index as int), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 2int,
@fn Parser::parse_binary_expr
    requires wf(*old(self)), is_binary(here(*old(self))),
    ensures parsed(r, p_binary(old(self).tokens@, old(self).index as int, left), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 2int,
@fn Parser::parse_paren_expr
    requires wf(*old(self)), here(*old(self)) is Lp,
    ensures parsed(r, p_paren(old(self).tokens@, old(self).index as int), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 2int,
@fn Parser::parse_if_expr
    requires wf(*old(self)),
    ensures parsed(r, p_if(old(self).tokens@, old(self).index as int), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 2int,
@fn Parser::parse_call_expr
    requires wf(*old(self)), here(*old(self)) is Lp,
    ensures parsed(r, p_call(old(self).tokens@, old(self).index as int, function), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 2int,
@fn Parser::parse_expr_list
    requires wf(*old(self)), !(end is Eof), !(here(*old(self)) is Eof),
    ensures parsed_seq(r, p_list(old(self).tokens@, old(self).index as int, end, Seq::empty()), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 1int,
@hint entry
    proof { reveal_with_fuel(p_list, 2); }
@loop 0
    invariant wf(*self), self.tokens == old(self).tokens, old(self).index <= self.index, !(end is Eof), !(here(*self) is Eof),
        p_list(old(self).tokens@, old(self).index as int, end, Seq::empty()) == p_list(self.tokens@, self.index as int, end, exprs@)
        || (exprs@.len() > 0 && peek(self.tokens@, self.index as int) == Some(end) && p_list(old(self).tokens@, old(self).index as int, end, Seq::empty()) == Some((exprs@, self.index + 1))),
    decreases self.tokens@.len() - self.index,
@fn Parser::parse_array_literal
    requires wf(*old(self)), here(*old(self)) is Ls,
    ensures parsed(r, p_array(old(self).tokens@, old(self).index as int), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 2int,
@fn Parser::parse_map_literal
    requires wf(*old(self)), here(*old(self)) is Lb,
    ensures parsed(r, p_map(old(self).tokens@, old(self).index as int), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 2int,
@loop 0
    invariant wf(*self), self.tokens == old(self).tokens, old(self).index <= self.index, !(here(*self) is Eof),
        p_pairs(old(self).tokens@, old(self).index as int, Seq::empty()) == p_pairs(self.tokens@, self.index as int, pairs@),
    decreases self.tokens@.len() - self.index,
@fn Parser::parse_index_expr
    requires wf(*old(self)), !(here(*old(self)) is Eof),
    ensures parsed(r, p_index(old(self).tokens@, old(self).index as int, left), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 2int,
@fn Parser::parse_field_expr
    requires wf(*old(self)),
    ensures parsed(r, p_field(old(self).tokens@, old(self).index as int, left), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 2int,
@fn Parser::parse_block_expr
    requires wf(*old(self)),
    ensures parsed_seq(r, p_block(old(self).tokens@, old(self).index as int), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 2int,
@hint entry
    proof { reveal_with_fuel(p_stmts, 2); }
@loop 0
    invariant wf(*self), self.tokens == old(self).tokens, old(self).index < self.index, !(here(*self) is Eof),
        p_block(old(self).tokens@, old(self).index as int) == p_stmts(self.tokens@, self.index as int, exprs@),
    decreases self.tokens@.len() - self.index,
@fn Parser::parse_request_literal
    requires wf(*old(self)),
    ensures parsed(r, p_request(old(self).tokens@, old(self).index as int), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 4int,
@fn Parser::parse_test_literal
    requires wf(*old(self)),
    ensures parsed(r, p_test(old(self).tokens@, old(self).index as int), *old(self), *final(self)),
    decreases old(self).tokens@.len() - old(self).index, 4int,
@fn Parser::parse
    requires wf(*old(self)),
    ensures match r {
        Ok(s) => p_program(old(self).tokens@, old(self).index as int, no_program()) == Some(Program { exprs: s.exprs@, requests: s.requests@, tests: s.tests@ }),
        Err(_) => p_program(old(self).tokens@, old(self).index as int, no_program()) is None,
    },
@loop 0
    invariant wf(*self), self.tokens == old(self).tokens,
        p_program(old(self).tokens@, old(self).index as int, no_program()) == p_program(self.tokens@, self.index as int, Program { exprs: exprs@, requests: requests@, tests: tests@ }),
    decreases self.tokens@.len() - self.index,
@raw
impl VxOwned for Token {
    // derived Clone
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: Self) { unimplemented!() }
}

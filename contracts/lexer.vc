@unit lexer
@spec shim_core.rs lexer_spec.rs
@derive Kind = Copy, Clone, PartialEq, Eq, Structural
@method chars = vx_chars
@method is_whitespace = vx_is_whitespace
@method is_ascii_digit = vx_is_ascii_digit
@method is_ascii_alphanumeric = vx_is_ascii_alphanumeric
@method is_ascii_alphabetic = vx_is_ascii_alphabetic
@method to_owned = vx_to_owned
@call String::from_iter = vx_chars_string
@call String::from = vx_char_string
@source lib/src/token.rs
drop Token::precedence
@source lib/src/lexer.rs
@fn Token::new
    ensures r == (Token { kind, literal }),
@fn segment
    ensures r@ == lex(text@).push(token(Kind::Eof, Seq::empty())),
@hint 0#before
    let ghost mut vx_n = chars.rest();
    let ghost mut vx_d = tokens@;
@loop 0
    invariant tokens@ + lex(chars.rest()) == lex(text@), vx_n == chars.rest(), vx_d == tokens@,
    ensures tokens@ == lex(text@),
    decreases chars.rest().len(),
@hint 0#begin
    let ghost vx_s = vx_n;
    let ghost vx_done = vx_d;
    proof { vx_n = chars.rest(); assert(vx_n == vx_s.skip(1)); if is_ws(vx_s[0]) { assert(lex(vx_s) == lex(vx_n)); } lex_covers(vx_s); lead(vx_s); if vx_s.len() > 1 { pair_seq(vx_s[0], vx_s[1]); } }
@hint 0#end
    proof {
        if !is_ws(vx_s[0]) { assert(tokens@ == vx_done.push(token(first(vx_s).0, first(vx_s).1))); assert(chars.rest() == vx_s.skip(first(vx_s).2)); lex_step(vx_s, vx_done, first(vx_s).0, first(vx_s).1, first(vx_s).2); }
        vx_n = chars.rest(); vx_d = tokens@;
    }
@hint 1#before
    let ghost mut vx_left = chars.rest();
    proof { read_start(vx_s.skip(1), until('"')); }
@loop 1
    invariant_except_break reading(vx_s.skip(1), until('"'), string@, chars.rest()), vx_left == chars.rest(),
    invariant vx_s.len() > 0, vx_s[0] == '"', !is_ws(vx_s[0]),
    ensures string@ == vx_s.skip(1).take(run(vx_s.skip(1), until('"'))), chars.rest() == vx_s.skip(first(vx_s).2), 0 < first(vx_s).2 <= vx_s.len(),
    decreases chars.rest().len(),
@hint 1#begin
    proof { quote_step(vx_s, string@, vx_left); }
@hint 1#end
    proof { vx_left = chars.rest(); }
@hint 2#before
    let ghost mut vx_left = chars.rest();
    proof { read_start(vx_s.skip(1), until('`')); }
@loop 2
    invariant_except_break reading(vx_s.skip(1), until('`'), string@, chars.rest()), vx_left == chars.rest(),
    invariant vx_s.len() > 0, vx_s[0] == '`', !is_ws(vx_s[0]),
    ensures string@ == vx_s.skip(1).take(run(vx_s.skip(1), until('`'))), chars.rest() == vx_s.skip(first(vx_s).2), 0 < first(vx_s).2 <= vx_s.len(),
    decreases chars.rest().len(),
@hint 2#begin
    proof { quote_step(vx_s, string@, vx_left); }
@hint 2#end
    proof { vx_left = chars.rest(); }
@hint 3#before
    let ghost mut vx_left = chars.rest();
    proof { read_start1(vx_s, nums(), string@); }
@loop 3
    invariant_except_break reading1(vx_s, nums(), string@, chars.rest()), vx_left == chars.rest(),
    invariant has_dot == string@.contains('.'),
    ensures string@ == vx_s.take(1 + run(vx_s.skip(1), nums())), chars.rest() == vx_s.skip(1 + run(vx_s.skip(1), nums())), 0 <= run(vx_s.skip(1), nums()) < vx_s.len(),
    decreases chars.rest().len(),
@hint 3#begin
    proof { if nums()(vx_left[0]) { read_more1(vx_s, nums(), string@, vx_left); } }
@hint 3#end
    proof { vx_left = chars.rest(); }
@hint 4#before
    let ghost mut vx_left = chars.rest();
    proof { read_start1(vx_s, words(), string@); }
@loop 4
    invariant_except_break reading1(vx_s, words(), string@, chars.rest()), vx_left == chars.rest(),
    
    ensures string@ == vx_s.take(1 + run(vx_s.skip(1), words())), chars.rest() == vx_s.skip(1 + run(vx_s.skip(1), words())), 0 <= run(vx_s.skip(1), words()) < vx_s.len(),
    decreases chars.rest().len(),
@hint 4#begin
    proof { if words()(vx_left[0]) { read_more1(vx_s, words(), string@, vx_left); } }
@hint 4#end
    proof { vx_left = chars.rest(); }

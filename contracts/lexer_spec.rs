// ---- C01: the token sequence of a text, by longest match from the left ----
//@broadcast vxl::axiom_char_string
//@broadcast vxr::read_stop
//@broadcast vxr::read_stop1
pub mod vxl {
use vstd::prelude::*;
use crate::*;
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn is_word(c: char) -> bool { is_alpha(c) || is_digit(c) || c == '_' }
pub open spec fn is_num(c: char) -> bool { is_digit(c) || c == '.' }
pub open spec fn one_char(c: char) -> String { str_of(seq![c]) }

// ---- assumed contracts of the standard library ----
/// `text.chars().peekable()`: the characters not read yet
#[verifier::external_body]
pub struct VxChars { inner: std::vec::IntoIter<char> }
impl VxChars {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn peekable(self) -> (r: VxChars) ensures r.rest() == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            match r {
                Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&char>)
        ensures
            final(self).rest() == old(self).rest(),
            match r {
                Some(c) => old(self).rest().len() > 0 && *c == old(self).rest()[0],
                None => old(self).rest().len() == 0,
            }
    { unimplemented!() }
}
pub trait VxText { fn vx_chars(&self) -> VxChars; }
impl VxText for str {
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxChars) ensures r.rest() == self@ { unimplemented!() }
}
pub trait VxChar {
    fn vx_is_whitespace(&self) -> bool;
    fn vx_is_ascii_digit(&self) -> bool;
    fn vx_is_ascii_alphanumeric(&self) -> bool;
    fn vx_is_ascii_alphabetic(&self) -> bool;
}
impl VxChar for char {
    #[verifier::external_body]
    fn vx_is_whitespace(&self) -> (r: bool) ensures r == is_ws(*self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_ascii_digit(&self) -> (r: bool) ensures r == is_digit(*self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (is_alpha(*self) || is_digit(*self)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) ensures r == is_alpha(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_char_string(c: char) -> (r: String) ensures r == one_char(c), r@ == seq![c] { unimplemented!() }
#[verifier::external_body]
pub fn vx_chars_string<const N: usize>(c: [char; N]) -> (r: String) ensures r@ == c@ { unimplemented!() }
#[verifier::external_body]
pub broadcast proof fn axiom_char_string(s: Seq<char>) ensures #[trigger] str_of(s)@ == s { }
} // mod vxl
pub use vxl::*;

pub open spec fn two(s: Seq<char>) -> Option<Kind> {
    if s.len() < 2 { None }
    else if s[0] == '=' && s[1] == '=' { Some(Kind::Eq) }
    else if s[0] == '!' && s[1] == '=' { Some(Kind::Ne) }
    else if s[0] == '|' && s[1] == '|' { Some(Kind::Lo) }
    else if s[0] == '&' && s[1] == '&' { Some(Kind::La) }
    else if s[0] == '<' && s[1] == '=' { Some(Kind::Le) }
    else if s[0] == '<' && s[1] == '<' { Some(Kind::Sl) }
    else if s[0] == '>' && s[1] == '=' { Some(Kind::Ge) }
    else if s[0] == '>' && s[1] == '>' { Some(Kind::Sr) }
    else { None }
}
pub open spec fn one(c: char) -> Kind {
    if c == '=' { Kind::Assign } else if c == '!' { Kind::Not }
    else if c == '+' { Kind::Add } else if c == '-' { Kind::Sub } else if c == '*' { Kind::Mul } else if c == '/' { Kind::Div } else if c == '%' { Kind::Rem }
    else if c == '^' { Kind::Bx } else if c == '|' { Kind::Bo } else if c == '&' { Kind::Ba }
    else if c == '<' { Kind::Lt } else if c == '>' { Kind::Gt }
    else if c == ',' { Kind::Comma } else if c == ';' { Kind::Semi } else if c == ':' { Kind::Colon } else if c == '.' { Kind::Dot }
    else if c == '(' { Kind::Lp } else if c == ')' { Kind::Rp } else if c == '{' { Kind::Lb } else if c == '}' { Kind::Rb }
    else if c == '[' { Kind::Ls } else if c == ']' { Kind::Rs }
    else { Kind::Illegal }
}
pub open spec fn word(s: Seq<char>) -> Kind {
    if s == "true"@ { Kind::True } else if s == "false"@ { Kind::False } else if s == "request"@ { Kind::Request } else if s == "let"@ { Kind::Let }
    else if s == "if"@ { Kind::If } else if s == "else"@ { Kind::Else } else if s == "test"@ { Kind::Test } else { Kind::Ident }
}
/// kind, text and length of the token a text starts with (its first character is not white space)
pub open spec fn first(s: Seq<char>) -> (Kind, Seq<char>, int) {
    let c = s[0];
    let t = s.skip(1);
    if c == '"' || c == '`' {
        let n = run(t, until(c));
        (if c == '"' { Kind::String } else { Kind::Template }, t.take(n), if n < t.len() { n + 2 } else { n + 1 })
    } else if is_digit(c) {
        let n = 1 + run(t, nums());
        (if s.take(n).contains('.') { Kind::Float } else { Kind::Integer }, s.take(n), n)
    } else if is_alpha(c) || c == '_' {
        let n = 1 + run(t, words());
        (word(s.take(n)), s.take(n), n)
    } else if let Some(k) = two(s) { (k, s.take(2), 2) }
    else { (one(c), s.take(1), 1) }
}
pub open spec fn token(k: Kind, s: Seq<char>) -> Token { Token { kind: k, literal: str_of(s) } }
/// the tokens of a text, without the end-of-file token
pub open spec fn lex(s: Seq<char>) -> Seq<Token>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if is_ws(s[0]) { lex(s.skip(1)) }
    else {
        let (k, t, n) = first(s);
        if 0 < n <= s.len() { seq![token(k, t)] + lex(s.skip(n)) } else { Seq::empty() }
    }
}
pub mod vxr {
use vstd::prelude::*;
use crate::*;
pub open spec fn until(c: char) -> spec_fn(char) -> bool { |x: char| x != c }
pub open spec fn nums() -> spec_fn(char) -> bool { |x: char| is_num(x) }
pub open spec fn words() -> spec_fn(char) -> bool { |x: char| is_word(x) }
/// reading a run: `got` is what was read of `t`, `rest` is what is left of it
/// length of the longest prefix of characters satisfying `f`
pub open spec fn run(s: Seq<char>, f: spec_fn(char) -> bool) -> int
    decreases s.len()
{ if s.len() == 0 || !f(s[0]) { 0 } else { 1 + run(s.skip(1), f) } }
pub proof fn run_bounds(s: Seq<char>, f: spec_fn(char) -> bool)
    ensures 0 <= run(s, f) <= s.len(), forall|i: int| 0 <= i < run(s, f) ==> f(#[trigger] s[i]), run(s, f) < s.len() ==> !f(s[run(s, f)])
    decreases s.len()
{
    if s.len() > 0 && f(s[0]) {
        run_bounds(s.skip(1), f);
        assert forall|i: int| 0 <= i < run(s, f) implies f(#[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
        if run(s, f) < s.len() { assert(s[run(s, f)] == s.skip(1)[run(s.skip(1), f)]); }
    }
}
/// having read `n` characters that all satisfy f, the run is n plus the run of what is left
pub proof fn run_split(s: Seq<char>, f: spec_fn(char) -> bool, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> f(#[trigger] s[i])
    ensures run(s, f) == n + run(s.skip(n), f)
    decreases n
{
    if n > 0 {
        assert forall|i: int| 0 <= i < n - 1 implies f(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        run_split(s.skip(1), f, n - 1);
        assert(s.skip(1).skip(n - 1) =~= s.skip(n));
        assert(f(s[0]));
    } else { assert(s.skip(0) =~= s); }
}
/// `got` is what was read of a run of `t`, `rest` is what is left of `t`
#[verifier::opaque]
pub open spec fn reading(t: Seq<char>, f: spec_fn(char) -> bool, got: Seq<char>, rest: Seq<char>) -> bool {
    got.len() <= t.len() && got == t.take(got.len() as int) && rest == t.skip(got.len() as int) && run(t, f) == got.len() + run(rest, f)
}
pub proof fn read_start(t: Seq<char>, f: spec_fn(char) -> bool)
    ensures reading(t, f, Seq::empty(), t)
{ reveal(reading); assert(t.skip(0) =~= t); assert(t.take(0) =~= Seq::<char>::empty()); }
pub proof fn read_more(t: Seq<char>, f: spec_fn(char) -> bool, got: Seq<char>, rest: Seq<char>)
    requires reading(t, f, got, rest), rest.len() > 0, f(rest[0])
    ensures reading(t, f, got.push(rest[0]), rest.skip(1))
{
    reveal(reading);
    assert(got.push(rest[0]) =~= t.take(got.len() as int + 1));
    assert(rest.skip(1) =~= t.skip(got.len() as int + 1));
}
pub broadcast proof fn read_stop(t: Seq<char>, f: spec_fn(char) -> bool, got: Seq<char>, rest: Seq<char>)
    requires #[trigger] reading(t, f, got, rest)
    ensures rest.len() == 0 || !f(rest[0]) ==> got == t.take(run(t, f)) && rest == t.skip(run(t, f)) && 0 <= run(t, f) <= t.len() && got.len() == run(t, f)
{ reveal(reading); }
/// the same after a first character that is part of the token
#[verifier::opaque]
pub open spec fn reading1(s: Seq<char>, f: spec_fn(char) -> bool, got: Seq<char>, rest: Seq<char>) -> bool {
    s.len() > 0 && got.len() > 0 && got[0] == s[0] && reading(s.skip(1), f, got.skip(1), rest)
}
pub proof fn read_start1(s: Seq<char>, f: spec_fn(char) -> bool, got: Seq<char>)
    requires s.len() > 0, got == seq![s[0]]
    ensures reading1(s, f, got, s.skip(1))
{ reveal(reading1); read_start(s.skip(1), f); assert(got.skip(1) =~= Seq::<char>::empty()); }
pub proof fn read_more1(s: Seq<char>, f: spec_fn(char) -> bool, got: Seq<char>, rest: Seq<char>)
    requires reading1(s, f, got, rest), rest.len() > 0, f(rest[0])
    ensures reading1(s, f, got.push(rest[0]), rest.skip(1)), got.push(rest[0]).contains('.') == (got.contains('.') || rest[0] == '.')
{
    reveal(reading1); read_more(s.skip(1), f, got.skip(1), rest);
    let g = got.push(rest[0]);
    assert(g.skip(1) =~= got.skip(1).push(rest[0]));
    assert(g[g.len() - 1] == rest[0]);
    if got.contains('.') { let i = choose|i: int| 0 <= i < got.len() && got[i] == '.'; assert(g[i] == '.'); }
    if g.contains('.') { let i = choose|i: int| 0 <= i < g.len() && g[i] == '.'; if i < got.len() { assert(got[i] == '.'); } }
}
pub broadcast proof fn read_stop1(s: Seq<char>, f: spec_fn(char) -> bool, got: Seq<char>, rest: Seq<char>)
    requires #[trigger] reading1(s, f, got, rest)
    ensures rest.len() == 0 || !f(rest[0]) ==> got == s.take(1 + run(s.skip(1), f)) && rest == s.skip(1 + run(s.skip(1), f)) && 0 <= run(s.skip(1), f) < s.len()
{
    reveal(reading1); reveal(reading);
    if rest.len() == 0 || !f(rest[0]) {
        let n = run(s.skip(1), f);
        assert(got.skip(1) == s.skip(1).take(n));
        assert forall|i: int| 0 < i < got.len() implies got[i] == s[i] by { assert(got[i] == got.skip(1)[i - 1]); assert(s.skip(1).take(n)[i - 1] == s[i]); }
        assert(got =~= s.take(1 + n));
        assert(rest =~= s.skip(1 + n));
    }
}
} // mod vxr
pub use vxr::*;
/// the step every token takes
pub proof fn lex_step(s: Seq<char>, done: Seq<Token>, k: Kind, t: Seq<char>, n: int)
    requires s.len() > 0, !is_ws(s[0]), first(s) == (k, t, n), 0 < n <= s.len()
    ensures done.push(token(k, t)) + lex(s.skip(n)) == done + lex(s)
{
    assert(done.push(token(k, t)) + lex(s.skip(n)) =~= done + (seq![token(k, t)] + lex(s.skip(n))));
}
pub proof fn lead(s: Seq<char>)
    ensures s.len() >= 1 ==> s.take(1) == seq![s[0]], s.len() >= 2 ==> s.take(2) == seq![s[0], s[1]] && s.skip(1).skip(1) == s.skip(2)
{
    if s.len() >= 1 { assert(s.take(1) =~= seq![s[0]]); }
    if s.len() >= 2 { assert(s.take(2) =~= seq![s[0], s[1]]); assert(s.skip(1).skip(1) =~= s.skip(2)); }
}
pub proof fn pair_seq(a: char, b: char)
    ensures ([a, b])@ == seq![a, b]
{ assert(([a, b])@ =~= seq![a, b]); }
/// nothing is dropped: white space aside, the tokens cover the text
pub proof fn lex_covers(s: Seq<char>)
    ensures s.len() > 0 && !is_ws(s[0]) ==> 0 < first(s).2 <= s.len() && lex(s) == seq![token(first(s).0, first(s).1)] + lex(s.skip(first(s).2))
{
    if s.len() > 0 {
        let c = s[0]; let t = s.skip(1);
        run_bounds(t, until(c)); run_bounds(t, nums()); run_bounds(t, words());
    }
}
/// one character of a quoted token: part of it, or the closing quote
pub proof fn quote_step(s: Seq<char>, got: Seq<char>, rest: Seq<char>)
    requires s.len() > 0, s[0] == '"' || s[0] == '`', rest.len() > 0, reading(s.skip(1), until(s[0]), got, rest)
    ensures
        rest[0] != s[0] ==> reading(s.skip(1), until(s[0]), got.push(rest[0]), rest.skip(1)),
        rest[0] == s[0] ==> rest.skip(1) == s.skip(first(s).2) && 0 < first(s).2 <= s.len(),
{
    if rest[0] != s[0] { read_more(s.skip(1), until(s[0]), got, rest); }
    else { reveal(reading); assert(rest.skip(1) =~= s.skip(got.len() as int + 2)); }
}

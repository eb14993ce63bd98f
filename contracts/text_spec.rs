// ---- the text of a value, placeholders ----
pub mod vxt {
use vstd::prelude::*;
use std::collections::HashMap;
use crate::*;

// ---- the text of a value ----
pub uninterp spec fn array_text(v: Vec<Value>) -> Seq<char>;
pub uninterp spec fn map_text(v: HashMap<String, Value>) -> Seq<char>;
pub uninterp spec fn show_expr(e: Expr) -> Seq<char>;
/// strings without quotes, arrays and maps in the format of `{:?}`
pub open spec fn show(v: Value) -> Seq<char> {
    match v {
        Value::Null => "null"@, Value::Integer(i) => int_text(i as int), Value::Float(f) => float_text(f), Value::Boolean(b) => bool_text(b),
        Value::String(s) => s@, Value::Array(items) => array_text(items), Value::Map(pairs) => map_text(pairs),
    }
}
pub open spec fn show_token(t: Token) -> Seq<char> { t.literal@ }

impl VxShow for Value {
    open spec fn shown(&self) -> Seq<char> { show(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxShow for Token {
    open spec fn shown(&self) -> Seq<char> { show_token(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxShow for Expr {
    open spec fn shown(&self) -> Seq<char> { show_expr(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxDebug for Vec<Value> { open spec fn debug_text(&self) -> Seq<char> { array_text(*self) } }
impl VxDebug for HashMap<String, Value> { open spec fn debug_text(&self) -> Seq<char> { map_text(*self) } }

// ---- placeholders ----
pub open spec fn ident_start(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '_' }
pub open spec fn ident_more(c: char) -> bool { ident_start(c) || '0' <= c <= '9' }
/// first position from i on that is not a blank
pub open spec fn skip_blanks(s: Seq<char>, i: int) -> int
    decreases s.len() - i
{ if 0 <= i < s.len() && blank(s[i]) { skip_blanks(s, i + 1) } else { i } }
pub open spec fn skip_name(s: Seq<char>, i: int) -> int
    decreases s.len() - i
{ if 0 <= i < s.len() && ident_more(s[i]) { skip_name(s, i + 1) } else { i } }
/// a placeholder starts at i: `{`, blanks, a name, blanks, `}`; the position after it
pub open spec fn hole_end(s: Seq<char>, i: int) -> Option<int> {
    if 0 <= i < s.len() && s[i] == '{' {
        let a = skip_blanks(s, i + 1);
        if a < s.len() && ident_start(s[a]) {
            let c = skip_blanks(s, skip_name(s, a + 1));
            if c < s.len() && s[c] == '}' { Some(c + 1) } else { None }
        } else { None }
    } else { None }
}
pub proof fn skips(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= skip_blanks(s, i) <= s.len(), i <= skip_name(s, i) <= s.len()
    decreases s.len() - i
{ if i < s.len() { skips(s, i + 1); } }
pub proof fn hole_bounds(s: Seq<char>, i: int)
    ensures match hole_end(s, i) { Some(j) => 0 <= i && i + 3 <= j <= s.len() && s[i] == '{' && s[j - 1] == '}', None => true }
{
    if 0 <= i < s.len() {
        skips(s, i + 1);
        let a = skip_blanks(s, i + 1);
        if a < s.len() { skips(s, a + 1); skips(s, skip_name(s, a + 1)); }
    }
}
/// the name in a placeholder
pub open spec fn hole_name(s: Seq<char>, i: int, j: int) -> Seq<char> { trimmed(s.subrange(i + 1, j - 1)) }
pub struct Hole { pub from: int, pub to: int }
/// the placeholders from position i on, leftmost first, without overlap
pub open spec fn holes(s: Seq<char>, i: int) -> Seq<Hole>
    decreases s.len() - i
{
    if !(0 <= i < s.len()) { Seq::empty() } else {
        match hole_end(s, i) {
            Some(j) => if i < j { seq![Hole { from: i, to: j }] + holes(s, j) } else { Seq::empty() },
            None => holes(s, i + 1),
        }
    }
}
/// the text from i on with the placeholders replaced; f gives the replacement by number and name
pub open spec fn fill(s: Seq<char>, i: int, k: int, f: spec_fn(int, Seq<char>) -> Seq<char>) -> Seq<char>
    decreases s.len() - i
{
    if !(0 <= i < s.len()) { Seq::empty() } else {
        match hole_end(s, i) {
            Some(j) => if i < j { f(k, hole_name(s, i, j)) + fill(s, j, k + 1, f) } else { Seq::empty() },
            None => seq![s[i]] + fill(s, i + 1, k, f),
        }
    }
}
pub open spec fn variable_text(env: Map<String, Value>) -> spec_fn(int, Seq<char>) -> Seq<char> {
    |k: int, name: Seq<char>| if env.contains_key(str_of(name)) { show(env[str_of(name)]) } else { "null"@ }
}
/// a message with its placeholders replaced by variables
pub open spec fn filled(message: Seq<char>, env: Map<String, Value>) -> Seq<char> { fill(message, 0, 0, variable_text(env)) }
pub open spec fn argument_text(args: Seq<Value>) -> spec_fn(int, Seq<char>) -> Seq<char> { |k: int, name: Seq<char>| show(args[k]) }

/// H are the placeholders of s from position i on
pub open spec fn tiles(s: Seq<char>, h: Seq<Hole>) -> bool {
    forall|k: int| 0 <= k < h.len() ==> {
        &&& 0 <= (#[trigger] h[k]).from && h[k].from + 3 <= h[k].to <= s.len()
        &&& hole_end(s, h[k].from) == Some(h[k].to)
        &&& s[h[k].from] == '{' && s[h[k].to - 1] == '}'
    }
}
pub proof fn holes_tile(s: Seq<char>, i: int)
    requires 0 <= i
    ensures tiles(s, holes(s, i)), holes(s, i).len() > 0 ==> i <= holes(s, i)[0].from, holes(s, i).len() <= s.len()
    decreases s.len() - i
{
    hole_bounds(s, i);
    if i < s.len() {
        match hole_end(s, i) { Some(j) => { holes_tile(s, j); holes_len(s, j); }, None => { holes_tile(s, i + 1); } }
        holes_len(s, i);
    }
}
pub proof fn holes_len(s: Seq<char>, i: int)
    requires 0 <= i
    ensures holes(s, i).len() <= (if i <= s.len() { s.len() - i } else { 0 })
    decreases s.len() - i
{
    hole_bounds(s, i);
    if i < s.len() { match hole_end(s, i) { Some(j) => holes_len(s, j), None => holes_len(s, i + 1) } }
}
/// the text from i on is unchanged up to the first placeholder
pub proof fn fill_gap(s: Seq<char>, i: int, k: int, f: spec_fn(int, Seq<char>) -> Seq<char>)
    requires 0 <= i <= s.len()
    ensures
        holes(s, i).len() == 0 ==> fill(s, i, k, f) == s.skip(i),
        holes(s, i).len() > 0 ==> ({
            let h = holes(s, i)[0];
            &&& i <= h.from < h.to <= s.len()
            &&& fill(s, i, k, f) == s.subrange(i, h.from) + (f(k, hole_name(s, h.from, h.to)) + fill(s, h.to, k + 1, f))
            &&& holes(s, h.to) == holes(s, i).drop_first()
        }),
    decreases s.len() - i
{
    hole_bounds(s, i);
    if i < s.len() {
        match hole_end(s, i) {
            Some(j) => {
                assert(holes(s, i).drop_first() =~= holes(s, j));
                assert(s.subrange(i, i) =~= Seq::empty());
                assert(fill(s, i, k, f) =~= s.subrange(i, i) + (f(k, hole_name(s, i, j)) + fill(s, j, k + 1, f)));
            },
            None => {
                fill_gap(s, i + 1, k, f);
                if holes(s, i).len() == 0 { assert(s.skip(i) =~= seq![s[i]] + s.skip(i + 1)); }
                else { let h = holes(s, i)[0]; assert(s.subrange(i, h.from) =~= seq![s[i]] + s.subrange(i + 1, h.from));
                    assert(fill(s, i, k, f) =~= s.subrange(i, h.from) + (f(k, hole_name(s, h.from, h.to)) + fill(s, h.to, k + 1, f))); }
            },
        }
    } else { assert(s.skip(i) =~= Seq::empty()); }
}
/// where the text after placeholder k-1 starts
pub open spec fn after_hole(h: Seq<Hole>, k: int) -> int { if k <= 0 { 0 } else { h[k - 1].to } }
/// the placeholders from number k on are those found after placeholder k-1
pub proof fn holes_from(s: Seq<char>, k: int)
    requires 0 <= k <= holes(s, 0).len()
    ensures holes(s, after_hole(holes(s, 0), k)) == holes(s, 0).skip(k), 0 <= after_hole(holes(s, 0), k) <= s.len()
    decreases k
{
    holes_tile(s, 0);
    if k > 0 {
        holes_from(s, k - 1);
        fill_gap(s, after_hole(holes(s, 0), k - 1), 0, |a: int, b: Seq<char>| b);
        assert(holes(s, 0).skip(k - 1).drop_first() =~= holes(s, 0).skip(k));
    } else { assert(holes(s, 0).skip(0) =~= holes(s, 0)); }
}
/// one step of replacing from the right: w is the text with the placeholders from k on replaced
pub open spec fn right_filled(s: Seq<char>, k: int, f: spec_fn(int, Seq<char>) -> Seq<char>) -> Seq<char> {
    let e = after_hole(holes(s, 0), k);
    s.take(e) + fill(s, e, k, f)
}
pub proof fn replace_step(s: Seq<char>, k: int, f: spec_fn(int, Seq<char>) -> Seq<char>)
    requires 0 <= k < holes(s, 0).len()
    ensures ({
        let h = holes(s, 0)[k];
        let w = right_filled(s, k + 1, f);
        &&& tiles(s, holes(s, 0))
        &&& h.to <= s.len() && 0 <= h.from < h.to <= w.len()
        &&& bpos(w, h.from) == bpos(s, h.from) && bpos(w, h.to) == bpos(s, h.to) && bpos(s, h.from) <= bpos(s, h.to) <= blen(s)
        &&& w.take(h.from) + f(k, hole_name(s, h.from, h.to)) + w.skip(h.to) == right_filled(s, k, f)
    })
{
    let h = holes(s, 0)[k];
    let e = after_hole(holes(s, 0), k);
    let w = right_filled(s, k + 1, f);
    holes_tile(s, 0);
    holes_from(s, k);
    assert(holes(s, 0).skip(k)[0] == h);
    fill_gap(s, e, k, f);
    assert(after_hole(holes(s, 0), k + 1) == h.to);
    bpos_same(w, s, h.from);
    bpos_same(w, s, h.to);
    bpos_monotone(s, h.from, h.to);
    if h.to < s.len() { bpos_monotone(s, h.to, s.len() as int); }
    assert(w.take(h.from) =~= s.take(h.from));
    assert(w.skip(h.to) =~= fill(s, h.to, k + 1, f));
    assert(s.take(e) + s.subrange(e, h.from) =~= s.take(h.from));
    assert(w.take(h.from) + f(k, hole_name(s, h.from, h.to)) + w.skip(h.to) =~= right_filled(s, k, f));
}
pub proof fn replace_ends(s: Seq<char>, f: spec_fn(int, Seq<char>) -> Seq<char>)
    ensures right_filled(s, holes(s, 0).len() as int, f) == s, right_filled(s, 0, f) == fill(s, 0, 0, f)
{
    let n = holes(s, 0).len() as int;
    holes_from(s, n);
    let e = after_hole(holes(s, 0), n);
    fill_gap(s, e, n, f);
    assert(s.take(e) + s.skip(e) =~= s);
    assert(right_filled(s, 0, f) =~= fill(s, 0, 0, f));
}

// ---- the regular expression library, for the one expression used ----
pub open spec fn vx_reach_known_pattern(p: Seq<char>) -> bool { p == "\\{\\s*([a-zA-Z_][a-zA-Z0-9_]*)\\s*\\}"@ }
pub struct VxRegex { pub p: () }
impl VxRegex {
    #[verifier::external_body]
    pub fn new(pattern: &str) -> (r: Result<VxRegex, String>) requires vx_reach_known_pattern(pattern@) ensures r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn find_iter<'h>(&self, text: &'h str) -> (r: Vec<VxMatch<'h>>)
        ensures r@.len() == holes(text@, 0).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).of(text@, holes(text@, 0)[k])
    { unimplemented!() }
}
pub struct VxMatch<'h> { pub text: &'h str, pub from: usize, pub to: usize }
impl<'h> VxMatch<'h> {
    pub open spec fn of(self, s: Seq<char>, h: Hole) -> bool { self.text@ == s.subrange(h.from, h.to) && self.from as int == bpos(s, h.from) && self.to as int == bpos(s, h.to) }
    pub fn as_str(&self) -> (r: &'h str) ensures r == self.text { self.text }
    pub fn start(&self) -> (r: usize) ensures r == self.from { self.from }
    pub fn end(&self) -> (r: usize) ensures r == self.to { self.to }
    pub fn range(&self) -> (r: core::ops::Range<usize>) ensures r.start == self.from, r.end == self.to { self.from..self.to }
}
/// the text between the braces of a match
pub proof fn between_braces(s: Seq<char>, h: Hole)
    requires 0 <= h.from, h.from + 3 <= h.to <= s.len(), s[h.from] == '{', s[h.to - 1] == '}'
    ensures ({
        let t = s.subrange(h.from, h.to);
        &&& on_boundary(t, 1) && on_boundary(t, blen(t) - 1) && 1 <= blen(t) - 1
        &&& t.subrange(cpos(t, 1), cpos(t, blen(t) - 1)) == s.subrange(h.from + 1, h.to - 1)
    })
{
    let t = s.subrange(h.from, h.to);
    reveal_with_fuel(bpos, 2);
    assert(bpos(t, 1) == 1);
    assert(bpos(t, t.len() - 1) == blen(t) - 1);
    lemma_cpos(t, 1); lemma_cpos(t, t.len() - 1);
    bpos_monotone(t, 1, t.len() - 1);
    assert(t.subrange(1, t.len() - 1) =~= s.subrange(h.from + 1, h.to - 1));
}
pub assume_specification<T> [<[T]>::reverse] (v: &mut [T])
    ensures final(v)@ == old(v)@.reverse();
} // mod vxt
pub use vxt::*;

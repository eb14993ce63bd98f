// ---- http messages ----
//@broadcast vxh::lemma_utf8_add
//@broadcast vxh::lemma_pairs_push
//@broadcast vxh::lemma_parts_push
//@broadcast vxh::lemma_nothing_more
//@broadcast vxh::lemma_second
use vstd::std_specs::iter::IteratorSpec;
use std::slice::Iter;
pub mod vxh {
use vstd::prelude::*;
use crate::*;

// ---- bytes of a text ----
pub uninterp spec fn char_bytes(c: char) -> Seq<u8>;
pub open spec fn utf8(s: Seq<char>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { utf8(s.drop_last()) + char_bytes(s.last()) } }
pub broadcast proof fn lemma_utf8_add(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] utf8(a + b) == utf8(a) + utf8(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(utf8(a) + utf8(b) =~= utf8(a)); }
    else { lemma_utf8_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(utf8(a) + utf8(b) =~= utf8(a) + utf8(b.drop_last()) + char_bytes(b.last())); }
}

// ---- names of versions, methods, schemes ----
pub open spec fn version_text(v: Version) -> Seq<char> {
    match v { Version::Http09 => "HTTP/0.9"@, Version::Http10 => "HTTP/1.0"@, Version::Http11 => "HTTP/1.1"@, Version::Http20 => "HTTP/2.0"@, Version::Http30 => "HTTP/3.0"@ }
}
pub open spec fn version_of(s: Seq<char>) -> Version {
    if s == "HTTP/0.9"@ { Version::Http09 } else if s == "HTTP/1.0"@ { Version::Http10 } else if s == "HTTP/2.0"@ { Version::Http20 } else if s == "HTTP/3.0"@ { Version::Http30 } else { Version::Http11 }
}
pub open spec fn method_text(m: Method) -> Seq<char> {
    match m {
        Method::Get => "GET"@, Method::Post => "POST"@, Method::Put => "PUT"@, Method::Patch => "PATCH"@, Method::Delete => "DELETE"@,
        Method::Options => "OPTIONS"@, Method::Head => "HEAD"@, Method::Trace => "TRACE"@, Method::Connect => "CONNECT"@,
    }
}
pub open spec fn method_of(s: Seq<char>) -> Method {
    if s == "POST"@ { Method::Post } else if s == "PUT"@ { Method::Put } else if s == "PATCH"@ { Method::Patch } else if s == "DELETE"@ { Method::Delete }
    else if s == "OPTIONS"@ { Method::Options } else if s == "HEAD"@ { Method::Head } else if s == "TRACE"@ { Method::Trace } else if s == "CONNECT"@ { Method::Connect } else { Method::Get }
}
pub open spec fn scheme_text(s: Scheme) -> Seq<char> { match s { Scheme::Http => "http"@, Scheme::Https => "https"@ } }
pub open spec fn scheme_of(s: Seq<char>) -> Scheme { if s == "https"@ { Scheme::Https } else { Scheme::Http } }
pub open spec fn text_of(s: Option<&str>) -> Seq<char> { match s { Some(t) => t@, None => Seq::empty() } }
pub proof fn names_differ()
    ensures version_of(Seq::empty()) == Version::Http11, method_of(Seq::empty()) == Method::Get, scheme_of(Seq::empty()) == Scheme::Http,
{
    reveal_strlit("HTTP/0.9"); reveal_strlit("HTTP/1.0"); reveal_strlit("HTTP/1.1"); reveal_strlit("HTTP/2.0"); reveal_strlit("HTTP/3.0");
    reveal_strlit("GET"); reveal_strlit("POST"); reveal_strlit("PUT"); reveal_strlit("PATCH"); reveal_strlit("DELETE"); reveal_strlit("OPTIONS"); reveal_strlit("HEAD"); reveal_strlit("TRACE"); reveal_strlit("CONNECT");
    reveal_strlit("http"); reveal_strlit("https");
    let e = Seq::<char>::empty();
    assert(e.len() == 0);
    assert("HTTP/0.9"@.len() == 8 && "HTTP/1.0"@.len() == 8 && "HTTP/2.0"@.len() == 8 && "HTTP/3.0"@.len() == 8 && "https"@.len() == 5);
    assert("POST"@.len() == 4 && "PUT"@.len() == 3 && "PATCH"@.len() == 5 && "DELETE"@.len() == 6 && "OPTIONS"@.len() == 7 && "HEAD"@.len() == 4 && "TRACE"@.len() == 5 && "CONNECT"@.len() == 7);
}
/// the standard names come back as themselves
pub proof fn usual_names()
    ensures version_of("HTTP/1.1"@) == Version::Http11, method_of("GET"@) == Method::Get, scheme_of("http"@) == Scheme::Http,
{
    names_differ();
    reveal_strlit("HTTP/0.9"); reveal_strlit("HTTP/1.0"); reveal_strlit("HTTP/1.1"); reveal_strlit("HTTP/2.0"); reveal_strlit("HTTP/3.0"); reveal_strlit("GET"); reveal_strlit("PUT"); reveal_strlit("http"); reveal_strlit("https");
    reveal_strlit("POST"); reveal_strlit("PATCH"); reveal_strlit("DELETE"); reveal_strlit("OPTIONS"); reveal_strlit("HEAD"); reveal_strlit("TRACE"); reveal_strlit("CONNECT");
    assert("HTTP/1.1"@[5] == '1' && "HTTP/1.1"@[7] == '1' && "HTTP/1.0"@[7] == '0' && "HTTP/0.9"@[5] == '0' && "HTTP/2.0"@[5] == '2' && "HTTP/3.0"@[5] == '3');
    assert("GET"@[0] == 'G' && "PUT"@[0] == 'P' && "http"@.len() == 4 && "https"@.len() == 5 && "GET"@.len() == 3);
    assert("POST"@.len() == 4 && "PATCH"@.len() == 5 && "DELETE"@.len() == 6 && "OPTIONS"@.len() == 7 && "HEAD"@.len() == 4 && "TRACE"@.len() == 5 && "CONNECT"@.len() == 7);
}

// ---- searching in a text ----
pub open spec fn find_at(s: Seq<char>, c: char, i: int) -> Option<int>
    decreases s.len() - i
{ if !(0 <= i < s.len()) { None } else if s[i] == c { Some(i) } else { find_at(s, c, i + 1) } }
/// first position of a character
pub open spec fn first_at(s: Seq<char>, c: char) -> Option<int> { find_at(s, c, 0) }
pub open spec fn find_text(s: Seq<char>, t: Seq<char>, i: int) -> Option<int>
    decreases s.len() + 1 - i
{ if !(0 <= i && i + t.len() <= s.len()) { None } else if s.subrange(i, i + t.len()) == t { Some(i) } else { find_text(s, t, i + 1) } }
pub open spec fn split_text(s: Seq<char>, n: int, t: Seq<char>) -> Seq<Seq<char>>
    decreases n
{
    if n <= 0 { Seq::empty() } else if n == 1 { seq![s] }
    else { match find_text(s, t, 0) { Some(i) => seq![s.take(i)] + split_text(s.skip(i + t.len()), n - 1, t), None => seq![s] } }
}
pub open spec fn split_once_at(s: Seq<char>, c: char) -> Option<(Seq<char>, Seq<char>)> {
    match first_at(s, c) { Some(i) => Some((s.take(i), s.skip(i + 1))), None => None }
}
/// a line without the carriage return before its line feed
pub open spec fn no_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match first_at(s, '\n') { Some(i) => if 0 <= i < s.len() { seq![no_cr(s.take(i))] + lines_of(s.skip(i + 1)) } else { Seq::empty() }, None => seq![s] } } }
pub open spec fn word_len(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 || blank(s[0]) { 0 } else { 1 + word_len(s.drop_first()) } }
pub open spec fn words_of(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if blank(s[0]) { words_of(s.drop_first()) } else if 0 < word_len(s) <= s.len() { seq![s.take(word_len(s))] + words_of(s.skip(word_len(s))) } else { Seq::empty() } }
pub open spec fn joined(parts: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases parts.len()
{ if parts.len() == 0 { Seq::empty() } else if parts.len() == 1 { parts[0] } else { joined(parts.drop_last(), sep) + sep + parts.last() } }
pub uninterp spec fn lowered(s: Seq<char>) -> Seq<char>;
/// a number from 0 to 65535: digits, an optional plus sign before them
pub open spec fn digits_value(s: Seq<char>) -> Option<int>
    decreases s.len()
{
    if s.len() == 0 { Some(0) } else {
        match digits_value(s.drop_last()) { Some(v) => if '0' <= s.last() <= '9' { Some(v * 10 + (s.last() as int - '0' as int)) } else { None }, None => None }
    }
}
pub open spec fn unsigned_of(s: Seq<char>) -> Option<int> {
    let d = if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s };
    if d.len() == 0 { None } else { digits_value(d) }
}
pub open spec fn u16_of(s: Seq<char>) -> Option<u16> { match unsigned_of(s) { Some(v) => if 0 <= v <= 65535 { Some(v as u16) } else { None }, None => None } }

/// an iterator over pieces of a text
#[verifier::external_body]
pub struct VxParts<'a> { p: &'a str }
impl<'a> VxParts<'a> {
    pub uninterp spec fn left(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r { Some(x) => old(self).left().len() > 0 && x@ == old(self).left()[0] && final(self).left() == old(self).left().drop_first(), None => old(self).left().len() == 0 && final(self).left() == old(self).left() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect(self) -> (r: VxTexts<'a>) ensures r.texts() == self.left() { unimplemented!() }
}
#[verifier::external_body]
pub struct VxTexts<'a> { p: &'a str }
impl<'a> VxTexts<'a> {
    pub uninterp spec fn texts(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.texts(), sep@) { unimplemented!() }
}
pub trait VxText {
    spec fn txt(&self) -> Seq<char>;
    fn vx_lines<'a>(&'a self) -> (r: VxParts<'a>) ensures r.left() == lines_of(self.txt());
    fn vx_split_whitespace<'a>(&'a self) -> (r: VxParts<'a>) ensures r.left() == words_of(self.txt());
    fn vx_splitn<'a>(&'a self, n: usize, sep: &str) -> (r: VxParts<'a>) ensures r.left() == split_text(self.txt(), n as int, sep@);
    fn vx_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>)
        ensures match r { Some((a, b)) => split_once_at(self.txt(), c) == Some((a@, b@)), None => split_once_at(self.txt(), c) is None };
    fn vx_find(&self, c: char) -> (r: Option<usize>)
        ensures match r {
            Some(b) => first_at(self.txt(), c) is Some && ({ let i = first_at(self.txt(), c)->0; 0 <= i < self.txt().len() && self.txt()[i] == c && b as int == bpos(self.txt(), i) && bpos(self.txt(), i + 1) == b + clen(c) <= usize::MAX }),
            None => first_at(self.txt(), c) is None,
        };
    fn vx_starts_with(&self, c: char) -> (r: bool) ensures r == (self.txt().len() > 0 && self.txt()[0] == c);
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == lowered(self.txt());
    fn vx_parse_T<T: VxFromStr>(&self) -> (r: Result<T, VxParseError>)
        ensures T::reads(self.txt(), match r { Ok(v) => Some(v), Err(_) => None });
    fn vx_parse_u16(&self) -> (r: Result<u16, VxParseError>)
        ensures match r { Ok(v) => u16_of(self.txt()) == Some(v), Err(_) => u16_of(self.txt()) is None };
    fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == utf8(self.txt());
}
impl VxText for str {
    open spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_lines<'a>(&'a self) -> (r: VxParts<'a>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_whitespace<'a>(&'a self) -> (r: VxParts<'a>) { unimplemented!() }
    #[verifier::external_body] fn vx_splitn<'a>(&'a self, n: usize, sep: &str) -> (r: VxParts<'a>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_find(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_T<T: VxFromStr>(&self) -> (r: Result<T, VxParseError>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_u16(&self) -> (r: Result<u16, VxParseError>) { unimplemented!() }
    #[verifier::external_body] fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() }
}
impl VxText for String {
    open spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_lines<'a>(&'a self) -> (r: VxParts<'a>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_whitespace<'a>(&'a self) -> (r: VxParts<'a>) { unimplemented!() }
    #[verifier::external_body] fn vx_splitn<'a>(&'a self, n: usize, sep: &str) -> (r: VxParts<'a>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_find(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_T<T: VxFromStr>(&self) -> (r: Result<T, VxParseError>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_u16(&self) -> (r: Result<u16, VxParseError>) { unimplemented!() }
    #[verifier::external_body] fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() }
}
impl VxTrim for String {
    open spec fn vx_untrimmed(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { self.trim() }
}
pub trait VxEmpty { spec fn none(&self) -> bool; fn vx_is_empty(&self) -> (r: bool) ensures r == self.none(); }
impl VxEmpty for str {
    open spec fn none(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl VxEmpty for String {
    open spec fn none(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl<T> VxEmpty for Vec<T> {
    open spec fn none(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
}
#[verifier::external_body]
pub fn vx_no_text() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
pub trait VxSliceOwned { spec fn vx_bytes(&self) -> Seq<u8>; fn vx_to_owned(&self) -> (r: Vec<u8>) ensures r@ == self.vx_bytes(); }
impl VxSliceOwned for [u8] {
    open spec fn vx_bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: Vec<u8>) { unimplemented!() }
}
pub trait VxIntoBytes { fn vx_into_bytes(self) -> (r: Vec<u8>); }
impl VxIntoBytes for String {
    #[verifier::external_body]
    fn vx_into_bytes(self) -> (r: Vec<u8>) ensures r@ == utf8(self@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_from_utf8(b: Vec<u8>) -> (r: Result<String, VxParseError>)
    ensures match r { Ok(s) => utf8(s@) == b@, Err(_) => b@.len() > 0 }, b@.len() == 0 ==> r is Ok && (r->Ok_0)@ == Seq::<char>::empty()
{ unimplemented!() }
#[verifier::external_body]
pub struct VxParseError { p: u64 }
#[verifier::external_body]
pub struct VxIoError { p: u64 }

// ---- conversions ----
pub trait VxFrom<T>: Sized { fn vx_from(x: T) -> Self; }
pub trait VxAsRef<T: ?Sized> { fn vx_as_ref(&self) -> &T; }
/// what reading a text as this type gives, None when it is refused
pub trait VxFromStr: Sized { spec fn reads(s: Seq<char>, v: Option<Self>) -> bool; }
impl VxFromStr for String { open spec fn reads(s: Seq<char>, v: Option<String>) -> bool { v matches Some(x) && x@ == s } }
impl VxFromStr for u16 { open spec fn reads(s: Seq<char>, v: Option<u16>) -> bool { v == u16_of(s) } }
pub trait VxDefault: Sized { spec fn standard(v: Self) -> bool; fn vx_default() -> (r: Self) ensures Self::standard(r); }
impl VxDefault for String {
    open spec fn standard(v: String) -> bool { v@ == Seq::<char>::empty() }
    #[verifier::external_body]
    fn vx_default() -> (r: String) { String::new() }
}
impl VxDefault for u16 {
    open spec fn standard(v: u16) -> bool { v == 0 }
    fn vx_default() -> (r: u16) { 0 }
}
pub trait VxOrDefault<T> { fn vx_unwrap_or_default(self) -> T; }
impl<T: VxDefault, E> VxOrDefault<T> for Result<T, E> {
    fn vx_unwrap_or_default(self) -> (r: T) ensures match self { Ok(v) => r == v, Err(_) => T::standard(r) }
    { match self { Ok(v) => v, Err(_) => T::vx_default() } }
}

impl VxShow for Version {
    open spec fn shown(&self) -> Seq<char> { version_text(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxShow for Method {
    open spec fn shown(&self) -> Seq<char> { method_text(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxShow for Scheme {
    open spec fn shown(&self) -> Seq<char> { scheme_text(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxShow for u16 {
    open spec fn shown(&self) -> Seq<char> { int_text(*self as int) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxShow for Url {
    open spec fn shown(&self) -> Seq<char> { url_text(self.scheme, self.host@, self.port, self.path@) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

// ---- urls ----
pub open spec fn url_text(scheme: Scheme, host: Seq<char>, port: u16, path: Seq<char>) -> Seq<char> {
    if port == usual_port(scheme) { scheme_text(scheme) + "://"@ + host + path } else { scheme_text(scheme) + "://"@ + host + ":"@ + int_text(port as int) + path }
}
pub open spec fn usual_port(s: Scheme) -> u16 { match s { Scheme::Http => 80, Scheme::Https => 443 } }
pub struct Target { pub scheme: Scheme, pub host: Seq<char>, pub port: u16, pub path: Seq<char> }
pub open spec fn target_of(u: Url) -> Target { Target { scheme: u.scheme, host: u.host@, port: u.port, path: u.path@ } }
/// host and port of the text between `://` and the path
pub open spec fn host_port(s: Seq<char>) -> (Seq<char>, Option<u16>) {
    match first_at(s, ':') { Some(j) => (s.take(j), u16_of(s.skip(j + 1))), None => (s, None) }
}
pub open spec fn target(s: Seq<char>) -> Target {
    match find_text(s, "://"@, 0) {
        Some(i) => {
            let scheme = scheme_of(s.take(i));
            let rest = s.skip(i + 3);
            let (place, path) = match first_at(rest, '/') { Some(k) => (rest.take(k), rest.skip(k)), None => (rest, "/"@) };
            let (host, port) = host_port(place);
            Target { scheme, host, port: match port { Some(p) => p, None => usual_port(scheme) }, path }
        },
        None => Target { scheme: scheme_of(s), host: "localhost"@, port: usual_port(scheme_of(s)), path: "/"@ },
    }
}
pub open spec fn usual_target() -> Target { Target { scheme: Scheme::Http, host: "localhost"@, port: 80, path: "/"@ } }

// ---- header lines ----
pub struct Pair { pub name: Seq<char>, pub value: Seq<char> }
pub open spec fn pairs_of(h: Seq<Header>) -> Seq<Pair> { h.map_values(|x: Header| Pair { name: x.name@, value: x.value@ }) }
/// the pair of a `name: value` line
pub open spec fn pair_of(line: Seq<char>) -> Option<Pair> {
    match split_once_at(line, ':') { Some((n, v)) => Some(Pair { name: trimmed(n), value: trimmed(v) }), None => None }
}
pub open spec fn pairs_in(lines: Seq<Seq<char>>) -> Seq<Pair>
    decreases lines.len()
{ if lines.len() == 0 { Seq::empty() } else { (match pair_of(trimmed(lines[0])) { Some(p) => seq![p], None => Seq::empty() }) + pairs_in(lines.drop_first()) } }
/// the headers up to the first blank line, and the lines after it
pub open spec fn headers_in(lines: Seq<Seq<char>>) -> Seq<Pair>
    decreases lines.len()
{
    if lines.len() == 0 || trimmed(lines[0]).len() == 0 { Seq::empty() }
    else { (match pair_of(trimmed(lines[0])) { Some(p) => seq![p], None => Seq::empty() }) + headers_in(lines.drop_first()) }
}
pub open spec fn after_blank(lines: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases lines.len()
{ if lines.len() == 0 { lines } else if trimmed(lines[0]).len() == 0 { lines.drop_first() } else { after_blank(lines.drop_first()) } }
/// the value of the first content-type header
pub open spec fn type_in(h: Seq<Pair>) -> Option<Seq<char>>
    decreases h.len()
{ if h.len() == 0 { None } else { match type_in(h.drop_last()) { Some(t) => Some(t), None => if lowered(h.last().name) == "content-type"@ { Some(h.last().value) } else { None } } } }

pub broadcast proof fn lemma_pairs_push(h: Seq<Header>, x: Header)
    ensures #[trigger] pairs_of(h.push(x)) == pairs_of(h).push(Pair { name: x.name@, value: x.value@ }), pairs_of(Seq::<Header>::empty()) == Seq::<Pair>::empty()
{
    assert(pairs_of(h.push(x)) =~= pairs_of(h).push(Pair { name: x.name@, value: x.value@ }));
    assert(pairs_of(Seq::<Header>::empty()) =~= Seq::<Pair>::empty());
}
pub broadcast proof fn lemma_nothing_more(a: Seq<Pair>, b: Seq<Pair>)
    requires b.len() == 0
    ensures #[trigger] (a + b) == a
{ assert(a + b =~= a); }
/// one more line read
pub proof fn header_step(done: Seq<Pair>, ls: Seq<Seq<char>>)
    requires ls.len() > 0
    ensures
        trimmed(ls[0]).len() > 0 ==> (match pair_of(trimmed(ls[0])) {
            Some(p) => done.push(p) + headers_in(ls.drop_first()) == done + headers_in(ls),
            None => done + headers_in(ls.drop_first()) == done + headers_in(ls),
        }),
        match pair_of(trimmed(ls[0])) {
            Some(p) => done.push(p) + pairs_in(ls.drop_first()) == done + pairs_in(ls) && type_in(done.push(p)) == (match type_in(done) { Some(t) => Some(t), None => if lowered(p.name) == "content-type"@ { Some(p.value) } else { None } }),
            None => done + pairs_in(ls.drop_first()) == done + pairs_in(ls),
        },
{
    match pair_of(trimmed(ls[0])) {
        Some(p) => {
            assert(done.push(p) + headers_in(ls.drop_first()) =~= done + (seq![p] + headers_in(ls.drop_first())));
            assert(done.push(p) + pairs_in(ls.drop_first()) =~= done + (seq![p] + pairs_in(ls.drop_first())));
            assert(done.push(p).drop_last() =~= done);
        },
        None => {
            assert(headers_in(ls.drop_first()) =~= Seq::<Pair>::empty() + headers_in(ls.drop_first()));
            assert(pairs_in(ls.drop_first()) =~= Seq::<Pair>::empty() + pairs_in(ls.drop_first()));
        },
    }
}
pub open spec fn view_of(t: Option<&str>) -> Option<Seq<char>> { match t { Some(x) => Some(x@), None => None } }
/// the text after its first character, when that takes one byte
pub broadcast proof fn lemma_second(s: Seq<char>)
    requires s.len() > 0, clen(s[0]) == 1
    ensures #[trigger] on_boundary(s, 1), cpos(s, 1) == 1, on_boundary(s, blen(s)), cpos(s, blen(s)) == s.len(), 1 <= blen(s), s.subrange(1, s.len() as int) == s.drop_first()
{
    reveal_with_fuel(bpos, 2);
    assert(bpos(s, 1) == 1);
    lemma_cpos(s, 1); lemma_cpos(s, s.len() as int);
    if s.len() > 1 { bpos_monotone(s, 1, s.len() as int); }
    assert(s.subrange(1, s.len() as int) =~= s.drop_first());
}

// ---- request bodies ----
pub uninterp spec fn form_encoded(p: Seq<Pair>) -> Seq<char>;
pub struct Part { pub name: Seq<char>, pub file: bool, pub text: Seq<char> }
pub open spec fn part_of(p: Pair) -> Part { if p.value.len() > 0 && p.value[0] == '@' { Part { name: p.name, file: true, text: p.value.drop_first() } } else { Part { name: p.name, file: false, text: p.value } } }
pub broadcast proof fn lemma_parts_push(p: Seq<Pair>, x: Pair)
    ensures #[trigger] parts_of(p.push(x)) == parts_of(p).push(part_of(x)), parts_of(Seq::<Pair>::empty()) == Seq::<Part>::empty()
{
    assert(parts_of(p.push(x)) =~= parts_of(p).push(part_of(x)));
    assert(parts_of(Seq::<Pair>::empty()) =~= Seq::<Part>::empty());
}
pub open spec fn parts_of(p: Seq<Pair>) -> Seq<Part> { p.map_values(|x: Pair| part_of(x)) }
#[verifier::external_body]
pub struct VxForm { p: () }
impl VxForm {
    pub uninterp spec fn pairs(&self) -> Seq<Pair>;
    #[verifier::external_body]
    pub fn new(target: String) -> (r: VxForm) requires target@.len() == 0 ensures r.pairs() == Seq::<Pair>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn append_pair(&mut self, name: &str, value: &str) ensures final(self).pairs() == old(self).pairs().push(Pair { name: name@, value: value@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: String) ensures r@ == form_encoded(old(self).pairs()) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxPath<'a> { p: &'a str }
impl<'a> VxPath<'a> { pub uninterp spec fn path(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vx_path<'a>(s: &'a str) -> (r: VxPath<'a>) ensures r.path() == s@ { unimplemented!() }
#[verifier::external_body]
pub struct VxMultipart<'a> { p: &'a str }
impl<'a> VxMultipart<'a> {
    pub uninterp spec fn parts(&self) -> Seq<Part>;
    #[verifier::external_body]
    pub fn new() -> (r: VxMultipart<'a>) ensures r.parts() == Seq::<Part>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_file(&mut self, name: &'a str, path: VxPath<'a>) ensures final(self).parts() == old(self).parts().push(Part { name: name@, file: true, text: path.path() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_text(&mut self, name: &'a str, text: &'a str) ensures final(self).parts() == old(self).parts().push(Part { name: name@, file: false, text: text@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn prepare(&mut self) -> (r: Result<VxPrepared<'a>, VxIoError>) ensures r matches Ok(p) ==> p.parts() == old(self).parts() { unimplemented!() }
}
#[verifier::external_body]
pub struct VxPrepared<'a> { p: &'a str }
impl<'a> VxPrepared<'a> {
    pub uninterp spec fn parts(&self) -> Seq<Part>;
    pub uninterp spec fn encoding(&self) -> Seq<u8>;
}
/// the bytes of a body
pub open spec fn content_bytes(c: Content) -> Seq<u8> {
    match c { Content::Empty => Seq::empty(), Content::Byte(b) => b@, Content::Multipart(p) => p.encoding() }
}
/// the content of a message with these body lines
pub open spec fn content_is(c: Content, kind: Option<Seq<char>>, lines: Seq<Seq<char>>) -> bool {
    if kind == Some("application/x-www-form-urlencoded"@) { c matches Content::Byte(b) && b@ == utf8(form_encoded(pairs_in(lines))) }
    else if kind == Some("multipart/form-data"@) { c is Empty || (c matches Content::Multipart(p) && p.parts() == parts_of(pairs_in(lines))) }
    else if trimmed(joined(lines, "\n"@)).len() == 0 { c is Empty }
    else { c matches Content::Byte(b) && b@ == utf8(joined(lines, "\n"@)) }
}
pub open spec fn plain(kind: Option<Seq<char>>) -> bool { kind != Some("application/x-www-form-urlencoded"@) && kind != Some("multipart/form-data"@) }
pub open spec fn word(w: Seq<Seq<char>>, k: int) -> Seq<char> { if k < w.len() { w[k] } else { Seq::empty() } }
pub open spec fn request_is(r: Request, c: Content, message: Seq<char>) -> bool {
    let lines = lines_of(trimmed(message));
    if lines.len() == 0 {
        &&& r.method == Method::Get && target_of(r.url) == usual_target() && r.version == Version::Http11 && r.headers.inner@.len() == 0 && r.body@.len() == 0 && c is Empty
    } else {
        let w = words_of(lines[0]);
        let h = headers_in(lines.drop_first());
        let b = after_blank(lines.drop_first());
        &&& r.method == method_of(word(w, 0))
        &&& target_of(r.url) == (if w.len() > 1 { target(w[1]) } else { usual_target() })
        &&& r.version == version_of(word(w, 2))
        &&& pairs_of(r.headers.inner@) == h
        &&& plain(type_in(h)) ==> r.body@ == joined(b, "\n"@)
        &&& content_is(c, type_in(h), b)
    }
}

// ---- sending ----
/// these bytes were handed to the sink and flushed
pub uninterp spec fn delivered(sink: int, bytes: Seq<u8>) -> bool;
pub trait VxWrite {
    spec fn sink(&self) -> int;
    /// the bytes accepted so far
    spec fn taken(&self) -> Seq<u8>;
    /// some write was refused
    spec fn failed(&self) -> bool;
    /// a borrowed sink comes back as the same sink, with the same bytes still to be read from it
    #[verifier::prophetic]
    spec fn gives_back(&self) -> bool;
    fn write_all(&mut self, b: &Vec<u8>) -> (r: Result<(), VxIoError>)
        ensures final(self).sink() == old(self).sink(), r is Ok ==> final(self).taken() == old(self).taken() + b@, r is Err ==> final(self).failed();
    fn vx_write_text(&mut self, t: String) -> (r: Result<(), VxIoError>)
        ensures final(self).sink() == old(self).sink(), r is Ok ==> final(self).taken() == old(self).taken() + utf8(t@);
    fn flush(&mut self) -> (r: Result<(), VxIoError>)
        ensures final(self).sink() == old(self).sink(), final(self).taken() == old(self).taken(), r is Ok ==> delivered(final(self).sink(), final(self).taken());
}
/// std::io::BufWriter: what it took reaches the sink when it is flushed
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct VxWriter<W> { p: W }
impl<W: VxWrite> VxWriter<W> {
    pub uninterp spec fn base(&self) -> int;
    pub uninterp spec fn held(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(w: W) -> (r: VxWriter<W>) ensures r.base() == w.sink(), r.held() == Seq::<u8>::empty(), w.gives_back() { unimplemented!() }
}
impl<W: VxWrite> VxWrite for VxWriter<W> {
    open spec fn sink(&self) -> int { self.base() }
    open spec fn taken(&self) -> Seq<u8> { self.held() }
    uninterp spec fn failed(&self) -> bool;
    #[verifier::prophetic]
    uninterp spec fn gives_back(&self) -> bool;
    #[verifier::external_body]
    fn write_all(&mut self, b: &Vec<u8>) -> (r: Result<(), VxIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_write_text(&mut self, t: String) -> (r: Result<(), VxIoError>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), VxIoError>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_copy<'a, W: VxWrite>(from: &mut VxPrepared<'a>, to: &mut W) -> (r: Result<u64, VxIoError>)
    ensures final(to).sink() == old(to).sink(), r is Ok ==> final(to).taken() == old(to).taken() + old(from).encoding()
{ unimplemented!() }
pub open spec fn header_bytes(h: Seq<Header>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { header_bytes(h, n - 1) + utf8(h[n - 1].name@ + ": "@ + h[n - 1].value@ + "\r\n"@) } }
pub open spec fn request_bytes(r: Request, c: Content) -> Seq<u8> {
    utf8(method_text(r.method) + " "@ + r.url.path@ + " "@ + version_text(r.version) + "\r\n"@) + header_bytes(r.headers.inner@, r.headers.inner@.len() as int) + utf8("\r\n"@) + content_bytes(c)
}

// ---- receiving ----
/// std::io::BufReader over a connection: the text still to come, up to the first failure or undecodable
/// byte; clean when there is none
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct VxReader<S> { p: S }
/// bytes up to and including the next line feed
pub open spec fn line_end(s: Seq<char>) -> int { match first_at(s, '\n') { Some(i) => i + 1, None => s.len() as int } }
impl<S> VxReader<S> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn clean(&self) -> bool;
    /// only for an empty buffer: waits for the first bytes
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, VxIoError>)
        requires vx_reach_empty(old(buf)@)
        ensures final(buf)@ == old(buf)@, final(self).text() == old(self).text(), final(self).clean() == old(self).clean(), r is Err ==> !old(self).clean()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_line(&mut self, line: &mut String) -> (r: Result<usize, VxIoError>)
        ensures match r {
            Ok(n) => ({
                let k = line_end(old(self).text());
                &&& 0 <= k <= old(self).text().len()
                &&& first_at(old(self).text(), '\n') is None ==> old(self).clean()
                &&& final(line)@ == old(line)@ + old(self).text().take(k) && final(self).text() == old(self).text().skip(k) && final(self).clean() == old(self).clean()
                &&& n as int == blen(old(self).text().take(k)) && (n == 0 <==> old(self).text().len() == 0)
            }),
            Err(_) => !old(self).clean(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_string(&mut self, s: &mut String) -> (r: Result<usize, VxIoError>)
        ensures match r {
            Ok(n) => old(self).clean() && final(s)@ == old(s)@ + old(self).text() && final(self).text().len() == 0 && final(self).clean(),
            Err(_) => !old(self).clean(),
        }
    { unimplemented!() }
}
pub open spec fn vx_reach_empty(b: Seq<u8>) -> bool { b.len() == 0 }
/// the first line of a text, its line feed included, and the text after it
pub open spec fn line1(s: Seq<char>) -> Seq<char> { s.take(line_end(s)) }
pub open spec fn rest1(s: Seq<char>) -> Seq<char> { s.skip(line_end(s)) }
pub proof fn first_bounds(s: Seq<char>, c: char, i: int)
    requires 0 <= i
    ensures match find_at(s, c, i) { Some(k) => i <= k < s.len() && s[k] == c && (forall|j: int| i <= j < k ==> s[j] != c), None => forall|j: int| i <= j < s.len() ==> s[j] != c }
    decreases s.len() - i
{ if i < s.len() && s[i] != c { first_bounds(s, c, i + 1); } }
/// headers of a response, read from its lines up to the first blank one
pub open spec fn response_headers(s: Seq<char>) -> Seq<Pair>
    decreases s.len()
{
    if s.len() == 0 || trimmed(line1(s)).len() == 0 || rest1(s).len() >= s.len() { Seq::empty() }
    else { (match pair_of(line1(s)) { Some(p) => seq![p], None => Seq::empty() }) + response_headers(rest1(s)) }
}
pub open spec fn response_body(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { s } else if trimmed(line1(s)).len() == 0 || rest1(s).len() >= s.len() { rest1(s) } else { response_body(rest1(s)) } }
/// one more header line read
pub proof fn response_step(done: Seq<Pair>, s: Seq<char>)
    ensures
        0 <= line_end(s) <= s.len(), s.len() > 0 ==> line_end(s) > 0 && rest1(s).len() < s.len(),
        trimmed(line1(s)).len() > 0 ==> s.len() > 0 && response_body(s) == response_body(rest1(s)) && (match pair_of(line1(s)) {
            Some(p) => done.push(p) + response_headers(rest1(s)) == done + response_headers(s),
            None => done + response_headers(rest1(s)) == done + response_headers(s),
        }),
        trimmed(line1(s)).len() == 0 ==> response_headers(s).len() == 0 && response_body(s) == rest1(s),
{
    first_bounds(s, '\n', 0);
    match pair_of(line1(s)) {
        Some(p) => { assert(done.push(p) + response_headers(rest1(s)) =~= done + (seq![p] + response_headers(rest1(s)))); },
        None => { assert(response_headers(rest1(s)) =~= Seq::<Pair>::empty() + response_headers(rest1(s))); },
    }
    if s.len() == 0 { assert(rest1(s) =~= s); assert(line1(s) =~= s); assert(trimmed(s) =~= s) by { reveal_with_fuel(trim_front, 2); reveal_with_fuel(trim_back, 2); } }
}
pub open spec fn response_is(r: Response, s: Seq<char>) -> bool {
    let w = words_of(line1(s));
    &&& r.version@ == word(w, 0)
    &&& r.status == (match u16_of(word(w, 1)) { Some(n) => n, None => 0 })
    &&& r.reason@ == joined(if w.len() > 2 { w.skip(2) } else { Seq::empty() }, " "@)
    &&& pairs_of(r.headers.inner@) == response_headers(rest1(s))
    &&& r.body@ == response_body(rest1(s))
}
} // mod vxh
pub use vxh::*;

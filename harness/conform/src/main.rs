//! Runs the specification functions of the assumed library contracts, as translated by tools/conform.py, against the
//! library itself.
use std::ops::{Add, Index};

/// Values of the specification language: sequences that are copied freely.  Their memory is never given back.
#[derive(Debug)]
pub struct Seq<T: 'static>(&'static [T]);
impl<T> Clone for Seq<T> {
    fn clone(&self) -> Self { *self }
}
impl<T> Copy for Seq<T> {}
impl<T: PartialEq> PartialEq for Seq<T> {
    fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl<T: Copy> Seq<T> {
    fn of(v: Vec<T>) -> Self { Seq(Vec::leak(v)) }
    fn empty() -> Self { Seq(&[]) }
    fn len(self) -> i128 { self.0.len() as i128 }
    fn subrange(self, a: i128, b: i128) -> Self { Seq(&self.0[a as usize..b as usize]) }
    fn take(self, n: i128) -> Self { self.subrange(0, n) }
    fn skip(self, n: i128) -> Self { self.subrange(n, self.len()) }
    fn drop_first(self) -> Self { self.skip(1) }
    fn drop_last(self) -> Self { self.take(self.len() - 1) }
    fn last(self) -> T { self.0[self.0.len() - 1] }
}
impl<T> Index<i128> for Seq<T> {
    type Output = T;
    fn index(&self, i: i128) -> &T { &self.0[i as usize] }
}
impl<T: Copy> Add for Seq<T> {
    type Output = Seq<T>;
    fn add(self, o: Self) -> Self { Seq::of([self.0, o.0].concat()) }
}
macro_rules! seq { ($($e:expr),*) => { Seq::of(vec![$($e),*]) } }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Hole { from: i128, to: i128 }
fn is_ws(c: char) -> bool { c.is_whitespace() }
fn char_bytes(c: char) -> Seq<u8> { Seq::of(c.to_string().into_bytes()) }

#[allow(unused_parens, dead_code)]
mod spec {
    use super::*;
    include!(env!("CONFORM_SPEC"));
}
use spec::*;

fn view(s: &str) -> Seq<char> { Seq::of(s.chars().collect()) }
fn text(s: Seq<char>) -> String { s.0.iter().collect() }
fn texts(s: Seq<Seq<char>>) -> Vec<String> { s.0.iter().map(|p| text(*p)).collect() }

/// the compared contracts
const CONTRACTS: usize = 21;
struct Run { texts: usize, hole: regex::Regex }
impl Run {
    fn same<T: PartialEq + std::fmt::Debug>(&self, what: &str, s: &str, spec: T, lib: T) {
        if spec != lib {
            println!("{} of {:?}: assumed {:?}, the library gives {:?}", what, s, spec, lib);
            std::process::exit(1);
        }
    }
    fn text(&mut self, s: &str) {
        self.texts += 1;
        let v = view(s);
        self.same("len", s, blen(v), s.len() as i128);
        self.same("as_bytes", s, utf8(v).0.to_vec(), s.as_bytes().to_vec());
        self.same("trim", s, text(trimmed(v)), s.trim().to_string());
        self.same("lines", s, texts(lines_of(v)), s.lines().map(|l| l.to_string()).collect());
        self.same("split_whitespace", s, texts(words_of(v)), s.split_whitespace().map(|l| l.to_string()).collect());
        for c in [':', '/', '?', '=', 'a', 'é'] {
            let at = first_at(v, c);
            self.same("find", s, at.map(|i| bpos(v, i)), s.find(c).map(|i| i as i128));
            self.same("contains", s, at.is_some(), s.contains(c));
            self.same("starts_with", s, v.len() > 0 && v[0] == c, s.starts_with(c));
            self.same("split_once", s, split_once_at(v, c).map(|(a, b)| (text(a), text(b))), s.split_once(c).map(|(a, b)| (a.to_string(), b.to_string())));
        }
        for t in ["://", "/", "aa"] {
            for n in 0..4 {
                self.same("splitn", s, texts(split_text(v, n, view(t))), s.splitn(n as usize, t).map(|l| l.to_string()).collect());
            }
        }
        for sep in ["", "\n", "é "] {
            let parts: Vec<&str> = s.split(' ').collect();
            self.same("join", s, text(joined(Seq::of(parts.iter().map(|p| view(p)).collect()), view(sep))), parts.join(sep));
        }
        self.same("parse::<u16>", s, u16_of(v), s.parse::<u16>().ok());
        if v.len() < 35 { self.same("parse::<u64>", s, u64_of(v), s.parse::<u64>().ok()); }
        // positions of bytes and of characters, slices
        let starts: Vec<usize> = (0..=v.len()).map(|i| bpos(v, i) as usize).collect();
        for i in 0..=s.len() {
            self.same("is_char_boundary", s, starts.contains(&i), s.is_char_boundary(i));
        }
        for (i, a) in starts.iter().enumerate() {
            for (j, b) in starts.iter().enumerate().skip(i) {
                self.same("slice", s, text(v.subrange(i as i128, j as i128)), s[*a..*b].to_string());
                let mut r = s.to_string();
                r.replace_range(*a..*b, "{é}");
                self.same("replace_range", s, text(v.take(i as i128) + view("{é}") + v.skip(j as i128)), r);
                if v.len() > 8 { break; }
            }
        }
        // the places to fill
        let found: Vec<(i128, i128, String)> = holes(v, 0).0.iter().map(|h| (bpos(v, h.from), bpos(v, h.to), text(hole_name(v, h.from, h.to)))).collect();
        let lib = self.hole.captures_iter(s).map(|c| { let m = c.get(0).unwrap(); (m.start() as i128, m.end() as i128, m.as_str()[1..m.len() - 1].trim().to_string()) }).collect();
        self.same("placeholders", s, found, lib);
        let found = holes(v, 0).0.iter().map(|h| hole_name(v, h.from, h.to)).map(text).collect::<Vec<_>>();
        let lib = self.hole.captures_iter(s).map(|c| c[1].to_string()).collect::<Vec<_>>();
        self.same("placeholder names", s, found, lib);
    }
    fn all(&mut self, letters: &[char], longest: usize) {
        let mut level = vec![String::new()];
        for _ in 0..=longest {
            for s in &level { self.text(s); }
            level = level.iter().flat_map(|s| letters.iter().map(move |c| format!("{}{}", s, c))).collect();
        }
    }
}
fn main() {
    let pattern = std::env::args().nth(1).expect("the placeholder expression");
    let mut r = Run { texts: 0, hole: regex::Regex::new(&pattern).expect("expression") };
    // characters one by one
    for u in 0..=0x10ffff {
        if let Some(c) = char::from_u32(u) {
            let ok = clen(c) == c.len_utf8() as i128 && blank(c) == regex_blank(c) && is_alpha(c) == c.is_ascii_alphabetic() && is_digit(c) == c.is_ascii_digit();
            if !ok {
                println!("character {:?}", c);
                std::process::exit(1);
            }
        }
    }
    r.all(&['{', '}', ' ', 'a', '_', '0'], 5);
    r.all(&['{', '}', '\n', 'é', 'Z'], 5);
    r.all(&['\r', '\n', ' ', 'x', '\u{a0}'], 5);
    r.all(&[':', '/', '?', 'a', '\u{1f600}'], 5);
    r.all(&['+', '-', '0', '6', '5'], 6);
    let mut seed = 0x9e3779b97f4a7c15u64;
    let mut next = |n: usize| { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; (seed >> 11) as usize % n };
    let pool: Vec<char> = "{{{}}} \t\r\n\u{b}\u{85}\u{2028}\u{3000}aZ_09+:/?=é日\u{1f600}\0\"\\".chars().collect();
    for _ in 0..20_000 {
        let n = next(28);
        let s: String = (0..n).map(|_| pool[next(pool.len())]).collect();
        r.text(&s);
    }
    for _ in 0..20_000 {
        let n = next(23);
        let s: String = (0..n).map(|i| if i == 0 && next(9) == 0 { '+' } else { (b'0' + next(10) as u8) as char }).collect();
        r.text(&s);
    }
    for s in ["65535", "65536", "065535", "+65535", "++1", "18446744073709551615", "18446744073709551616", "+018446744073709551615", "-0", "-1", "１"] { r.text(s); }
    println!("OK {} {}", r.texts, CONTRACTS);
}
/// what the expression's \s takes to be blank
fn regex_blank(c: char) -> bool {
    thread_local!(static S: regex::Regex = regex::Regex::new(r"^\s$").unwrap());
    S.with(|s| s.is_match(c.encode_utf8(&mut [0; 4])))
}

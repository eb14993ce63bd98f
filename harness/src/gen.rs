//! Generators. Structured (expression trees, programs, messages) and raw (token and character soup).
use crate::core::Rng;
use crate::model::*;

pub const NAMES: &[&str] = &["a", "b", "c", "t", "x1", "_y", "length", "let1", "status", "body", "headers"];
pub const OPS: &[&str] = &["||", "&&", "|", "^", "&", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%"];
const SOUP: &[&str] = &[
    "=", "==", "===", "!", "!=", "!==", "+", "-", "*", "/", "%", "^", "|", "||", "|||", "&", "&&", "&&&", "<", "<=", "<<", "<<=", ">", ">=",
    ">>", ">>=", ",", ";", ":", ".", "(", ")", "{", "}", "[", "]", "true", "false", "request", "let", "if", "else", "test", "null", "fn",
    "\"", "`", "\"s\"", "`t`", "\"a `b\"", "`a \"b`", "\"\"", "``", "0", "1", "42", "007", "1.5", "1.", "1..2", "1.2.3", "9223372036854775807",
    "9223372036854775808", "99999999999999999999", "a", "b", "_", "_a1", "A9", "tru", "truex", "lett", "iff", "é", "日本", "\u{a0}", "\u{3000}", "\u{85}",
    "@", "#", "$", "~", "?", "'", "\\", "\u{0}", "\u{7f}", "😀", " ", " ", "\n", "\t", "\r\n", "\u{b}", "ａ", "１", "١", "K", "ſ", "{ a }", "\u{200b}",
];
pub fn word(r: &mut Rng, dict: &[String]) -> String {
    if let Some(t) = r.hot(12) {
        return t;
    }
    if r.below(300) == 0 {
        // beyond the largest float
        return format!("{}.{}", r.pick(&["9", "1"]).repeat(r.range(305, 330)), r.pick(&["", "0", "5"]));
    }
    if !dict.is_empty() && r.chance(8) { r.pick(dict).clone() } else { r.pick(SOUP).to_string() }
}
pub fn soup(r: &mut Rng, dict: &[String], max: usize) -> String {
    let n = r.range(0, max);
    let mut s = String::new();
    let spaced = r.chance(50);
    for _ in 0..n {
        s.push_str(&word(r, dict));
        if spaced && r.chance(60) {
            s.push(' ');
        }
    }
    s
}
pub fn chars(r: &mut Rng, max: usize) -> String {
    let n = r.range(0, max);
    let extra = r.hot(20);
    let at = r.below(n + 1);
    let s: Vec<char> = (0..n)
        .map(|_| match r.below(10) {
            0..=5 => (32 + r.below(95)) as u8 as char,
            6 => *r.pick(&['\n', '\t', '\r', ' ', '"', '`']),
            7 => char::from_u32(r.below(0x300) as u32).unwrap_or('x'),
            8 => char::from_u32(r.below(0xffff) as u32).unwrap_or('y'),
            _ => *r.pick(&['{', '}', '=', '!', '<', '>', '&', '|', '.', '0', '9', 'a', 'Z', '_']),
        })
        .collect();
    match extra {
        Some(t) => s[..at].iter().collect::<String>() + &t + &s[at..].iter().collect::<String>(),
        None => s.into_iter().collect(),
    }
}
pub const INTS: &[i64] = &[
    0, 1, -1, 2, -2, 3, 5, 7, -7, 10, 31, 32, 62, 63, 64, 65, 127, 128, 255, 256, 1000, -1000, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64,
    1 << 52, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, 1 << 62, i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1, 3037000499, 3037000500, -3037000500, 4611686018427387904,
];
pub fn int(r: &mut Rng) -> i64 {
    if let Some(i) = r.hot_int(15) {
        return i;
    }
    match r.below(5) {
        0 | 1 => *r.pick(INTS),
        2 => r.next() as i64,
        3 => r.below(20) as i64 - 10,
        _ => (r.next() as i64) >> r.below(64),
    }
}
pub fn float(r: &mut Rng) -> f64 {
    if let Some(Ok(f)) = r.hot(10).map(|t| t.parse()) {
        return f;
    }
    match r.below(6) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.0, -2.5, 1e300, -1e300, 1e-300, 0.1, 0.2, 0.3, 9007199254740993.0, 9223372036854775807.0, -9223372036854775808.0]),
        1 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON]),
        2 => int(r) as f64,
        3 => f64::from_bits(r.next()),
        4 => (r.below(2000) as f64 - 1000.0) / 4.0,
        _ => (r.below(100000) as f64) / 1000.0,
    }
}
pub fn string(r: &mut Rng) -> String {
    if let Some(t) = r.hot(12) {
        return t;
    }
    if r.below(1000) == 0 {
        return r.pick(&["a", "ab ", "é"]).repeat(*r.pick(&[17, 65, 130, 300, 1100, 5000]));
    }
    match r.below(6) {
        0 => r.pick(&["", "a", "b", "ab", "aa", "A", "é", "z", "10", "9", "null", "true", "{a}", "{ a }", "{a", "日本", "😀", " ", "1.0", "1"]).to_string(),
        1 => chars(r, 6),
        _ => (0..r.range(0, 5)).map(|_| *r.pick(&['a', 'b', 'c', 'A', '0', ' ', 'é', '{', '}'])).collect(),
    }
}
pub fn value(r: &mut Rng, depth: usize) -> V {
    match r.below(if depth > 0 { 9 } else { 7 }) {
        0 => V::Null,
        1 | 2 => V::Int(int(r)),
        3 => V::Float(float(r)),
        4 => V::Bool(r.chance(50)),
        5 | 6 => V::Str(string(r)),
        7 => V::Arr((0..r.size(0, 3, 700)).map(|_| value(r, depth - 1)).collect()),
        _ => V::Map((0..r.size(0, 3, 700)).map(|i| (if i > 6 { format!("k{}", i) } else { string(r) }, value(r, depth - 1))).collect()),
    }
}
/// a value that differs little from `v`
pub fn near(r: &mut Rng, v: &V) -> V {
    match v {
        V::Int(i) => match r.below(4) {
            0 => V::Int(i.wrapping_add(1)),
            1 => V::Float(*i as f64),
            2 => V::Int(*i),
            _ => V::Str(i.to_string()),
        },
        V::Float(f) => match r.below(4) {
            0 => V::Float(*f),
            1 => V::Int(*f as i64),
            2 => V::Float(-*f),
            _ => V::Float(f64::from_bits(f.to_bits() ^ 1)),
        },
        V::Str(s) => match r.below(4) {
            0 => V::Str(format!("{}a", s)),
            1 => V::Str(s.clone()),
            2 => V::Str(s.chars().skip(1).collect()),
            _ => V::Str(s.to_uppercase()),
        },
        V::Arr(a) => {
            let mut a = a.clone();
            if !a.is_empty() && r.chance(70) {
                let i = r.below(a.len());
                match r.below(3) {
                    0 => {
                        a.remove(i);
                    }
                    1 => a[i] = near(r, &a[i].clone()),
                    _ => a.swap(0, i),
                }
            } else if r.chance(30) {
                a.push(V::Null);
            }
            V::Arr(a)
        }
        V::Map(m) => {
            let mut m = m.clone();
            if let Some(k) = m.keys().next().cloned() {
                match r.below(4) {
                    0 => {
                        m.remove(&k);
                    }
                    1 => {
                        let v = near(r, &m[&k]);
                        m.insert(k, v);
                    }
                    2 => {
                        let v = m.remove(&k).unwrap();
                        m.insert(format!("{}x", k), v);
                    }
                    _ => {}
                }
            } else if r.chance(50) {
                m.insert("k".into(), V::Null);
            }
            V::Map(m)
        }
        v => if r.chance(60) { v.clone() } else { value(r, 1) },
    }
}

// ---- expressions
fn lit_int(r: &mut Rng) -> E {
    if let Some(i) = r.hot_int(10) {
        if i >= 0 {
            return E::Int(i);
        }
    }
    E::Int(match r.below(4) {
        0 => *r.pick(&[0i64, 1, 2, 3, 63, 64, i64::MAX, 1 << 53, 9223372036854775806]),
        _ => r.below(6) as i64,
    })
}
fn lit_str(r: &mut Rng) -> E {
    E::Str(string(r).replace('"', "'"))
}
pub fn atom(r: &mut Rng) -> E {
    match r.below(12) {
        0..=3 => lit_int(r),
        4 => E::Float((r.below(80) as f64) / 4.0 + if r.chance(10) { 1e16 } else { 0.0 }),
        5 => E::Bool(r.chance(50)),
        6 | 7 => lit_str(r),
        _ => E::Ident(r.name(NAMES)),
    }
}
pub struct G<'a> {
    pub calls: &'a [&'a str],
}
impl G<'_> {
    /// any well-formed expression (evaluation may fail)
    pub fn expr(&self, r: &mut Rng, d: usize) -> E {
        if d == 0 {
            return atom(r);
        }
        match r.below(24) {
            0..=2 => atom(r),
            3..=8 => E::Bin(r.pick(OPS).to_string(), Box::new(self.expr(r, d - 1)), Box::new(self.expr(r, d - 1))),
            9 => E::Un(r.pick(&["!", "-"]).to_string(), Box::new(self.expr(r, d - 1))),
            10 => E::Paren(Box::new(self.expr(r, d - 1))),
            11 | 12 => E::Let(r.name(&["a", "b", "c", "t"]), Box::new(self.expr(r, d - 1))),
            13 => E::Arr((0..r.size(0, 3, 40)).map(|_| self.expr(r, d - 1)).collect()),
            14 => E::Map((0..r.range(0, 3)).map(|_| (self.expr(r, d.min(2) - 1), self.expr(r, d - 1))).collect()),
            15 => E::Index(Box::new(self.coll(r, d - 1)), Box::new(self.expr(r, d - 1))),
            16 => E::Field(Box::new(self.coll(r, d - 1)), r.name(&["a", "b", "body", "status"])),
            17 | 18 => {
                let c = self.expr(r, d - 1);
                E::If(Box::new(c), self.block(r, d - 1), if r.chance(60) { self.block(r, d - 1) } else { vec![] })
            }
            19 | 20 => {
                // the trace idiom: every evaluation leaves its mark
                E::Paren(Box::new(E::Let("t".into(), Box::new(E::Call("append".into(), vec![E::Ident("t".into()), lit_int(r)])))))
            }
            _ => {
                let f = r.pick(self.calls).to_string();
                E::Call(f, (0..r.size(0, 3, 40)).map(|_| self.expr(r, d - 1)).collect())
            }
        }
    }
    fn coll(&self, r: &mut Rng, d: usize) -> E {
        match r.below(5) {
            0 => E::Arr((0..r.range(0, 3)).map(|_| self.expr(r, d)).collect()),
            1 => E::Map((0..r.range(0, 3)).map(|_| (if r.chance(80) { lit_str(r) } else { atom(r) }, self.expr(r, d))).collect()),
            2 => E::Ident(r.pick(&["m", "t"]).to_string()),
            _ => self.expr(r, d),
        }
    }
    pub fn block(&self, r: &mut Rng, d: usize) -> Vec<E> {
        (0..r.size(0, 3, 40)).map(|_| self.expr(r, d)).collect()
    }
    /// an expression likely to evaluate without error
    pub fn good(&self, r: &mut Rng, d: usize) -> E {
        let mark = |r: &mut Rng| E::Paren(Box::new(E::Let("t".into(), Box::new(E::Call("append".into(), vec![E::Ident("t".into()), lit_int(r)])))));
        if d == 0 {
            return match r.below(6) {
                0 => mark(r),
                1 => E::Ident(r.pick(&["a", "b", "m", "t"]).to_string()),
                2 => E::Bool(r.chance(50)),
                3 => lit_str(r),
                _ => E::Int(r.below(5) as i64),
            };
        }
        match r.below(13) {
            0 => mark(r),
            1 | 2 => E::Bin(r.pick(&["&&", "||"]).to_string(), Box::new(self.good(r, d - 1)), Box::new(self.good(r, d - 1))),
            3 | 4 => E::Bin(r.pick(&["==", "!=", "<", ">", "<=", ">="]).to_string(), Box::new(self.good(r, d - 1)), Box::new(self.good(r, d - 1))),
            5 => {
                let n = |r: &mut Rng| E::Bin("+".into(), Box::new(E::Paren(Box::new(E::Let("c".into(), Box::new(E::Int(r.below(9) as i64)))))), Box::new(E::Int(r.below(5) as i64)));
                E::Bin(r.pick(&["+", "-", "*", "^", "|", "&"]).to_string(), Box::new(n(r)), Box::new(n(r)))
            }
            6 | 7 => E::If(
                Box::new(self.good(r, d - 1)),
                (0..r.range(0, 3)).map(|_| self.good(r, d - 1)).collect(),
                if r.chance(70) { (0..r.range(0, 3)).map(|_| self.good(r, d - 1)).collect() } else { vec![] },
            ),
            8 => E::Let(r.name(&["a", "b"]), Box::new(self.good(r, d - 1))),
            9 => E::Arr((0..r.size(0, 4, 40)).map(|_| self.good(r, d - 1)).collect()),
            10 => E::Map((0..r.size(0, 3, 40)).map(|_| (E::Str(r.name(&["a", "b", "k"])), self.good(r, d - 1))).collect()),
            11 => E::Index(Box::new(E::Arr((0..r.range(1, 3)).map(|_| self.good(r, d - 1)).collect())), Box::new(E::Int(r.below(4) as i64))),
            _ => E::Un("!".into(), Box::new(self.good(r, d - 1))),
        }
    }
}

// ---- printing: minimal parentheses, so that grouping is the parser's decision
fn lv(e: &E) -> u8 {
    match e {
        E::Bin(op, ..) => LEVELS.iter().find(|l| l.0 == op).unwrap().1,
        E::Un(..) => 11,
        E::Let(..) => 0,
        E::Call(..) | E::Index(..) | E::Field(..) => 13,
        E::If(..) => 14,
        _ => 14,
    }
}
/// makes a tree one the grammar can produce: parenthesises where the tree's grouping needs it
pub fn fit(e: &E) -> E {
    let wrap = |e: E, min: u8| if lv(&e) < min { E::Paren(Box::new(e)) } else { e };
    match e {
        E::Bin(op, a, b) => {
            let l = lv(e);
            let a = fit(a);
            let b = fit(b);
            let a = if ends_open(&a) { E::Paren(Box::new(a)) } else { wrap(a, l) };
            E::Bin(op.clone(), Box::new(a), Box::new(wrap(b, l + 1)))
        }
        E::Un(op, a) => E::Un(op.clone(), Box::new(wrap(fit(a), 11))),
        E::Index(a, i) => {
            let a = fit(a);
            let a = if ends_open(&a) { E::Paren(Box::new(a)) } else { wrap(a, 13) };
            E::Index(Box::new(a), Box::new(fit(i)))
        }
        E::Field(a, n) => {
            let a = fit(a);
            let a = if ends_open(&a) { E::Paren(Box::new(a)) } else { wrap(a, 13) };
            E::Field(Box::new(a), n.clone())
        }
        E::Arr(v) => E::Arr(v.iter().map(fit).collect()),
        E::Map(v) => E::Map(v.iter().map(|(a, b)| (fit(a), fit(b))).collect()),
        E::Let(n, a) => E::Let(n.clone(), Box::new(fit(a))),
        E::Paren(a) => E::Paren(Box::new(fit(a))),
        E::If(c, a, b) => E::If(Box::new(fit(c)), a.iter().map(fit).collect(), b.iter().map(fit).collect()),
        E::Call(n, a) => E::Call(n.clone(), a.iter().map(fit).collect()),
        e => e.clone(),
    }
}
/// a `let` at its right end would swallow what follows
fn ends_open(e: &E) -> bool {
    match e {
        E::Let(..) => true,
        E::Bin(_, _, b) => ends_open(b),
        E::Un(_, b) => ends_open(b),
        _ => false,
    }
}
pub fn show(e: &E, o: &mut String, sp: &mut dyn FnMut() -> &'static str) {
    fn list(v: &[E], o: &mut String, sp: &mut dyn FnMut() -> &'static str) {
        for (i, e) in v.iter().enumerate() {
            if i > 0 {
                o.push(',');
                o.push_str(sp());
            }
            show(e, o, sp);
        }
    }
    fn block(v: &[E], o: &mut String, sp: &mut dyn FnMut() -> &'static str) {
        o.push('{');
        o.push_str(sp());
        for e in v {
            show(e, o, sp);
            o.push(';');
            o.push_str(sp());
        }
        o.push('}');
    }
    match e {
        E::Int(i) => o.push_str(&i.to_string()),
        E::Float(f) => {
            let s = f.to_string();
            o.push_str(&s);
            if !s.contains('.') {
                o.push_str(".0");
            }
        }
        E::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        E::Str(s) => {
            o.push('"');
            o.push_str(s);
            o.push('"');
        }
        E::Arr(v) => {
            o.push('[');
            list(v, o, sp);
            o.push(']');
        }
        E::Map(v) => {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    o.push_str(sp());
                }
                show(k, o, sp);
                o.push(':');
                o.push_str(sp());
                show(x, o, sp);
            }
            o.push('}');
        }
        E::Index(a, i) => {
            show(a, o, sp);
            o.push('[');
            show(i, o, sp);
            o.push(']');
        }
        E::Field(a, n) => {
            show(a, o, sp);
            // `4.b` would be read as the float `4.`
            if o.ends_with(|c: char| c.is_ascii_digit() || c == '.') {
                o.push(' ');
            }
            o.push('.');
            o.push_str(n);
        }
        E::Ident(n) => o.push_str(n),
        E::Let(n, a) => {
            o.push_str("let ");
            o.push_str(n);
            o.push_str(sp());
            o.push('=');
            o.push_str(sp());
            show(a, o, sp);
        }
        E::Un(op, a) => {
            o.push_str(op);
            show(a, o, sp);
        }
        E::Bin(op, a, b) => {
            show(a, o, sp);
            o.push(' ');
            o.push_str(op);
            o.push(' ');
            show(b, o, sp);
        }
        E::Paren(a) => {
            o.push('(');
            o.push_str(sp());
            show(a, o, sp);
            o.push_str(sp());
            o.push(')');
        }
        E::If(c, a, b) => {
            o.push_str("if (");
            show(c, o, sp);
            o.push(')');
            o.push_str(sp());
            block(a, o, sp);
            if !b.is_empty() {
                o.push_str(sp());
                o.push_str("else");
                o.push_str(sp());
                block(b, o, sp);
            }
        }
        E::Call(n, v) => {
            o.push_str(n);
            o.push('(');
            list(v, o, sp);
            o.push(')');
        }
    }
}
pub fn print(e: &E, r: &mut Rng) -> String {
    let mut o = String::new();
    let mode = r.below(3);
    let mut n = r.next();
    let mut sp = move || {
        n = n.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        match (mode, n >> 61) {
            (0, _) => "",
            (1, _) => " ",
            (_, 0) => "\n",
            (_, 1) => "\t",
            (_, 2) => "",
            (_, 3) => "  ",
            _ => " ",
        }
    };
    show(e, &mut o, &mut sp);
    o
}
/// statements as program text; `;` separated because adjacent statements could otherwise join
pub fn program(es: &[E], r: &mut Rng) -> String {
    es.iter().map(|e| print(e, r)).collect::<Vec<_>>().join(";\n")
}

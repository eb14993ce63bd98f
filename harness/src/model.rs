//! Executable reading of the property statements: the language, its values, HTTP messages.
//! Written from the properties, used as the oracle when a witness for a failed obligation is searched.
use lib::verif as real;
use std::cmp::Ordering;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- tokens (C01)
#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub kind: &'static str,
    pub text: String,
}
pub const TWO: &[(&str, &str)] = &[("==", "Eq"), ("!=", "Ne"), ("||", "Lo"), ("&&", "La"), ("<=", "Le"), ("<<", "Sl"), (">=", "Ge"), (">>", "Sr")];
pub const ONE: &[(&str, &str)] = &[
    ("=", "Assign"), ("!", "Not"), ("+", "Add"), ("-", "Sub"), ("*", "Mul"), ("/", "Div"), ("%", "Rem"), ("^", "Bx"), ("|", "Bo"),
    ("&", "Ba"), ("<", "Lt"), (">", "Gt"), (",", "Comma"), (";", "Semi"), (":", "Colon"), (".", "Dot"), ("(", "Lp"), (")", "Rp"),
    ("{", "Lb"), ("}", "Rb"), ("[", "Ls"), ("]", "Rs"),
];
pub const WORDS: &[(&str, &str)] =
    &[("true", "True"), ("false", "False"), ("request", "Request"), ("let", "Let"), ("if", "If"), ("else", "Else"), ("test", "Test")];

pub fn lex(text: &str) -> Vec<T> {
    let c: Vec<char> = text.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
            continue;
        }
        if ch == '"' || ch == '`' {
            let mut j = i + 1;
            while j < c.len() && c[j] != ch {
                j += 1;
            }
            out.push(T { kind: if ch == '"' { "String" } else { "Template" }, text: c[i + 1..j].iter().collect() });
            i = if j < c.len() { j + 1 } else { j };
            continue;
        }
        if ch.is_ascii_digit() {
            let mut j = i + 1;
            while j < c.len() && (c[j].is_ascii_digit() || c[j] == '.') {
                j += 1;
            }
            let s: String = c[i..j].iter().collect();
            out.push(T { kind: if s.contains('.') { "Float" } else { "Integer" }, text: s });
            i = j;
            continue;
        }
        if ch.is_ascii_alphabetic() || ch == '_' {
            let mut j = i + 1;
            while j < c.len() && (c[j].is_ascii_alphanumeric() || c[j] == '_') {
                j += 1;
            }
            let s: String = c[i..j].iter().collect();
            let kind = WORDS.iter().find(|w| w.0 == s).map(|w| w.1).unwrap_or("Ident");
            out.push(T { kind, text: s });
            i = j;
            continue;
        }
        if i + 1 < c.len() {
            let two: String = c[i..i + 2].iter().collect();
            if let Some(t) = TWO.iter().find(|t| t.0 == two) {
                out.push(T { kind: t.1, text: two });
                i += 2;
                continue;
            }
        }
        let one = ch.to_string();
        let kind = ONE.iter().find(|t| t.0 == one).map(|t| t.1).unwrap_or("Illegal");
        out.push(T { kind, text: one });
        i += 1;
    }
    out.push(T { kind: "Eof", text: String::new() });
    out
}

// ---------------------------------------------------------------- syntax (C03, C04)
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Int(i64),
    Float(f64),
    Bool(bool),
    Str(String),
    Arr(Vec<E>),
    Map(Vec<(E, E)>),
    Index(Box<E>, Box<E>),
    Field(Box<E>, String),
    Ident(String),
    Let(String, Box<E>),
    Un(String, Box<E>),
    Bin(String, Box<E>, Box<E>),
    Paren(Box<E>),
    If(Box<E>, Vec<E>, Vec<E>),
    Call(String, Vec<E>),
}
#[derive(Debug, PartialEq, Default)]
pub struct Program {
    pub exprs: Vec<E>,
    pub requests: BTreeMap<String, (String, Vec<E>)>,
    pub tests: BTreeMap<String, Vec<E>>,
}

pub fn op_of(t: &real::Token) -> String {
    // the operator is the token's kind; its text must be the text of that kind
    let k = format!("{:?}", t.kind);
    match TWO.iter().chain(ONE.iter()).find(|x| x.1 == k) {
        Some(x) if x.0 == t.literal => x.0.to_string(),
        _ => format!("?{}?{}", k, t.literal),
    }
}
pub fn of(e: &real::Expr) -> E {
    let v = |x: &Vec<real::Expr>| x.iter().map(of).collect::<Vec<E>>();
    let b = |x: &real::Expr| Box::new(of(x));
    #[allow(unreachable_patterns)]
    match e {
        real::Expr::Integer(i) => E::Int(*i),
        real::Expr::Float(f) => E::Float(*f),
        real::Expr::Boolean(x) => E::Bool(*x),
        real::Expr::String(s) => E::Str(s.clone()),
        real::Expr::Array(x) => E::Arr(v(x)),
        real::Expr::Map(x) => E::Map(x.iter().map(|(k, v)| (of(k), of(v))).collect()),
        real::Expr::Index(x, y) => E::Index(b(x), b(y)),
        real::Expr::Field(x, n) => E::Field(b(x), n.clone()),
        real::Expr::Ident(n) => E::Ident(n.clone()),
        real::Expr::Let(n, x) => E::Let(n.clone(), b(x)),
        real::Expr::Unary(t, x) => E::Un(op_of(t), b(x)),
        real::Expr::Binary(t, x, y) => E::Bin(op_of(t), b(x), b(y)),
        real::Expr::Paren(x) => E::Paren(b(x)),
        real::Expr::If(c, x, y) => E::If(b(c), v(x), v(y)),
        real::Expr::Call(n, x) => E::Call(n.clone(), v(x)),
        _ => E::Ident(format!("?unknown? {:?}", e)),
    }
}
pub const LEVELS: &[(&str, u8)] = &[
    ("||", 1), ("&&", 2), ("|", 3), ("^", 4), ("&", 5), ("==", 6), ("!=", 6), ("<", 7), (">", 7), ("<=", 7), (">=", 7), ("<<", 8),
    (">>", 8), ("+", 9), ("-", 9), ("*", 10), ("/", 10), ("%", 10),
];
const PREFIX: u8 = 11;
const CALL: u8 = 12;
const ACCESS: u8 = 13;

/// `p` is the next unread token. Everything that is not the language is `Err(())`.
pub struct P {
    pub t: Vec<T>,
    pub p: usize,
}
type R<X> = Result<X, ()>;
impl P {
    pub fn new(text: &str) -> P {
        P { t: lex(text), p: 0 }
    }
    fn kind(&self) -> &'static str {
        self.t.get(self.p).map(|t| t.kind).unwrap_or("")
    }
    fn eat(&mut self, k: &str) -> bool {
        if self.kind() == k {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, k: &str) -> R<String> {
        if self.kind() == k {
            self.p += 1;
            Ok(self.t[self.p - 1].text.clone())
        } else {
            Err(())
        }
    }
    pub fn program(&mut self) -> R<Program> {
        let mut out = Program::default();
        while self.kind() != "Eof" && self.p < self.t.len() {
            if self.eat("Request") {
                let n = self.need("Ident")?;
                let m = self.need("Template")?;
                let a = if self.eat("Ls") { self.list("Rs")? } else { vec![] };
                out.requests.insert(n, (m, a));
            } else if self.eat("Test") {
                let n = self.need("Ident")?;
                let b = self.block()?;
                out.tests.insert(n, b);
            } else {
                let e = self.expr(0)?;
                out.exprs.push(e);
            }
            self.eat("Semi");
        }
        Ok(out)
    }
    fn list(&mut self, end: &str) -> R<Vec<E>> {
        let mut v = vec![];
        while self.kind() != end {
            v.push(self.expr(0)?);
            if self.kind() != end {
                self.need("Comma")?;
            }
        }
        self.need(end)?;
        Ok(v)
    }
    fn block(&mut self) -> R<Vec<E>> {
        let mut v = vec![];
        self.need("Lb")?;
        while self.kind() != "Rb" {
            v.push(self.expr(0)?);
            self.eat("Semi");
        }
        self.need("Rb")?;
        Ok(v)
    }
    pub fn expr(&mut self, min: u8) -> R<E> {
        let t = match self.t.get(self.p) {
            Some(t) => t.clone(),
            None => return Err(()),
        };
        self.p += 1;
        let mut left = match t.kind {
            "Ident" => E::Ident(t.text),
            "Integer" => E::Int(t.text.parse().map_err(|_| ())?),
            "Float" => E::Float(t.text.parse().map_err(|_| ())?),
            "True" => E::Bool(true),
            "False" => E::Bool(false),
            "String" => E::Str(t.text),
            "Let" => {
                let n = self.need("Ident")?;
                self.need("Assign")?;
                let v = self.expr(0)?;
                self.eat("Semi");
                return Ok(E::Let(n, Box::new(v)));
            }
            "Not" | "Sub" => E::Un(t.text, Box::new(self.expr(PREFIX)?)),
            "Lp" => {
                let e = self.expr(0)?;
                self.need("Rp")?;
                E::Paren(Box::new(e))
            }
            "If" => {
                self.need("Lp")?;
                let c = self.expr(0)?;
                self.need("Rp")?;
                let a = self.block()?;
                let b = if self.eat("Else") { self.block()? } else { vec![] };
                E::If(Box::new(c), a, b)
            }
            "Ls" => E::Arr(self.list("Rs")?),
            "Lb" => {
                let mut v = vec![];
                while self.kind() != "Rb" {
                    let k = self.expr(0)?;
                    self.need("Colon")?;
                    let x = self.expr(0)?;
                    v.push((k, x));
                    if self.kind() != "Rb" {
                        self.need("Comma")?;
                    }
                }
                self.need("Rb")?;
                E::Map(v)
            }
            _ => return Err(()),
        };
        loop {
            let k = self.kind();
            if k == "Lp" && min < CALL {
                self.p += 1;
                let a = self.list("Rp")?;
                left = match left {
                    E::Ident(n) => E::Call(n, a),
                    _ => return Err(()),
                };
            } else if k == "Ls" && min < ACCESS {
                self.p += 1;
                let i = self.expr(0)?;
                self.need("Rs")?;
                left = E::Index(Box::new(left), Box::new(i));
            } else if k == "Dot" && min < ACCESS {
                self.p += 1;
                left = E::Field(Box::new(left), self.need("Ident")?);
            } else {
                let (text, lv) = match self.t.get(self.p).and_then(|t| LEVELS.iter().find(|l| t.kind != "String" && t.kind != "Template" && l.0 == t.text)) {
                    Some(l) => *l,
                    None => return Ok(left),
                };
                if lv <= min {
                    return Ok(left);
                }
                self.p += 1;
                let r = self.expr(lv)?;
                left = E::Bin(text.to_string(), Box::new(left), Box::new(r));
            }
        }
    }
}
pub fn parse(text: &str) -> R<Program> {
    P::new(text).program()
}
pub fn real_parse(text: &str) -> Result<Program, String> {
    let s = lib::Parser::new(text).parse()?;
    Ok(Program {
        exprs: s.exprs.iter().map(of).collect(),
        requests: s.requests.iter().map(|(k, (m, a))| (k.clone(), (m.clone(), a.iter().map(of).collect()))).collect(),
        tests: s.tests.iter().map(|(k, b)| (k.clone(), b.iter().map(of).collect())).collect(),
    })
}

// ---------------------------------------------------------------- values (C05, C06)
#[derive(Clone, Debug)]
pub enum V {
    Null,
    Int(i64),
    Float(f64),
    Bool(bool),
    Str(String),
    Arr(Vec<V>),
    Map(BTreeMap<String, V>),
}
impl PartialEq for V {
    /// identity of observed values (floats by bits, any NaN alike)
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Null, V::Null) => true,
            (V::Int(a), V::Int(b)) => a == b,
            (V::Float(a), V::Float(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Arr(a), V::Arr(b)) => a == b,
            (V::Map(a), V::Map(b)) => a == b,
            _ => false,
        }
    }
}
pub fn vof(v: &real::Value) -> V {
    #[allow(unreachable_patterns)]
    match v {
        real::Value::Null => V::Null,
        real::Value::Integer(i) => V::Int(*i),
        real::Value::Float(f) => V::Float(*f),
        real::Value::Boolean(b) => V::Bool(*b),
        real::Value::String(s) => V::Str(s.clone()),
        real::Value::Array(a) => V::Arr(a.iter().map(vof).collect()),
        real::Value::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), vof(v))).collect()),
        _ => V::Str(format!("?unknown? {:?}", v)),
    }
}
pub fn vto(v: &V) -> real::Value {
    match v {
        V::Null => real::Value::Null,
        V::Int(i) => real::Value::Integer(*i),
        V::Float(f) => real::Value::Float(*f),
        V::Bool(b) => real::Value::Boolean(*b),
        V::Str(s) => real::Value::String(s.clone()),
        V::Arr(a) => real::Value::Array(a.iter().map(vto).collect()),
        V::Map(m) => real::Value::Map(m.iter().map(|(k, v)| (k.clone(), vto(v))).collect()),
    }
}
/// `Err(true)`: outside what the properties fix (the case is skipped); `Err(false)`: an error
pub type M<X> = Result<X, bool>;
pub const UNSPEC: &str = "\u{0}unspecified";
/// the text of a value; arrays and maps have no specified text
pub fn text(v: &V) -> M<String> {
    Ok(match v {
        V::Null => "null".into(),
        V::Int(i) => i.to_string(),
        V::Float(f) => f.to_string(),
        V::Bool(b) => if *b { "true".into() } else { "false".into() },
        V::Str(s) => s.clone(),
        _ => return Err(true),
    })
}
pub fn truthy(v: &V) -> bool {
    !matches!(v, V::Null | V::Bool(false))
}
pub fn veq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Null, V::Null) => true,
        (V::Int(a), V::Int(b)) => a == b,
        (V::Float(a), V::Float(b)) => a == b,
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::Str(a), V::Str(b)) => a == b,
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| veq(x, y)),
        (V::Map(a), V::Map(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).map(|y| veq(x, y)).unwrap_or(false)),
        _ => false,
    }
}
pub fn vcmp(a: &V, b: &V) -> Option<Ordering> {
    let f = |a: f64, b: f64| {
        if a < b { Some(Ordering::Less) } else if a > b { Some(Ordering::Greater) } else if a == b { Some(Ordering::Equal) } else { None }
    };
    match (a, b) {
        (V::Int(a), V::Int(b)) => Some(a.cmp(b)),
        (V::Float(a), V::Float(b)) => f(*a, *b),
        (V::Int(a), V::Float(b)) => f(*a as f64, *b),
        (V::Float(a), V::Int(b)) => f(*a, *b as f64),
        (V::Str(a), V::Str(b)) => Some(a.chars().cmp(b.chars())),
        _ => None,
    }
}
pub fn binop(op: &str, a: &V, b: &V) -> M<V> {
    let cmp = |f: &dyn Fn(Ordering) -> bool| Ok(V::Bool(vcmp(a, b).map(f).unwrap_or(false)));
    match op {
        "<" => return cmp(&|o| o == Ordering::Less),
        ">" => return cmp(&|o| o == Ordering::Greater),
        "<=" => return cmp(&|o| o != Ordering::Greater),
        ">=" => return cmp(&|o| o != Ordering::Less),
        "==" => return Ok(V::Bool(veq(a, b))),
        "!=" => return Ok(V::Bool(!veq(a, b))),
        _ => {}
    }
    let int = |x: i128| if x >= i64::MIN as i128 && x <= i64::MAX as i128 { Ok(V::Int(x as i64)) } else { Err(false) };
    let float = |x: f64, y: f64| {
        Ok(V::Float(match op {
            "+" => x + y,
            "-" => x - y,
            "*" => x * y,
            "/" => x / y,
            "%" => x % y,
            _ => return Err(false),
        }))
    };
    match (a, b) {
        (V::Int(x), V::Int(y)) => {
            let (p, q) = (*x as i128, *y as i128);
            match op {
                "+" => int(p + q),
                "-" => int(p - q),
                "*" => int(p * q),
                "/" => if q == 0 { Err(false) } else { int(p / q) },
                // i64::MIN % -1: the remainder is 0, but the pair is reported as out of range
                "%" => if q == 0 { Err(false) } else if p == i64::MIN as i128 && q == -1 { Err(true) } else { int(p % q) },
                "&" => Ok(V::Int(x & y)),
                "|" => Ok(V::Int(x | y)),
                "^" => Ok(V::Int(x ^ y)),
                "<<" => if (0..=63).contains(y) { Ok(V::Int(((*x as u64) << *y) as i64)) } else { Err(false) },
                ">>" => if (0..=63).contains(y) { Ok(V::Int((p >> q) as i64)) } else { Err(false) },
                _ => Err(false),
            }
        }
        (V::Float(x), V::Float(y)) => float(*x, *y),
        (V::Int(x), V::Float(y)) => float(*x as f64, *y),
        (V::Float(x), V::Int(y)) => float(*x, *y as f64),
        (V::Str(x), V::Str(y)) if op == "+" => Ok(V::Str(format!("{}{}", x, y))),
        _ => Err(false),
    }
}
pub fn unop(op: &str, a: &V) -> M<V> {
    match (op, a) {
        ("!", V::Int(i)) => Ok(V::Int(-1 - *i)),
        ("!", v) => Ok(V::Bool(!truthy(v))),
        ("-", V::Int(i)) => if *i == i64::MIN { Err(false) } else { Ok(V::Int(-*i)) },
        ("-", V::Float(f)) => Ok(V::Float(f64::from_bits(f.to_bits() ^ (1 << 63)))),
        _ => Err(false),
    }
}
/// placeholders `{ name }` of a template: (byte range, name)
pub fn holes(s: &str) -> Vec<(usize, usize, String)> {
    let mut out = vec![];
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].1 == '{' {
            let mut j = i + 1;
            while j < b.len() && b[j].1.is_whitespace() {
                j += 1;
            }
            let st = j;
            if j < b.len() && (b[j].1.is_ascii_alphabetic() || b[j].1 == '_') {
                while j < b.len() && (b[j].1.is_ascii_alphanumeric() || b[j].1 == '_') {
                    j += 1;
                }
                let en = j;
                while j < b.len() && b[j].1.is_whitespace() {
                    j += 1;
                }
                if j < b.len() && b[j].1 == '}' {
                    let name: String = b[st..en].iter().map(|x| x.1).collect();
                    out.push((b[i].0, b[j].0 + 1, name));
                    i = j + 1;
                    continue;
                }
            }
        }
        i += 1;
    }
    out
}
fn splice(s: &str, hs: &[(usize, usize, String)], with: &[String]) -> String {
    let mut o = String::new();
    let mut at = 0;
    for (h, w) in hs.iter().zip(with) {
        o.push_str(&s[at..h.0]);
        o.push_str(w);
        at = h.1;
    }
    o.push_str(&s[at..]);
    o
}
pub fn native(name: &str, args: &[V]) -> M<V> {
    match name {
        "length" => match args {
            [V::Str(s)] => Ok(V::Int(s.len() as i64)),
            [V::Arr(a)] => Ok(V::Int(a.len() as i64)),
            [V::Map(m)] => Ok(V::Int(m.len() as i64)),
            _ => Err(false),
        },
        "append" => match args.split_first() {
            Some((V::Arr(a), rest)) => Ok(V::Arr(a.iter().chain(rest).cloned().collect())),
            _ => Err(false),
        },
        "format" | "print" | "println" => match args.split_first() {
            Some((V::Str(s), rest)) => {
                let hs = holes(s);
                if hs.len() != rest.len() {
                    return Err(false);
                }
                let w = rest.iter().map(text).collect::<M<Vec<String>>>()?;
                if name == "format" { Ok(V::Str(splice(s, &hs, &w))) } else { Ok(V::Null) }
            }
            _ => Err(false),
        },
        _ => Err(false),
    }
}

// ---------------------------------------------------------------- evaluation (C07 - C11, C16, C17)
pub type Env = BTreeMap<String, V>;
#[derive(Clone, Debug, PartialEq)]
pub struct Check {
    pub expr: String,
    pub left: String,
    pub op: String,
    pub right: String,
    pub result: bool,
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub name: String,
    pub message: String,
    pub response: Resp,
    pub failed: bool,
    pub checks: Vec<Check>,
}
pub struct World<'a> {
    pub env: Env,
    pub requests: &'a BTreeMap<String, (String, Vec<E>)>,
    /// the answer of the n-th call (None: the connection fails)
    pub answers: &'a dyn Fn(usize, &str) -> Option<Resp>,
    pub recs: Vec<Rec>,
}
impl World<'_> {
    pub fn block(&mut self, es: &[E]) -> M<V> {
        let mut r = V::Null;
        for e in es {
            r = self.eval(e)?;
        }
        Ok(r)
    }
    pub fn eval(&mut self, e: &E) -> M<V> {
        Ok(match e {
            E::Int(i) => V::Int(*i),
            E::Float(f) => V::Float(*f),
            E::Bool(b) => V::Bool(*b),
            E::Str(s) => V::Str(s.clone()),
            E::Arr(x) => {
                let mut v = vec![];
                for e in x {
                    v.push(self.eval(e)?);
                }
                V::Arr(v)
            }
            E::Map(x) => {
                let mut m = BTreeMap::new();
                for (k, v) in x {
                    let k = self.eval(k)?;
                    let v = self.eval(v)?;
                    m.insert(text(&k)?, v);
                }
                V::Map(m)
            }
            E::Index(a, i) => {
                let a = self.eval(a)?;
                let i = self.eval(i)?;
                match (a, i) {
                    (V::Arr(a), V::Int(i)) => if i >= 0 && (i as u64) < a.len() as u64 { a[i as usize].clone() } else { V::Null },
                    (V::Map(m), k) => m.get(&text(&k)?).cloned().unwrap_or(V::Null),
                    _ => return Err(false),
                }
            }
            E::Field(a, f) => match self.eval(a)? {
                V::Map(m) => m.get(f).cloned().unwrap_or(V::Null),
                _ => return Err(false),
            },
            E::Ident(n) => self.env.get(n).cloned().ok_or(false)?,
            E::Let(n, x) => {
                let v = self.eval(x)?;
                self.env.insert(n.clone(), v.clone());
                v
            }
            E::Un(op, x) => unop(op, &self.eval(x)?)?,
            E::Bin(op, x, y) => {
                if !LEVELS.iter().any(|l| l.0 == op) {
                    return Err(false);
                }
                let a = self.eval(x)?;
                match op.as_str() {
                    "||" => if truthy(&a) { a } else { self.eval(y)? },
                    "&&" => if truthy(&a) { self.eval(y)? } else { a },
                    _ => {
                        let b = self.eval(y)?;
                        binop(op, &a, &b)?
                    }
                }
            }
            E::Paren(x) => self.eval(x)?,
            E::If(c, a, b) => {
                let c = self.eval(c)?;
                if truthy(&c) { self.block(a)? } else { self.block(b)? }
            }
            E::Call(n, args) => {
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(a)?);
                }
                match self.requests.get(n) {
                    None => native(n, &v)?,
                    Some((m, asserts)) => {
                        let hs = holes(m);
                        let mut w = vec![];
                        for h in &hs {
                            w.push(match self.env.get(&h.2) {
                                Some(v) => text(v)?,
                                None => "null".to_string(),
                            });
                        }
                        let message = splice(m, &hs, &w);
                        let answer = (self.answers)(self.recs.len(), &message);
                        let failed = answer.is_none();
                        let response = answer.unwrap_or_default();
                        let map = response.to_map()?;
                        let none = BTreeMap::new();
                        let mut local = World { env: map, requests: &none, answers: self.answers, recs: vec![] };
                        let mut checks = vec![];
                        for a in asserts {
                            if let E::Bin(op, x, y) = a {
                                let mut side = |e: &E| match local.eval(e) {
                                    Ok(v) => Ok(v),
                                    Err(false) => Ok(V::Null),
                                    Err(true) => Err(true),
                                };
                                if !LEVELS.iter().any(|l| l.0 == op) {
                                    continue;
                                }
                                let l = side(x)?;
                                let r = side(y)?;
                                if matches!(op.as_str(), "<" | ">" | "<=" | ">=" | "==" | "!=") {
                                    let result = binop(op, &l, &r)? == V::Bool(true);
                                    checks.push(Check { expr: written(a), left: text(&l).unwrap_or(UNSPEC.into()), op: op.clone(), right: text(&r).unwrap_or(UNSPEC.into()), result });
                                }
                            }
                        }
                        let out = local.env.clone();
                        self.recs.push(Rec { name: n.clone(), message, response, failed, checks });
                        V::Map(out)
                    }
                }
            }
        })
    }
}
/// the text of an expression in a record
pub fn written(e: &E) -> String {
    let list = |v: &[E], sep: &str| v.iter().map(written).collect::<Vec<String>>().join(sep);
    match e {
        E::Int(i) => i.to_string(),
        E::Float(f) => f.to_string(),
        E::Bool(b) => b.to_string(),
        E::Str(s) => ["\"", s, "\""].concat(),
        E::Ident(n) => n.clone(),
        E::Arr(v) => format!("[{}]", list(v, ", ")),
        E::Map(v) => format!("{{{}}}", v.iter().map(|(k, x)| written(k) + ": " + &written(x)).collect::<Vec<String>>().join(", ")),
        E::Index(a, i) => written(a) + "[" + &written(i) + "]",
        E::Field(a, n) => written(a) + "." + n,
        E::Let(n, a) => ["let ", n, " = ", &written(a)].concat(),
        E::Un(op, a) => op.clone() + &written(a),
        E::Bin(op, a, b) => [written(a), op.clone(), written(b)].join(" "),
        E::Paren(a) => ["(", &written(a), ")"].concat(),
        E::If(c, a, b) if b.is_empty() => format!("if ({}) {{ {} }}", written(c), list(a, ";")),
        E::If(c, a, b) => format!("if ({}) {{ {}}} else {{ {} }}", written(c), list(a, ";"), list(b, ";")),
        E::Call(n, v) => format!("{}({})", n, list(v, ", ")),
    }
}
pub fn lit(e: &E) -> M<V> {
    Ok(match e {
        E::Int(i) => V::Int(*i),
        E::Float(f) => V::Float(*f),
        E::Bool(b) => V::Bool(*b),
        E::Str(s) => V::Str(s.clone()),
        E::Arr(x) => V::Arr(x.iter().map(lit).collect::<M<Vec<V>>>()?),
        E::Map(x) => {
            let mut m = BTreeMap::new();
            for (k, v) in x {
                m.insert(text(&lit(k)?)?, lit(v)?);
            }
            V::Map(m)
        }
        E::Un(op, x) if op == "-" => match lit(x)? {
            V::Int(i) if i != i64::MIN => V::Int(-i),
            V::Float(f) => V::Float(-f),
            _ => V::Null,
        },
        _ => V::Null,
    })
}

// ---------------------------------------------------------------- HTTP (C12 - C16)
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Resp {
    pub version: String,
    pub status: u16,
    pub reason: String,
    pub headers: Vec<(String, String)>,
    pub body: String,
}
impl Resp {
    pub fn to_map(&self) -> M<Env> {
        let mut m = Env::new();
        m.insert("version".into(), V::Str(self.version.clone()));
        m.insert("status".into(), V::Int(self.status as i64));
        m.insert("reason".into(), V::Str(self.reason.clone()));
        m.insert("body".into(), V::Str(self.body.clone()));
        let mut h: BTreeMap<String, V> = BTreeMap::new();
        for (n, v) in &self.headers {
            if let V::Arr(a) = h.entry(n.clone()).or_insert(V::Arr(vec![])) {
                a.push(V::Str(v.clone()));
            }
        }
        m.insert("headers".into(), V::Map(h));
        if let Ok(p) = parse(&self.body) {
            if let Some(e) = p.exprs.first() {
                m.insert("json".into(), lit(e)?);
            }
        }
        Ok(m)
    }
}
/// what a server that sends these bytes and closes has said (None: not text)
pub fn response(bytes: &[u8]) -> Option<Resp> {
    let s = std::str::from_utf8(bytes).ok()?;
    let mut rest = s;
    let mut line = || {
        let i = rest.find('\n').map(|i| i + 1).unwrap_or(rest.len());
        let l = &rest[..i];
        rest = &rest[i..];
        l
    };
    let first = line();
    let mut w = first.split_whitespace();
    let version = w.next().unwrap_or("").to_string();
    let status = w.next().and_then(|s| s.parse::<u16>().ok()).unwrap_or(0);
    let reason = w.collect::<Vec<_>>().join(" ");
    let mut headers = vec![];
    loop {
        let l = line();
        if l.trim().is_empty() {
            break;
        }
        if let Some(i) = l.find(':') {
            headers.push((l[..i].trim().to_string(), l[i + 1..].trim().to_string()));
        }
    }
    Some(Resp { version, status, reason, headers, body: rest.to_string() })
}
#[derive(Clone, Debug, PartialEq)]
pub struct Addr {
    pub scheme: &'static str,
    pub host: String,
    pub port: u16,
    pub path: String,
}
pub fn url(s: Option<&str>) -> Addr {
    let none = Addr { scheme: "http", host: "localhost".into(), port: 80, path: "/".into() };
    let s = match s {
        Some(s) => s,
        None => return none,
    };
    let (scheme, rest) = match s.find("://") {
        Some(i) => (&s[..i], &s[i + 3..]),
        None => return Addr { scheme: if s == "https" { "https" } else { "http" }, port: if s == "https" { 443 } else { 80 }, ..none },
    };
    let scheme = if scheme == "https" { "https" } else { "http" };
    let (auth, path) = match rest.find('/') {
        Some(i) => (&rest[..i], &rest[i..]),
        None => (rest, "/"),
    };
    let (host, port) = match auth.find(':') {
        Some(i) => (&auth[..i], auth[i + 1..].parse::<u16>().ok()),
        None => (auth, None),
    };
    Addr { scheme, host: host.into(), port: port.unwrap_or(if scheme == "https" { 443 } else { 80 }), path: path.into() }
}
impl Addr {
    pub fn show(&self) -> String {
        if self.port == if self.scheme == "https" { 443 } else { 80 } {
            format!("{}://{}{}", self.scheme, self.host, self.path)
        } else {
            format!("{}://{}:{}{}", self.scheme, self.host, self.port, self.path)
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub method: String,
    pub url: Addr,
    pub version: String,
    pub headers: Vec<(String, String)>,
    pub body: String,
    /// the body bytes sent, None when the content is not specified (multipart)
    pub sent: Option<Vec<u8>>,
    /// the form body keeps its raw lines in the record; their exact joining is not specified
    pub form: bool,
}
const METHODS: &[&str] = &["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD", "TRACE", "CONNECT"];
const VERSIONS: &[&str] = &["HTTP/1.1", "HTTP/0.9", "HTTP/1.0", "HTTP/2.0", "HTTP/3.0"];
fn formenc(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b'*' | b'-' | b'.' | b'_' | b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' => o.push(b as char),
            b' ' => o.push('+'),
            b => o.push_str(&format!("%{:02X}", b)),
        }
    }
    o
}
pub fn request(message: &str) -> Req {
    let m = message.trim();
    let lines: Vec<&str> = m.lines().collect();
    if lines.is_empty() {
        return Req { method: "GET".into(), url: url(None), version: "HTTP/1.1".into(), headers: vec![], body: String::new(), sent: Some(vec![]), form: false };
    }
    let w: Vec<&str> = lines[0].split_whitespace().collect();
    let known = |ws: &[&str], s: Option<&&str>| s.filter(|s| ws.contains(*s)).map(|s| s.to_string()).unwrap_or(ws[0].to_string());
    let method = known(METHODS, w.first());
    let url = url(w.get(1).copied());
    let version = known(VERSIONS, w.get(2));
    let mut headers = vec![];
    let mut ct = None;
    let mut i = 1;
    while i < lines.len() {
        let l = lines[i].trim();
        i += 1;
        if l.is_empty() {
            break;
        }
        if let Some(k) = l.find(':') {
            let (n, v) = (l[..k].trim().to_string(), l[k + 1..].trim().to_string());
            if ct.is_none() && n.to_lowercase() == "content-type" {
                ct = Some(v.clone());
            }
            headers.push((n, v));
        }
    }
    let rest = &lines[i.min(lines.len())..];
    let mut form = false;
    let (body, sent) = match ct.as_deref() {
        Some("application/x-www-form-urlencoded") => {
            form = true;
            let mut parts = vec![];
            for l in rest {
                if let Some(k) = l.trim().find(':') {
                    let l = l.trim();
                    parts.push(format!("{}={}", formenc(l[..k].trim()), formenc(l[k + 1..].trim())));
                }
            }
            (String::new(), Some(parts.join("&").into_bytes()))
        }
        Some("multipart/form-data") => (String::new(), None),
        _ => {
            let b = rest.join("\n");
            let s = if b.trim().is_empty() { vec![] } else { b.clone().into_bytes() };
            (b, Some(s))
        }
    };
    Req { method, url, version, headers, body, sent, form }
}
impl Req {
    pub fn wire(&self) -> Option<Vec<u8>> {
        let mut s = format!("{} {} {}\r\n", self.method, self.url.path, self.version);
        for (n, v) in &self.headers {
            s.push_str(&format!("{}: {}\r\n", n, v));
        }
        s.push_str("\r\n");
        let mut b = s.into_bytes();
        b.extend_from_slice(self.sent.as_ref()?);
        Some(b)
    }
}

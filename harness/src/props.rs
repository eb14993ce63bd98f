//! One case generator and comparison per property.
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::net::{Script, Server};
use crate::wire;
use lib::verif as real;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;

fn toks(text: &str) -> Vec<(String, String)> {
    real::segment(text).into_iter().map(|t| (format!("{:?}", t.kind), t.literal)).collect()
}

// ------------------------------------------------------------------ C01
pub fn c01(h: &mut H, n: u64, r: &mut Rng) {
    let dict = h.a.dict.clone();
    // every pair and triple of operator characters once, then soup
    const OPC: &[char] = &['=', '!', '+', '-', '*', '/', '%', '^', '|', '&', '<', '>', ',', ';', ':', '.', '(', ')', '{', '}', '[', ']', '"', '`', 'a', '0', ' ', '_', 'Z', '9', '\n', 'é'];
    let k = OPC.len() as u64;
    let text = if n < k * k * k {
        let (a, b, c) = (n / (k * k), (n / k) % k, n % k);
        [a, b, c].iter().map(|i| OPC[*i as usize]).collect()
    } else if n < k * k * k + 0x500 {
        let c = char::from_u32((n - k * k * k) as u32).unwrap_or('x');
        format!("a{}b", c)
    } else {
        match r.below(4) {
            0 => chars(r, 30),
            1 => {
                let w = word(r, &dict);
                let mut v: Vec<char> = w.chars().collect();
                if !v.is_empty() && r.chance(50) {
                    let i = r.below(v.len());
                    match r.below(3) {
                        0 => { v.remove(i); }
                        1 => v.insert(i, *r.pick(OPC)),
                        _ => v[i] = *r.pick(OPC),
                    }
                }
                v.into_iter().collect()
            }
            _ => soup(r, &dict, 25),
        }
    };
    let want: Vec<(String, String)> = lex(&text).into_iter().map(|t| (t.kind.to_string(), t.text)).collect();
    h.check(&text, want.len() > 2, || same("tokens", &want, &toks(&text)));
}

fn compare_parse(text: &str) -> Result<(), String> {
    match (parse(text), real_parse(text)) {
        (Ok(a), Ok(b)) => {
            same("expressions", &a.exprs, &b.exprs)?;
            same("requests", &a.requests, &b.requests)?;
            same("tests", &a.tests, &b.tests)
        }
        (Err(()), Err(_)) => Ok(()),
        (Ok(a), Err(e)) => Err(format!("expected program {:?}, got error {:?}", a, e)),
        (Err(()), Ok(b)) => Err(format!("expected an error, got program {:?}", b)),
    }
}

// ------------------------------------------------------------------ C02
pub fn c02(h: &mut H, n: u64, r: &mut Rng) {
    let dict = h.a.dict.clone();
    const OPEN: &[(&str, &str)] = &[("(", ")"), ("[", "]"), ("{1:", "}"), ("-", ""), ("!", ""), ("let a=", ""), ("if(1){", "}"), ("a(", ")"), ("a[", "]"), ("1+", "")];
    let text = match n % 8 {
        _ if (40..=60).contains(&n) => {
            // deep nests, one of each kind, still inside the call stack
            let (o, c) = OPEN[n as usize % OPEN.len()];
            let d = if n < 50 { 300 } else { 1100 };
            format!("{}1{}", o.repeat(d), c.repeat(d))
        }
        // long but flat: more of everything than fits a small counter
        _ if (61..=65).contains(&n) => ["1;", "a ", "[1,2];", "f(1).b;", "\"s\" "][n as usize - 61].repeat(70_000),
        _ if (66..=70).contains(&n) => {
            let (a, b, c) = [("[", "1,", "1]"), ("f(", "a,", "a)"), ("{", "1:2,", "1:2}"), ("if(1){", "a;", "}"), ("request r``[", "a==1,", "a==1]")][n as usize - 66];
            format!("{}{}{}", a, b.repeat(70_000), c)
        }
        0 | 4 => chars(r, 40),
        3 | 7 => {
            // nesting, well inside the call stack
            let d = r.range(1, 40);
            let (o, c) = *r.pick(OPEN);
            format!("{}{}{}", o.repeat(d), soup(r, &dict, 2), c.repeat(r.range(0, d + 1)))
        }
        1 => {
            // a program, a little damaged
            let mut v: Vec<char> = gen_source(r).chars().collect();
            for _ in 0..r.below(4) {
                if v.is_empty() { break; }
                let i = r.below(v.len());
                match r.below(4) {
                    0 => { v.remove(i); }
                    1 => v.truncate(i),
                    2 => v.insert(i, *r.pick(&['{', '}', '(', ')', '[', ']', '`', '"', ',', ';', '.', '@', 'é'])),
                    _ => { let j = r.below(v.len()); v.swap(i, j); }
                }
            }
            v.into_iter().collect()
        }
        2 => {
            // names, messages and literals of any text
            let t = |r: &mut Rng| if r.chance(50) { string(r) + &string(r) } else { chars(r, 12) }.replace(['`', '"'], "");
            let (a, b, c) = (t(r), t(r), t(r));
            format!("request {} `{}`[ \"{}\" == {} ] test {} {{ {} }} {}{}", r.pick(NAMES), a, b, int(r), r.pick(NAMES), b, r.next(), r.pick(&["", ".", "..", ".5", ".5.", "e9", "_", "é"])) + &c
        }
        6 => {
            // a long text where no such thing may stand
            let pad = r.below(130);
            let t = format!("{}{}", "a".repeat(pad), r.pick(&["é", "日", "😀", "b", "{é", " é"]).repeat(r.range(0, 130)));
            let e = match r.below(5) { 0 => format!("\"{}\"", t), 1 => format!("[\"{}\", 1]", t), 2 => format!("{}", "7".repeat(pad + 1)) + r.pick(&["", ".", ".5", "..", ".5."]), 3 => format!("`{}`", t), _ => t };
            let f = *r.pick(&["@(1)", "@(", "@.a(2)", "let @ = 1", "let a @", "request @ `x`", "request a @", "test @ {}", "test a @", "a.@", "a[@", "{@ 1}", "{1: @ @", "[1 @]", "if @ {}", "if (@) @", "f(1 @)", "@", "(@", "-@", "!@(", "1 + @", "@ 1", "if (1) {} else @", "(1)@", "@[0](1)"]);
            f.replace('@', &e)
        }
        _ => soup(r, &dict, 30),
    };
    // on the parser's stack, so that nothing but nesting can exhaust it
    h.check(&text, text.len() > 3, || {
        let t = text.clone();
        let j = std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let _ = lib::Parser::new(&t).parse(); }).unwrap();
        j.join().map_err(|_| "crash while parsing".to_string())
    });
}

// ------------------------------------------------------------------ C03
pub fn c03(h: &mut H, n: u64, r: &mut Rng) {
    let g = G { calls: &["f", "length", "g"] };
    let k = OPS.len() as u64;
    let (text, want) = if n < k * k {
        let (p, q) = (OPS[(n / k) as usize], OPS[(n % k) as usize]);
        (format!("a {} b {} c", p, q), None)
    } else if n < k * k + 400 {
        let m = n - k * k;
        let op = OPS[(m % k) as usize];
        let s = match (m / k) % 10 {
            0 => format!("-a {} b", op),
            1 => format!("!a {} b", op),
            2 => format!("a {} -b", op),
            3 => format!("a {} !b.c", op),
            4 => format!("-a[0] {} b(1)", op),
            5 => format!("!f(1) {} b[1][2].c", op),
            6 => format!("(a {} b) {} c", op, OPS[r.below(18)]),
            7 => format!("a {} let b = c {} d", op, OPS[r.below(18)]),
            8 => format!("- - a {} ! - b", op),
            _ => format!("a.b[c {} d] {} e", op, op),
        };
        (s, None)
    } else if r.chance(35) {
        // operand/operator sequences without parentheses
        let mut s = String::new();
        for i in 0..r.size(2, 9, 60) {
            if i > 0 {
                s.push_str(r.pick(OPS));
                s.push(' ');
            }
            for _ in 0..r.below(3) {
                s.push_str(*r.pick(&["-", "!", "- "]));
            }
            s.push_str(r.pick(&["a", "b", "1", "2.5", "\"s\"", "f(1, 2)", "a[1]", "a.b", "(a + b)", "f(1)[2].c", "[1, 2][0]", "true", "{\"a\": 1}.a", "if (a) { b } else { c }"]));
            s.push(' ');
        }
        (s, None)
    } else {
        let d = r.range(1, 5);
        let e = fit(&g.expr(r, d));
        (print(&e, r), Some(e))
    };
    h.check(&text, true, || {
        if let Some(e) = &want {
            // the printed tree must come back: grouping and operands as printed
            let got = real_parse(&text)?;
            same("tree", &vec![e.clone()], &got.exprs)?;
        }
        compare_parse(&text)
    });
}

// ------------------------------------------------------------------ C04
fn gen_source(r: &mut Rng) -> String {
    let g = G { calls: &["f", "get", "length"] };
    let mut parts = vec![];
    for _ in 0..r.size(0, 6, 80) {
        match r.below(4) {
            0 => {
                let mut s = format!("request {} `{}`", r.name(&["get", "post", "a", "get"]), chars(r, 12).replace('`', "'"));
                if r.chance(70) {
                    let v: Vec<String> = (0..r.size(0, 3, 40)).map(|_| print(&fit(&g.expr(r, 2)), r)).collect();
                    s.push_str(&format!("[{}{}]", v.join(", "), if !v.is_empty() && r.chance(20) { "," } else { "" }));
                }
                parts.push(s);
            }
            1 => {
                let b: Vec<String> = (0..r.size(0, 3, 40)).map(|_| print(&fit(&g.expr(r, 2)), r)).collect();
                parts.push(format!("test {} {{ {} }}", r.name(&["t1", "t2", "t1"]), b.join(if r.chance(80) { ";" } else { " " })));
            }
            _ => {
                let d = r.range(0, 3);
                parts.push(print(&fit(&g.expr(r, d)), r));
            }
        }
    }
    let sep = if r.chance(70) { ";\n" } else { "\n" };
    let mut s = parts.join(sep);
    if r.chance(30) {
        s.push(';');
    }
    s
}
pub fn c04(h: &mut H, n: u64, r: &mut Rng) {
    let dict = h.a.dict.clone();
    let mut text = gen_source(r);
    if n % 3 != 0 {
        // damage: drop, double, insert or replace a token
        let ts = lex(&text);
        let mut words: Vec<String> = ts.iter().map(|t| match t.kind { "String" => format!("\"{}\"", t.text), "Template" => format!("`{}`", t.text), _ => t.text.clone() }).collect();
        for _ in 0..r.range(1, 2) {
            if words.is_empty() {
                break;
            }
            let i = r.below(words.len());
            match r.below(7) {
                0 => { words.remove(i); }
                1 => { let w = words[i].clone(); words.insert(i, w); }
                // a piece that is well formed elsewhere
                4 => words.insert(i, r.pick(&["else { 1 }", "[ a == 1 ]", "( a )", "= 1", ": 1", "{ }", "{ 1 }", "if ( 1 ) { }", "let a = 1", "test a { 1 }", "request a `x`", ". a", "; ;", ", ,", "[ 0 ]", "`t`", "else if ( 1 ) { }", "a :", "- 1", "test a { } else { 1 }", "request a `x` { }", "request a `x` [ ] [ ]"]).to_string()),
                5 | 6 => {
                    // a run of tokens moved or repeated
                    let j = r.range(i, (i + 12).min(words.len() - 1));
                    let run: Vec<String> = if r.chance(50) { words[i..=j].to_vec() } else { words.drain(i..=j).collect() };
                    let k = r.below(words.len() + 1);
                    words.splice(k..k, run);
                }
                2 => { let w = word(r, &dict); words.insert(i, w); }
                _ => { let w = word(r, &dict); words[i] = w; }
            }
        }
        text = words.join(" ");
    }
    h.check(&text, parse(&text).map(|p| p.exprs.len() + p.requests.len() + p.tests.len() > 0).unwrap_or(true), || compare_parse(&text));
}

// ------------------------------------------------------------------ C05, C06
fn real_bin(op: &str, a: &V, b: &V) -> Option<Result<V, String>> {
    let (x, y) = (vto(a), vto(b));
    let o = match op {
        "+" => x + y,
        "-" => x - y,
        "*" => x * y,
        "/" => x / y,
        "%" => x % y,
        "&" => x & y,
        "|" => x | y,
        "^" => x ^ y,
        "<<" => x << y,
        ">>" => x >> y,
        "<" => Ok(real::Value::Boolean(x < y)),
        ">" => Ok(real::Value::Boolean(x > y)),
        "<=" => Ok(real::Value::Boolean(x <= y)),
        ">=" => Ok(real::Value::Boolean(x >= y)),
        "==" => Ok(real::Value::Boolean(x == y)),
        "!=" => Ok(real::Value::Boolean(x != y)),
        _ => return None,
    };
    Some(o.map(|v| vof(&v)))
}
fn real_eval(text: &str, env: &Env) -> (Result<V, String>, HashMap<String, real::Value>) {
    let s = match lib::Parser::new(text).parse() {
        Ok(s) => s,
        Err(e) => return (Err(e), HashMap::new()),
    };
    let mut c = lib::Context::from(env.iter().map(|(k, v)| (k.clone(), vto(v))).collect());
    c.extend(s.requests);
    let r = lib::eval_block(&s.exprs, &mut c).map(|v| vof(&v));
    (r, c.into_map())
}
fn agree(what: &str, want: &M<V>, got: &Result<V, String>) -> Result<(), String> {
    match (want, got) {
        (Err(true), _) => Ok(()),
        (Ok(v), Ok(w)) => same(what, v, w),
        (Err(false), Err(_)) => Ok(()),
        (Ok(v), Err(e)) => Err(format!("{}: expected {:?}, got error {:?}", what, v, e)),
        (Err(false), Ok(w)) => Err(format!("{}: expected an error, got {:?}", what, w)),
    }
}
fn ops_case(h: &mut H, op: &str, a: V, b: V) {
    let input = format!("{:?} {} {:?}", a, op, b);
    let want = binop(op, &a, &b);
    h.check(&input, true, || {
        agree("operator", &want, &real_bin(op, &a, &b).unwrap())?;
        // and through the evaluator
        let env: Env = [("x".to_string(), a.clone()), ("y".to_string(), b.clone())].into_iter().collect();
        agree("expression", &want, &real_eval(&format!("x {} y", op), &env).0)
    });
}
pub fn c05(h: &mut H, n: u64, r: &mut Rng) {
    const A: &[&str] = &["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"];
    let k = INTS.len() as u64;
    if n < k * k {
        for op in A {
            ops_case(h, op, V::Int(INTS[(n / k) as usize]), V::Int(INTS[(n % k) as usize]));
        }
        return;
    }
    if n < k * k + 3 * k {
        let a = V::Int(INTS[(n % k) as usize]);
        for op in ["!", "-"] {
            let env: Env = [("x".to_string(), a.clone())].into_iter().collect();
            h.check(&format!("{}{:?}", op, a), true, || agree("prefix", &unop(op, &a), &real_eval(&format!("{}x", op), &env).0));
        }
        return;
    }
    let a = value(r, 1);
    let b = if r.chance(60) { near(r, &a) } else { value(r, 1) };
    let op = *r.pick(A);
    ops_case(h, op, a.clone(), b);
    let op = *r.pick(&["!", "-"]);
    let env: Env = [("x".to_string(), a.clone())].into_iter().collect();
    h.check(&format!("{}{:?}", op, a), true, || agree("prefix", &unop(op, &a), &real_eval(&format!("{}x", op), &env).0));
}
pub fn c06(h: &mut H, n: u64, r: &mut Rng) {
    const A: &[&str] = &["<", ">", "<=", ">=", "==", "!="];
    let k = INTS.len() as u64;
    if n < k * k {
        let (x, y) = (INTS[(n / k) as usize], INTS[(n % k) as usize]);
        for op in A {
            ops_case(h, op, V::Int(x), V::Int(y));
            ops_case(h, op, V::Int(x), V::Float(y as f64));
            ops_case(h, op, V::Float(x as f64), V::Int(y));
        }
        return;
    }
    let d = r.below(4);
    let a = value(r, d);
    let b = if r.chance(70) { near(r, &a) } else { value(r, d) };
    for op in A {
        ops_case(h, op, a.clone(), b.clone());
    }
}

// ------------------------------------------------------------------ C07 - C10: whole programs without requests
fn env0() -> Env {
    let mut m = Env::new();
    m.insert("a".into(), V::Int(1));
    m.insert("b".into(), V::Bool(false));
    m.insert("t".into(), V::Arr(vec![]));
    m.insert("m".into(), V::Map([("a".to_string(), V::Int(7)), ("b".to_string(), V::Null), ("1".to_string(), V::Str("one".into()))].into_iter().collect()));
    m
}
/// the same names, with any values in half of the cases
fn env_any(n: u64, r: &mut Rng) -> Env {
    let mut m = env0();
    if n % 2 == 1 {
        m.insert("a".into(), value(r, 2));
        m.insert("b".into(), value(r, 1));
        if r.chance(5) {
            m.insert("m".into(), V::Map((0..r.size(0, 4, 700)).map(|i| (if i > 3 { format!("k{}", i) } else { string(r) }, value(r, 0))).collect()));
            m.insert("t".into(), V::Arr((0..r.size(0, 4, 700)).map(|_| value(r, 0)).collect()));
        }
    }
    m
}
fn run_program(h: &mut H, text: &str, env: &Env, nontrivial: bool) {
    let p = match parse(text) {
        Ok(p) => p,
        Err(()) => return,
    };
    let none = BTreeMap::new();
    let answers = |_: usize, _: &str| None;
    let mut w = World { env: env.clone(), requests: &none, answers: &answers, recs: vec![] };
    let want = w.block(&p.exprs);
    if want == Err(true) {
        return;
    }
    let input = format!("{:?} |- {}", env, text);
    h.check(&input, nontrivial, || {
        let (got, after) = real_eval(text, env);
        agree("result", &want, &got)?;
        let after: Env = after.iter().map(|(k, v)| (k.clone(), vof(v))).collect();
        same("variables afterwards", &w.env, &after)
    });
}
pub fn c07(h: &mut H, n: u64, r: &mut Rng) {
    let g = G { calls: &["length", "append", "format", "unknown"] };
    let d = r.range(1, 4);
    let es: Vec<E> = (0..r.size(1, 4, 40)).map(|_| if n % 3 == 0 { g.expr(r, d) } else { g.good(r, d) }).map(|e| fit(&e)).collect();
    let text = match n % 10 {
        3 => {
            // what any value decides
            let mark = "(let t = append(t, 7))";
            let v = r.pick(&["a", "b"]);
            match r.below(7) {
                0 => format!("if ({v}) {{ 1 }} else {{ {mark} }}"),
                1 => format!("if ({v}) {{ {mark} }}"),
                2 => format!("{v} && {mark}"),
                3 => format!("{v} || {mark}"),
                4 => format!("!{v}"),
                5 => format!("if (!{v}) {{ {mark} 2 }} else {{ 3 }} t"),
                _ => format!("(a && b) || {mark}"),
            }
        }
        _ => program(&es, r),
    };
    run_program(h, &text, &env_any(n, r), true);
}
pub fn c08(h: &mut H, n: u64, r: &mut Rng) {
    let g = G { calls: &["length", "append", "format"] };
    let mut es = vec![];
    for _ in 0..r.size(1, 6, 60) {
        let e = match r.below(5) {
            0 | 1 => E::Let(r.name(&["a", "b", "c", "d", "t"]), Box::new(g.good(r, 2))),
            2 => E::Let(r.pick(&["a", "b"]).to_string(), Box::new(E::Ident(r.pick(&["a", "b", "c", "m", "zz"]).to_string()))),
            3 => E::Call("append".into(), vec![E::Ident("t".into()), g.good(r, 1)]),
            _ => g.expr(r, 2),
        };
        es.push(fit(&e));
    }
    es.push(E::Ident(r.pick(&["a", "b", "c", "t", "m"]).to_string()));
    let text = program(&es, r);
    run_program(h, &text, &env_any(n, r), true);
}
pub fn c09(h: &mut H, n: u64, r: &mut Rng) {
    let g = G { calls: &["length"] };
    let mut env = env0();
    let arr = V::Arr((0..r.size(0, 4, 3000)).map(|_| value(r, 1)).collect());
    let map = V::Map((0..r.size(0, 4, 700)).map(|i| (if i > 6 { format!("k{}", i) } else { string(r) }, value(r, 1))).collect());
    let key = match (r.below(6), &map) {
        (0..=2, V::Map(m)) if !m.is_empty() => V::Str(m.keys().nth(r.below(m.len())).unwrap().clone()),
        (3, _) => V::Int(int(r)),
        (4, _) => value(r, 0),
        _ => V::Str(string(r)),
    };
    let idx = match r.below(8) {
        0 => V::Int(-1),
        1 => V::Int(int(r)),
        2 => value(r, 1),
        3 => match &arr {
            V::Arr(a) => V::Int(r.below(a.len() + 2) as i64),
            _ => V::Null,
        },
        _ => V::Int(r.below(6) as i64 - 1),
    };
    env.insert("arr".into(), arr);
    env.insert("map".into(), map);
    env.insert("k".into(), key);
    env.insert("i".into(), idx);
    env.insert("v".into(), value(r, 2));
    let text = match n % 8 {
        0 => "arr[i]".to_string(),
        1 => "map[k]".to_string(),
        2 => "v[i]".to_string(),
        3 => "[arr[i], map[k], arr]".to_string(),
        4 => format!("map.{}", r.name(&["a", "b", "ab", "aa", "x", "_z"])),
        5 => "{k: 1, \"a\": arr, k: 2, \"b\": v}".to_string(),
        6 => format!("v.{}", r.pick(&["a", "b"])),
        _ => {
            let e = match r.below(3) {
                0 => E::Map((0..r.range(1, 4)).map(|_| (atom(r), g.good(r, 1))).collect()),
                1 => E::Index(Box::new(E::Map((0..r.range(1, 4)).map(|_| (atom(r), g.good(r, 1))).collect())), Box::new(atom(r))),
                _ => E::Index(Box::new(E::Arr((0..r.range(0, 4)).map(|_| g.good(r, 1)).collect())), Box::new(atom(r))),
            };
            print(&fit(&e), r)
        }
    };
    run_program(h, &text, &env, true);
}
fn template(r: &mut Rng, names: &[&str]) -> String {
    (0..r.size(0, 6, 80))
        .map(|_| match r.below(11) {
            0..=3 => format!("{{{}{}{}}}", r.pick(&["", " ", "\t", "  ", "\n"]), r.pick(names), r.pick(&["", " ", "  "])),
            4 => format!("{{{}", r.pick(names)),
            5 => format!("{}}}", r.pick(names)),
            6 => r.pick(&["{}", "{ }", "{{", "}}", "{1a}", "{a b}", "{a-b}", "{é}", "{\"k\": \"v\"}", "{a.b}", "{_}", "{A1_b}", "{\u{a0}a\u{a0}}"]).to_string(),
            7 => format!("{{{{{}}}}}", r.pick(names)),
            _ => string(r).replace('`', "'").replace('"', "'"),
        })
        .collect()
}
pub fn c10(h: &mut H, n: u64, r: &mut Rng) {
    let name = if n % 7 == 6 { r.name(&["unknown", "len", "Length", "formatt", "push"]) } else { r.pick(&["length", "append", "format"]).to_string() };
    let mut args: Vec<V> = (0..r.size(0, 4, 40)).map(|_| value(r, 2)).collect();
    if name == "format" && r.chance(85) {
        let s = template(r, &["a", "b", "name"]);
        let k = holes(&s).len();
        args = vec![V::Str(s)];
        let m = if r.chance(85) { k } else { r.range(0, k + 1) };
        for _ in 0..m {
            args.push(if r.chance(50) { V::Str(template(r, &["a"])) } else { value(r, 0) });
        }
    } else if name == "append" && r.chance(80) {
        args.insert(0, V::Arr((0..r.size(0, 3, 3000)).map(|_| value(r, 1)).collect()));
    } else if name == "length" && r.chance(70) {
        args.truncate(1);
    }
    let mut env = Env::new();
    let mut call = vec![];
    for (i, a) in args.iter().enumerate() {
        env.insert(format!("p{}", i), a.clone());
        call.push(format!("p{}", i));
    }
    let text = format!("{}({})", name, call.join(", "));
    let want = native(&name, &args);
    if want != Err(true) {
        let input = format!("{}({:?})", name, args);
        h.check(&input, true, || {
            let v: Vec<real::Value> = args.iter().map(vto).collect();
            let got = match name.as_str() {
                "length" => real::length(v),
                "append" => real::append(v),
                "format" => real::format(v),
                _ => Err(String::new()),
            };
            agree("built-in", &want, &got.map(|v| vof(&v)))
        });
    }
    run_program(h, &text, &env, true);
}

// ------------------------------------------------------------------ programs with requests
pub struct Net {
    server: Server,
}
thread_local! { static NET: std::cell::RefCell<Option<std::rc::Rc<Net>>> = Default::default(); }
fn net() -> std::rc::Rc<Net> {
    NET.with(|n| n.borrow_mut().get_or_insert_with(|| std::rc::Rc::new(Net { server: Server::start(None) })).clone())
}
fn json_text(r: &mut Rng, d: usize) -> String {
    let sp = *r.pick(&["", " ", "\n  "]);
    match r.below(if d > 0 { 11 } else { 8 }) {
        0 => "null".into(),
        1 => "true".into(),
        2 => "false".into(),
        3 => if r.chance(30) { int(r).to_string() } else { r.below(1000).to_string() },
        4 => format!("-{}", r.below(1000)),
        5 => format!("{}{}.{}", r.pick(&["", "-"]), r.below(100), r.below(1000)),
        6 | 7 => format!("\"{}\"", string(r).replace('"', "").replace('`', "")),
        8 => format!("[{}{}]", (0..r.size(0, 4, 300)).map(|_| json_text(r, if d > 1 { d - 1 } else { 0 })).collect::<Vec<_>>().join(&format!(",{}", sp)), sp),
        _ => {
            let v: Vec<String> = (0..r.range(0, 4)).map(|_| format!("{}\"{}\":{}{}", sp, r.any(&["a", "b", "status", "k k", "é", ""]).replace(['"', '`'], ""), sp, json_text(r, d - 1))).collect();
            format!("{{{}{}}}", v.join(","), sp)
        }
    }
}
fn reply(r: &mut Rng) -> Vec<u8> {
    let eol = if r.chance(85) { "\r\n" } else { "\n" };
    let status = match r.below(12) {
        0..=6 => r.any(&["200", "201", "204", "301", "404", "500", "0", "65535"]),
        7 => (100 + r.below(500)).to_string(),
        8 => r.pick(&["65536", "65737", "4294967496", "18446744073709551816", "0200", "200.0", "２００", "200x", "0x10"]).to_string(),
        9 => "-1".into(),
        10 => "abc".into(),
        _ => "".into(),
    };
    let mut s = format!("{} {}{}{}", r.pick(&["HTTP/1.1", "HTTP/1.0", "HTTP/2", "x", ""]), status, r.any(&["", " OK", " Not Found", "  Very  odd reason ", " é", "\tTab Tab"]), eol);
    for _ in 0..r.size(0, 5, 300) {
        s.push_str(&match r.below(10) {
            8 => r.any(&["# x: y", "// a: b", " continued: x", "\tfolded: y", "a : b", "\"q\": v"]),
            0 => "no colon here".to_string(),
            1 => format!("A: {}", string(r).replace('\n', "")),
            2 => " lead : trail  ".to_string(),
            3 => "b:c:d: e".to_string(),
            4 => ": empty name".to_string(),
            5 => "a: 2".to_string(),
            6 => "A:".to_string(),
            7 if r.chance(4) => format!("L: {}", "long ".repeat(r.range(100, 20000))),
            7 => "Set-Cookie: x=1".to_string(),
            _ => format!("{}: {}", r.any(&["A", "a", "X-Y", "Set-Cookie", "Content-Length", "Transfer-Encoding", "Connection"]), r.any(&["0", "1", "7", "chunked", "close", "x"])),
        });
        s.push_str(eol);
    }
    if r.chance(90) {
        s.push_str(if r.chance(90) { eol } else { " \t\r\n" });
        s.push_str(&match r.below(8) {
            0 => String::new(),
            1 => chars(r, 40),
            2 => format!("line one{}{}line three{}", eol, eol, eol),
            3 => format!("{}{}", json_text(r, 3), r.pick(&["", "\n", "  ", " trailing", ";"])),
            4 => format!("{}{}", r.pick(&[" ", "", "\n"]), string(r)),
            _ => json_text(r, 3),
        });
    } else if r.chance(50) {
        s.truncate((0..=s.len()).rev().filter(|i| s.is_char_boundary(*i)).nth(r.below(s.len().min(20))).unwrap_or(0));
    }
    if r.chance(20) {
        let (first, rest) = s.split_at(s.find('\n').unwrap_or(s.len()));
        s = if r.chance(60) { format!("{}{}", r.near(first), rest) } else { r.near(&s) };
    }
    s.into_bytes()
}
fn compare_record(i: usize, rec: &real::Record, w: &Rec) -> Result<(), String> {
    let c = |what: &str| format!("record {}: {}", i, what);
    same(&c("name"), &w.name, &rec.name)?;
    same(&c("error text present"), &w.failed, &!rec.error.is_empty())?;
    let q = request(&w.message);
    same(&c("method"), &q.method, &rec.request.method.to_string())?;
    same(&c("url"), &q.url.show(), &rec.request.url.to_string())?;
    same(&c("host"), &q.url.host, &rec.request.url.host)?;
    same(&c("request version"), &q.version, &rec.request.version.to_string())?;
    same(&c("request headers"), &q.headers, &rec.request.headers.iter().map(|h| (h.name.clone(), h.value.clone())).collect())?;
    if !q.form && q.sent.is_some() {
        same(&c("request body"), &q.body, &rec.request.body)?;
    }
    same(&c("response"), &w.response, &resp_of(&rec.response))?;
    same(&c("number of assertion results"), &w.checks.len(), &rec.asserts.len())?;
    for (k, (x, y)) in w.checks.iter().zip(rec.asserts.iter()).enumerate() {
        let c = |what: &str| format!("record {} assertion {}: {}", i, k, what);
        same(&c("result"), &x.result, &y.result)?;
        same(&c("operator"), &x.op, &y.compare)?;
        same(&c("text"), &x.expr, &y.expr)?;
        if x.left != UNSPEC {
            same(&c("left"), &x.left, &y.left)?;
        }
        if x.right != UNSPEC {
            same(&c("right"), &x.right, &y.right)?;
        }
    }
    let shown = rec.to_string();
    for y in &rec.asserts {
        let line = [y.expr.as_str(), " => ", &y.left, " ", &y.compare, " ", &y.right, " => ", if y.result { "true" } else { "false" }].concat();
        if !shown.contains(&format!("\n{}\n", line)) {
            return Err(format!("record {}: line {:?} missing in {:?}", i, line, shown));
        }
    }
    let pass = w.checks.iter().all(|c| c.result);
    same(&c("verdict"), &(pass, !pass), &(shown.contains(&format!("--- PASS  {}", w.name)), shown.contains(&format!("--- FAIL  {}", w.name))))?;
    Ok(())
}
fn resp_of(x: &real::Response) -> Resp {
    Resp {
        version: x.version.clone(),
        status: x.status,
        reason: x.reason.clone(),
        headers: x.headers.iter().map(|h| (h.name.clone(), h.value.clone())).collect(),
        body: x.body.clone(),
    }
}
/// runs a program whose requests reach the loopback server (or a closed port) against the model
fn run_with_requests(h: &mut H, text: &str, env: &Env, replies: Vec<Vec<u8>>, env_check: bool) {
    let net = net();
    let p = match parse(text) {
        Ok(p) => p,
        Err(()) => return,
    };
    let port = net.server.port;
    let bad = std::cell::Cell::new(false);
    // the n-th connection that is made gets the n-th reply
    let conns = std::cell::Cell::new(0usize);
    let wires = std::cell::RefCell::new(Vec::<Vec<u8>>::new());
    let scripts = std::cell::RefCell::new(Vec::<Script>::new());
    let replies2 = replies.clone();
    let answers = |_: usize, m: &str| -> Option<Resp> {
        let q = request(m);
        if q.url.scheme != "http" || q.url.host != "127.0.0.1" {
            bad.set(true);
            return None;
        }
        if q.url.port != port {
            if q.url.port != 1 {
                bad.set(true);
            }
            return None;
        }
        let k = conns.get();
        conns.set(k + 1);
        if k >= replies2.len() {
            bad.set(true);
            return None;
        }
        let w = match q.wire() {
            Some(w) => w,
            None => {
                bad.set(true);
                return None;
            }
        };
        scripts.borrow_mut().push(Script { expect: w.len(), reply: replies2[k].clone(), ..Default::default() });
        wires.borrow_mut().push(w);
        response(&replies2[k])
    };
    let mut w = World { env: env.clone(), requests: &p.requests, answers: &answers, recs: vec![] };
    let want = w.block(&p.exprs);
    if bad.get() || want == Err(true) {
        return;
    }
    let input = format!("{:?} |- {} <- {:?}", env, text, replies.iter().map(|r| String::from_utf8_lossy(r).to_string()).collect::<Vec<_>>());
    let nconn = conns.get();
    let wires = wires.borrow().clone();
    let scripts = scripts.borrow().clone();
    h.check(&input, !w.recs.is_empty(), || {
        net.server.script(scripts);
        let s = lib::Parser::new(text).parse()?;
        let mut c = lib::Context::from(env.iter().map(|(k, v)| (k.clone(), vto(v))).collect());
        c.extend(s.requests);
        let got = lib::eval_block(&s.exprs, &mut c).map(|v| vof(&v));
        let recs = c.records();
        let sent = net.server.received(nconn);
        same("number of connections", &nconn, &sent.len())?;
        for (i, (x, y)) in wires.iter().zip(sent.iter()).enumerate() {
            same(&format!("bytes of connection {}", i), &String::from_utf8_lossy(x).to_string(), &String::from_utf8_lossy(y).to_string())?;
        }
        same("number of records", &w.recs.len(), &recs.len())?;
        for (i, (x, y)) in w.recs.iter().zip(recs.iter()).enumerate() {
            compare_record(i, y, x)?;
        }
        agree("result", &want, &got)?;
        if env_check {
            for (k, v) in &p.requests {
                let q = c.request(k).ok_or(format!("request {} is gone", k))?;
                same("declared request", v, &(q.0.clone(), q.1.iter().map(of).collect::<Vec<E>>()))?;
            }
        }
        let after: Env = c.into_map().iter().map(|(k, v)| (k.clone(), vof(v))).collect();
        same("variables afterwards", &w.env, &after)
    });
}
fn base(port: u16) -> String {
    format!("http://127.0.0.1:{}", port)
}
pub fn c08n(h: &mut H, n: u64, r: &mut Rng) {
    if n % 6 == 0 {
        requests_case(h, r, true)
    } else {
        c08(h, n, r)
    }
}
fn requests_case(h: &mut H, r: &mut Rng, env_check: bool) {
    let port = net().server.port;
    let other = r.name(&["post"]);
    let calls = ["length", "get", other.as_str(), "get"];
    let g = G { calls: &calls };
    let a = G { calls: &["length", "append", "format"] };
    let mut text = String::new();
    for name in ["get", other.as_str(), "length"] {
        if name == "length" && r.chance(70) {
            continue;
        }
        let url = if r.chance(85) { base(port) } else { base(1) };
        let mut m = format!("{} {}/{} {}\n", r.pick(&["GET", "POST", "PUT"]), url, r.any(&["", "a/b", "{a}", "?q={b}"]).replace(char::is_whitespace, ""), r.pick(&["", "HTTP/1.0"]));
        if r.chance(60) {
            m.push_str(&format!("{}: {}\n", r.any(&["X"]), r.any(&["1", "{a}", "{zz}"])));
        }
        if r.chance(40) {
            m.push_str(&format!("\n{}\n", r.any(&["body", "{a} {b}", "l1\nl2\n\nl4"])));
        }
        let mut asserts = vec![];
        for _ in 0..r.size(0, 4, 40) {
            let side = |r: &mut Rng| match r.below(9) {
                0 => E::Ident("status".into()),
                1 => E::Ident("reason".into()),
                2 => E::Ident("version".into()),
                3 => E::Ident("body".into()),
                4 => E::Field(Box::new(E::Ident("json".into())), r.pick(&["a", "b"]).to_string()),
                5 => E::Index(Box::new(E::Index(Box::new(E::Ident("headers".into())), Box::new(E::Str("A".into())))), Box::new(E::Int(r.below(2) as i64))),
                6 => atom(r),
                7 => E::Int(*r.pick(&[200, 404, 0, 201, 65535])),
                _ => fit(&a.expr(r, 1)),
            };
            let e = if r.chance(85) { E::Bin(r.pick(&["==", "!=", "<", ">", "<=", ">=", "==", "+", "&&"]).to_string(), Box::new(side(r)), Box::new(side(r))) } else { side(r) };
            asserts.push(print(&fit(&e), r));
        }
        text.push_str(&format!("request {} `{}`[{}]\n", name, m.replace('`', ""), asserts.join(", ")));
    }
    let mut es = vec![];
    for _ in 0..r.size(1, 3, 40) {
        let call = E::Call(r.pick(&calls).to_string(), if r.chance(80) { vec![] } else { vec![g.good(r, 1)] });
        es.push(fit(&match r.below(6) {
            0 | 1 => call,
            2 => E::Let(r.pick(&["a", "b", "c", "get", other.as_str(), "length"]).to_string(), Box::new(E::Field(Box::new(call), r.pick(&["status", "body", "reason", "json"]).to_string()))),
            3 => E::If(Box::new(E::Bin("==".into(), Box::new(E::Field(Box::new(call), "status".into())), Box::new(E::Int(200)))), vec![g.good(r, 1)], vec![g.good(r, 2)]),
            4 => E::Bin(r.pick(&["&&", "||"]).to_string(), Box::new(g.good(r, 1)), Box::new(call)),
            _ => g.good(r, 2),
        }));
    }
    text.push_str(&program(&es, r));
    let replies = (0..if es.len() > 4 { 90 } else { 8 }).map(|_| reply(r)).collect();
    run_with_requests(h, &text, &env0(), replies, env_check);
}
pub fn c17(h: &mut H, _n: u64, r: &mut Rng) {
    requests_case(h, r, true)
}
pub fn c11(h: &mut H, _n: u64, r: &mut Rng) {
    let port = net().server.port;
    let names = ["a", "b", "name", "id2", "_x", "null", "missing"];
    let t = |r: &mut Rng| template(r, &names).replace(['\n', '\r', '\t', '`'], " ");
    let method = r.pick(&["POST", "GET", "PUT", "DELETE", "get", "{a}"]);
    let mut m = format!("{} {}/{} HTTP/1.1\n", method, base(port), t(r).replace(|c: char| c.is_whitespace(), if r.chance(50) { "" } else { "_" }));
    for i in 0..r.size(0, 3, 100) {
        m.push_str(&format!("H{}: {}\n", i, t(r)));
    }
    m.push('\n');
    for _ in 0..r.size(0, 3, 100) {
        m.push_str(&format!("{}\n", t(r)));
    }
    let mut env = Env::new();
    for n in &names[..6] {
        if r.chance(80) {
            let v = match r.below(5) {
                0 => V::Str(t(r)),
                1 => V::Str(format!("{{{}}}", r.pick(&names))),
                2 => V::Str(format!("{}{{", string(r))),
                3 => V::Str(format!("a}}{}", string(r))),
                _ => value(r, 0),
            };
            env.insert(n.to_string(), v);
        }
    }
    let text = format!("request r `{}`\nr();{}", m, if r.chance(30) { "let a = 5; r()" } else { "" });
    let ok = b"HTTP/1.1 200 OK\r\n\r\n".to_vec();
    run_with_requests(h, &text, &env, vec![ok.clone(), ok], false);
}
pub fn c12(h: &mut H, n: u64, r: &mut Rng) {
    let dict = h.a.dict.clone();
    if n % 40 == 39 {
        // really connects to the host and port of the url
        let port = net().server.port;
        let path = r.pick(&["", "/", "/a?b=c#d", "/x://y", "/a:81/b"]).to_string();
        let text = format!("request r `GET {}{}`\nr()", base(port), path);
        return run_with_requests(h, &text, &Env::new(), vec![b"HTTP/1.1 200 OK\r\n\r\n".to_vec()], false);
    }
    let scheme = r.any(&["http://", "https://", "http://", "https://", "ftp://", "HTTP://", "://", "", "http:/", "http:", "ws://", "httpss://"]).replace(char::is_whitespace, "");
    let host = r.any(&["example.com", "127.0.0.1", "localhost", "", "a", "a-b.c", "user@h", "h_1", "é.com"]).replace(char::is_whitespace, "");
    let port = match r.below(10) {
        0..=3 => String::new(),
        4 => format!(":{}", r.below(65536)),
        7 => format!(":{}", int(r)),
        5 => r.pick(&[":80", ":443", ":0", ":65535", ":1"]).to_string(),
        6 => r.pick(&[":65536", ":-1", ":abc", ":", ":8080x", ":99999999999", ":80:81", ": 80"]).to_string().replace(' ', ""),
        _ => format!(":{}", 1 + r.below(9999)),
    };
    let mut path = r.any(&["", "/", "/a", "/a/b?c=d&e=/f", "/a#frag", "/a://b/c", "//x", "/:80", "?q=1", "#f", "/a:1", "/é"]).replace(char::is_whitespace, "");
    if r.chance(25) {
        path.push_str(&word(r, &dict).replace(|c: char| c.is_whitespace(), ""));
    }
    let u: String = if r.chance(8) { chars(r, 20).replace(|c: char| c.is_whitespace(), "") } else { format!("{}{}{}{}", scheme, host, port, path) };
    let u: String = r.maybe_near(15, u).replace(char::is_whitespace, "");
    let msg = format!("GET {} HTTP/1.1", u);
    let first: Vec<&str> = msg.split_whitespace().collect();
    let want = if u.is_empty() { url(Some("HTTP/1.1")) } else { url(first.get(1).copied()) };
    h.check(&msg, true, || {
        let (q, _) = real::Request::from(&msg);
        let got = (q.url.scheme.to_string(), q.url.host.clone(), q.url.port, q.url.path.clone());
        same("scheme, host, port, path", &(want.scheme.to_string(), want.host.clone(), want.port, want.path.clone()), &got)?;
        same("recorded url", &want.show(), &q.url.to_string())
    });
}
fn message(r: &mut Rng, dict: &[String]) -> String {
    let eol = if r.chance(80) { "\n" } else { "\r\n" };
    let mut m = String::new();
    m.push_str(&match r.below(8) {
        0 => word(r, dict),
        1 => String::new(),
        2 => format!("{}  {}\t{} extra words", r.pick(&["GET", "get", "FOO"]), "http://h:8/p", r.pick(&["HTTP/2.0", "HTTP/9"])),
        _ => format!(
            "{} {} {}",
            r.any(&["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD", "TRACE", "CONNECT", "gET", "post", "Put", "delete", "PoST", "POSTX", "POS"]),
            r.any(&["http://example.com/a", "https://h:8443/x?y", "http://h", "nourl", "http://a://b/c", "http://h/a#b?c=%20&d=é+e", "http://h//a/../b/./c", "http://h/{x}?[y]=\"z\"", "http://h:80/"]),
            r.any(&["", "HTTP/1.1", "HTTP/1.0", "HTTP/0.9", "HTTP/2.0", "HTTP/3.0", "HTTP/1"])
        ),
    });
    m.push_str(eol);
    for _ in 0..r.size(0, 5, 300) {
        m.push_str(&match r.below(12) {
            7 => r.any(&["# x: y", "#x", "// a: b", "-- a: b", "; a: b", "\tfolded: x", "\"q\": v", "{k: v}", "A:  ", "A : b"]),
            8 => format!("{}: {}", r.any(&["Host", "Content-Length", "Connection", "User-Agent", "Accept"]), r.any(&["x", "0", "7", "close", "a, b", "a;b=c", "\"q\""])),
            0 => "no colon".to_string(),
            1 => format!("  Indented :  {}  ", string(r).replace('\n', "")),
            2 => "A: b: c".to_string(),
            3 => "A:".to_string(),
            4 => ":v".to_string(),
            5 => "Content-Type: application/x-www-form-urlencoded".to_string(),
            6 => format!("{}: {}", r.pick(&["content-type", "CONTENT-TYPE", "Content-Type", "X-Content-Type"]), r.pick(&["application/json", "text/plain", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8"])),
            _ => format!("{}: {}", r.any(&["A", "B", "a", "X-Y"]), r.below(99)),
        });
        m.push_str(eol);
    }
    if r.chance(75) {
        m.push_str(if r.chance(80) { "" } else { "  " });
        m.push_str(eol);
        for _ in 0..r.size(0, 5, 300) {
            m.push_str(&match r.below(9) {
                7 => r.any(&["# a: b", "-", "{}", "a:", ": v", "a: ", "@f", "a: @", "\"k\": 1,", "&a=b", "a=b", "\t"]),
                0 => String::new(),
                1 => "plain text".to_string(),
                2 => format!(" {} : {} ", string(r).replace('\n', ""), string(r).replace('\n', "")),
                3 => "a: b: c".to_string(),
                4 => "é&=+%: 日 本+&".to_string(),
                5 => "    indented".to_string(),
                6 => "k: v   ".to_string(),
                _ => format!("{}: {}", r.pick(&["a", "b", "c d"]), string(r).replace('\n', "")),
            });
            m.push_str(eol);
        }
    }
    if r.chance(25) {
        // the words of the first line, or any place
        let (first, rest) = m.split_at(m.find('\n').unwrap_or(m.len()));
        m = if r.chance(60) { format!("{}{}", r.near(first), rest) } else { r.near(&m) };
    }
    if r.chance(30) {
        m = format!("{}{}{}", r.pick(&["\n", "  \n  ", " "]), m, r.pick(&["\n\n", "  "]));
    }
    m
}
pub fn c13(h: &mut H, n: u64, r: &mut Rng) {
    let dict = h.a.dict.clone();
    if n % 12 == 11 {
        // anything at all, multipart included: no crash
        let m = if r.chance(50) {
            format!("POST http://h/ HTTP/1.1\nContent-Type: multipart/form-data\n\n{}", (0..r.below(5)).map(|_| r.pick(&["a: b\n", "f: @\n", "f: @nosuchfile\n", ":\n", "x\n", ": @é\n", "é: é\n"]).to_string()).collect::<String>())
        } else {
            chars(r, 60)
        };
        return h.check(&m, true, || {
            let (mut q, c) = real::Request::from(&m);
            let _ = q.write(Vec::new(), c);
            Ok(())
        });
    }
    let m = message(r, &dict);
    let want = request(&m);
    if want.sent.is_none() {
        return;
    }
    h.check(&m, true, || {
        let (mut q, c) = real::Request::from(&m);
        same("method", &want.method, &q.method.to_string())?;
        same("url", &want.url.show(), &q.url.to_string())?;
        same("version", &want.version, &q.version.to_string())?;
        same("headers", &want.headers, &q.headers.iter().map(|h| (h.name.clone(), h.value.clone())).collect())?;
        if !want.form {
            same("body", &want.body, &q.body)?;
        }
        let mut out = Vec::new();
        q.write(&mut out, c).map_err(|e| format!("write failed: {}", e))?;
        let w = want.wire().unwrap();
        let s = |b: &[u8]| String::from_utf8_lossy(b).to_string();
        same("body bytes", &s(want.sent.as_ref().unwrap()), &s(out.get(w.len() - want.sent.as_ref().unwrap().len()..).unwrap_or(&out)))
    });
}
struct Faulty {
    got: std::rc::Rc<std::cell::RefCell<Vec<u8>>>,
    limit: usize,
    step: usize,
    flush_fails: bool,
    kind: std::io::ErrorKind,
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let room = self.limit - self.got.borrow().len().min(self.limit);
        if b.is_empty() {
            return Ok(0);
        }
        if room == 0 {
            return Err(std::io::Error::new(self.kind, "sink is full"));
        }
        let n = b.len().min(self.step).min(room);
        self.got.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.flush_fails { Err(std::io::Error::new(self.kind, "flush")) } else { Ok(()) }
    }
}
/// requests sent over a connection: to a server that reads them, or gives up before it has
fn c14_sent(h: &mut H, r: &mut Rng, dict: &[String]) {
    let net = net();
    let early = r.below(5) == 0;
    let mut lines = message(r, dict).lines().map(|l| l.to_string()).collect::<Vec<_>>();
    let head = format!("{} {}/{} HTTP/1.1", r.pick(&["GET", "POST", "PUT", "DELETE"]), base(net.server.port), r.pick(&["", "a", "a/b?c=d"]));
    if lines.is_empty() { lines.push(head) } else { lines[0] = head }
    let mut m = lines.join("\n");
    if early || r.below(4) == 0 { m = format!("{}\nX: y\n\n{}", lines[0], "long body ".repeat(if early { 1_000_000 } else { r.hot_int(50).filter(|i| (0..3_000_000).contains(i)).map(|i| i as usize / 10 + r.below(9)).unwrap_or_else(|| r.range(1, 40_000)) })); }
    let wire = match request(&m).wire() { Some(w) => w, None => return };
    let shown: String = m.chars().take(2000).collect();
    let input = format!("{} [{} bytes, {}]", shown, m.len(), if early { "the server answers and gives up without reading" } else { "sent to a server" });
    h.check(&input, true, || {
        net.server.script(vec![Script { expect: wire.len(), reply: b"HTTP/1.1 200 OK\r\n\r\nyes".to_vec(), early, ..Default::default() }]);
        let (_, _, _, error) = real::Client::default().send(&m);
        let got = net.server.received(1);
        if early {
            return if error.is_empty() { Err("the connection failed while the request was written, but no error was reported".into()) } else { Ok(()) };
        }
        if !error.is_empty() { return Err(format!("unexpected error {}", error)); }
        same("bytes", &String::from_utf8_lossy(&wire).to_string(), &String::from_utf8_lossy(&got[0]).to_string())
    });
}
pub fn c14(h: &mut H, n: u64, r: &mut Rng) {
    let dict = h.a.dict.clone();
    if n % 40 == 39 { return c14_sent(h, r, &dict); }
    let mut m = message(r, &dict);
    if n % 5 == 4 {
        m = format!("POST http://h/ HTTP/1.1\nX: y\n\n{}", "long body ".repeat(match r.hot_int(30) { Some(i) if (0..2_000_000).contains(&i) => i as usize / 10 + r.below(9), _ => r.range(500, 3000) }));
    }
    let want = request(&m);
    let w = match want.wire() {
        Some(w) => w,
        None => return,
    };
    let (fault, step) = (r.below(4), *r.pick(&[1usize, 2, 7, 100, usize::MAX]));
    let limit = if fault == 0 { r.below(w.len()) } else { usize::MAX };
    use std::io::ErrorKind::*;
    // an interrupted write is written again, so only a failing flush is
    let kind = *r.pick(&[Other, BrokenPipe, ConnectionReset, ConnectionAborted, NotConnected, TimedOut, WouldBlock, UnexpectedEof, WriteZero, PermissionDenied, InvalidInput, AddrInUse, OutOfMemory]);
    let kind = if fault == 1 && r.below(8) == 0 { Interrupted } else { kind };
    let input = format!("{} [fault {} limit {} step {} kind {:?}]", m, fault, limit, step, kind);
    h.check(&input, true, || {
        let got = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
        let sink = Faulty { got: got.clone(), limit, step, flush_fails: fault == 1, kind };
        let (mut q, c) = real::Request::from(&m);
        let res = q.write(sink, c);
        if fault <= 1 {
            return if res.is_err() { Ok(()) } else { Err("the connection failed, but writing was reported as success".into()) };
        }
        res.map_err(|e| format!("write failed: {}", e))?;
        let got = got.borrow().clone();
        same("bytes", &String::from_utf8_lossy(&w).to_string(), &String::from_utf8_lossy(&got).to_string())
    });
}
pub fn c15(h: &mut H, n: u64, r: &mut Rng) {
    let net = net();
    let mut b = reply(r);
    match n % 6 {
        0 => {
            let i = r.below(b.len() + 1);
            b.insert(i, *r.pick(&[0xffu8, 0x80, 0xc3, 0xe2, 0]));
        }
        1 => b.truncate(r.below(b.len() + 1)),
        2 => b = chars(r, 80).into_bytes(),
        _ => {}
    }
    if n % 25 == 24 {
        b = format!("HTTP/1.1 200 OK\r\nA: b\r\n\r\n{}", "0123456789é".repeat(r.range(1000, 9000))).into_bytes();
    }
    let reset = n % 7 == 6;
    let want = if reset { None } else { response(&b) };
    let m = format!("GET {}/ HTTP/1.1", base(net.server.port));
    let wire = request(&m).wire().unwrap();
    let input = format!("{:?}{}", String::from_utf8_lossy(&b), if reset { " [then the connection is reset]" } else { "" });
    let chunk = if b.len() < 400 { *r.pick(&[0usize, 0, 1, 3, 7]) } else { 0 };
    h.check(&input, true, || {
        net.server.script(vec![Script { expect: wire.len(), reply: b.clone(), pause: 0, chunk, reset, ..Default::default() }]);
        let (_, resp, _, error) = real::Client::default().send(&m);
        net.server.received(1);
        match &want {
            None => if error.is_empty() { Err(format!("a stream that fails or is not text was taken as {:?}", resp_of(&resp))) } else { same("response after an error", &Resp::default(), &resp_of(&resp)) },
            Some(w) => {
                if !error.is_empty() {
                    return Err(format!("unexpected error {}", error));
                }
                same("response", w, &resp_of(&resp))
            }
        }
    });
}
fn real_response(w: &Resp) -> real::Response {
    let lines: String = w.headers.iter().map(|(n, v)| format!("\n{}: {}", n, v)).collect();
    real::Response {
        version: w.version.clone(),
        status: w.status,
        reason: w.reason.clone(),
        headers: real::Request::from(&format!("GET http://h HTTP/1.1{}", lines)).0.headers,
        body: w.body.clone(),
    }
}
pub fn c16(h: &mut H, n: u64, r: &mut Rng) {
    let body = match n % 5 {
        0 => soup(r, &h.a.dict, 8),
        1 => chars(r, 20),
        2 => {
            let g = G { calls: &["f"] };
            print(&fit(&g.expr(r, 3)), r)
        }
        _ => json_text(r, 4),
    };
    let headers = (0..r.size(0, 5, 200)).map(|_| (r.any(&["A", "B", "a", "X-Y"]).replace(':', "").trim().to_string(), r.any(&["1", "2", "17", "x y", "a: b", "{a}", ""]).trim().to_string())).collect();
    let w = Resp { version: r.any(&["HTTP/1.1", ""]), status: if r.chance(30) { int(r) as u16 } else { *r.pick(&[0, 200, 404, 65535]) }, reason: r.any(&["", "OK", "Not Found"]), headers, body };
    let want = match w.to_map() {
        Ok(m) => m,
        Err(_) => return,
    };
    h.check(&format!("{:?}", w), true, || {
        let m: Env = real_response(&w).to_map().iter().map(|(k, v)| (k.clone(), vof(v))).collect();
        same("value of the response", &want, &m)
    });
}
fn longs(r: &mut Rng) -> u64 {
    if let Some(i) = r.hot_int(10) {
        return i as u64 >> 1;
    }
    match r.below(6) {
        0 => r.next() >> 1,
        1 => *r.pick(&[0u64, 1, 63, 64, 127, 128, 8191, 8192, 1 << 20, (1 << 27) - 1, 1 << 27, 1 << 34, 1 << 41, 1 << 48, 1 << 55, (1 << 62) - 1, 1 << 62, i64::MAX as u64]),
        _ => r.next() >> (1 + r.below(63)),
    }
}
pub fn c18(h: &mut H, n: u64, r: &mut Rng) {
    use std::time::Duration;
    let mut blocks = vec![];
    let mut calls = vec![];
    // one batch of more records than 16 bits count
    let big = n == 1;
    let text = |r: &mut Rng| if big { "t".to_string() } else if r.chance(15) { "x".repeat(r.range(60, 9000)) } else { chars(r, 12) };
    for _ in 0..if n == 0 { 0 } else if big { 1 } else { r.size(0, 4, 40) } {
        let (test, thread, number) = (text(r), longs(r) as u32, longs(r) as u32);
        let mut rows = vec![];
        let mut recs: Vec<(crate::avro::Row, Resp, Req)> = vec![];
        for order in 0..if big { 1 } else { r.size(0, 4, 150) } {
            let d: Vec<u64> = (0..8).map(|_| longs(r)).collect();
            let nh = r.size(0, 3, 100);
            let m = format!(
                "{} http://h{}/{} {}\n{}\n{}",
                r.pick(&["GET", "POST"]),
                r.pick(&["", ":8080"]),
                r.below(9),
                r.pick(&["", "HTTP/1.0"]),
                (0..nh).map(|i| format!("{}: {}\n", if r.chance(15) { r.any(&["", " ", "N"]).replace(['\n', '\r', ':'], "") } else { format!("N{}", i) }, text(r).replace(['\n', '\r'], ""))).collect::<String>(),
                if r.chance(50) { text(r) } else { String::new() }
            );
            let q = request(&m);
            if q.sent.is_none() || q.form {
                return;
            }
            let w = Resp { version: text(r), status: r.next() as u16, reason: text(r), headers: (0..r.size(0, 3, 100)).map(|_| (r.pick(&["H", "", "h"]).to_string(), r.pick(&["", "0", "x"]).to_string() + &"7".repeat(r.below(3)))).collect(), body: text(r) };
            let asserts = (0..if r.chance(10) { 70 } else { r.size(0, 2, 200) }).map(|_| (text(r), text(r), "==".to_string(), text(r), r.chance(50))).collect();
            let row = crate::avro::Row {
                test: test.clone(),
                longs: [thread as i64, number as i64, order as i64].into_iter().chain(d.iter().map(|x| *x as i64)).collect(),
                name: text(r),
                request: [q.method.clone(), q.url.show(), q.version.clone()],
                request_headers: q.headers.iter().map(|(n, v)| vec![n.clone(), v.clone()]).collect(),
                request_body: q.body.clone(),
                version: w.version.clone(),
                status: w.status as i64,
                reason: w.reason.clone(),
                response_headers: w.headers.iter().map(|(n, v)| vec![n.clone(), v.clone()]).collect(),
                response_body: w.body.clone(),
                asserts,
                error: text(r),
            };
            rows.push(row.clone());
            recs.push((row, w, Req { body: m, ..q }));
        }
        if big {
            for order in 1..66_000 {
                let mut c = recs[0].clone();
                c.0.longs[2] = order;
                rows.push(c.0.clone());
                recs.push(c);
            }
        }
        if !rows.is_empty() {
            blocks.push(rows.clone());
        }
        calls.push((test, thread, number, recs));
    }
    let step = if big { usize::MAX } else { *r.pick(&[1usize, 3, 64, usize::MAX]) };
    let input = if big { "66000 records at once".to_string() } else { format!("{:?} in pieces of {}", blocks, step) };
    h.check(&input, !blocks.is_empty(), || {
        let got = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
        let mut w = lib::Writer::new(Faulty { got: got.clone(), limit: usize::MAX, step, flush_fails: false, kind: std::io::ErrorKind::Other });
        for (test, thread, number, recs) in &calls {
            let rs: Vec<real::Record> = recs
                .iter()
                .map(|(row, resp, q)| real::Record {
                    name: row.name.clone(),
                    time: real::Time {
                        start: Duration::from_nanos(row.longs[3] as u64),
                        end: Duration::from_nanos(row.longs[4] as u64),
                        total: Duration::from_nanos(row.longs[5] as u64),
                        resolve: Duration::from_nanos(row.longs[6] as u64),
                        connect: Duration::from_nanos(row.longs[7] as u64),
                        write: Duration::from_nanos(row.longs[8] as u64),
                        delay: Duration::from_nanos(row.longs[9] as u64),
                        read: Duration::from_nanos(row.longs[10] as u64),
                    },
                    request: real::Request::from(&q.body).0,
                    response: real_response(resp),
                    asserts: row.asserts.iter().map(|a| real::Assert { expr: a.0.clone(), left: a.1.clone(), compare: a.2.clone(), right: a.3.clone(), result: a.4 }).collect(),
                    error: row.error.clone(),
                })
                .collect();
            w.write(&rs, test, *thread, *number);
        }
        let bytes = got.borrow().clone();
        let back = crate::avro::container(&bytes).map_err(|e| format!("the file does not decode: {}", e))?;
        let flat = |b: &Vec<Vec<crate::avro::Row>>| b.iter().flatten().cloned().collect::<Vec<_>>();
        same("number of records", &flat(&blocks).len(), &flat(&back).len())?;
        same("records", &flat(&blocks), &flat(&back))
    });
}
pub fn c19(h: &mut H, _n: u64, r: &mut Rng) {
    let names = ["a", "b", "get", "x-y", "A", "a ", " b", "é"].map(|n| if r.chance(10) { r.name(&[n]) } else { n.to_string() });
    let most = if r.below(300) == 0 { *r.pick(&[300, 3000, 70000]) } else { 12 };
    let obs: Vec<(String, u128)> = (0..r.size(most * 3 / 4 * usize::from(most > 12), most, most.max(3000)))
        .map(|_| {
            let v = match r.below(6) {
                0 => 0,
                1 => r.next() as u128,
                2 => (r.next() as u128) << r.below(if most > 12 { 40 } else { 60 }),
                3 => r.below(4) as u128,
                4 => int(r).unsigned_abs() as u128,
                _ => r.below(2000) as u128,
            };
            (r.pick(&names).to_string(), v)
        })
        .collect();
    let mut want = BTreeMap::new();
    for n in &names {
        let v: Vec<u128> = obs.iter().filter(|o| o.0 == *n).map(|o| o.1).collect();
        if !v.is_empty() {
            let s: u128 = v.iter().sum();
            want.insert(n.to_string(), format!("count={}  sum={}  avg={}  max={}  min={}", v.len(), s, s / v.len() as u128, v.iter().max().unwrap(), v.iter().min().unwrap()));
        }
    }
    let input = if most > 12 { format!("{} observations, the first {:?}", obs.len(), &obs[..12]) } else { format!("{:?}", obs) };
    h.check(&input, obs.len() > 1, || {
        let mut s = lib::Stats::default();
        for (n, v) in &obs {
            s.add(n, *v);
        }
        let shown = s.to_string();
        let got: BTreeMap<String, String> = shown.lines().map(|l| l.rsplit_once(" count=").map(|(a, b)| (a.to_string(), format!("count={}", b))).unwrap_or((l.to_string(), String::new()))).collect();
        same("statistics", &want, &got)?;
        same("number of lines", &want.len(), &shown.lines().count())
    });
}
pub fn c20(h: &mut H, n: u64, r: &mut Rng) {
    // a batch per process: NUL separated texts
    let mut texts: Vec<String> = vec![];
    if n == 0 {
        for d in ["", "0", "1", "9", "10", "007", "18446744073709551615", "18446744073709551616", "307445734561825860", "307445734561825861", "5124095576030431", "5124095576030432", "-1", "+1", " 1", "1 ", "1.5", "1e3", "0x1", "é", "1_0", "１"] {
            for u in ["", "s", "m", "h", "S", "M", "d", "ms", " s", "é", "秒", "\n", "😀", "s ", "0"] {
                texts.push(format!("{}{}", d, u));
            }
        }
    } else {
        for _ in 0..200 {
            texts.push(match r.below(5) {
                4 => format!("{}{}", int(r), r.any(&["s", "m", "h"])),
                0 => chars(r, 6),
                1 => { let t = format!("{}{}", r.next() >> r.below(64), r.pick(&["s", "m", "h"])); r.maybe_near(50, t) }
                2 => format!("{}{}", string(r), r.pick(&["s", "m", "h"])),
                _ => format!("{}{}", r.below(100000), r.pick(&["s", "m", "h", "x", "é", ""])),
            });
        }
    }
    let texts: Vec<String> = texts.into_iter().map(|t| t.replace('\0', "")).collect();
    let want: Vec<Option<u64>> = texts
        .iter()
        .map(|t| {
            let u = match t.chars().last()? { 's' => 1u64, 'm' => 60, 'h' => 3600, _ => return None };
            let d = &t[..t.len() - 1];
            if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            d.parse::<u64>().ok()?.checked_mul(u)
        })
        .collect();
    let bin = h.a.bin.clone();
    let mut p = std::process::Command::new(&bin)
        .env("BASJOOFAN_VERIF_DURATIONS", "1")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let joined = texts.join("\0");
    let mut stdin = p.stdin.take().unwrap();
    let t = std::thread::spawn(move || {
        let _ = stdin.write_all(joined.as_bytes());
    });
    let out = p.wait_with_output().unwrap();
    let _ = t.join();
    let out = String::from_utf8_lossy(&out.stdout).to_string();
    let lines: Vec<&str> = out.lines().collect();
    for (i, t) in texts.iter().enumerate() {
        // a sign in front of the number is neither required nor excluded by the property
        if t.starts_with('+') {
            continue;
        }
        h.check(t, want[i].is_some() || t.len() > 1, || {
            let l = lines.get(i).copied().unwrap_or("no answer");
            let w = match want[i] {
                Some(s) => format!("{} 0", s),
                None => "error".to_string(),
            };
            same("duration", &w.as_str(), &l)
        });
    }
}

// ------------------------------------------------------------------ command line (C21 - C23)
struct Dir(std::path::PathBuf);
impl Dir {
    fn new(h: &H, name: &str) -> Dir {
        let p = std::path::Path::new(&h.a.scratch).join(format!("{}-{}-{}", name, std::process::id(), h.case));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
    fn file(&self, name: &str, text: &str) {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn cli(bin: &str, args: &[&str], dir: &std::path::Path, stdin: &[u8]) -> Result<String, String> {
    let mut p = std::process::Command::new(bin)
        .args(args)
        .current_dir(dir)
        .env_remove("POD")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut i = p.stdin.take().unwrap();
    let data = stdin.to_vec();
    let t = std::thread::spawn(move || {
        let _ = i.write_all(&data);
    });
    let pid = p.id();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(p.wait_with_output());
    });
    match rx.recv_timeout(std::time::Duration::from_secs(15)) {
        Ok(Ok(o)) => {
            let _ = t.join();
            let e = String::from_utf8_lossy(&o.stderr);
            if e.contains("panicked at") {
                return Err(format!("crash: {}", e));
            }
            Ok(String::from_utf8_lossy(&o.stdout).to_string())
        }
        _ => {
            let _ = std::process::Command::new("kill").arg("-9").arg(pid.to_string()).status();
            Err("no end after 15 s".into())
        }
    }
}
/// a test over a time, and all tests once
fn c21_other(h: &mut H, timed: bool, slow: bool, r: &mut Rng) {
    let pause = if timed && slow { 400 } else { 0 };
    let server = Server::start_slow(Some(b"HTTP/1.1 200 OK\r\n\r\n".to_vec()), pause);
    let d = Dir::new(h, "c21");
    let bin = h.a.bin.clone();
    std::fs::create_dir_all(d.0.join("rec")).unwrap();
    let head = format!("let k = 0;\nrequest get `GET {}/ HTTP/1.1\nX: {{k}}`[status == 200]\n", base(server.port));
    let count = |out: &str| out.lines().find(|l| l.starts_with("get count=")).map(|l| l["get count=".len()..].split_whitespace().next().unwrap_or("").to_string());
    if timed {
        let threads = r.range(1, 3) as u32;
        d.file("p/a.fan", &format!("{}test main {{ let k = k + 1; get() }}", head));
        let number = r.range(1, 2).to_string();
        let input = format!("test main, {} threads, for 1 s, number {}, answers after {} ms", threads, number, pause);
        h.check(&input, true, || {
            let out = cli(&bin, &["test", "main", "-t", &threads.to_string(), "-d", "1s", "-n", &number, "-p", "p", "-r", "rec", "-s"], &d.0, b"")?;
            let mut runs = 0;
            for th in 0..threads {
                let b = std::fs::read(d.0.join("rec").join(format!("{:06}", th))).map_err(|_| format!("no record file of thread {}", th))?;
                let rows: Vec<crate::avro::Row> = crate::avro::container(&b)?.into_iter().flatten().collect();
                for (i, row) in rows.iter().enumerate() {
                    same("thread, number, order of a record", &[th as i64, i as i64, 0].to_vec(), &row.longs[..3].to_vec())?;
                    same("variable of the thread", &vec![vec!["X".to_string(), (i + 1).to_string()]], &row.request_headers)?;
                }
                // longs: thread, number, order, time_start
                if let (Some(first), Some(last)) = (rows.first(), rows.last()) {
                    let after = (last.longs[3] - first.longs[3]) / 1_000_000;
                    if after > 1700 {
                        return Err(format!("a run of a test for 1 s began {} ms after the first", after));
                    }
                }
                runs += rows.len();
            }
            same("records printed", &runs, &out.matches("--- PASS  get").count())?;
            same("statistics count", &Some(runs.to_string()), &count(&out))
        });
        return;
    }
    let n = r.size(1, 6, 30);
    let calls: Vec<usize> = (0..n).map(|_| r.range(0, 3) as usize).collect();
    let fails: Vec<bool> = (0..n).map(|_| r.chance(25)).collect();
    let stat = r.chance(70);
    let mut text = head;
    for i in 0..n {
        text.push_str(&format!("test t{} {{ let k = k + {}; {}{} }}\n", i, i + 1, "get(); ".repeat(calls[i]), if fails[i] { "1 + \"x\"" } else { "0" }));
    }
    d.file("p/a.fan", &text);
    let input = format!("all tests of {:?}", text);
    h.check(&input, n > 1, || {
        let mut args = vec!["test", "-p", "p", "-r", "rec"];
        if stat {
            args.push("-s");
        }
        let out = cli(&bin, &args, &d.0, b"")?;
        let mut got = vec![];
        for th in 0..n {
            let b = std::fs::read(d.0.join("rec").join(format!("{:06}", th))).map_err(|_| format!("no record file of thread {}", th))?;
            let rows: Vec<crate::avro::Row> = crate::avro::container(&b)?.into_iter().flatten().collect();
            for (i, row) in rows.iter().enumerate() {
                same("thread, number, order of a record", &[th as i64, 0, i as i64].to_vec(), &row.longs[..3].to_vec())?;
                same("test of a thread", &rows[0].test, &row.test)?;
                let k = row.test.trim_start_matches('t').parse::<usize>().map_err(|_| format!("test name {}", row.test))? + 1;
                same("variable of the test", &vec![vec!["X".to_string(), k.to_string()]], &row.request_headers)?;
            }
            if let Some(row) = rows.first() {
                got.push((row.test.clone(), rows.len()));
            }
        }
        got.sort();
        let want: Vec<(String, usize)> = (0..n).filter(|i| calls[*i] > 0).map(|i| (format!("t{}", i), calls[i])).collect();
        same("tests run, and their records", &want, &got)?;
        let all: usize = calls.iter().sum();
        same("records printed", &all, &out.matches("--- PASS  get").count())?;
        same("statistics count", &(if stat && all > 0 { Some(all.to_string()) } else { None }), &count(&out))
    });
}
/// calls that fail are recorded, printed and counted like others
fn c21_failing(h: &mut H, r: &mut Rng) {
    let server = Server::start(Some(b"HTTP/1.1 200 OK\r\n\r\n".to_vec()));
    let d = Dir::new(h, "c21");
    let gone = 1; // nothing listens there
    let (threads, number) = (r.range(1, 3), r.range(1, 5));
    let names: Vec<&str> = (0..r.range(1, 5)).map(|_| *r.pick(&["get", "bad", "worse"])).collect();
    let text = format!("request get `GET {}/ HTTP/1.1`[status == 200]\nrequest bad `GET http://127.0.0.1:{}/`[status == 0]\nrequest worse `GET http://127.0.0.1:{}/`[status == 200]\ntest main {{ {} }}", base(server.port), gone, gone, names.iter().map(|n| format!("{}(); ", n)).collect::<String>());
    d.file("p/a.fan", &text);
    std::fs::create_dir_all(d.0.join("rec")).unwrap();
    let bin = h.a.bin.clone();
    let (t, k) = (threads.to_string(), number.to_string());
    h.check(&format!("test main, {} threads, number {} of {:?}", threads, number, text), true, || {
        let out = cli(&bin, &["test", "main", "-t", &t, "-n", &k, "-p", "p", "-r", "rec", "-s"], &d.0, b"")?;
        let mut times: BTreeMap<String, Vec<u64>> = BTreeMap::new();
        let mut total = 0;
        for th in 0..threads {
            let b = std::fs::read(d.0.join("rec").join(format!("{:06}", th))).map_err(|_| format!("no record file of thread {}", th))?;
            let rows: Vec<crate::avro::Row> = crate::avro::container(&b)?.into_iter().flatten().collect();
            total += rows.len();
            for (i, row) in rows.iter().enumerate() {
                same("request of a record", &names[i % names.len()], &row.name.as_str())?;
                same("error present", &(row.name != "get"), &!row.error.is_empty())?;
                times.entry(row.name.clone()).or_default().push(row.longs[5] as u64 / 1_000_000);
            }
        }
        same("records", &(number as usize * names.len()), &total)?;
        for n in ["get", "bad", "worse"] {
            let all = times.get(n).cloned().unwrap_or_default();
            let word = if n == "worse" { "FAIL" } else { "PASS" };
            same("records printed", &all.len(), &out.matches(&format!("--- {}  {} ", word, n)).count())?;
            let line = out.lines().find(|l| l.starts_with(&format!("{} count=", n)));
            let want = all.iter().max().map(|max| { let sum: u64 = all.iter().sum(); format!("{} count={}  sum={}  avg={}  max={}  min={}", n, all.len(), sum, sum / all.len() as u64, max, all.iter().min().unwrap()) });
            same("statistics of the recorded times", &want.as_deref(), &line)?;
        }
        Ok(())
    });
}
pub fn c21(h: &mut H, n: u64, r: &mut Rng) {
    if n % 12 == 7 {
        return c21_failing(h, r);
    }
    if n % 12 == 5 {
        return c21_other(h, n % 48 == 5, n % 96 == 5, r);
    }
    let server = if n % 4 == 1 { Server::start_slow(Some(b"HTTP/1.1 200 OK\r\n\r\n".to_vec()), 25) } else { Server::start(Some(b"HTTP/1.1 200 OK\r\n\r\n".to_vec())) };
    let threads = if r.chance(8) { r.range(9, 14) } else { r.size(1, 5, 40) } as u32;
    let number = if n % 5 == 0 { r.range(0, threads as usize) } else { r.size(0, 14, 150) } as u32;
    let calls = if r.chance(6) { r.range(17, 40) } else { r.size(0, 2, 40) } as u32;
    let number = if calls > 2 { number.min(3) } else { number };
    let fail_at = if r.chance(30) { Some(r.range(1, 4) as u32) } else { None };
    let d = Dir::new(h, "c21");
    let mut body = "let k = k + 1; println(\"<run {k}>\", k); ".to_string();
    for _ in 0..calls {
        body.push_str("get(); ");
    }
    if let Some(f) = fail_at {
        body.push_str(&format!("if (k == {}) {{ 1 + \"x\" }}", f));
    }
    d.file("p/a.fan", &format!("let k = 0;\nrequest get `GET {}/ HTTP/1.1\nX: {{k}}`[status == 200]\ntest other {{ get(); get(); get() }}\ntest main {{ {} }}", base(server.port), body));
    std::fs::create_dir_all(d.0.join("rec")).unwrap();
    let (t, k) = (threads.to_string(), number.to_string());
    let input = format!("test main, {} threads, number {}, {} calls per run, fails at run {:?}", threads, number, calls, fail_at);
    let bin = h.a.bin.clone();
    h.check(&input, true, || {
        let out = cli(&bin, &["test", "main", "-t", &t, "-n", &k, "-p", "p", "-r", "rec", "-s"], &d.0, b"")?;
        let mut runs = 0;
        let mut per = vec![];
        let mut times: Vec<u64> = vec![];
        for th in 0..threads {
            let f = d.0.join("rec").join(format!("{:06}", th));
            let b = std::fs::read(&f).map_err(|_| format!("no record file of thread {}", th))?;
            let rows: Vec<crate::avro::Row> = crate::avro::container(&b)?.into_iter().flatten().collect();
            // runs of this thread: numbers 0, 1, 2, ... each with `calls` records in order
            for (i, row) in rows.iter().enumerate() {
                same("test name of a record", &"main".to_string(), &row.test)?;
                same("thread, number, order of a record", &[th as i64, i as i64 / calls as i64, i as i64 % calls as i64].to_vec(), &row.longs[..3].to_vec())?;
                same("variable of the thread", &vec![vec!["X".to_string(), (i as u32 / calls + 1).to_string()]], &row.request_headers)?;
            }
            if calls > 0 {
                same("records per run", &0, &(rows.len() % calls as usize))?;
                times.extend(rows.iter().map(|row| row.longs[5] as u64 / 1_000_000));
                per.push(rows.len() as u32 / calls);
                runs += rows.len() as u32 / calls;
            }
        }
        let began = out.matches("<run ").count() as u32;
        if fail_at.is_none() {
            same("runs begun", &number, &began)?;
        } else if began > number {
            return Err(format!("{} runs begun, {} asked for", began, number));
        }
        if calls > 0 {
            same("runs begun that left records", &began, &runs)?;
            if let Some(f) = fail_at {
                // a thread ends with its failing run; how `number` is shared is not observable then
                for p in &per {
                    if *p > f {
                        return Err(format!("a thread went on after its failing run {}: {} runs", f, p));
                    }
                }
                if per.iter().all(|p| *p < f) {
                    same("runs in total", &number, &runs)?;
                }
            } else {
                same("runs in total", &number, &runs)?;
            }
            same("connections made", &(runs * calls), &(server.received((runs * calls) as usize).len() as u32))?;
            same("records printed", &(runs * calls), &(out.matches("--- PASS  get").count() as u32))?;
            let count = out.lines().find(|l| l.starts_with("get count=")).map(|l| l["get count=".len()..].split_whitespace().next().unwrap_or("").to_string());
            let w = if runs > 0 { Some((runs * calls).to_string()) } else { None };
            same("statistics count", &w, &count)?;
            if let (Some(max), Some(min)) = (times.iter().max(), times.iter().min()) {
                let sum: u64 = times.iter().sum();
                let want = format!("get count={}  sum={}  avg={}  max={}  min={}", times.len(), sum, sum / times.len() as u64, max, min);
                same("statistics of the recorded times", &Some(want.as_str()), &out.lines().find(|l| l.starts_with("get count=")))?;
            }
        }
        Ok(())
    });
}
pub fn c22(h: &mut H, _n: u64, r: &mut Rng) {
    let d = Dir::new(h, "c22");
    let mut files: Vec<(String, String)> = vec![];
    let mut plain = true;
    let alike = r.chance(20);
    for i in 0..r.size(1, 6, 60) {
        let letters = |t: String| t.chars().filter(|c| c.is_alphanumeric() || "-_#~ ".contains(*c)).take(40).collect::<String>();
        let new = r.hot(15).map(letters).filter(|t| !t.is_empty());
        let dir = if let (Some(t), true) = (&new, r.chance(40)) { format!("{}{}/", r.pick(&["", "sub/", "."]), t) } else if r.chance(60) { r.pick(&["", "", "sub/", "sub/deep/", "a/", "z.fan/"]).to_string() } else { format!("{}/", r.pick(&[".git", ".hidden/x", "target", "node_modules", "_d", "test", "tests", "lib.rs", "s p", "1/2/3/4/5/6/7/8/9", ".fan"])) };
        let dir = if r.chance(3) { format!("{}{}", dir, "d/".repeat(r.range(20, 150))) } else { dir };
        let name = format!("{}{}.{}", r.pick(&["a", "b", "m", "B", "10", "2", "x.y", "é", ".h", "_p", "-", " s", "~", "#c", "Test"]), r.pick(&["", "1", "_"]), r.pick(&["fan", "fan", "fan", "txt", "Fan", "fans", "fa", "bak"]));
        let name = match &new {
            Some(t) => match r.below(4) {
                0 => format!("{}.fan", t),
                1 => format!("a.{}", t),
                2 => format!("{}{}", t, name),
                _ => name,
            },
            None => name,
        };
        let p = format!("{}{}", dir, name);
        if files.iter().any(|f| f.0 == p || f.0.starts_with(&format!("{}/", p)) || p.starts_with(&format!("{}/", f.0))) {
            continue;
        }
        // ends in the middle of a token, a comment-like text or a statement without separator
        let text = format!("println(\"m{}\"){}", i, r.pick(&["", ";", "\n", ";let q = 1", ";\"s\"", ";1", "; let w = true"]));
        let text = if !files.is_empty() && r.chance(if alike { 70 } else { 12 }) { r.pick(&files).1.clone() } else { text };
        let text = match r.hot(10) {
            Some(t) if !t.contains('\0') => {
                plain = false;
                if r.chance(60) { format!("{}{}", t, text) } else { format!("{};{}", text, t) }
            }
            _ => text,
        };
        files.push((p, text));
    }
    for (i, (p, t)) in files.iter().enumerate() {
        if r.chance(6) {
            // a link to a file elsewhere is a file too
            d.file(&format!("out/{}", i), t);
            d.file(&format!("p/{}", p), "");
            let at = d.0.join("p").join(p);
            std::fs::remove_file(&at).unwrap();
            std::os::unix::fs::symlink(d.0.join(format!("out/{}", i)), at).unwrap();
        } else {
            d.file(&format!("p/{}", p), t);
        }
    }
    let single = r.chance(15) && !files.is_empty();
    let at = if single { format!("p/{}", files[0].0) } else { "p".to_string() };
    // sorted as paths: component by component
    let mut sorted: Vec<(std::path::PathBuf, String)> = files.iter().map(|(p, t)| (std::path::PathBuf::from(p), t.clone())).collect();
    sorted.sort();
    let mut want = vec![];
    let mut all = String::new();
    for (p, t) in &sorted {
        if single && p.to_str() != Some(&files[0].0) {
            continue;
        }
        if p.extension().map(|e| e == "fan").unwrap_or(false) {
            all.push_str(t);
            all.push('\n');
            want.push(t[t.find("println(\"m").unwrap()..].split('"').nth(1).unwrap().to_string());
        }
    }
    // a source that is no program: nothing is evaluated
    if parse(&all).is_err() {
        want.clear();
    } else if !plain {
        return;
    }
    let input = format!("{:?} at {}", files, at);
    let bin = h.a.bin.clone();
    h.check(&input, files.len() > 1, || {
        let out = cli(&bin, &["test", "-p", &at], &d.0, b"")?;
        same("sources evaluated, in order", &want, &out.lines().filter(|l| plain || l.starts_with('m') && l[1..].parse::<u32>().is_ok()).map(|l| l.to_string()).collect())
    });
}
/// requests declared, declared again and called over the lines of a session
fn session_requests(h: &mut H, r: &mut Rng) {
    let net = net();
    let names = ["a", "b"];
    let mut now: [Option<usize>; 2] = [None, None];
    let (mut lines, mut sent, mut want): (Vec<String>, Vec<String>, Vec<Option<String>>) = (vec![], vec![], vec![]);
    for k in 0..r.range(3, 8) {
        let i = r.below(2);
        match r.below(7) {
            0..=2 => {
                let two = r.chance(20);
                lines.push(format!("{}request {}`GET {}/{} HTTP/1.1`", if two { "let t = 7; " } else { "" }, names[i], base(net.server.port), k));
                now[i] = Some(k);
                want.push(Some(if two { "7".into() } else { "null".into() }));
            }
            3..=5 => {
                lines.push(format!("{}()[\"status\"]", names[i]));
                want.push(match now[i] {
                    Some(n) => {
                        sent.push(format!("GET /{} HTTP/1.1", n));
                        Some("204".into())
                    }
                    None => None,
                });
            }
            _ => {
                lines.push(r.pick(&["1 + true", "let", "nothing()", "request c`GET`; 1 + true"]).to_string());
                want.push(None);
            }
        }
    }
    let input = lines.join("\n");
    let d = Dir::new(h, "c23");
    let bin = h.a.bin.clone();
    h.check(&input, sent.len() > 1, || {
        net.server.script(sent.iter().map(|_| Script { expect: 1, reply: b"HTTP/1.1 204 No Content\r\n\r\n".to_vec(), ..Default::default() }).collect());
        let out = cli(&bin, &[], &d.0, format!("{}\n", input).as_bytes())?;
        let got: Vec<&str> = out.split_terminator('\n').collect();
        same("lines printed", &want.len(), &got.len())?;
        for (i, (x, y)) in want.iter().zip(got).enumerate() {
            if let Some(x) = x {
                same(&format!("answer {}", i), &x.as_str(), &y)?;
            }
        }
        let log: Vec<String> = net.server.received(sent.len()).iter().map(|g| String::from_utf8_lossy(g).lines().next().unwrap_or("").to_string()).collect();
        same("requests sent", &sent, &log)
    });
}
const RAW: char = '\u{f8ff}';
pub fn c23(h: &mut H, _n: u64, r: &mut Rng) {
    if r.chance(12) {
        return session_requests(h, r);
    }
    let g = G { calls: &["length", "append"] };
    let mut lines = vec![];
    let mut exit = false;
    for _ in 0..r.size(1, 8, 200) {
        let l = match r.below(11) {
            5 => r.any(&["# x", "// x", "exit()", "exit;", " exit", "exit 1", "quit", "EXIT", "help", ":q", "-", ";", "1;", "null", "?"]),
            0 if r.chance(40) => r.near("exit"),
            0 => "  ".to_string(),
            1 => format!("let {} = {}", r.pick(&["a", "b", "t"]), print(&fit(&g.good(r, 1)), r)),
            2 => soup(r, &h.a.dict, 4),
            3 => "let t = []; let a = 1".to_string(),
            4 if r.chance(30) => {
                exit = true;
                "exit".to_string()
            }
            _ => print(&fit(&g.good(r, 2)), r),
        };
        // bytes that are no text: the line is passed over
        lines.push(if r.chance(4) { format!("1{}", RAW) } else { l.replace(['\n', '\r', RAW], " ") });
        if lines.last().is_some_and(|l| l.contains(RAW)) {
            exit = false;
        }
        if exit {
            break;
        }
    }
    if exit {
        lines.push("let z = 424242".to_string());
    }
    let none = BTreeMap::new();
    let answers = |_: usize, _: &str| None;
    let mut w = World { env: Env::new(), requests: &none, answers: &answers, recs: vec![] };
    let mut want: Vec<Option<String>> = vec![];
    for l in &lines {
        if l == "exit" {
            break;
        }
        if l.trim().is_empty() || l.contains(RAW) {
            continue;
        }
        if l.contains("request") {
            return;
        }
        match parse(l) {
            Err(()) => want.push(None),
            Ok(p) => match w.block(&p.exprs) {
                Err(true) => return,
                Err(false) => want.push(None),
                Ok(v) => match text(&v) {
                    Ok(t) if !t.contains('\n') && !t.contains('\r') => want.push(Some(t)),
                    Ok(_) => return,
                    Err(_) => want.push(Some(UNSPEC.into())),
                },
            },
        }
    }
    let input = lines.join("\n");
    let d = Dir::new(h, "c23");
    let bin = h.a.bin.clone();
    let end = if r.chance(50) { "\n" } else { "" };
    h.check(&input, lines.len() > 2, || {
        let mut bytes = format!("{}{}", input, end).into_bytes();
        while let Some(i) = bytes.windows(3).position(|w| w == RAW.to_string().as_bytes()) {
            bytes.splice(i..i + 3, [0xff]);
        }
        let out = cli(&bin, &[], &d.0, &bytes)?;
        let got: Vec<&str> = out.split_terminator('\n').collect();
        same("lines printed", &want.len(), &got.len())?;
        for (i, (x, y)) in want.iter().zip(got).enumerate() {
            if let Some(x) = x {
                if x != UNSPEC && x != y {
                    return Err(format!("answer {}: expected {:?}, got {:?}", i, x, y));
                }
            }
        }
        Ok(())
    });
}
pub fn c25(h: &mut H, _n: u64, r: &mut Rng) {
    let net = net();
    let m = format!("GET {}/ HTTP/1.1", base(net.server.port));
    let wire = request(&m).wire().unwrap();
    let (pause, chunk) = (if r.chance(40) { 0 } else { r.below(12) as u64 }, r.below(3) * 7);
    let reply = reply(r);
    let input = format!("pause {} ms, chunk {}, {:?}", pause, chunk, String::from_utf8_lossy(&reply));
    h.check(&input, true, || {
        net.server.script(vec![Script { expect: wire.len(), reply: reply.clone(), pause, chunk, ..Default::default() }]);
        let (_, _, t, error) = real::Client::default().send(&m);
        net.server.received(1);
        if error.is_empty() {
            same("sum of the parts", &t.total, &(t.resolve + t.connect + t.write + t.delay + t.read))?;
        }
        Ok(())
    });
}

// ---- C24 ----
fn alternating(t: &[wire::Target]) -> Vec<Vec<(bool, u8)>> {
    let kind = |six: bool| t.iter().filter(|x| x.six == six).map(|x| (x.six, x.id)).collect::<Vec<_>>();
    let turns = |a: Vec<(bool, u8)>, b: Vec<(bool, u8)>| {
        let mut o = vec![];
        for i in 0..a.len().max(b.len()) {
            o.extend(a.get(i));
            o.extend(b.get(i));
        }
        o
    };
    vec![turns(kind(true), kind(false)), turns(kind(false), kind(true))]
}
pub fn c24(h: &mut H, case: u64, r: &mut Rng) {
    static FIXED: std::sync::OnceLock<Server> = std::sync::OnceLock::new();
    let server = FIXED.get_or_init(|| Server::start(Some(b"HTTP/1.1 200 OK\r\n\r\nyes".to_vec())));
    let n = r.size(1, 6, 40);
    let mode = r.below(4);
    let targets: Vec<wire::Target> = (0..n)
        .map(|i| wire::Target {
            six: match mode { 0 => true, 1 => false, _ => r.below(2) == 0 },
            id: i as u8,
            accepts: r.below(4) == 0,
            delay: if r.below(150) == 0 { *r.pick(&[1200, 2600]) } else { [0, 0, 0, 0, 10, 240, 450][r.below(7)] },
        })
        .collect();
    // the only one that accepts is slow to
    let slow = case % 150 == 3;
    let targets: Vec<wire::Target> = if slow { targets.into_iter().take(3).chain([wire::Target { six: r.below(2) == 0, id: 99, accepts: true, delay: *r.pick(&[1300, 2600, 5300]) }]).enumerate().map(|(i, t)| wire::Target { accepts: t.id == 99, delay: if t.id == 99 { t.delay } else { 0 }, id: if t.id == 99 { i as u8 } else { t.id }, ..t }).collect() } else { targets };
    // every attempt is still under way when the last one starts, and the last one to end accepts
    let many = case == 8;
    let targets: Vec<wire::Target> = if many { (0..13).map(|i| wire::Target { six: r.below(2) == 0, id: i as u8, accepts: i == 12, delay: if i == 12 { 4500 } else { 3300 } }).collect() } else { targets };
    let n = targets.len();
    let input = format!("{:?}", targets);
    h.check(&input, n > 1, || {
        let mut bad = Ok(());
        // an attempt is observed when its thread runs: a surprising order must come again to count
        for _ in 0..3 {
            wire::script(targets.clone(), server.port);
            let (_, p, _, error) = real::Client::default().send("GET http://vx.test/ HTTP/1.1");
            let (tried, over) = wire::log();
            let orders = alternating(&targets);
            let any = targets.iter().any(|t| t.accepts);
            bad = (|| {
                same("connected when an address accepts", &any, &error.is_empty())?;
                if any {
                    same("body of the response", &"yes".to_string(), &p.body)?;
                    if !targets.iter().any(|t| t.accepts && over.contains(&(t.six, t.id))) { return Err("connected though no attempt had succeeded".to_string()); }
                } else {
                    for o in [&tried, &over] {
                        let mut o = o.clone();
                        o.sort();
                        let mut all = orders[0].clone();
                        all.sort();
                        same("addresses tried before the failure was reported", &all, &o)?;
                    }
                }
                if !orders.iter().any(|o| o.starts_with(&tried)) { return Err(format!("attempts {:?} are not in the alternating order {:?}", tried, orders[0])); }
                Ok(())
            })();
            if bad.is_ok() { return bad; }
        }
        bad
    });
}

//! Case driver: every case has its own random stream derived from (seed, case number), so one
//! case can be replayed alone. A failing case is written to the replay file and ends the run.
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, n: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ n.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

/// literals that the source did not have when the checks were written: the generators use them more often
#[derive(Default)]
pub struct Hot {
    pub texts: Vec<String>,
    pub ints: Vec<i64>,
}
static HOT: std::sync::OnceLock<Hot> = std::sync::OnceLock::new();
pub fn hot() -> &'static Hot {
    HOT.get_or_init(Hot::default)
}
pub fn set_hot(t: &str) {
    let texts: Vec<String> = t.split('\u{1}').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let ints = texts.iter().filter_map(|s| s.parse().ok()).collect();
    let _ = HOT.set(Hot { texts, ints });
}
impl Rng {
    /// a number of things: a to b, seldom many, and about as many as a new number of the source says
    pub fn size(&mut self, a: usize, b: usize, most: usize) -> usize {
        let near: Vec<i64> = hot().ints.iter().copied().filter(|i| *i > 0 && *i < most as i64).collect();
        let n = if !near.is_empty() && self.chance(6) {
            (*self.pick(&near) + self.below(3) as i64 - 1) as usize
        } else if self.below(400) == 0 {
            *self.pick(&[17, 33, 65, 100, 130, 300])
        } else {
            return self.range(a, b);
        };
        n.min(most).max(a)
    }
    /// a text with a new literal of the source in it
    pub fn hot(&mut self, pct: usize) -> Option<String> {
        if hot().texts.is_empty() || !self.chance(pct) {
            return None;
        }
        let t = self.pick(&hot().texts).clone();
        Some(match self.below(9) {
            0 => format!("{}a", t),
            1 => format!("a{}", t),
            2 => format!("a {} b", t),
            3 => t.to_uppercase(),
            4 => format!("{}{}", t, t),
            5 => format!("{}{}", t, self.pick(&hot().texts)),
            6 => match t.parse::<usize>() {
                Ok(n) if n < 70000 => self.pick(&["a", "é", "a ", "1"]).repeat((n + self.below(3)).max(1) - 1),
                _ => t,
            },
            _ => t,
        })
    }
    pub fn hot_int(&mut self, pct: usize) -> Option<i64> {
        if hot().ints.is_empty() || !self.chance(pct) {
            return None;
        }
        let i = *self.pick(&hot().ints);
        let j = *self.pick(&hot().ints);
        Some(match self.below(10) {
            0 => i.wrapping_add(1),
            1 => i.wrapping_sub(1),
            2 => i.wrapping_neg(),
            3 => i.wrapping_mul(j),
            4 => i.wrapping_add(j),
            5 => i.wrapping_mul(1 + self.below(9) as i64),
            6 => 1i64.wrapping_shl(i as u32),
            _ => i,
        })
    }
    /// one of the texts, or a new literal
    pub fn any(&mut self, xs: &[&str]) -> String {
        match self.hot(10) {
            Some(t) => t.replace(['\n', '\r', '\0'], " "),
            None => self.pick(xs).to_string(),
        }
    }
    /// a text that differs from this one in a place or two, mostly at the ends of its words
    pub fn near(&mut self, t: &str) -> String {
        let mut v: Vec<char> = t.chars().collect();
        for _ in 0..1 + self.below(2) {
            let ends: Vec<usize> = (0..=v.len()).filter(|i| *i == 0 || *i == v.len() || v[*i - 1].is_alphanumeric() != v[*i].is_alphanumeric()).collect();
            let i = if self.chance(75) { *self.pick(&ends) } else { self.below(v.len() + 1) };
            let c = *self.pick(&['+', '-', '.', ',', ';', ':', '/', '\\', '"', '\'', '_', '0', '1', 's', 'x', '=', '*', '(', ')', '[', ']', '{', '}', '<', '>', '#', '@', '!', '?', '%', '&', '|', '~', '^', '$', '`', '\u{a0}', '\u{feff}', 'é']);
            match self.below(8) {
                0 if i < v.len() => { v.remove(i); }
                1 if i < v.len() => v.insert(i, v[i]),
                2 if i < v.len() => v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() },
                _ => v.insert(i, c),
            }
        }
        v.into_iter().collect()
    }
    /// this text, rarely another one near it
    pub fn maybe_near(&mut self, percent: usize, t: String) -> String {
        if self.chance(percent) { self.near(&t) } else { t }
    }
    /// one of the names, or a new one
    pub fn name(&mut self, xs: &[&str]) -> String {
        match self.hot(8) {
            Some(t) => {
                let t: String = t.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_').take(40).collect();
                if t.is_empty() || t.as_bytes()[0].is_ascii_digit() || ["let", "if", "else", "true", "false", "null", "test", "request", "fn"].contains(&t.as_str()) { self.pick(xs).to_string() } else { t }
            }
            None => {
                let t = self.pick(xs).to_string();
                match self.below(100) {
                    _ if !t.is_ascii() => t,
                    0 => t.to_uppercase(),
                    1 => format!("{}{}", t[..1].to_uppercase(), &t[1..]),
                    2 => format!("_{}", t),
                    3 => format!("{}_", t),
                    _ => t,
                }
            }
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub cases: u64,
    pub start: u64,
    pub budget: Duration,
    pub out: String,
    pub bin: String,
    pub scratch: String,
    pub only: Option<u64>,
    pub dict: Vec<String>,
    pub trace: Option<String>,
}

pub struct H {
    pub a: Args,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub case: u64,
    current: Arc<Mutex<Option<(u64, String, Instant)>>>,
    trace: Option<std::fs::File>,
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.as_bytes() {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn write_failure(a: &Args, case: u64, input: &str, what: &str) {
    let t = format!(
        "{{\"property\": {}, \"seed\": {}, \"case\": {}, \"input\": {}, \"failure\": {}}}\n",
        esc(&a.prop), a.seed, case, esc(input), esc(what)
    );
    let _ = std::fs::write(&a.out, &t);
    println!("FAIL {}", t);
    let _ = std::io::stdout().flush();
}

impl H {
    pub fn new(a: Args) -> H {
        let trace = a.trace.as_ref().map(|p| std::fs::File::create(p).unwrap());
        H { a, evals: 0, distinct: HashSet::new(), samples: Vec::new(), case: 0, current: Arc::new(Mutex::new(None)), trace }
    }
    pub fn watch(&self) {
        let cur = self.current.clone();
        let (prop, seed, out) = (self.a.prop.clone(), self.a.seed, self.a.out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(250));
            let c = cur.lock().unwrap().clone();
            if let Some((case, input, at)) = c {
                if at.elapsed() > Duration::from_secs(25) {
                    let t = format!(
                        "{{\"property\": {}, \"seed\": {}, \"case\": {}, \"input\": {}, \"failure\": \"no result after 25 s (hang)\"}}\n",
                        esc(&prop), seed, case, esc(&input)
                    );
                    let _ = std::fs::write(&out, &t);
                    println!("FAIL {}", t);
                    std::process::exit(3);
                }
            }
        });
    }
    /// one evaluated case: `input` describes it, `f` runs the real code against the oracle
    pub fn check(&mut self, input: &str, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(fnv(input));
            if self.samples.len() < 5 && self.evals % 7 == 1 {
                self.samples.push(input.chars().take(400).collect());
            }
        }
        if let Some(t) = &mut self.trace {
            use std::io::Seek;
            let _ = t.set_len(0);
            let _ = t.seek(std::io::SeekFrom::Start(0));
            let _ = write!(t, "{}\n{}", self.case, input);
            let _ = t.flush();
        }
        *self.current.lock().unwrap() = Some((self.case, input.to_string(), Instant::now()));
        let r = catch_unwind(AssertUnwindSafe(f));
        *self.current.lock().unwrap() = None;
        let what = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("crash: {}", m)
            }
        };
        write_failure(&self.a, self.case, input, &what);
        std::process::exit(3);
    }
    pub fn summary(&self) {
        println!(
            "OK {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}]}}",
            self.evals,
            self.distinct.len(),
            self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
        );
    }
}

pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, expected: &T, actual: &T) -> Result<(), String> {
    if expected == actual { Ok(()) } else { Err(format!("{}: expected {:?}, got {:?}", what, expected, actual)) }
}

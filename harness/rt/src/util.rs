//! Bounded companions: inputs, chunked values, failing writers, reports.
use std::collections::HashSet;
use std::fmt::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, tag: &str) -> Rng {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9e3779b97f4a7c15);
        for b in tag.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        Rng(h | 1)
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0; x ^= x << 13; x ^= x >> 7; x ^= x << 17; self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn string(&mut self, alpha: &[&str], max: usize) -> String {
        let n = self.below(max + 1);
        let mut s = String::new();
        for _ in 0..n {
            if self.below(12) == 0 { s.push(self.any_char()); } else { let k = self.below(alpha.len()); s.push_str(alpha[k]); }
        }
        s
    }
    pub fn any_char(&mut self) -> char {
        loop {
            let r = match self.below(5) { 0 => 0x80, 1 => 0x800, 2 => 0x3000, 3 => 0x10000, _ => 0x110000 };
            if let Some(c) = char::from_u32(self.below(r) as u32) { return c; }
        }
    }
}

/// all strings over the alphabet with at most `n` symbols
pub fn all_strings(alpha: &[&str], n: usize) -> Vec<String> {
    let mut res = vec![String::new()];
    let mut from = 0;
    for _ in 0..n {
        let to = res.len();
        for i in from..to { for a in alpha { let s = format!("{}{a}", res[i]); res.push(s); } }
        from = to;
    }
    res
}

/// a value that writes its text in pieces, in different ways
#[derive(Debug, Clone)]
pub enum Piece { S(String), C(char), F(String), W(String) }
#[derive(Debug, Clone)]
pub struct Pieces(pub Vec<Piece>);
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for p in &self.0 {
            match p {
                Piece::S(s) => f.write_str(s)?,
                Piece::C(c) => f.write_char(*c)?,
                Piece::F(s) => f.write_fmt(format_args!("{}", s))?,
                Piece::W(s) => write!(f, "{}{}", Inner(s), "")?,
            }
        }
        Ok(())
    }
}
struct Inner<'a>(&'a str);
impl fmt::Display for Inner<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for c in self.0.chars() { f.write_char(c)?; }
        Ok(())
    }
}
impl Pieces {
    pub fn text(&self) -> String {
        self.0.iter().map(|p| match p { Piece::S(s) | Piece::F(s) | Piece::W(s) => s.clone(), Piece::C(c) => c.to_string() }).collect()
    }
    pub fn random(rng: &mut Rng, text: &str) -> Pieces {
        let cs: Vec<char> = text.chars().collect();
        let mut out = vec![];
        let mut i = 0;
        while i < cs.len() {
            if rng.below(10) == 0 { out.push(Piece::S(String::new())); }
            let m = 1 + rng.below(6); let n = 1 + rng.below((cs.len() - i).min(m));
            let s: String = cs[i..i + n].iter().collect();
            out.push(match rng.below(4) { 0 => Piece::F(s), 1 => Piece::W(s), 2 if n == 1 => Piece::C(cs[i]), _ => Piece::S(s) });
            i += n;
        }
        if rng.below(6) == 0 { out.push(Piece::F(String::new())); }
        Pieces(out)
    }
    /// all ways to cut a short text into string pieces, plus single characters and format arguments
    pub fn all(text: &str) -> Vec<Pieces> {
        let cs: Vec<char> = text.chars().collect();
        let mut res = vec![];
        if cs.is_empty() { return vec![Pieces(vec![]), Pieces(vec![Piece::S(String::new())]), Pieces(vec![Piece::S(String::new()), Piece::F(String::new())])]; }
        for mask in 0..(1usize << (cs.len() - 1)) {
            let mut cur = String::new(); let mut v = vec![];
            for (i, c) in cs.iter().enumerate() {
                cur.push(*c);
                if i + 1 == cs.len() || mask >> i & 1 == 1 { v.push(std::mem::take(&mut cur)); }
            }
            res.push(Pieces(v.iter().map(|s| Piece::S(s.clone())).collect()));
            res.push(Pieces(v.iter().map(|s| if s.chars().count() == 1 { Piece::C(s.chars().next().unwrap()) } else { Piece::F(s.clone()) }).collect()));
            let mut w = vec![Piece::S(String::new())];
            for s in &v { w.push(Piece::W(s.clone())); w.push(Piece::S(String::new())); }
            res.push(Pieces(w));
        }
        res
    }
}

/// accepts `left` bytes, then refuses; records what it accepted
pub struct Failing { pub left: usize, pub got: String, pub refused: bool, pub after: bool }
impl Failing { pub fn new(n: usize) -> Failing { Failing { left: n, got: String::new(), refused: false, after: false } } }
impl Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.refused { self.after = true; return Err(fmt::Error); }
        if s.len() > self.left { self.refused = true; return Err(fmt::Error); }
        self.left -= s.len(); self.got.push_str(s); Ok(())
    }
}

#[derive(Default)]
pub struct Rep {
    pub fails: Vec<serde_json::Value>, pub count: u64, pub nfail: u64, pub seen: HashSet<u64>, pub samples: Vec<String>, pub keys: HashSet<String>,
    pub exhaustive: Vec<String>,
}
impl Rep {
    pub fn case(&mut self, what: &str) {
        use std::hash::{Hash, Hasher};
        self.count += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new(); what.hash(&mut h);
        if self.seen.len() < 3_000_000 { self.seen.insert(h.finish()); }
        if self.count.is_power_of_two() && self.samples.len() < 12 { self.samples.push(what.chars().take(200).collect()); }
    }
    pub fn fail(&mut self, key: &str, input: &str, expected: &str, got: &str) {
        self.nfail += 1;
        if self.fails.len() < 20 && (self.keys.insert(key.to_string()) || self.fails.len() < 10) {
            let t = |s: &str| s.chars().take(1500).collect::<String>();
            self.fails.push(serde_json::json!({"key": key, "input": t(input), "expected": t(expected), "got": t(got)}));
        }
    }
    pub fn eq(&mut self, key: &str, input: &str, expected: &str, got: Result<String, String>) {
        self.case(input);
        match got {
            Ok(g) if g == expected => {}
            Ok(g) => self.fail(key, input, expected, &g),
            Err(e) => self.fail(key, input, expected, &format!("<{e}>")),
        }
    }
}
/// displays a value without panicking: Err("panic ...") or Err("error")
pub fn show(f: impl FnOnce() -> Result<String, fmt::Error>) -> Result<String, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(s)) => Ok(s), Ok(Err(_)) => Err("error".into()),
        Err(p) => Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}
pub fn disp<T: fmt::Display, E>(v: Result<T, E>) -> Result<String, fmt::Error> {
    let v = v.map_err(|_| fmt::Error)?;
    let mut s = String::new(); write!(s, "{v}")?; Ok(s)
}
/// the error of a destination is reported, and nothing but a prefix of the expected text was written
pub fn failing<T: fmt::Display>(rep: &mut Rep, key: &str, input: &str, expected: &str, mk: impl Fn() -> T, at: &[usize]) {
    for &n in at {
        let mut w = Failing::new(n);
        let r = catch_unwind(AssertUnwindSafe(|| write!(w, "{}", mk())));
        let label = format!("{input} with a destination that refuses after {n} bytes");
        rep.case(&label);
        match r {
            Err(_) => rep.fail(key, &label, "an error", "panic"),
            Ok(r) => {
                if w.refused && r.is_ok() { rep.fail(key, &label, "an error", &format!("success, after {:?}", w.got)); }
                if !w.refused && r.is_err() { rep.fail(key, &label, "success", "an error"); }
                if !w.refused && w.got != expected { rep.fail(key, &label, expected, &w.got); }
                if !expected.starts_with(&w.got) { rep.fail(key, &label, &format!("a prefix of {expected:?}"), &w.got); }
            }
        }
    }
}

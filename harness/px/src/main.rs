//! Parses each line of standard input (a JSON string, or {"rep": [prefix, piece, n, suffix]}) and says what became of it.
use askama_parser::{Ast, Syntax};
use serde_json::Value;
use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let s = match &v {
            Value::String(s) => s.clone(),
            // pieces: strings, or [string, count]
            Value::Array(ps) => { let mut s = String::new(); for p in ps { match p { Value::String(t) => s.push_str(t), _ => for _ in 0..p[1].as_u64().unwrap() { s.push_str(p[0].as_str().unwrap()) } } } s }
            _ => panic!(),
        };
        { let mut o = out.lock(); o.write_all(b"S\n").unwrap(); o.flush().unwrap(); }
        let r = std::panic::catch_unwind(|| match Ast::from_str(&s, None, &Syntax::default()) { Ok(a) => { drop(a); "ok".to_string() } Err(e) => { let e = e.to_string(); if s.len() > 2000 { "err".into() } else { format!("err {}", e.lines().next().unwrap_or("")) } } });
        let t = r.unwrap_or_else(|_| "panic".to_string());
        let mut o = out.lock(); writeln!(o, "{t}").unwrap(); o.flush().unwrap();
    }
}

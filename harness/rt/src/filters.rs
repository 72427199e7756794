use crate::util::*;
use askama::filters as fl;
use askama_escape::{escape, Escaper, Html, MarkupDisplay, Text};
use std::fmt::{self, Write};

const MIX: &[&str] = &["<", ">", "&", "\"", "'", "a", "é", "€", "𝄞", " ", ";", "=", "\u{0}", "#", "%", "/", "`", "\n", "!", "?", "@"];

fn html_ref(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '<' => o += "&lt;", '>' => o += "&gt;", '&' => o += "&amp;", '"' => o += "&quot;", '\'' => o += "&#x27;", c => o.push(c) }
    }
    o
}
struct Upper; // an escaper of the user's
impl Escaper for Upper {
    fn write_escaped<W: Write>(&self, mut fmt: W, string: &str) -> fmt::Result { for c in string.chars() { fmt.write_char('[')?; fmt.write_char(c)?; fmt.write_char(']')?; } Ok(()) }
}
fn s<T: fmt::Display>(t: T) -> Result<String, String> { show(|| { let mut o = String::new(); write!(o, "{t}")?; Ok(o) }) }

pub fn c01(rep: &mut Rep, seed: u64, deep: bool) {
    let one = |rep: &mut Rep, p: &Pieces| {
        let t = p.text(); let h = html_ref(&t); let d = format!("{:?}", p.0);
        rep.eq("escape-html", &format!("unsafe {d}"), &h, s(MarkupDisplay::new_unsafe(p, Html)));
        rep.eq("safe-html", &format!("safe {d}"), &t, s(MarkupDisplay::new_safe(p, Html)));
        rep.eq("mark-safe", &format!("mark_safe {d}"), &t, s(MarkupDisplay::new_unsafe(p, Html).mark_safe()));
        rep.eq("mark-safe", &format!("mark_safe twice {d}"), &t, s(MarkupDisplay::new_safe(p, Html).mark_safe()));
        rep.eq("escape-text", &format!("text {d}"), &t, s(MarkupDisplay::new_unsafe(p, Text)));
        rep.eq("filter-safe", &format!("|safe {d}"), &t, show(|| disp(fl::safe(Html, p))));
        rep.eq("filter-escape", &format!("|escape {d}"), &h, show(|| disp(fl::escape(Html, p))));
        rep.eq("filter-e", &format!("|e {d}"), &h, show(|| disp(fl::e(Html, p))));
    };
    for t in all_strings(MIX, if deep { 4 } else { 3 }) {
        let h = html_ref(&t);
        rep.eq("escape-fn", &format!("escape({t:?})"), &h, s(escape(&t, Html)));
        rep.eq("escape-fn-text", &format!("escape({t:?}, Text)"), &t, s(escape(&t, Text)));
    }
    rep.exhaustive.push(format!("escape(): all strings of at most {} symbols of {MIX:?}", if deep { 4 } else { 3 }));
    for c in (0..0x110000u32).filter_map(char::from_u32) {
        let t = c.to_string(); let h = html_ref(&t);
        rep.eq("escape-fn", &format!("escape({t:?})"), &h, s(escape(&t, Html)));
        if c < '\u{300}' || deep {
            let t = format!("<{c}é{c}"); rep.eq("escape-fn", &format!("escape({t:?})"), &html_ref(&t), s(escape(&t, Html)));
            one(rep, &Pieces(vec![Piece::C(c), Piece::S("&".into()), Piece::F(c.to_string())]));
        }
    }
    rep.exhaustive.push("escape(): every Unicode scalar value".into());
    for t in all_strings(&["<", "&", "é", "a", "'"], 4) { for p in Pieces::all(&t) { one(rep, &p); } }
    let mut rng = Rng::new(seed, "c01");
    for _ in 0..(if deep { 60000 } else { 6000 }) {
        let t = rng.string(MIX, 60); let p = Pieces::random(&mut rng, &t); one(rep, &p);
        let u: String = t.chars().map(|c| format!("[{c}]")).collect();
        rep.eq("escape-user", &format!("own escaper {:?}", p.0), &u, s(MarkupDisplay::new_unsafe(&p, Upper)));
    }
    for t in ["", "<", "a<b", "é&é", "\"''\"", "no specials at all", "<<<>>>"] {
        for p in Pieces::all(&t.chars().take(6).collect::<String>()) {
            let t = p.text(); let h = html_ref(&t); let at: Vec<usize> = (0..=h.len() + 1).collect();
            failing(rep, "error-escape", &format!("unsafe {:?}", p.0), &h, || MarkupDisplay::new_unsafe(&p, Html), &at);
            failing(rep, "error-safe", &format!("safe {:?}", p.0), &t, || MarkupDisplay::new_safe(&p, Html), &at);
            failing(rep, "error-text", &format!("text {:?}", p.0), &t, || MarkupDisplay::new_unsafe(&p, Text), &at);
            failing(rep, "error-escape-fn", &format!("escape({t:?})"), &h, || escape(&t, Html), &at);
        }
    }
}

fn truncate_ref(t: &str, n: usize) -> String {
    let mut m = n;
    while m < t.len() && !t.is_char_boundary(m) { m += 1; }
    if m >= t.len() { t.to_string() } else { format!("{}...", &t[..m]) }
}
pub fn c05(rep: &mut Rep, seed: u64, deep: bool) {
    let alpha = &["a", "é", "€", "𝄞"];
    for t in all_strings(alpha, if deep { 6 } else { 5 }) {
        for p in Pieces::all(&t) {
            for n in 0..=t.len() + 2 {
                rep.eq("truncate", &format!("truncate({:?}, {n})", p.0), &truncate_ref(&t, n), show(|| disp(fl::truncate(&p, n))));
            }
        }
        rep.eq("truncate", &format!("truncate({t:?}, usize::MAX)"), &t, show(|| disp(fl::truncate(&t, usize::MAX))));
    }
    rep.exhaustive.push(format!("all strings of at most {} of a, é, €, 𝄞 in all pieces and all lengths", if deep { 6 } else { 5 }));
    let mut rng = Rng::new(seed, "c05");
    for _ in 0..(if deep { 300000 } else { 30000 }) {
        let t = rng.string(&["a", "é", "€", "𝄞", ".", "\n", "b", " "], 40); let p = Pieces::random(&mut rng, &t); let n = rng.below(t.len() + 3);
        rep.eq("truncate", &format!("truncate({:?}, {n})", p.0), &truncate_ref(&t, n), show(|| disp(fl::truncate(&p, n))));
    }
    for t in ["", "ab", "aéb", "€€", "a𝄞b"] { for p in Pieces::all(t) { for n in 0..=t.len() {
        let e = truncate_ref(t, n); let at: Vec<usize> = (0..=e.len() + 1).collect();
        failing(rep, "truncate-error", &format!("truncate({:?}, {n})", p.0), &e, || fl::truncate(&p, n).unwrap(), &at);
    } } }
}

fn indent_ref(t: &str, w: usize) -> String {
    if w >= 10000 || t.len() >= 10000 { return t.to_string(); }
    let b = t.as_bytes(); let mut o = vec![];
    for i in 0..b.len() { o.push(b[i]); if b[i] == b'\n' && i + 1 < b.len() { for _ in 0..w { o.push(b' '); } } }
    String::from_utf8(o).unwrap()
}
pub fn c06(rep: &mut Rep, seed: u64, deep: bool) {
    for t in all_strings(&["a", "\n", "é", " ", "\r"], if deep { 7 } else { 6 }) {
        for w in [0usize, 1, 2, 5] { rep.eq("indent", &format!("indent({t:?}, {w})"), &indent_ref(&t, w), show(|| disp(fl::indent(&t, w)))); }
    }
    rep.exhaustive.push("all strings of at most 6 of a, newline, é, space, carriage return; widths 0, 1, 2, 5".into());
    for t in ["a\nb", "\n\n", "é\n€", "\n"] { for w in [3, 100, 9998, 9999, 10000, 10001, 99999, usize::MAX] {
        rep.eq("indent", &format!("indent({t:?}, {w})"), &indent_ref(t, w), show(|| disp(fl::indent(t, w)))); } }
    for n in [9990usize, 9996, 9997, 9998, 9999, 10000, 10001, 20000] { for unit in ["a\n", "\n", "é\n", "aaaaaaa\n", "\na"] {
        let mut t = unit.repeat(n / unit.len()); while t.len() < n { t.push('x'); }
        for w in [0usize, 1, 2] { rep.eq("indent-long", &format!("indent({} bytes of {unit:?}, {w})", t.len()), &indent_ref(&t, w), show(|| disp(fl::indent(&t, w)))); } } }
    let mut rng = Rng::new(seed, "c06");
    for _ in 0..(if deep { 100000 } else { 10000 }) {
        let t = rng.string(&["a", "\n", "é", "\r\n", " ", "\t", "\u{2028}", "\u{85}", "\u{b}", "\n"], 80); let w = rng.below(12);
        let p = Pieces::random(&mut rng, &t);
        rep.eq("indent", &format!("indent({:?}, {w})", p.0), &indent_ref(&t, w), show(|| disp(fl::indent(&p, w))));
    }
}

fn pairs(t: &str, f: &mut dyn FnMut(&str)) -> Vec<String> {
    // pairs of newlines from the left; the parts between them
    let c: Vec<char> = t.chars().collect(); let mut parts = vec![String::new()]; let mut i = 0;
    while i < c.len() {
        if c[i] == '\n' && i + 1 < c.len() && c[i + 1] == '\n' { parts.push(String::new()); i += 2; }
        else { parts.last_mut().unwrap().push(c[i]); i += 1; }
    }
    for p in &parts { f(p); }
    parts
}
pub fn c07(rep: &mut Rep, seed: u64, deep: bool) {
    let one = |rep: &mut Rep, t: &str| {
        let br: String = t.chars().map(|c| if c == '\n' { "<br/>".to_string() } else { c.to_string() }).collect();
        rep.eq("linebreaksbr", &format!("linebreaksbr({t:?})"), &br, show(|| disp(fl::linebreaksbr(t))));
        let ps = pairs(t, &mut |_| {});
        let lb = format!("<p>{}</p>", ps.iter().map(|p| p.chars().map(|c| if c == '\n' { "<br/>".to_string() } else { c.to_string() }).collect::<String>()).collect::<Vec<_>>().join("</p><p>"));
        rep.eq("linebreaks", &format!("linebreaks({t:?})"), &lb, show(|| disp(fl::linebreaks(t))));
        let pb: String = ps.iter().filter(|p| !p.is_empty()).map(|p| format!("<p>{p}</p>")).collect();
        rep.eq("paragraphbreaks", &format!("paragraphbreaks({t:?})"), &pb, show(|| disp(fl::paragraphbreaks(t))));
    };
    for t in all_strings(&["a", "\n", "<p>", "</p>", "é"], if deep { 7 } else { 6 }) { one(rep, &t); }
    for t in all_strings(&["x", "\n"], 12) { one(rep, &t); }
    rep.exhaustive.push("all strings of at most 6 of a, newline, <p>, </p>, é, and of at most 12 of x, newline".into());
    let mut rng = Rng::new(seed, "c07");
    for _ in 0..(if deep { 100000 } else { 10000 }) { let t = rng.string(&["a", "\n", "\n\n", "\r\n", "<br/>", "<p></p>", "é", " ", "\u{2028}", "\u{85}"], 40); one(rep, &t); }
}

pub fn c08(rep: &mut Rep, seed: u64, deep: bool) {
    fn title_ref(t: &str) -> String {
        let mut o = String::new(); let mut start = true;
        for c in t.chars() {
            if c.is_whitespace() { o.push(c); start = true; }
            else if start { o.extend(c.to_uppercase()); start = false; } else { o.extend(c.to_lowercase()); }
        }
        o
    }
    fn cap_ref(t: &str) -> String {
        let mut i = t.chars(); match i.next() { None => String::new(), Some(c) => c.to_uppercase().collect::<String>() + &i.as_str().to_lowercase() }
    }
    fn words_ref(t: &str) -> usize { let mut n = 0; let mut inw = false; for c in t.chars() { if c.is_whitespace() { inw = false; } else if !inw { inw = true; n += 1; } } n }
    fn trim_ref(t: &str) -> String {
        let c: Vec<char> = t.chars().collect(); let mut a = 0; let mut b = c.len();
        while a < b && c[a].is_whitespace() { a += 1; } while b > a && c[b - 1].is_whitespace() { b -= 1; }
        c[a..b].iter().collect()
    }
    let one = |rep: &mut Rep, t: &str| {
        rep.eq("lower", &format!("lower({t:?})"), &t.to_lowercase(), show(|| disp(fl::lower(t))));
        rep.eq("lowercase", &format!("lowercase({t:?})"), &t.to_lowercase(), show(|| disp(fl::lowercase(t))));
        rep.eq("upper", &format!("upper({t:?})"), &t.to_uppercase(), show(|| disp(fl::upper(t))));
        rep.eq("uppercase", &format!("uppercase({t:?})"), &t.to_uppercase(), show(|| disp(fl::uppercase(t))));
        rep.eq("capitalize", &format!("capitalize({t:?})"), &cap_ref(t), show(|| disp(fl::capitalize(t))));
        rep.eq("title", &format!("title({t:?})"), &title_ref(t), show(|| disp(fl::title(t))));
        rep.eq("trim", &format!("trim({t:?})"), &trim_ref(t), show(|| disp(fl::trim(t))));
        rep.eq("wordcount", &format!("wordcount({t:?})"), &words_ref(t).to_string(), show(|| disp(fl::wordcount(t))));
    };
    for t in all_strings(&["a", "B", " ", "é", "ß", "\n", "1", "Σ"], if deep { 5 } else { 4 }) { one(rep, &t); }
    for c in (0..0x110000u32).filter_map(char::from_u32) {
        if c as u32 > 0x20000 && !deep && c as u32 % 97 != 0 { continue; }
        for t in [format!("{c}"), format!("a{c}"), format!("{c}b"), format!(" {c}{c} ")] { one(rep, &t); }
    }
    rep.exhaustive.push("every Unicode scalar value below 0x20000 alone, after a letter, before a letter, doubled between spaces".into());
    let a = &["a", "B", " ", "\t", "é", "ß", "ﬁ", "İ", "ǅ", "Σ", "\u{a0}", "\u{3000}", "1", "\u{200b}", "ŉ", "'", "-"];
    let mut rng = Rng::new(seed, "c08");
    for _ in 0..(if deep { 60000 } else { 6000 }) {
        let t = rng.string(a, 30); one(rep, &t);
        let p = Pieces::random(&mut rng, &t);
        rep.eq("trim-pieces", &format!("trim({:?})", p.0), &trim_ref(&t), show(|| disp(fl::trim(&p))));
        rep.eq("title-pieces", &format!("title({:?})", p.0), &title_ref(&t), show(|| disp(fl::title(&p))));
    }
    for t in all_strings(&["a", " ", "\u{3000}", "é"], 5) { for p in Pieces::all(&t) { rep.eq("trim-pieces", &format!("trim({:?})", p.0), &trim_ref(&t), show(|| disp(fl::trim(&p)))); } }
    // alignment and numbers are displayed with their own digits
    for n in [0i64, -1, 42, i64::MIN] { rep.eq("upper-number", &format!("upper({n})"), &n.to_string(), show(|| disp(fl::upper(n)))); }
}

pub fn c09(rep: &mut Rep, seed: u64, deep: bool) {
    let one = |rep: &mut Rep, items: &[Pieces], sep: &Pieces| {
        let ts: Vec<String> = items.iter().map(|p| p.text()).collect();
        let mut e = String::new(); for (i, t) in ts.iter().enumerate() { if i > 0 { e += &sep.text(); } e += t; }
        let d = format!("join({:?}, {:?})", items.iter().map(|p| &p.0).collect::<Vec<_>>(), sep.0);
        rep.eq("join-iter", &d, &e, show(|| disp(fl::join(items.iter(), sep))));
        rep.eq("join-slice", &d, &e, show(|| disp(fl::join(items, sep))));
        rep.eq("join-owned", &d, &e, show(|| disp(fl::join(items.to_vec(), sep))));
        // an iterator without a known length
        let mut k = 0; let it = std::iter::from_fn(|| { k += 1; items.get(k - 1).map(|p| p.text()) });
        rep.eq("join-fn", &d, &e, show(|| disp(fl::join(it, sep))));
        let at: Vec<usize> = (0..=e.len().min(12) + 1).collect();
        failing(rep, "join-error", &d, &e, || fl::join(items.iter(), sep).unwrap(), &at);
    };
    let vals: Vec<Pieces> = ["", "a", "é,", " "].iter().map(|t| Pieces(vec![Piece::S(t.to_string())])).collect();
    let seps: Vec<Pieces> = ["", ",", ", ", "é"].iter().map(|t| Pieces(vec![Piece::F(t.to_string())])).collect();
    let n = if deep { 5 } else { 4 };
    let mut lists: Vec<Vec<Pieces>> = vec![vec![]]; let mut from = 0;
    for _ in 0..n { let to = lists.len(); for i in from..to { for v in &vals { let mut l = lists[i].clone(); l.push(v.clone()); lists.push(l); } } from = to; }
    for l in &lists { for sp in &seps { one(rep, l, sp); } }
    rep.exhaustive.push(format!("all lists of at most {n} items of \"\", a, é, and space, and four separators"));
    let mut rng = Rng::new(seed, "c09");
    for _ in 0..(if deep { 30000 } else { 3000 }) {
        let k = rng.below(9); let mut l = vec![]; for _ in 0..k { let t = rng.string(MIX, 6); l.push(Pieces::random(&mut rng, &t)); }
        let t = rng.string(MIX, 4); let sp = Pieces::random(&mut rng, &t); one(rep, &l, &sp);
    }
    let many: Vec<Pieces> = (0..1000).map(|i| Pieces(vec![Piece::S(i.to_string())])).collect(); one(rep, &many, &seps[1]);
    rep.eq("join-ints", "join(0..5, 0)", "001020304", show(|| disp(fl::join(0..5, 0))));
}

pub fn c10(rep: &mut Rep, seed: u64, deep: bool) {
    use serde_json::{json, Value};
    let one = |rep: &mut Rep, v: &Value| {
        let d = format!("json({})", serde_json::to_string(v).unwrap());
        rep.case(&d);
        match show(|| disp(fl::json(v))) {
            Err(e) => rep.fail("json", &d, "text", &e),
            Ok(t) => {
                if let Some(c) = t.chars().find(|c| matches!(c, '&' | '<' | '>' | '\'')) { rep.fail("json-inert", &d, "none of & < > '", &format!("{c} in {t}")); }
                match serde_json::from_str::<Value>(&t) { Ok(w) if &w == v => {}, other => rep.fail("json-value", &d, &serde_json::to_string(v).unwrap(), &format!("{other:?} from {t}")) }
            }
        }
    };
    for t in all_strings(&["<", ">", "&", "'", "\"", "\\", "é", "/", "\u{0}", "u", "a"], if deep { 5 } else { 4 }) { one(rep, &Value::String(t)); }
    for c in (0..0x110000u32).filter_map(char::from_u32) { if c as u32 > 0x3000 && !deep && c as u32 % 31 != 0 { continue; } one(rep, &json!([format!("{c}"), format!("<{c}'"), { (format!("{c}&")): 1 }])); }
    rep.exhaustive.push("all strings of at most 4 of < > & ' \" \\ é / NUL u a; every scalar value below 0x3000 in values and keys".into());
    let mut rng = Rng::new(seed, "c10");
    fn gen(rng: &mut Rng, d: usize) -> Value {
        match rng.below(if d == 0 { 5 } else { 8 }) {
            0 => Value::Null, 1 => json!(rng.below(2) == 0), 2 => json!(rng.next() as i64 - (1 << 50)), 3 => json!((rng.below(1 << 20) as f64) / 8.0), 4 => Value::String(rng.string(MIX, 12)),
            5 | 6 => { let n = rng.below(4); Value::Array((0..n).map(|_| gen(rng, d - 1)).collect()) }
            _ => { let n = rng.below(4); Value::Object((0..n).map(|_| (rng.string(MIX, 6), gen(rng, d - 1))).collect()) }
        }
    }
    for _ in 0..(if deep { 60000 } else { 6000 }) { let v = gen(&mut rng, 4); one(rep, &v); }
    // values which cannot be serialized are errors, failing destinations too
    let v = json!({"<a>": ["&&", 'x', "''"], "é": "<"});
    let full = show(|| disp(fl::json(&v))).unwrap_or_default();
    let at: Vec<usize> = (0..full.len() + 2).collect();
    failing(rep, "json-error", "json(object)", &full, || fl::json(&v).unwrap(), &at);
    struct Bad; impl serde::Serialize for Bad { fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(serde::ser::Error::custom("no")) } }
    rep.case("json(unserializable)");
    if let Ok(t) = show(|| disp(fl::json(Bad))) { rep.fail("json-unserializable", "json(unserializable)", "an error", &t); }
}

pub fn c11(rep: &mut Rep, seed: u64, deep: bool) {
    fn enc(t: &str, slash: bool) -> String {
        let mut o = String::new();
        for &b in t.as_bytes() {
            if b.is_ascii_alphanumeric() || b"_.-~".contains(&b) || (slash && b == b'/') { o.push(b as char); } else { write!(o, "%{b:02X}").unwrap(); }
        }
        o
    }
    let one = |rep: &mut Rep, p: &Pieces| {
        let t = p.text();
        rep.eq("urlencode", &format!("urlencode({:?})", p.0), &enc(&t, true), show(|| disp(fl::urlencode(p))));
        rep.eq("urlencode_strict", &format!("urlencode_strict({:?})", p.0), &enc(&t, false), show(|| disp(fl::urlencode_strict(p))));
    };
    for c in (0..0x110000u32).filter_map(char::from_u32) { if c as u32 > 0x3000 && !deep && c as u32 % 31 != 0 { continue; } one(rep, &Pieces(vec![Piece::C(c)])); }
    for a in 0..128u8 { for b in 0..128u8 { one(rep, &Pieces(vec![Piece::S(format!("{}{}", a as char, b as char))])); } }
    rep.exhaustive.push("every scalar value below 0x3000; every pair of ASCII characters".into());
    for t in all_strings(&["a", "/", "é", "%", "~", " "], 4) { for p in Pieces::all(&t) { one(rep, &p); } }
    let mut rng = Rng::new(seed, "c11");
    for _ in 0..(if deep { 100000 } else { 10000 }) { let t = rng.string(MIX, 40); let p = Pieces::random(&mut rng, &t); one(rep, &p); }
    for t in ["", "a b", "é/é", "%%"] { for p in Pieces::all(t) { let e = enc(t, true); let at: Vec<usize> = (0..=e.len() + 1).collect(); failing(rep, "urlencode-error", &format!("{:?}", p.0), &e, || fl::urlencode(&p).unwrap(), &at); } }
}

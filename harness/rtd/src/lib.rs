//! Library of the template batches: what a case needs besides askama itself.
pub use askama;
use std::cell::Cell;
use std::fmt;

/// one line per result: id TAB index TAB kind TAB JSON string
pub fn report(id: &str, f: impl FnOnce() -> Vec<Result<String, String>> + std::panic::UnwindSafe) {
    match std::panic::catch_unwind(f) {
        Ok(rs) => for (i, r) in rs.iter().enumerate() {
            let (k, t) = match r { Ok(t) => ("ok", t), Err(t) => ("err", t) };
            println!("@@\t{id}\t{i}\t{k}\t{}", serde_json::to_string(t).unwrap());
        },
        Err(_) => println!("@@\t{id}\t0\tpanic\t\"\""),
    }
}
pub fn r<T: askama::Template>(t: T) -> Result<String, String> { reset(); t.render().map_err(|e| e.to_string()) }

thread_local! { static COUNT: Cell<u32> = const { Cell::new(0) }; }
pub fn reset() { COUNT.with(|c| c.set(0)); }
/// the number of calls so far in this case
pub fn tick() -> u32 { COUNT.with(|c| { c.set(c.get() + 1); c.get() }) }

/// displays its text in several pieces
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Chunks(pub &'static [&'static str]);
impl fmt::Display for Chunks { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for s in self.0 { f.write_str(s)?; } Ok(()) } }
/// fails to display after some text
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bad(pub &'static str);
impl fmt::Display for Bad { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0)?; Err(fmt::Error) } }
#[derive(Debug)]
pub struct Oops;
impl fmt::Display for Oops { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("oops") } }
impl std::error::Error for Oops {}

/// accepts `left` bytes
struct Fmt { left: usize, got: String }
impl fmt::Write for Fmt { fn write_str(&mut self, s: &str) -> fmt::Result { if s.len() > self.left { return Err(fmt::Error); } self.left -= s.len(); self.got.push_str(s); Ok(()) } }
/// accepts `left` bytes, at most `step` of them at once, with interruptions; then fails or accepts nothing
struct Io { left: usize, step: usize, zero: bool, calls: usize, got: Vec<u8> }
impl std::io::Write for Io {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls % 3 == 2 { return Err(std::io::ErrorKind::Interrupted.into()); }
        if b.is_empty() { return Ok(0); }
        let n = b.len().min(self.step).min(self.left);
        if n == 0 { return if self.zero { Ok(0) } else { Err(std::io::ErrorKind::BrokenPipe.into()) }; }
        self.left -= n; self.got.extend_from_slice(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn meta<T: askama::Template + ?Sized>(_: &T) -> (Option<&'static str>, usize, &'static str) { (T::EXTENSION, T::SIZE_HINT, T::MIME_TYPE) }
/// renders through every entry point; Ok(text) or Err(..) if they all agree
pub fn entry<T: askama::Template + 'static>(t: T) -> Result<String, String> {
    use askama::{DynTemplate, Template}; use fmt::Write as _;
    let f = |r: bool, s: String| if r { Some(s) } else { None };
    let mut all: Vec<(&str, Option<String>)> = vec![];
    macro_rules! go { ($n:expr, $e:expr) => { reset(); all.push(($n, $e)); } }
    go!("render", t.render().ok());
    go!("render_into", { let mut s = String::new(); let r = t.render_into(&mut s).is_ok(); f(r, s) });
    go!("render_into dyn Write", { let mut s = String::new(); let r = t.render_into(&mut s as &mut dyn fmt::Write).is_ok(); f(r, s) });
    go!("Display", { let mut s = String::new(); let r = write!(s, "{}", t).is_ok(); f(r, s) });
    go!("write_into", { let mut s = Vec::new(); let r = t.write_into(&mut s).is_ok(); f(r, String::from_utf8(s).unwrap()) });
    go!("write_into dyn Write", { let mut s = Vec::new(); let r = t.write_into(&mut s as &mut dyn std::io::Write).is_ok(); f(r, String::from_utf8(s).unwrap()) });
    let r = &t; let rr = &r;
    go!("&T render", <&T as Template>::render(&r).ok());
    go!("&T render_into", { let mut s = String::new(); let k = <&T as Template>::render_into(&r, &mut s).is_ok(); f(k, s) });
    go!("&T write_into", { let mut s = Vec::new(); let k = <&T as Template>::write_into(&r, &mut s).is_ok(); f(k, String::from_utf8(s).unwrap()) });
    go!("&&T render", <&&T as Template>::render(&rr).ok());
    let d: &dyn DynTemplate = &t; let dr: &dyn DynTemplate = &r;
    go!("dyn_render", d.dyn_render().ok());
    go!("dyn_render of &T", dr.dyn_render().ok());
    go!("dyn_render_into", { let mut s = String::new(); let k = d.dyn_render_into(&mut s).is_ok(); f(k, s) });
    go!("dyn_write_into", { let mut s = Vec::new(); let k = d.dyn_write_into(&mut s).is_ok(); f(k, String::from_utf8(s).unwrap()) });
    go!("Display of dyn", { let mut s = String::new(); let k = write!(s, "{}", d).is_ok(); f(k, s) });
    for (n, x) in &all { if *x != all[0].1 { return Ok(format!("DISAGREE: {n} gives {x:?}, render gives {:?}", all[0].1)); } }
    let m = meta(&t);
    if meta(&r) != m || meta(&rr) != m { return Ok(format!("DISAGREE: metadata of references {:?} {m:?}", meta(&r))); }
    for x in [d, dr] { if (x.extension(), x.size_hint(), x.mime_type()) != m { return Ok(format!("DISAGREE: metadata of DynTemplate {:?} {m:?}", (x.extension(), x.size_hint(), x.mime_type()))); } }
    let Some(text) = all.swap_remove(0).1 else { return Err("error".into()) };
    let n = text.len(); let step = (n / 24).max(1);
    let mut lims: Vec<usize> = (0..n).step_by(step).collect(); lims.push(n); if n > 0 { lims.push(n - 1); }
    for k in lims {
        for w in 0..4 {
            reset(); let mut o = Fmt { left: k, got: String::new() };
            let ok = match w { 0 => t.render_into(&mut o).is_ok(), 1 => d.dyn_render_into(&mut o).is_ok(), 2 => write!(o, "{}", t).is_ok(), _ => write!(o, "{}", d).is_ok() };
            if ok != (k == n) || !text.starts_with(&o.got) || (ok && o.got != text) { return Ok(format!("DISAGREE: fmt destination {w} with room for {k} of {n} bytes: {ok} {:?}", o.got)); }
        }
        for w in 0..3 { for zero in [false, true] { for step in [1usize, 3, 1000] {
            reset(); let mut o = Io { left: k, step, zero, calls: 0, got: vec![] };
            let ok = match w { 0 => t.write_into(&mut o).is_ok(), 1 => d.dyn_write_into(&mut o).is_ok(), _ => <&T as Template>::write_into(&r, &mut o).is_ok() };
            if ok != (k == n) || !text.as_bytes().starts_with(&o.got) || (ok && o.got != text.as_bytes()) { return Ok(format!("DISAGREE: io destination {w} with room for {k} of {n} bytes: {ok} {:?}", String::from_utf8_lossy(&o.got))); }
        } } }
    }
    Ok(text)
}

/// an escaper of the user
pub struct Up;
impl askama_escape::Escaper for Up { fn write_escaped<W: fmt::Write>(&self, mut f: W, s: &str) -> fmt::Result { f.write_str(&s.to_uppercase()) } }

/// filters of the templates
pub mod filters {
    pub fn cat(s: impl std::fmt::Display, t: impl std::fmt::Display) -> askama::Result<String> { Ok(format!("{s}{t}")) }
    pub fn ticked(s: impl std::fmt::Display) -> askama::Result<String> { Ok(format!("{s}{}", crate::tick())) }
}

/// an array that has each number at its own index
pub struct Idn;
pub static IDN: Idn = Idn;
impl std::ops::Index<u32> for Idn { type Output = u32; fn index(&self, i: u32) -> &u32 { Box::leak(Box::new(i)) } }
pub struct Idi;
pub static IDI: Idi = Idi;
impl std::ops::Index<u32> for Idi { type Output = i32; fn index(&self, i: u32) -> &i32 { Box::leak(Box::new(i as i32)) } }

//! The responses of the four web integrations, for templates of all kinds.
use askama::Template;
use http_body_util::BodyExt;
use serde_json::json;
use std::fmt;

#[derive(Debug, PartialEq, Clone)]
struct Seen { status: u16, types: Vec<String>, length: Option<String>, body: Vec<u8> }
struct Part { name: &'static str, seen: Result<Seen, String> }

async fn axum(r: askama_axum::axum_core::response::Response) -> Seen {
    let types = r.headers().get_all("content-type").iter().map(|v| v.to_str().unwrap().to_string()).collect();
    let length = r.headers().get("content-length").map(|v| v.to_str().unwrap().to_string());
    Seen { status: r.status().as_u16(), types, length, body: r.into_body().collect().await.unwrap().to_bytes().to_vec() }
}
fn actix(r: askama_actix::actix_web::HttpResponse) -> Seen {
    use askama_actix::actix_web::body::MessageBody;
    let types = r.headers().get_all("content-type").map(|v| v.to_str().unwrap().to_string()).collect();
    let length = r.headers().get("content-length").map(|v| v.to_str().unwrap().to_string());
    Seen { status: r.status().as_u16(), types, length, body: r.into_body().try_into_bytes().unwrap().to_vec() }
}
async fn rocket(mut r: askama_rocket::rocket::Response<'_>) -> Seen {
    let types = r.headers().get("content-type").map(|v| v.to_string()).collect();
    let length = match r.body_mut().size().await { Some(n) => Some(n.to_string()), None => None };
    Seen { status: r.status().code, types, length, body: r.body_mut().to_bytes().await.unwrap() }
}
async fn warp(r: askama_warp::warp::reply::Response) -> Seen {
    let types = r.headers().get_all("content-type").iter().map(|v| v.to_str().unwrap().to_string()).collect();
    let length = r.headers().get("content-length").map(|v| v.to_str().unwrap().to_string());
    Seen { status: r.status().as_u16(), types, length, body: askama_warp::warp::hyper::body::to_bytes(r.into_body()).await.unwrap().to_vec() }
}

/// writes its pieces; may fail at the end, with an error that does not contain them
macro_rules! hand { ($($n:ident $mime:expr, $ext:expr, $hint:expr;)*) => { $(
    struct $n(Vec<String>, u8);
    impl Template for $n {
        fn render_into(&self, w: &mut (impl fmt::Write + ?Sized)) -> askama::Result<()> {
            for s in &self.0 { w.write_str(s)?; }
            match self.1 { 0 => Ok(()), 1 => Err(askama::Error::Fmt(fmt::Error)), _ => Err(askama::Error::Custom("no luck".into())) }
        }
        const EXTENSION: Option<&'static str> = $ext; const SIZE_HINT: usize = $hint; const MIME_TYPE: &'static str = $mime;
    }
    impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.render_into(f).map_err(|_| fmt::Error) } }
)* } }
hand! { H1 "text/html; charset=utf-8", Some("html"), 10; H2 "text/plain; charset=utf-8", Some("txt"), 0; H3 "application/json", Some("json"), 100000; H4 "image/svg+xml", Some("svg"), 1; H5 "application/octet-stream", None, 3; H6 "application/x-thing; a=b; c=\"d e\"", Some("x"), 7; }

macro_rules! derived { ($($n:ident $ext:literal;)*) => { $(
    #[derive(Template)] #[template(source = "<{{ s }}>{% if fail %}{{ self.oops()? }}{% endif %}{{ s|safe }}", ext = $ext)]
    struct $n { s: String, fail: bool }
    impl $n { fn oops(&self) -> Result<u8, fmt::Error> { Err(fmt::Error) } }
)* } }
derived! { DHtml "html"; DTxt "txt"; DXml "xml"; DSvg "svg"; DMd "md"; }
#[derive(Template)] #[template(source = "a { b: {{ s }} }{% if fail %}{{ self.oops()? }}{% endif %}", ext = "css", escape = "none")]
struct DCss { s: String, fail: bool }
impl DCss { fn oops(&self) -> Result<u8, fmt::Error> { Err(fmt::Error) } }

struct Report { failures: Vec<serde_json::Value>, n: usize, ok: usize, err: usize }
impl Report {
    fn check(&mut self, what: &str, input: &str, partial: &str, want: &Result<(String, &'static str), ()>, parts: Vec<Part>) {
        for Part { name, seen } in parts {
            self.n += 1;
            let bad = match (want, &seen) {
                (_, Err(e)) => Some(e.clone()),
                (Ok((text, mime)), Ok(s)) => {
                    self.ok += 1;
                    if s.status != 200 { Some(format!("status {}", s.status)) } else if s.body != text.as_bytes() { Some(format!("body {:?}", String::from_utf8_lossy(&s.body))) }
                    else if s.types != [*mime] { Some(format!("content types {:?}", s.types)) } else if s.length.as_ref().is_some_and(|l| *l != text.len().to_string()) { Some(format!("length {:?}", s.length)) } else { None }
                }
                (Err(()), Ok(s)) => {
                    self.err += 1;
                    if s.status != 500 { Some(format!("status {}", s.status)) } else if !partial.is_empty() && String::from_utf8_lossy(&s.body).contains(partial) { Some(format!("body {:?}", String::from_utf8_lossy(&s.body))) } else { None }
                }
            };
            if let Some(got) = bad {
                let e = match want { Ok((t, m)) => format!("status 200, type {m}, body {t:?}"), Err(()) => "status 500 without the partial text".into() };
                self.failures.push(json!({"key": "response", "input": {"integration": name, "template": what, "value": input}, "expected": e, "got": got}));
            }
        }
    }
}
/// status, type and body after catching a panic
macro_rules! part { ($name:expr, $e:expr) => { Part { name: $name, seen: { use futures_catch::catch; catch(async { $e }).await } } } }
mod futures_catch {
    use std::{future::Future, panic::{catch_unwind, AssertUnwindSafe}, pin::Pin, task::{Context, Poll}};
    pub struct Catch<F>(Pin<Box<F>>);
    impl<F: Future> Future for Catch<F> { type Output = Result<F::Output, String>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { match catch_unwind(AssertUnwindSafe(|| self.0.as_mut().poll(cx))) { Ok(Poll::Ready(x)) => Poll::Ready(Ok(x)), Ok(Poll::Pending) => Poll::Pending, Err(_) => Poll::Ready(Err("panic".into())) } } }
    pub fn catch<F: Future>(f: F) -> Catch<F> { Catch(Box::pin(f)) }
}
async fn functions<T: Template>(t: &T) -> Vec<Part> {
    let mut v = vec![
        part!("axum into_response", axum(askama_axum::into_response(t)).await),
        part!("actix into_response", actix(askama_actix::into_response(t))),
        part!("rocket into_response", rocket(askama_rocket::into_response(t)).await),
        part!("rocket respond", match askama_rocket::respond(t) { Ok(r) => rocket(r).await, Err(s) => Seen { status: s.code, types: vec![], length: None, body: vec![] } }),
        part!("warp into_response", warp(askama_warp::into_response(t)).await),
    ];
    const E: Seen = Seen { status: 500, types: vec![], length: None, body: vec![] };
    v.push(part!("axum try_into_response", match askama_axum::try_into_response(t) { Ok(r) => axum(r).await, Err(_) => E }));
    v.push(part!("actix try_into_response", match askama_actix::try_into_response(t) { Ok(r) => actix(r), Err(_) => E }));
    v.push(part!("rocket try_into_response", match askama_rocket::try_into_response(t) { Ok(r) => rocket(r).await, Err(_) => E }));
    v.push(part!("warp try_into_response", match askama_warp::try_into_response(t) { Ok(r) => warp(r).await, Err(_) => E }));
    v
}
struct Rng(u64);
impl Rng { fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 } fn pick<'a, T>(&mut self, x: &'a [T]) -> &'a T { &x[self.next() as usize % x.len()] } }

#[tokio::main(flavor = "current_thread")]
async fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let n = if a[3] == "thorough" { 2000 } else { 250 };
    let mut g = Rng(a[2].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1); let mut r = Report { failures: vec![], n: 0, ok: 0, err: 0 };
    let big = "x<é".repeat(40000);
    let words = ["", "A1B2", "<b>", "é🦀", "{\"k\": 1}", "\r\n\r\n", "\0", "Hello, ", "&amp;", big.as_str()];
    let rk = askama_rocket::rocket::build(); let client = askama_rocket::rocket::local::asynchronous::Client::untracked(rk).await.unwrap();
    for i in 0..n {
        let ps: Vec<String> = (0..g.next() % 4).map(|_| if i % 50 == 0 { big.clone() } else { g.pick(&words[..9]).to_string() }).collect();
        let fail = (g.next() % 3) as u8 * (g.next() % 2) as u8;
        let text = ps.concat(); let shown = if text.len() > 300 { format!("{} bytes", text.len()) } else { format!("{ps:?}, fails: {fail}") };
        macro_rules! one { ($t:ident) => { let t = $t(ps.clone(), fail); let p = functions(&t).await; let want = if fail == 0 { Ok((text.clone(), <$t as Template>::MIME_TYPE)) } else { Err(()) }; r.check(stringify!($t), &shown, &text, &want, p); } }
        match i % 6 { 0 => { one!(H1); } 1 => { one!(H2); } 2 => { one!(H3); } 3 => { one!(H4); } 4 => { one!(H5); } _ => { one!(H6); } }
        let s = g.pick(&words).to_string(); let fail = g.next() % 2 == 0; let esc: String = s.chars().map(|c| match c { '<' => "&lt;".into(), '>' => "&gt;".into(), '&' => "&amp;".into(), '"' => "&quot;".into(), '\'' => "&#x27;".into(), c => c.to_string() }).collect();
        macro_rules! der { ($t:ident, $esc:expr, $mime:expr) => {
            let e = if $esc { &esc } else { &s }; let text = if stringify!($t) == "DCss" { format!("a {{ b: {s} }}") } else { format!("<{e}>{s}") };
            let want = if fail { Err(()) } else { Ok((text, $mime)) }; let mk = || $t { s: s.clone(), fail };
            let mut p = functions(&mk()).await;
            p.push(part!("axum IntoResponse", axum(askama_axum::axum_core::response::IntoResponse::into_response(mk())).await));
            p.push(part!("warp Reply", warp(askama_warp::warp::Reply::into_response(mk())).await));
            { use askama_actix::actix_web as aw; let rq = aw::HttpRequest::clone(&ACTIX.with(|q| q.clone())); p.push(part!("actix Responder", actix(aw::Responder::respond_to(mk(), &rq)))); }
            { use askama_rocket::rocket::response::Responder; let rq = client.get("/"); let x = mk(); p.push(part!("rocket Responder", match Responder::respond_to(x, rq.inner()) { Ok(q) => rocket(q).await, Err(s) => Seen { status: s.code, types: vec![], length: None, body: vec![] } })); }
            let shown = if s.len() > 300 { format!("{} bytes, fails: {fail}", s.len()) } else { format!("s = {s:?}, fails: {fail}") };
            r.check(stringify!($t), &shown, "<", &want, p);
        } }
        match i % 6 { 0 => { der!(DHtml, true, "text/html; charset=utf-8"); } 1 => { der!(DTxt, false, "text/plain; charset=utf-8"); } 2 => { der!(DXml, true, <DXml as Template>::MIME_TYPE); } 3 => { der!(DSvg, true, "image/svg+xml"); } 4 => { der!(DMd, false, <DMd as Template>::MIME_TYPE); } _ => { der!(DCss, false, "text/css; charset=utf-8"); } }
    }
    r.failures.sort_by_key(|f| f["input"]["value"].as_str().unwrap().len());
    r.failures.truncate(40);
    println!("{}", json!({"failures": r.failures, "coverage": {"responses": r.n, "of successful renderings": r.ok, "of failed renderings": r.err}, "errors": []}));
}
thread_local! { static ACTIX: askama_actix::actix_web::HttpRequest = askama_actix::actix_web::test::TestRequest::default().to_http_request(); }

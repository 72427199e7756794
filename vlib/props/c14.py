import re
from ..rsx import *
from ..verus import Unit
from ..rw import *
from ..common import run_harness
from .c13 import generated
G = 'askama_derive/src/generator.rs'
NOTE = ('into_response/try_into_response/respond of the four integrations and the impls generated for them are proved for every template: success has status 200, the rendered text and the MIME type; a failure has status 500 and a body that depends on the error only. '
        'Trusted: the response builders of http, axum-core, actix-web, rocket and warp by contract; MIME types are valid header values.')
SPEC = r'''
pub struct String { pub b: Ghost<Seq<u8>> }
pub struct Error { pub n: Ghost<int> }
pub uninterp spec fn error_text(e: Error) -> Seq<u8>;
pub uninterp spec fn valid_header(s: Seq<char>) -> bool;
pub open spec fn plain() -> Seq<char> { "text/plain; charset=utf-8"@ }
impl Error {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r.b@ == error_text(*self) { unimplemented!() }
    /// Error::Custom(x.into())
    #[verifier::external_body]
    pub fn custom(e: http::Error) -> (r: Self) { unimplemented!() }
}
impl String {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.b@.len() { unimplemented!() }
}
pub trait Template: Sized {
    spec fn text(&self) -> Seq<u8>;
    spec fn error(&self) -> Option<Error>;
    spec fn mime() -> Seq<char>;
    /// C13
    fn render(&self) -> (r: Result<String, Error>)
        ensures r.is_ok() <==> self.error() is None, r is Ok ==> (r->Ok_0).b@ == self.text(), r is Err ==> self.error() == Some(r->Err_0);
    fn MIME_TYPE_() -> (r: &'static str) ensures r@ == Self::mime(), valid_header(r@);
}
/// the parts of a response that C14 is about
pub struct Resp { pub status: Ghost<int>, pub ctype: Ghost<Option<Seq<char>>>, pub body: Ghost<Seq<u8>> }
pub open spec fn good<T: Template>(t: &T, r: Resp) -> bool { r.status@ == 200 && r.ctype@ == Some(T::mime()) && r.body@ == t.text() }
/// only the error determines the body
pub open spec fn bad(e: Error, r: Resp) -> bool { r.status@ == 500 && (r.body@ == error_text(e) || r.body@ == Seq::<u8>::empty()) }
pub open spec fn answered<T: Template>(t: &T, r: Resp) -> bool { match t.error() { None => good(t, r), Some(e) => bad(e, r) } }
pub mod http {
    use vstd::prelude::*; use super::*; use vstd::string::*;
    pub struct Error { pub n: Ghost<int> }
    pub struct StatusCode { pub n: u16 }
    impl StatusCode {
        pub fn OK() -> (r: Self) ensures r.n == 200 { StatusCode { n: 200 } }
        pub fn INTERNAL_SERVER_ERROR() -> (r: Self) ensures r.n == 500 { StatusCode { n: 500 } }
    }
    pub struct HeaderName { pub n: u8 }
    pub fn CONTENT_TYPE() -> (r: HeaderName) ensures r.n == 1 { HeaderName { n: 1 } }
    pub struct HeaderValue { pub s: Ghost<Seq<char>> }
    impl HeaderValue {
        /// panics where the value is not valid
        #[verifier::external_body]
        pub fn from_static(s: &'static str) -> (r: Self) requires valid_header(s@) ensures r.s@ == s@ { unimplemented!() }
    }
    /// values of headers: HeaderValue, or a text that is one
    pub trait Value: Sized { spec fn val(&self) -> Seq<char>; }
    impl Value for HeaderValue { open spec fn val(&self) -> Seq<char> { self.s@ } }
    impl Value for &'static str { open spec fn val(&self) -> Seq<char> { self@ } }
    /// http::response::Builder: status 200 and no headers at first
    pub struct Builder { pub status: Ghost<int>, pub ctype: Ghost<Option<Seq<char>>>, pub ok: Ghost<bool> }
    impl Builder {
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r.status@ == 200, r.ctype@ is None, r.ok@ { unimplemented!() }
        #[verifier::external_body]
        pub fn status(self, s: StatusCode) -> (r: Self) ensures r.status@ == s.n, r.ctype == self.ctype, r.ok == self.ok { unimplemented!() }
        #[verifier::external_body]
        pub fn header<V: Value>(self, k: HeaderName, v: V) -> (r: Self)
            ensures r.status == self.status, k.n == 1 && self.ctype@ is None ==> r.ctype@ == Some(v.val()), k.n != 1 ==> r.ctype == self.ctype, r.ok@ == (self.ok@ && valid_header(v.val()))
        { unimplemented!() }
        #[verifier::external_body]
        pub fn body(self, b: Body) -> (r: Result<Resp, Error>)
            ensures r is Ok <==> self.ok@, r is Ok ==> (r->Ok_0).status == self.status && (r->Ok_0).ctype == self.ctype && (r->Ok_0).body@ == b.b@
        { unimplemented!() }
    }
    pub struct Body { pub b: Ghost<Seq<u8>> }
    pub fn into_body(s: String) -> (r: Body) ensures r.b == s.b { Body { b: s.b } }
}
pub proof fn lemma_plain() ensures valid_header("text/plain; charset=utf-8"@) { admit(); }
/// axum_core: a pair of status and text, and results, as responses
pub struct ErrorResponse { pub r: Resp }
impl ErrorResponse {
    #[verifier::external_body]
    pub fn from(p: (http::StatusCode, String)) -> (r: Self) ensures r.r.status@ == p.0.n, r.r.body@ == p.1.b@ { unimplemented!() }
}
/// IntoResponse of a pair (status, text) and of Result<Response, ErrorResponse>
pub trait IntoResponse: Sized { spec fn resp(&self) -> Resp; fn into_response(self) -> (r: Resp) ensures r.status@ == self.resp().status@, r.ctype == self.resp().ctype, r.body == self.resp().body; }
impl IntoResponse for Result<Resp, ErrorResponse> {
    open spec fn resp(&self) -> Resp { match *self { Ok(r) => r, Err(e) => e.r } }
    #[verifier::external_body]
    fn into_response(self) -> (r: Resp) { unimplemented!() }
}
'''
ACTIX = r'''
/// actix_web: the builder starts with the status it is given; content_type sets the header
pub struct HttpResponseBuilder { pub status: Ghost<int>, pub ctype: Ghost<Option<Seq<char>>> }
impl HttpResponseBuilder {
    #[verifier::external_body]
    pub fn new(s: http::StatusCode) -> (r: Self) ensures r.status@ == s.n, r.ctype@ is None { unimplemented!() }
    #[verifier::external_body]
    pub fn content_type(&mut self, v: http::HeaderValue) -> (r: Self) ensures r.status == old(self).status, r.ctype@ == Some(v.s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn body(&mut self, b: String) -> (r: Resp) ensures r.status == old(self).status, r.ctype == old(self).ctype, r.body@ == b.b@ { unimplemented!() }
}
/// HttpResponse::from_error of an error whose ResponseError impl is the default one: status 500 and its Display text
#[verifier::external_body]
pub fn from_error(e: ActixError) -> (r: Resp) ensures r.status@ == 500, r.body@ == error_text(e.0) { unimplemented!() }
pub struct ActixError(pub Error);
'''
ROCKET = r'''
pub struct Cursor { pub b: Ghost<Seq<u8>> }
impl Cursor { #[verifier::external_body] pub fn new(s: String) -> (r: Self) ensures r.b == s.b { unimplemented!() } }
pub struct Header { pub k: Ghost<Seq<char>>, pub v: Ghost<Seq<char>> }
impl Header { #[verifier::external_body] pub fn new(k: &'static str, v: &'static str) -> (r: Self) ensures r.k@ == k@, r.v@ == v@ { unimplemented!() } }
pub struct Status { pub n: u16 }
impl Status { pub fn InternalServerError() -> (r: Self) ensures r.n == 500 { Status { n: 500 } } pub fn Ok() -> (r: Self) ensures r.n == 200 { Status { n: 200 } } }
/// rocket::response::Builder: status 200 unless set; sized_body takes the length of its cursor (a wrong one cuts the text)
pub struct RBuilder { pub status: Ghost<int>, pub ctype: Ghost<Option<Seq<char>>>, pub body: Ghost<Seq<u8>> }
pub fn build() -> (r: RBuilder) ensures r.status@ == 200, r.ctype@ is None, r.body@ == Seq::<u8>::empty() { RBuilder { status: Ghost(200), ctype: Ghost(None), body: Ghost(Seq::empty()) } }
impl RBuilder {
    #[verifier::external_body]
    pub fn status(&mut self, s: Status) -> (r: Self) ensures r.status@ == s.n, r.ctype == old(self).ctype, r.body == old(self).body { unimplemented!() }
    #[verifier::external_body]
    pub fn header(&mut self, h: Header) -> (r: Self) ensures r.status == old(self).status, r.body == old(self).body, h.k@ == "content-type"@ ==> r.ctype@ == Some(h.v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn sized_body(&mut self, n: usize, c: Cursor) -> (r: Self) requires n == c.b@.len() ensures r.status == old(self).status, r.ctype == old(self).ctype, r.body == c.b { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(&mut self) -> (r: Resp) ensures r.status == old(self).status, r.ctype == old(self).ctype, r.body == old(self).body { unimplemented!() }
}
'''
def common_fix(b):
    b = strip_comments(b)
    b = re.sub(r'\bT::MIME_TYPE\b', 'T::MIME_TYPE_()', b)
    b = re.sub(r'(?:\b\w+::)*\bStatusCode::(OK|INTERNAL_SERVER_ERROR)\b', r'http::StatusCode::\1()', b)
    b = re.sub(r'(?:\b\w+::)*\bheader::CONTENT_TYPE\b', 'http::CONTENT_TYPE()', b)
    b = re.sub(r'(?:\b\w+::)*\bHeaderValue::from_static\b', 'http::HeaderValue::from_static', b)
    b = re.sub(r'(?:\b\w+::)*\bStatus::(InternalServerError|Ok)\b', r'Status::\1()', b)
    b = re.sub(r'(?:\b\w+::)*\bHeader::new\b', 'Header::new', b)
    b = re.sub(r'(?:\b\w+::)*\bErrorResponse::from\b', 'ErrorResponse::from', b)
    b = re.sub(r'Error::Custom\((\w+)\.into\(\)\)', r'Error::custom(\1)', b)
    b = re.sub(r'(?:\b\w+::)*\bResponse::build\(\)', 'build()', b)
    b = re.sub(r'(?:\b\w+::)*\bResponse::builder\(\)', 'http::Builder::new()', b)
    b = re.sub(r'\bHttpResponse::from_error\b', 'from_error', b)
    b = method_calls(b, 'into', lambda e, a: f'http::into_body({e})')
    b = res_map_err(b)
    def uoe(e, a):
        p, x = closure(a[0]); return f'(match {e} {{ Ok(x__) => x__, Err({p}) => {x} }})'
    b = method_calls(b, 'unwrap_or_else', uoe)
    return b
def make(crate):
    def unit(repo):
        u = Unit('c14_' + crate); s = Src(repo, f'{crate}/src/lib.rs'); g = Src(repo, G)
        u.use('use vstd::string::*;'); u.raw(SPEC + (ACTIX if crate == 'askama_actix' else '') + (ROCKET if crate == 'askama_rocket' else ''))
        u.trust({'askama_axum': 'http::response::Builder and axum_core (IntoResponse of Result, ErrorResponse::from of a pair)', 'askama_actix': 'actix_web::HttpResponseBuilder, HttpResponse::from_error', 'askama_warp': 'http::response::Builder (warp)', 'askama_rocket': 'rocket::response::Builder, Cursor'}[crate] + ' by contract')
        u.trust('MIME types of templates, and the constant text/plain; charset=utf-8, are valid header values'); u.trust('Template::render by the contract proved for C13')
        if crate == 'askama_actix':
            if strip_comments(s.find(r'impl\s+ResponseError\s+for\s+ActixError').body).strip(): raise Lost('ActixError overrides ResponseError')
            d = strip_comments(s.find(r'impl\s+fmt::Display\s+for\s+ActixError').text)
            if not re.search(r'<Error as fmt::Display>::fmt\(&self\.0, \w+\)', d): raise Lost('Display for ActixError')
            if not re.search(r'struct\s+ActixError\(Error\)', strip_comments(s.text)): raise Lost('ActixError')
        fi = s.find(r'pub\s+fn\s+into_response<'); ft = s.find(r'pub\s+fn\s+try_into_response<')
        t = re.search(r'(\w+): &T', ft.head).group(1)
        u.fn(f'{crate}::try_into_response', ft, f'pub fn try_into_response<T: Template>({t}: &T) -> (r: Result<Resp, Error>)', common_fix(ft.body),
             ensures=[f'r is Ok ==> {t}.error() is None && good({t}, r->Ok_0)', f'r is Err ==> {t}.error() == Some(r->Err_0)'])
        t = re.search(r'(\w+): &T', fi.head).group(1); b = common_fix(fi.body)
        b = ' proof { lemma_plain(); }' + method_calls(b, 'unwrap', lambda e, a: f'(match {e} {{ Ok(x__) => x__, Err(_) => vstd::pervasive::unreached() }})')
        u.fn(f'{crate}::into_response', fi, f'pub fn into_response<T: Template>({t}: &T) -> (r: Resp)', b, ensures=[f'answered({t}, r)'])
        if crate == 'askama_rocket':
            f = s.find(r'pub\s+fn\s+respond<'); t = re.search(r'(\w+): &T', f.head).group(1)
            u.raw('/// what rocket answers: an error status has a body of its own')
            u.fn('askama_rocket::respond', f, f'pub fn respond<T: Template>({t}: &T) -> (r: Result<Resp, Status>)', common_fix(f.body), ensures=[f'r is Ok ==> {t}.error() is None && good({t}, r->Ok_0)', f'r is Err ==> {t}.error() is Some && (r->Err_0).n == 500'])
        # the impl that the derive macro generates
        nm = {'askama_axum': 'impl_axum_into_response', 'askama_actix': 'impl_actix_web_responder', 'askama_warp': 'impl_warp_reply', 'askama_rocket': 'impl_rocket_responder'}[crate]
        f = g.find(rf'fn\s+{nm}\b'); code = generated(strip_comments(f.body))
        gm = re.search(r'fn (into_response|respond_to)\(self\b[^{]*\{(.*)\}\s*\}\s*$', code, re.S)
        if not gm: raise Lost(nm)
        b = re.sub(rf'::{crate}::', '', gm.group(2))
        if crate == 'askama_rocket': u.fn('the generated Responder', f, 'fn gen_<T: Template>(this: T) -> (r: Result<Resp, Status>)', re.sub(r'\bself\b', 'this', b), ensures=['r is Ok ==> this.error() is None && good(&this, r->Ok_0)', 'r is Err ==> this.error() is Some && (r->Err_0).n == 500'])
        else: u.fn('the generated responder', f, 'fn gen_<T: Template>(this: T) -> (r: Resp)', re.sub(r'\bself\b', 'this', b), ensures=['answered(&this, r)'])
        u.drop('`?Sized`; paths of the web frameworks -> modules with their contracts; x.into() -> into_body(x); associated constants -> functions; map_err/unwrap_or_else/unwrap -> match; the text that the derive macro writes is the function verified')
        return u
    return unit
UNITS = [(c, make(c)) for c in ('askama_axum', 'askama_actix', 'askama_warp', 'askama_rocket')]
def companion(tier): return run_harness('web', 'C14', tier)

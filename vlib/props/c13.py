import re
from ..rsx import *
from ..verus import Unit
from ..rw import *
from .c01 import need_only
from .. import det
L = 'askama/src/lib.rs'; G = 'askama_derive/src/generator.rs'
NOTE = ('All entry points (render, write_into with its adapter, the impl for references, DynTemplate with its Display, and the generated Display) are proved against one contract of render_into, for every template, destination and point of failure. '
        'Trusted: fmt::Write/io::Write/String/Formatter by contract. That the generated render_into meets the contract is the subject of C02, C04 and C18.')
SPEC = r'''
pub mod fmt {
    use vstd::prelude::*; use vstd::string::*;
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    /// a destination of text: `failed` says that a write was refused
    pub trait Write {
        spec fn out(&self) -> Seq<u8>;
        spec fn failed(&self) -> bool;
        fn write_str(&mut self, s: &str) -> (r: Result)
            ensures r.is_err() ==> final(self).failed(), old(self).failed() ==> final(self).failed(),
                !old(self).failed() ==> (r.is_ok() <==> !final(self).failed()),
                r.is_ok() && !old(self).failed() ==> final(self).out() == old(self).out() + s.spec_bytes();
    }
    #[verifier::external_body]
    pub struct Formatter<'a> { s: &'a mut String }
    impl<'a> Formatter<'a> { pub uninterp spec fn bytes(&self) -> Seq<u8>; pub uninterp spec fn refused(&self) -> bool; }
    impl<'a> Write for Formatter<'a> {
        open spec fn out(&self) -> Seq<u8> { self.bytes() }
        open spec fn failed(&self) -> bool { self.refused() }
        #[verifier::external_body]
        fn write_str(&mut self, s: &str) -> (r: Result) { unimplemented!() }
    }
}
pub struct String { pub s: std::string::String }
pub uninterp spec fn bytes_of(s: std::string::String) -> Seq<u8>;
impl String {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.out() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r.out() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self).out() == old(self).out() { unimplemented!() }
    #[verifier::external_body]
    pub fn try_reserve(&mut self, n: usize) -> (r: core::result::Result<(), ()>) ensures final(self).out() == old(self).out() { unimplemented!() }
}
/// writing to a String never fails
impl fmt::Write for String {
    open spec fn out(&self) -> Seq<u8> { bytes_of(self.s) }
    open spec fn failed(&self) -> bool { false }
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: fmt::Result) { unimplemented!() }
}
pub mod io {
    use vstd::prelude::*;
    pub enum ErrorKind { Other, InvalidData, InvalidInput, WriteZero, Interrupted, UnexpectedEof }
    /// an error of the destination, or one that wraps an error of the template
    pub enum Error { Of(int), Wrap(super::Error) }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        #[verifier::external_body]
        pub fn new(k: ErrorKind, e: super::Error) -> (r: Self) ensures r == Error::Wrap(e) { unimplemented!() }
        #[verifier::external_body]
        pub fn other(e: super::Error) -> (r: Self) ensures r == Error::Wrap(e) { unimplemented!() }
    }
    pub trait Write {
        spec fn out(&self) -> Seq<u8>;
        spec fn failed(&self) -> Option<Error>;
        fn write_all(&mut self, b: &[u8]) -> (r: Result<()>)
            ensures r is Err ==> final(self).failed() == Some(r->Err_0), r is Ok ==> final(self).failed() == old(self).failed(),
                r.is_ok() && old(self).failed() is None ==> final(self).out() == old(self).out() + b@;
    }
}
pub struct Error { pub n: Ghost<int> }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
pub fn as_bytes(s: &str) -> (r: &[u8]) ensures r@ == s.spec_bytes() { unimplemented!() }
/// what a template amounts to: a text, or an error of one of its expressions
pub trait Outcome {
    spec fn text(&self) -> Seq<u8>;
    spec fn error(&self) -> Option<Error>;
    spec fn x_ext() -> Option<Seq<char>>; spec fn x_size() -> usize; spec fn x_mime() -> Seq<char>;
}
/// the contract of render_into: r and the destination before and after
pub open spec fn rendered<W: fmt::Write, T: Outcome + ?Sized>(t: &T, r: Result<()>, w0: W, w1: W) -> bool {
    (!w0.failed() ==> (r.is_ok() <==> t.error() is None && !w1.failed()))
    && (r.is_ok() && !w0.failed() ==> w1.out() == w0.out() + t.text())
    && (r is Err && !w0.failed() && !w1.failed() ==> t.error() == Some(r->Err_0))
}
pub open spec fn optview(o: Option<&'static str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
'''
def consts(b): return re.sub(r'\b(Self|T)::(EXTENSION|SIZE_HINT|MIME_TYPE)\b', lambda m: f'{m.group(1)}::{m.group(2)}_()', b)
def fix(b):
    b = consts(strip_comments(b)); b = re.sub(r'\bstd::io::', 'io::', b); b = re.sub(r'(?:::)?\bstd::fmt::', 'fmt::', b)
    b = re.sub(r'\bio::ErrorKind', 'io::ErrorKind', b)
    b = method_calls(b, 'as_bytes', lambda e, a: f'as_bytes({e})')
    b = res_map_err(b)
    def uoe(e, a):
        p, x = closure(a[0])
        if p: raise Lost('unwrap_or_else')
        return f'(match {e} {{ Some(x__) => x__, None => {x} }})'
    b = method_calls(b, 'unwrap_or_else', uoe)
    def qm(m):
        return m.group(0)
    return b
DOC = {'RENDER': ['r.is_ok() <==> self.error() is None', 'r is Ok ==> fmt::Write::out(&r->Ok_0) == self.text()', 'r is Err ==> self.error() == Some(r->Err_0)'],
       'WRITE': ['old({w}).failed() is None ==> (r.is_ok() <==> self.error() is None && final({w}).failed() is None)', 'old({w}).failed() is None && r.is_ok() ==> final({w}).out() == old({w}).out() + self.text()',
                 'old({w}).failed() is None && r is Err ==> (final({w}).failed() is Some ==> final({w}).failed() == Some(r->Err_0)) && (final({w}).failed() is None ==> r->Err_0 == io::Error::Wrap(self.error()->0))']}
def arg(f, i=1):
    m = re.findall(r'(\w+)\s*:\s*&mut', f.head)
    if not m: raise Lost(f.head)
    return m[0]
def unit(repo):
    u = Unit('c13'); s = Src(repo, L); g = Src(repo, G)
    u.use('use vstd::utf8::*; use vstd::string::*; use fmt::Write as _; use io::Write as _;')
    u.raw(SPEC); u.trust('fmt::Write, io::Write, fmt::Formatter by contract: a write either appends all of its bytes or reports an error; writing to a String never fails and reserving does not change it; io::Error::new wraps the error')
    ad = s.find(r'struct\s+IoAdapter')
    if not re.search(r"writer: &'a mut W,\s*error: Option<(std::)?io::Error>", strip_comments(ad.text)): raise Lost('IoAdapter')
    u.raw("pub struct IoAdapter<'a, W: io::Write> { pub writer: &'a mut W, pub error: Option<io::Error> }")
    im = s.find(r'impl<W:[^{;]*>\s*fmt::Write\s+for\s+IoAdapter')
    if need_only(im, ['write_str']) != {'write_str'}: raise Lost('IoAdapter overrides other methods of Write')
    f = im.sub(r'fn\s+write_str'); a = re.search(r'&mut self,\s*(\w+): &str', f.head).group(1)
    u.fn('IoAdapter::write_str', f, f'fn write_str(&mut self, {a}: &str) -> (r: fmt::Result)', fix(f.body),
         ensures=['old(self).well() ==> (*final(self)).well()', '*final(final(self).writer) == *final(old(self).writer)'], before='''impl<'a, W: io::Write> IoAdapter<'a, W> {
    /// the adapter remembers exactly the error of its destination
    pub open spec fn well(&self) -> bool { (*self.writer).failed() == self.error }
}
impl<'a, W: io::Write> fmt::Write for IoAdapter<'a, W> {
    open spec fn out(&self) -> Seq<u8> { (*self.writer).out() }
    open spec fn failed(&self) -> bool { (*self.writer).failed() is Some }''', after='}')
    # the trait
    tr = s.find(r'pub\s+trait\s+Template\b')
    ri = tr.sub(r'fn\s+render_into\b'); w = arg(ri)
    names = [x.head for x in tr.subs(r'fn\s+\w+')]
    f = tr.sub(r'fn\s+render\b'); wi = tr.sub(r'fn\s+write_into\b'); ww = arg(wi)
    u.raw(f'''pub trait Template: Outcome + Sized {{
    fn render_into<W: fmt::Write>(&self, {w}: &mut W) -> (r: Result<()>) ensures rendered(self, r, *old({w}), *final({w}));
    fn EXTENSION_() -> (r: Option<&'static str>) ensures optview(r) == Self::x_ext();
    fn SIZE_HINT_() -> (r: usize) ensures r == Self::x_size();
    fn MIME_TYPE_() -> (r: &'static str) ensures r@ == Self::x_mime();''')
    def try_(b): return b
    # an adapter passes on what its destination says: the generated code writes only through write_str, so an invariant of write_str is one of render_into
    u.fn('Template::render', f, 'fn render(&self) -> (r: Result<String>)', fix(f.body), ensures=DOC['RENDER'])
    b = fix(wi.body); b = re.sub(r'\.render_into\(&mut\s+(\w+)\)', r'.render_into_adapter_(&mut \1)', b)
    u.fn('Template::write_into', wi, f'fn write_into<W: io::Write>(&self, {ww}: &mut W) -> (r: io::Result<()>)', b, requires=[f'old({ww}).failed() is None'], ensures=[e.format(w=ww) for e in DOC['WRITE']],
         before='''    /// render_into for an adapter: as its destination is changed by write_str only, what write_str maintains holds afterwards
    #[verifier::external_body]
    fn render_into_adapter_<'a, W: io::Write>(&self, w: &mut IoAdapter<'a, W>) -> (r: Result<()>)
        requires old(w).well() ensures rendered(self, r, *old(w), *final(w)), final(w).well(), *final(final(w).writer) == *final(old(w).writer)
    { unimplemented!() }''', after='}')
    u.trust('a generic render_into changes its destination through write_str only, so what IoAdapter::write_str maintains (contract well(), proved) holds after render_into')
    # the impl for references
    im = s.find(r'impl<T:\s*Template[^{]*>\s*Template\s+for\s+&T')
    got = {re.match(r'(?:const|fn)\s+(\w+)', x.head.replace('pub ', '')).group(1): x for x in im.subs(r'(?:fn|const)\s+\w+')}
    need = {'render_into', 'EXTENSION', 'SIZE_HINT', 'MIME_TYPE'}
    if not need <= set(got): raise Lost('impl Template for &T')
    u.raw('''impl<'x, T: Outcome> Outcome for &'x T {
    open spec fn text(&self) -> Seq<u8> { (**self).text() }
    open spec fn error(&self) -> Option<Error> { (**self).error() }
    open spec fn x_ext() -> Option<Seq<char>> { T::x_ext() }
    open spec fn x_size() -> usize { T::x_size() }
    open spec fn x_mime() -> Seq<char> { T::x_mime() }
}
impl<'x, T: Template> Template for &'x T {''')
    for n, sig in (('render_into', "fn render_into<W: fmt::Write>(&self, {w}: &mut W) -> (r: Result<()>)"), ('render', 'fn render(&self) -> (r: Result<String>)'), ('write_into', "fn write_into<W: io::Write>(&self, {w}: &mut W) -> (r: io::Result<()>)")):
        if n not in got: continue
        f = got[n]; x = arg(f) if '{w}' in sig else ''
        u.fn(f'<&T as Template>::{n}', f, sig.format(w=x), fix(f.body), no_vacuity=True)
    for n, t in (('EXTENSION', "Option<&'static str>"), ('SIZE_HINT', 'usize'), ('MIME_TYPE', "&'static str")):
        c = got[n]; e = re.match(r'const\s+\w+\s*:[^=]*=\s*(.*);$', strip_comments(c.text).strip(), re.S).group(1)
        u.fn(f'<&T as Template>::{n}', c, f'fn {n}_() -> (r: {t})', consts(e), no_vacuity=True)
    extra = set(got) - need - {'render', 'write_into'}
    if extra: raise Lost(f'impl Template for &T: {extra}')
    u.raw('}')
    # the object-safe variants
    im = s.find(r'impl<T:\s*Template>\s*DynTemplate\s+for\s+T')
    u.raw('impl<T: Template> DynTemplate for T {}\npub trait DynTemplate: Template {')
    ens = {'dyn_render': DOC['RENDER'], 'dyn_render_into': ['rendered(self, r, *old({w}), *final({w}))'], 'dyn_write_into': DOC['WRITE'], 'extension': ['optview(r) == Self::x_ext()'], 'size_hint': ['r == Self::x_size()'], 'mime_type': ['r@ == Self::x_mime()']}
    sig = {'dyn_render': '(&self) -> (r: Result<String>)', 'dyn_render_into': '<W: fmt::Write>(&self, {w}: &mut W) -> (r: Result<()>)', 'dyn_write_into': '<W: io::Write>(&self, {w}: &mut W) -> (r: io::Result<()>)',
           'extension': "(&self) -> (r: Option<&'static str>)", 'size_hint': '(&self) -> (r: usize)', 'mime_type': "(&self) -> (r: &'static str)"}
    for n in sig:
        f = im.sub(rf'fn\s+{n}\b'); x = arg(f) if '{w}' in sig[n] else ''
        u.fn('DynTemplate::' + n, f, f'fn {n}' + sig[n].format(w=x), fix(f.body), requires=[f'old({x}).failed() is None'] if n == 'dyn_write_into' else [], ensures=[e.format(w=x) for e in ens[n]])
    u.raw('}')
    # Display of dyn DynTemplate, and the Display that is generated for every template
    im = s.find(r'impl\s+fmt::Display\s+for\s+dyn\s+DynTemplate'); f = im.sub(r'fn\s+fmt\b'); x = arg(f)
    shown = ['!old({w}).failed() ==> (r.is_ok() <==> self.error() is None && !final({w}).failed())', '!old({w}).failed() && r.is_ok() ==> final({w}).out() == old({w}).out() + self.text()']
    u.fn('<dyn DynTemplate as Display>::fmt', f, f"fn fmt_dyn<'f>(&self, {x}: &mut fmt::Formatter<'f>) -> (r: fmt::Result)", fix(f.body), ensures=[e.format(w=x) for e in shown], before='pub trait DynDisplay: DynTemplate { ', after='}')
    f = g.find(r'fn\s+impl_display\b'); code = generated(strip_comments(f.body))
    gm = re.search(r'fn fmt\(&self, (\w+): &mut ::std::fmt::Formatter(?:<\'_>)?\) -> ::std::fmt::Result \{(.*)\}\s*\}\s*$', code, re.S)
    if not gm: raise Lost('impl_display')
    x = gm.group(1); b = gm.group(2).replace('::askama::', '')
    u.fn('the generated Display::fmt', f, f"fn fmt_gen<'f>(&self, {x}: &mut fmt::Formatter<'f>) -> (r: fmt::Result)", fix(b), ensures=[e.format(w=x) for e in shown], before='pub trait GenDisplay: Template { ', after='}')
    u.drop('`?Sized`; `&mut dyn Write` -> generic writer; associated constants -> functions; String -> a type with the same operations; methods of `impl DynTemplate for T` as default methods of a trait over Template; `r.map_err(|p| b)`, `o.unwrap_or_else(|| b)` -> match; the text that impl_display writes is the function verified')
    return u
def generated(body):
    """the text that a sequence of buf.write(..)/buf.writeln(..) statements produces"""
    out = ''; m = mask(body); i = 0
    for mm in re.finditer(r'\bbuf\s*\.\s*write(ln)?\(', m):
        c = match_close(m, mm.end() - 1); a = body[mm.end():c].strip().rstrip(',')
        if a == 'CRATE': t = '::askama'
        else:
            g = re.match(r'^"(.*)"$', a, re.S)
            if not g or '{}' in a and False: raise Lost(f'write({a[:40]})')
            t = re.sub(r'\\\n\s*', '', g.group(1)).replace('\\"', '"').replace('\\\\', '\\')
        out += t + ('\n' if mm.group(1) else '')
    return out
UNITS = [('entry points', unit)]
def companion(tier): return det.c13(tier)

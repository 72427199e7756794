"""Whitespace control: split_ws_parts (parser) and visit_lit, flush_ws, prepare_ws, handle_ws, should_trim_ws (generator)."""
import re
from .rsx import *
from .rw import *
from . import gen, pre
from .verus import Unit

C = 'askama_derive/src/config.rs'; L = 'askama_parser/src/lib.rs'
SPEC = r'''
/// a piece of pending output: a character of the template, or an item that is written at run time
pub enum Piece<'a> { C(char), W(Writable<'a>) }
pub open spec fn cs<'a>(t: Seq<char>) -> Seq<Piece<'a>> { Seq::new(t.len(), |i: int| Piece::C(t[i])) }
pub open spec fn pieces<'a>(w: Writable<'a>) -> Seq<Piece<'a>> { match w { Writable::Lit(s) => cs(s@), _ => seq![Piece::W(w)] } }
pub open spec fn flat<'a>(v: Seq<Writable<'a>>) -> Seq<Piece<'a>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + pieces(v.last()) } }
proof fn flat_push<'a>(v: Seq<Writable<'a>>, w: Writable<'a>) ensures flat(v.push(w)) == flat(v) + pieces(w) { assert(v.push(w).drop_last() =~= v); }
proof fn cs_add(a: Seq<char>, b: Seq<char>) ensures cs::<'static>(a + b) =~= cs::<'static>(a) + cs::<'static>(b) {}
pub open spec fn is_blank(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub open spec fn blank(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> is_blank(#[trigger] t[i]) }
/// what becomes of the whitespace t
pub open spec fn effect(h: WhitespaceHandling, t: Seq<char>) -> Seq<char> {
    match h {
        WhitespaceHandling::Preserve => t,
        WhitespaceHandling::Suppress => Seq::empty(),
        WhitespaceHandling::Minimize => if t.len() == 0 { t } else if t.contains('\n') { seq!['\n'] } else { seq![' '] },
    }
}
proof fn blank_effect(h: WhitespaceHandling, t: Seq<char>) requires blank(t) ensures blank(effect(h, t)) {}
/// the demand of a marker, or of the default
pub open spec fn demand(m: Option<Whitespace>, d: WhitespaceHandling) -> WhitespaceHandling {
    match m { Some(Whitespace::Preserve) => WhitespaceHandling::Preserve, Some(Whitespace::Suppress) => WhitespaceHandling::Suppress, Some(Whitespace::Minimize) => WhitespaceHandling::Minimize, None => d }
}
pub open spec fn stronger(a: WhitespaceHandling, b: WhitespaceHandling) -> WhitespaceHandling {
    if a == WhitespaceHandling::Suppress || b == WhitespaceHandling::Suppress { WhitespaceHandling::Suppress }
    else if a == WhitespaceHandling::Minimize || b == WhitespaceHandling::Minimize { WhitespaceHandling::Minimize } else { WhitespaceHandling::Preserve }
}
impl<'a> Generator<'a> {
    pub open spec fn default_(&self) -> WhitespaceHandling { self.input.config.whitespace }
    /// the pending whitespace
    pub open spec fn pending(&self) -> Seq<char> { match self.next_ws { Some(t) => t@, None => Seq::empty() } }
    pub open spec fn inv(&self) -> bool { !self.buf_writable.discard && (@STRICT@ && self.next_ws is Some ==> self.skip_ws != WhitespaceHandling::Suppress) && blank(self.pending()) }
    pub open spec fn frame(&self, o: &Self) -> bool { self.input == o.input && !self.buf_writable.discard }
    /// self is o after the text t became output
    pub open spec fn emitted(&self, o: &Self, t: Seq<char>) -> bool { flat(self.buf_writable.buf@) =~= flat(o.buf_writable.buf@) + cs(t) }
}
impl<'a> Lit<'a> {
    /// what the parser makes of a text
    pub open spec fn of(&self, t: Seq<char>) -> bool {
        t =~= self.lws@ + self.val@ + self.rws@ && blank(self.lws@) && blank(self.rws@)
        && (if self.val@.len() == 0 { self.rws@.len() == 0 } else { !is_blank(self.val@[0]) && !is_blank(self.val@.last()) })
    }
    pub open spec fn wf(&self) -> bool { blank(self.lws@) && blank(self.rws@) && (self.val@.len() == 0 ==> self.rws@.len() == 0) }
}
#[verifier::external_body]
pub fn contains_char(s: &str, c: char) -> (r: bool) ensures r <==> s@.contains(c) { s.contains(c) }
'''
CLIENT = r'''
/// what the tag makes of whitespace before it
pub open spec fn before_(g: &Generator, m: Option<Whitespace>) -> Seq<char> { effect(stronger(demand(m, g.default_()), g.skip_ws), g.pending()) }
/// C03: text t between two tags
pub fn between_tags<'a>(g: &mut Generator<'a>, left: Ws, t: &'a Lit<'a>, right: Ws, Ghost(text): Ghost<Seq<char>>)
    requires old(g).inv(), t.of(text)
    ensures
        final(g).inv(), final(g).next_ws is None,
        t.val@.len() > 0 ==> final(g).emitted(old(g), before_(old(g), left.0) + effect(demand(left.1, old(g).default_()), t.lws@) + t.val@ + effect(demand(right.0, old(g).default_()), t.rws@)),
        t.val@.len() == 0 ==> final(g).emitted(old(g), before_(old(g), left.0) + effect(stronger(demand(left.1, old(g).default_()), demand(right.0, old(g).default_())), text)),
{
    g.flush_ws(left);
    let ghost g1 = *g;
    let ghost before = before_(old(g), left.0);
    g.prepare_ws(left);
    g.visit_lit(t);
    let ghost g2 = *g;
    g.flush_ws(right);
    let ghost g3 = *g;
    g.prepare_ws(right);
    proof {
        let d = old(g).default_(); let l = demand(left.1, d); let r = demand(right.0, d);
        assert(effect(stronger(r, WhitespaceHandling::Preserve), t.rws@) == effect(r, t.rws@));
        if t.val@.len() > 0 {
            cs_add(before, effect(l, t.lws@)); cs_add(before + effect(l, t.lws@), t.val@); cs_add(before + effect(l, t.lws@) + t.val@, effect(r, t.rws@));
            cs_add(effect(l, t.lws@), t.val@);
            assert(g.emitted(old(g), before + effect(l, t.lws@) + t.val@ + effect(r, t.rws@)));
        } else {
            assert(text =~= t.lws@);
            let e = effect(stronger(l, r), text);
            cs_add(before, e);
            assert(g.emitted(old(g), before + e));
        }
    }
}
'''
WEAK = r'''
/// the characters of pieces that are characters
pub open spec fn chars<'a>(p: Seq<Piece<'a>>) -> Seq<char> { Seq::new(p.len(), |i: int| match p[i] { Piece::C(c) => c, _ => 'x' }) }
/// what was added to the output before the last n characters
pub open spec fn added<'a>(o: &Generator<'a>, g: &Generator<'a>, n: int) -> Seq<char> { chars(flat(g.buf_writable.buf@).subrange(flat(o.buf_writable.buf@).len() as int, flat(g.buf_writable.buf@).len() - n)) }
/// g is o after the text v, and nothing else but whitespace before it, became output
pub open spec fn kept<'a>(o: &Generator<'a>, g: &Generator<'a>, v: Seq<char>) -> bool { flat(g.buf_writable.buf@).len() >= flat(o.buf_writable.buf@).len() + v.len() && blank(added(o, g, v.len() as int)) && g.emitted(o, added(o, g, v.len() as int) + v) }
'''
WEAK_CLIENT = r'''
/// C04: a text between two tags loses nothing but whitespace at its ends, and nothing else but whitespace is added
pub fn text_stays<'a>(g: &mut Generator<'a>, left: Ws, t: &'a Lit<'a>, right: Ws, Ghost(text): Ghost<Seq<char>>)
    requires old(g).inv(), t.of(text)
    ensures final(g).inv(), exists|b: Seq<char>, a: Seq<char>| #![auto] blank(b) && blank(a) && final(g).emitted(old(g), b + t.val@ + a)
{
    let ghost g0 = *g; g.flush_ws(left); let ghost g1 = *g; g.prepare_ws(left); g.visit_lit(t); let ghost g2 = *g; g.flush_ws(right); let ghost g3 = *g; g.prepare_ws(right);
    proof {
        let b1 = added(&g0, &g1, 0); let b2 = added(&g1, &g2, t.val@.len() as int); let a = added(&g2, &g3, 0);
        assert(b1 + Seq::<char>::empty() =~= b1); assert(a + Seq::<char>::empty() =~= a);
        cs_add(b1, b2); cs_add(b2, t.val@); cs_add(b1 + b2, t.val@); cs_add(b1 + b2 + t.val@, a);
        assert(blank(b1 + b2));
        assert(flat(g.buf_writable.buf@) =~= flat(g0.buf_writable.buf@) + (cs(b1) + (cs(b2) + cs(t.val@)) + cs(a)));
        assert(g.emitted(&g0, (b1 + b2) + t.val@ + a));
    }
}
'''
PARSE = r'''
/// s[..n], n bytes, where n is the length of the first k characters
#[verifier::external_body]
pub fn front<'a>(s: &'a str, n: usize, Ghost(k): Ghost<int>) -> (r: &'a str) requires 0 <= k <= s@.len(), n == blen(s@.subrange(0, k)) ensures r@ == s@.subrange(0, k) { &s[..n] }
#[verifier::external_body]
pub fn back<'a>(s: &'a str, n: usize, Ghost(k): Ghost<int>) -> (r: &'a str) requires 0 <= k <= s@.len(), n == blen(s@.subrange(0, k)) ensures r@ == s@.skip(k) { &s[n..] }
/// number of bytes
pub open spec fn blen(s: Seq<char>) -> int { encode_utf8(s).len() as int }
#[verifier::external_body]
pub fn len_(s: &str) -> (r: usize) ensures r == blen(s@) { s.len() }
/// str::trim_start_matches, trim_end_matches with is_ws
#[verifier::external_body]
pub fn trim_start_ws<'a>(s: &'a str) -> (r: &'a str)
    ensures exists|k: int| #[trigger] cut_at(s@, r@, k), r@.len() > 0 ==> !is_blank(r@[0])
{ unimplemented!() }
pub open spec fn cut_at(s: Seq<char>, r: Seq<char>, k: int) -> bool { 0 <= k <= s.len() && r == s.skip(k) && blank(s.subrange(0, k)) }
pub open spec fn cut_end(s: Seq<char>, r: Seq<char>, k: int) -> bool { 0 <= k <= s.len() && r == s.subrange(0, k) && blank(s.skip(k)) }
#[verifier::external_body]
pub fn trim_end_ws<'a>(s: &'a str) -> (r: &'a str)
    ensures exists|k: int| #[trigger] cut_end(s@, r@, k), r@.len() > 0 ==> !is_blank(r@.last())
{ unimplemented!() }
'''
def enum(repo, f, name, want):
    s = Src(repo, f); e = s.find(rf'enum\s+{name}\b'); b = re.sub(r'#\[[^\]]*\]', '', strip_comments(e.body))
    v = [x.strip() for x in b.split(',') if x.strip()]
    if sorted(v) != sorted(want): raise Lost(f'{name}: {v}')
    return f'#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub enum {name} {{ {", ".join(v)} }}\n'
def field(repo, f, struct, name, ty):
    b = re.sub(r'\s+', ' ', strip_comments(Src(repo, f).find(rf'struct\s+{struct}\b').text))
    if not re.search(rf'\b{name}: {ty}\s*[,}}]', b): raise Lost(f'{struct}.{name}')
def unit(repo, pid):
    u = Unit('ws_' + pid.lower()); s = Src(repo, gen.G); n = Src(repo, gen.N)
    u.use('use vstd::utf8::*; use vstd::string::*;')
    field(repo, gen.G, 'Generator', 'next_ws', "Option<&'a str>"); field(repo, gen.G, 'Generator', 'skip_ws', 'WhitespaceHandling'); field(repo, gen.G, 'Generator', 'buf_writable', "WritableBuffer<'a>")
    field(repo, gen.G, 'Generator', 'input', "&'a TemplateInput<'a>"); field(repo, C, 'Config', 'whitespace', 'WhitespaceHandling')
    for x in ('lws', 'val', 'rws'): field(repo, gen.N, 'Lit', x, "&'a str")
    field(repo, gen.N, 'Comment', 'ws', 'Ws')
    if not re.search(r'struct Ws\(pub Option<Whitespace>, pub Option<Whitespace>\);', n.text): raise Lost('Ws')
    u.raw(enum(repo, gen.N, 'Whitespace', ('Preserve', 'Suppress', 'Minimize')) + enum(repo, C, 'WhitespaceHandling', ('Preserve', 'Suppress', 'Minimize'))
          + '#[derive(Clone, Copy)]\npub struct Ws(pub Option<Whitespace>, pub Option<Whitespace>);\npub struct Comment<\'a> { pub ws: Ws, pub content: &\'a str }\n'
          + "pub struct Lit<'a> { pub lws: &'a str, pub val: &'a str, pub rws: &'a str }\npub struct Config { pub whitespace: WhitespaceHandling }\npub struct TemplateInput<'a> { pub config: &'a Config }\n"
          + writable(repo) + "pub struct Generator<'a> { pub input: &'a TemplateInput<'a>, pub next_ws: Option<&'a str>, pub skip_ws: WhitespaceHandling, pub buf_writable: WritableBuffer<'a> }\n"
          + '#[verifier::external_body]\npub fn str_empty(a: &str) -> (r: bool) ensures r <==> a@.len() == 0 { a.is_empty() }\n' + SPEC.replace('@STRICT@', 'true' if pid == 'C03' else 'false') + PARSE)
    u.drop('only the fields of Generator, TemplateInput and Config that whitespace control touches are kept; s.contains(c), s.is_empty() on str -> functions with contracts')
    u.trust('str: contains, is_empty, len, trim_start_matches and trim_end_matches (by character class), and slices at character boundaries by contract')
    # parser
    f = Src(repo, L).find(r'fn\s+is_ws\b'); a = re.search(r'\((\w+): char\)', f.head).group(1)
    u.fn('is_ws', f, f'pub fn is_ws({a}: char) -> (r: bool)', strip_comments(f.body), ensures=[f'r <==> is_blank({a})'])
    f = n.find(r'impl<\'a>\s+Lit<\'a>').sub(r'fn\s+split_ws_parts\b'); a = re.search(r"\((\w+): &'a str\)", f.head).group(1); b = strip_comments(f.body)
    b = method_calls(b, 'trim_start_matches', lambda e, x: f'trim_start_ws({e})' if x == ['is_ws'] else None)
    b = method_calls(b, 'trim_end_matches', lambda e, x: f'trim_end_ws({e})' if x == ['is_ws'] else None)
    b = re.sub(r'&(\w+)\[\.\.(\w+)\]', rf'front(\1, \2, Ghost(\1@.len() - st_))', b)
    b = re.sub(r'&(\w+)\[(\w+)\.len\(\)\.\.\]', r'back(\1, \2.len(), Ghost(\2@.len() as int))', b)
    b = re.sub(r'\b(\w+)\.len\(\)(?=[^ ]|\s|;)', r'len_(\1)', b)
    g = re.search(r'let (\w+) = trim_start_ws\(\w+\);', b); h = re.search(r'let (\w+) = trim_end_ws\((\w+)\);', b)
    if not g or not h or h.group(2) != g.group(1): raise Lost('split_ws_parts')
    ts, tr = g.group(1), h.group(1)
    b = b[:g.end()] + f' let ghost st_ = {ts}@.len(); proof {{ let k = choose|k: int| #[trigger] cut_at({a}@, {ts}@, k); encode_utf8_concat({a}@.subrange(0, k), {a}@.skip(k)); assert({a}@.subrange(0, k) + {a}@.skip(k) =~= {a}@); assert(k == {a}@.len() - st_); }}' + b[g.end():]
    h = re.search(r'let (\w+) = trim_end_ws\((\w+)\);', b)
    b = b[:h.end()] + f''' proof {{ let k = choose|k: int| #[trigger] cut_end({ts}@, {tr}@, k); assert(k == {tr}@.len()); let j = choose|j: int| #[trigger] cut_at({a}@, {ts}@, j); assert(j == {a}@.len() - st_);
        assert({a}@ =~= {a}@.subrange(0, j) + ({ts}@.subrange(0, k) + {ts}@.skip(k)));
        if {tr}@.len() > 0 {{ assert({tr}@[0] == {ts}@[0]); }} else if {ts}@.len() > 0 {{ assert({ts}@.skip(0)[0] == {ts}@[0]); }} }}''' + b[h.end():]
    u.fn('Lit::split_ws_parts', f, f"pub fn split_ws_parts({a}: &'a str) -> (r: Self)", b, ensures=[f'r.of({a}@)'], before="impl<'a> Lit<'a> {", after='}')
    # generator
    f = s.find(r"impl<'a>\s+WritableBuffer<'a>").sub(r'fn\s+push\b'); a = re.search(r"(\w+): Writable<'a>", f.head).group(1)
    u.fn('WritableBuffer::push', f, f"pub fn push(&mut self, {a}: Writable<'a>)", f' proof {{ flat_push(self.buf@, {a}); }}' + strip_comments(f.body), ensures=['final(self).discard == old(self).discard', f'old(self).discard ==> *final(self) == *old(self)', f'!old(self).discard ==> final(self).buf@ == old(self).buf@.push({a}) && flat(final(self).buf@) == flat(old(self).buf@) + pieces({a})'], before="impl<'a> WritableBuffer<'a> {", after='}')
    im = s.find(r"impl<'a>\s+Generator<'a>")
    def body(name):
        f = im.sub(rf'fn\s+{name}\b'); b = strip_comments(f.body)
        b = method_calls(b, 'contains', lambda e, x: f'contains_char({e}, {x[0]})' if x and x[0].startswith("'") else None)
        b = re.sub(r'\b((?:lit\.)?(?:val|lws|rws))\.is_empty\(\)', r'str_empty(\1)', b)
        b = re.sub(r'\bassert!\(', 'runtime_assert(', b)
        b = ' proof { reveal_strlit("\\n"); reveal_strlit(" "); assert("\\n"@ =~= seq![\'\\n\']); assert(" "@ =~= seq![\' \']); }' + b
        return f, b
    u.raw('/// panics unless the condition holds\npub fn runtime_assert(c: bool) requires c {}')
    I = "impl<'a> Generator<'a> {"
    f, b = body('should_trim_ws'); a = re.search(r'(\w+): Option<Whitespace>', f.head).group(1)
    fn = {n: body(n) for n in ('should_trim_ws', 'flush_ws', 'prepare_ws', 'handle_ws', 'visit_lit', 'write_comment')}
    A = {n: re.search(rf'(\w+): {ty}', fn[n][0].head).group(1) for n, ty in (('should_trim_ws', 'Option<Whitespace>'), ('flush_ws', 'Ws'), ('prepare_ws', 'Ws'), ('handle_ws', 'Ws'), ('visit_lit', "&'a Lit<"), ('write_comment', "&'a Comment<"))}
    T = {'should_trim_ws': '&self, {}: Option<Whitespace>) -> (r: WhitespaceHandling', 'flush_ws': '&mut self, {}: Ws', 'prepare_ws': '&mut self, {}: Ws', 'handle_ws': '&mut self, {}: Ws', 'visit_lit': "&mut self, {}: &'a Lit<'a>", 'write_comment': "&mut self, {}: &'a Comment<'a>"}
    strict = pid == 'C03'
    if not strict: u.raw(WEAK)
    def put(n, requires=(), ensures=(), end='', **kw):
        a = A[n]; q = lambda l: [x.replace('@A@', a) for x in l]
        u.fn(n, fn[n][0], f'pub fn {n}(' + T[n].format(a) + ')', fn[n][1] + end.replace('@A@', a), requires=q(requires), ensures=q(ensures), **kw)
    FR = ['final(self).inv()', 'final(self).frame(old(self))']
    eff = lambda m: f'effect(stronger(demand({m}, old(self).default_()), old(self).skip_ws), old(self).pending())'
    if strict:
        put('should_trim_ws', ensures=['r == demand(@A@, self.default_())'], before=I)
        put('flush_ws', ['old(self).inv()'], FR + ['final(self).next_ws is None', 'final(self).skip_ws == old(self).skip_ws', f'final(self).emitted(old(self), {eff("@A@.0")})'],
            end=f' proof {{ assert(flat(self.buf_writable.buf@) =~= flat(old(self).buf_writable.buf@) + cs({eff("@A@.0")})); }}')
        put('prepare_ws', ['old(self).inv()', 'old(self).next_ws is None'], FR + ['final(self).next_ws is None', 'final(self).buf_writable == old(self).buf_writable', 'final(self).skip_ws == demand(@A@.1, old(self).default_())'])
        put('handle_ws', ['old(self).inv()'], FR + ['final(self).next_ws is None', 'final(self).skip_ws == demand(@A@.1, old(self).default_())', f'final(self).emitted(old(self), {eff("@A@.0")})'])
        put('visit_lit', ['old(self).inv()', 'old(self).next_ws is None', '@A@.wf()'],
            FR + ['@A@.val@.len() > 0 ==> final(self).emitted(old(self), effect(old(self).skip_ws, @A@.lws@) + @A@.val@) && final(self).pending() == @A@.rws@ && final(self).skip_ws == WhitespaceHandling::Preserve',
                  '@A@.val@.len() == 0 ==> final(self).emitted(old(self), Seq::empty()) && final(self).skip_ws == old(self).skip_ws && effect(old(self).skip_ws, final(self).pending()) == effect(old(self).skip_ws, @A@.lws@) && (old(self).skip_ws != WhitespaceHandling::Suppress ==> final(self).pending() == @A@.lws@)'],
            end=""" proof { let e = effect(old(self).skip_ws, @A@.lws@); cs_add(e, @A@.val@); assert(Seq::<Piece<'a>>::empty() =~= cs::<'a>(Seq::empty()));
                assert(flat(self.buf_writable.buf@) =~= flat(old(self).buf_writable.buf@) + (if @A@.val@.len() > 0 { cs(e) + cs(@A@.val@) } else { cs(Seq::<char>::empty()) })); }""")
        put('write_comment', ['old(self).inv()'], FR + ['final(self).next_ws is None', 'final(self).skip_ws == demand(@A@.ws.1, old(self).default_())', f'final(self).emitted(old(self), {eff("@A@.ws.0")})'], after='}')
        u.raw(CLIENT, lemmas=['between_tags'])
    else:
        K = 'kept(old(self), &*final(self), Seq::empty())'
        hint = lambda v: f""" proof {{ let n = {v}.len() as int; let t = added(old(self), &*self, n); assert(t + {v} =~= chars(flat(self.buf_writable.buf@).skip(flat(old(self).buf_writable.buf@).len() as int))); assert(flat(self.buf_writable.buf@) =~= flat(old(self).buf_writable.buf@) + cs(t + {v})); }}"""
        put('should_trim_ws', before=I)
        put('flush_ws', ['old(self).inv()'], FR + ['final(self).next_ws is None', K], end=hint('Seq::<char>::empty()'))
        put('prepare_ws', ['old(self).inv()'], FR + ['final(self).next_ws == old(self).next_ws', 'final(self).buf_writable == old(self).buf_writable'])
        put('handle_ws', ['old(self).inv()'], FR + ['final(self).next_ws is None', K])
        put('visit_lit', ['old(self).inv()', 'old(self).next_ws is None', '@A@.wf()'], FR + ['kept(old(self), &*final(self), @A@.val@)'], end=hint('@A@.val@'))
        put('write_comment', ['old(self).inv()'], FR + ['final(self).next_ws is None', K], after='}')
        u.raw(WEAK_CLIENT, lemmas=['text_stays'])
    return u
def writable(repo):
    s = Src(repo, gen.G); e = s.find(r"enum\s+Writable\b"); b = re.sub(r'\s+', ' ', strip_comments(e.body)).strip().rstrip(',').strip()
    if b != "Lit(&'a str), Expr(&'a Expr<'a>), Generated(String, DisplayWrap)": raise Lost('Writable: ' + b)
    w = re.sub(r'\s+', ' ', strip_comments(s.find(r'struct\s+WritableBuffer\b').body)).strip().rstrip(',').strip()
    if w != "buf: Vec<Writable<'a>>, discard: bool": raise Lost('WritableBuffer: ' + w)
    d = re.sub(r'\s+', ' ', strip_comments(s.find(r'enum\s+DisplayWrap\b').body)).strip().rstrip(',').strip()
    if d != 'Wrapped, Unwrapped': raise Lost('DisplayWrap: ' + d)
    return gen.expr_types(repo) + "#[derive(Clone, Copy)]\npub enum DisplayWrap { Wrapped, Unwrapped }\npub enum Writable<'a> { Lit(&'a str), Expr(&'a Expr<'a>), Generated(String, DisplayWrap) }\npub struct WritableBuffer<'a> { pub buf: Vec<Writable<'a>>, pub discard: bool }\n"

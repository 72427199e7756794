import re
from ..rsx import *
from ..verus import Unit
from .. import pre
from ..common import run_harness

F = 'askama_escape/src/lib.rs'
ASSUMED = ['core::fmt drives a writer only through write_str (write_char, write_fmt default methods)']

SPEC = r'''
pub open spec fn esc1(b: u8) -> Seq<u8> {
    if b == 0x3c { "&lt;".spec_bytes() }
    else if b == 0x3e { "&gt;".spec_bytes() }
    else if b == 0x26 { "&amp;".spec_bytes() }
    else if b == 0x22 { "&quot;".spec_bytes() }
    else if b == 0x27 { "&#x27;".spec_bytes() }
    else { seq![b] }
}
pub open spec fn special(b: u8) -> bool { b == 0x3c || b == 0x3e || b == 0x26 || b == 0x22 || b == 0x27 }
/// the HTML form of a text, byte by byte
pub open spec fn html(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { html(s.drop_last()) + esc1(s.last()) }
}
pub proof fn html_law(a: Seq<u8>, b: Seq<u8>)
    ensures html(a + b) == html(a) + html(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(html(a) + html(b) =~= html(a)); }
    else {
        html_law(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(html(a + b) =~= html(a) + html(b));
    }
}
pub open spec fn entry(b: u8) -> Option<&'static &'static str> {
    if b == 0x3c { Some(&"&lt;") }
    else if b == 0x3e { Some(&"&gt;") }
    else if b == 0x26 { Some(&"&amp;") }
    else if b == 0x22 { Some(&"&quot;") }
    else if b == 0x27 { Some(&"&#x27;") }
    else { None }
}
pub proof fn lemma_plain(s: Seq<u8>, a: int, b: int)
   requires 0 <= a <= b <= s.len(), forall|k: int| a <= k < b ==> !special(#[trigger] s[k])
   ensures html(s.subrange(0, b)) == html(s.subrange(0, a)) + s.subrange(a, b)
   decreases b - a
{
    if a < b {
        lemma_plain(s, a, b - 1);
        assert(s.subrange(0, b).drop_last() =~= s.subrange(0, b - 1));
        assert(s.subrange(a, b) =~= s.subrange(a, b - 1) + seq![s[b-1]]);
        assert(html(s.subrange(0, b)) =~= html(s.subrange(0, a)) + s.subrange(a, b));
    } else {
        assert(s.subrange(a, b) =~= Seq::<u8>::empty());
        assert(html(s.subrange(0, b)) =~= html(s.subrange(0, a)) + s.subrange(a, b));
    }
}
pub proof fn lemma_step(s: Seq<u8>, i: int)
   requires 0 <= i < s.len()
   ensures html(s.subrange(0, i + 1)) == html(s.subrange(0, i)) + esc1(s[i])
{
    assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i));
}
pub trait Escaper {
    /// what the escaper makes of a text; it may be applied piecewise
    spec fn esc(&self, s: Seq<u8>) -> Seq<u8>;
    proof fn esc_law(&self, a: Seq<u8>, b: Seq<u8>) ensures self.esc(a + b) == self.esc(a) + self.esc(b);
    fn write_escaped<W: Write>(&self, fmt: &mut W, string: &str) -> (r: fmt::Result)
       ensures r.is_ok() ==> final(fmt).out() == old(fmt).out() + old(fmt).img(self.esc(string.spec_bytes())),
            forall|x: Seq<u8>| final(fmt).img(x) == old(fmt).img(x),
            forall|o: &W| old(fmt).frame(o) ==> final(fmt).frame(o);
}
'''

def need_only(item, names):
    """the methods of an impl are exactly these"""
    got = {re.search(r'fn\s+(\w+)', i.head).group(1) for i in item.subs(r'(?:pub\s+)?fn\s+\w+')}
    depth0 = set()
    for i in item.subs(r'(?:pub\s+)?fn\s+\w+'): depth0.add(re.search(r'fn\s+(\w+)', i.head).group(1))
    if not set(names) <= got: raise Lost(f'{item.head}: methods {got}')
    return got

def hoist_consts(body, fn_ensures):
    """`const X: T = e;` -> module level; with a block initialiser -> `fn X()` with an `ensures`, its uses -> calls"""
    out = []
    while True:
        m = mask(body)
        mm = re.search(r'\bconst\s+(\w+)\s*:', m)
        if not mm: break
        # type up to `=` outside brackets
        j = mm.end()
        while m[j] != '=':
            if m[j] in '([{': j = match_close(m, j)
            j += 1
        k = j
        while m[k] != ';':
            if m[k] in '([{': k = match_close(m, k)
            k += 1
        name, ty, init = mm.group(1), body[mm.end():j].strip(), body[j+1:k].strip()
        body = body[:mm.start()] + body[k+1:]
        if '[' in ty:
            ty2 = re.sub(r'&&', "&'static &'static ", ty); ty2 = re.sub(r'&(?!\'static)', "&'static ", ty2)
            ens = fn_ensures
            out.append(f'pub fn {name}() -> (t: {ty2})\n  ensures {ens}\n{{ {init} }}')
            body = re.sub(rf'\b{name}\b', f'{name}()', body)
        else: out.append(f'pub const {name}: {ty} = {init};')
    return body, '\n'.join(out)

def enum_bytes_loop(body, proof_start, inv):
    """`for (i, b) in s.bytes().enumerate() {` -> `while` over s.as_bytes() with the same bindings"""
    m = mask(body)
    loops = list(re.finditer(r'for\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s*([\w.()]+?)\.(bytes|iter)\(\)\.enumerate\(\)\s*\{', m))
    if len(loops) != 1 or len(loop_positions(body)) != 1: raise Lost('not one loop over the enumerated bytes')
    l = loops[0]; i, b, s, how = l.groups()
    src = f'{s}.as_bytes()' if how == 'bytes' else s
    elem = 'bytes_[index_]' if how == 'bytes' else '&bytes_[index_]'
    new = (f'let bytes_ = {src}; let mut index_: usize = 0;\n while index_ < bytes_.len()\n{inv}\n decreases bytes_.len() - index_\n'
           f'{{ let {i} = index_; let {b} = {elem}; {proof_start} index_ += 1;')
    return body[:l.start()] + new + body[l.end():]

def unit(repo):
    u = Unit('c01'); s = Src(repo, F)
    u.use(pre.USES); u.raw(pre.STR + pre.BOUNDARY + pre.FMT + SPEC)
    u.trust(pre.STR_TRUST); u.trust(pre.FMT_TRUST)
    # Html
    imp = s.find(r'impl\s+Escaper\s+for\s+Html\b'); need_only(imp, ['write_escaped'])
    f = imp.sub(r'fn\s+write_escaped')
    if 'mut fmt: W' not in f.head or 'string: &str' not in f.head: raise Lost('signature of write_escaped: ' + f.head)
    body = strip_comments(f.body)
    body, consts = hoist_consts(body, 'forall|i: int| 0 <= i < t@.len() ==> #[trigger] t@[i] == entry((MIN_CHAR + i) as u8)')
    lm = re.search(r'let mut (\w+)(?:: usize)? = 0;', mask(body))
    if not lm: raise Lost('no marker of the text written so far')
    last = lm.group(1)
    body = body.replace(lm.group(0), lm.group(0) + ' proof { fmt.law(Seq::empty(), Seq::empty()); assert(Seq::<u8>::empty() + Seq::<u8>::empty() =~= Seq::<u8>::empty()); assert(fmt.img(Seq::empty()).len() == 0); assert(string.spec_bytes().subrange(0, 0) =~= Seq::<u8>::empty()); is_char_boundary_start_end_of_seq(string.spec_bytes()); }', 1)
    inv = f'''invariant bytes_@ == string.spec_bytes(), valid_utf8(bytes_@), 0 <= {last} <= index_ <= bytes_@.len(),
        is_char_boundary(bytes_@, {last} as int),
        forall|x: Seq<u8>| fmt.img(x) == old(fmt).img(x), forall|o: &W| old(fmt).frame(o) ==> fmt.frame(o),
        forall|k: int| {last} <= k < index_ ==> !special(#[trigger] bytes_@[k]),
        fmt.out() =~= old(fmt).out() + old(fmt).img(html(bytes_@.subrange(0, {last} as int)))'''
    start = f'''proof {{ let i_ = index_ as int; lemma_plain(bytes_@, {last} as int, i_); lemma_step(bytes_@, i_);
        if special(bytes_@[i_]) {{ lemma_boundary(bytes_@, i_); }}
        fmt.law(html(bytes_@.subrange(0, {last} as int)), bytes_@.subrange({last} as int, i_));
        fmt.law(html(bytes_@.subrange(0, i_)), esc1(bytes_@[i_])); }}'''
    body = enum_bytes_loop(body, start, inv)
    # before the last write
    m = mask(body); k = loop_positions(body)[0][2]; e = match_close(m, k) + 1
    end = f''' proof {{ let n_ = bytes_@.len() as int; lemma_plain(bytes_@, {last} as int, n_); assert(bytes_@.subrange(0, n_) =~= bytes_@);
        fmt.law(html(bytes_@.subrange(0, {last} as int)), bytes_@.subrange({last} as int, n_));
        is_char_boundary_start_end_of_seq(bytes_@); }} let ghost out0_ = fmt.out();
        assert(forall|x: Seq<u8>| #[trigger] (out0_ + x) =~= old(fmt).out() + (old(fmt).img(html(bytes_@.subrange(0, {last} as int))) + x));'''
    body = body[:e] + end + body[e:]
    body = slice_indexing(body)
    u.raw(consts); u.raw('pub struct Html;\npub struct Text;')
    u.fn('Html::write_escaped', f, 'fn write_escaped<W: Write>(&self, fmt: &mut W, string: &str) -> (r: fmt::Result)', body,
         ensures=['r.is_ok() ==> final(fmt).out() == old(fmt).out() + old(fmt).img(html(string.spec_bytes()))'],
         before='''impl Escaper for Html {
    open spec fn esc(&self, s: Seq<u8>) -> Seq<u8> { html(s) }
    proof fn esc_law(&self, a: Seq<u8>, b: Seq<u8>) { html_law(a, b); }''', after='}')
    u.drop('by-value `mut fmt: W` -> `fmt: &mut W` (all callers pass a reference); local consts hoisted, the table const as a function with a contract; '
           '`for (i, b) in s.bytes().enumerate()` -> counting while loop with the same bindings; `&s[a..b]` -> str_range(s, a, b) etc.')
    # Text
    imp = s.find(r'impl\s+Escaper\s+for\s+Text\b'); f = imp.sub(r'fn\s+write_escaped')
    if 'mut fmt: W' not in f.head: raise Lost('signature of write_escaped')
    u.fn('Text::write_escaped', f, 'fn write_escaped<W: Write>(&self, fmt: &mut W, string: &str) -> (r: fmt::Result)', slice_indexing(strip_comments(f.body)),
         ensures=['r.is_ok() ==> final(fmt).out() == old(fmt).out() + old(fmt).img(string.spec_bytes())'],
         before='''impl Escaper for Text {
    open spec fn esc(&self, s: Seq<u8>) -> Seq<u8> { s }
    proof fn esc_law(&self, a: Seq<u8>, b: Seq<u8>) {}''', after='}')
    # EscapeWriter
    st = s.find(r'pub\s+struct\s+EscapeWriter'); fields = [re.sub(r'\s+', ' ', strip_comments(x)).strip() for x in split_args(st.body)]
    if fields != ['fmt: W', "escaper: &'a E"]: raise Lost(f'fields of EscapeWriter: {fields}')
    imp = s.find(r'impl<E,\s*W>\s+Write\s+for\s+EscapeWriter')
    if need_only(imp, ['write_str']) != {'write_str'}: raise Lost('EscapeWriter overrides other methods of Write')
    f = imp.sub(r'fn\s+write_str')
    body = rewrite(strip_comments(f.body), r'&mut\s+self\.fmt\b', 'self.fmt', optional=True)
    u.raw("pub struct EscapeWriter<'a, 'b, E, W> { pub fmt: &'b mut W, pub escaper: &'a E }")
    u.fn('EscapeWriter::write_str', f, 'fn write_str(&mut self, s: &str) -> (r: fmt::Result)', body,
         ensures=['r.is_ok() ==> (*final(self)).out() == old(self).out() + old(self).img(s.spec_bytes())'],
         before='''impl<'a, 'b, E: Escaper, W: Write> Write for EscapeWriter<'a, 'b, E, W> {
    open spec fn out(&self) -> Seq<u8> { (*self.fmt).out() }
    open spec fn img(&self, s: Seq<u8>) -> Seq<u8> { (*self.fmt).img(self.escaper.esc(s)) }
    proof fn law(&self, a: Seq<u8>, b: Seq<u8>) { self.escaper.esc_law(a, b); (*self.fmt).law(self.escaper.esc(a), self.escaper.esc(b)); }
    #[verifier::prophetic] open spec fn frame(&self, o: &Self) -> bool { &&& *final(self.fmt) == *final(o.fmt) &&& self.escaper == o.escaper &&& (*self.fmt).frame(&*o.fmt) }
    proof fn frame_refl(&self) { (*self.fmt).frame_refl(); }''', after='}')
    u.drop('EscapeWriter.fmt: W instantiated with &mut W (its only use), fields made public for the specification')
    # MarkupDisplay
    en = s.find(r'enum\s+DisplayValue'); u.raw('pub ' + re.sub(r'\bwhere[^{]*', '', strip_comments(en.text)))
    st = s.find(r'pub\s+struct\s+MarkupDisplay'); t = strip_comments(st.text)
    t = rewrite(t, r'\bvalue:', 'pub value:', 1); t = rewrite(t, r'\bescaper:', 'pub escaper:', 1); u.raw(t)
    imp = s.find(r'impl<E,\s*T>\s+MarkupDisplay<E,\s*T>')
    H = 'impl<E: Escaper, T: Display> MarkupDisplay<E, T> {'
    for n, ens in (('new_unsafe', 'r.value == DisplayValue::Unsafe(value), r.escaper == escaper'), ('new_safe', 'r.value == DisplayValue::Safe(value), r.escaper == escaper')):
        f = imp.sub(rf'pub\s+fn\s+{n}\b')
        u.fn(n, f, f'pub fn {n}(value: T, escaper: E) -> (r: Self)', strip_comments(f.body), ensures=[ens], before=H, after='}')
    f = imp.sub(r'pub\s+fn\s+mark_safe\b')
    u.fn('mark_safe', f, 'pub fn mark_safe(self) -> (r: MarkupDisplay<E, T>)', 'let mut this = self;' + re.sub(r'\bself\b', 'this', strip_comments(f.body)),
         ensures=['r.value == DisplayValue::Safe(match self.value { DisplayValue::Safe(t) => t, DisplayValue::Unsafe(t) => t })', 'r.escaper == self.escaper'], before=H, after='}')
    u.drop('`mut self` -> `let mut this = self`')
    imp = s.find(r'impl<E,\s*T>\s+Display\s+for\s+MarkupDisplay'); f = imp.sub(r'fn\s+fmt\b')
    body = strip_comments(f.body)
    mm = re.search(r'\bwrite!\s*\(', mask(body))
    if mm:
        c = match_close(mask(body), mm.end() - 1); a = split_args(body[mm.end():c])
        g = re.match(r'^"\{(\w+)\}"$', a[1]) if len(a) > 1 else None
        if len(a) == 2 and g: arg = g.group(1)
        elif len(a) == 3 and a[1] == '"{}"': arg = a[2]
        else: raise Lost('write! with another format')
        w = a[0]; w = w[4:] if w.startswith('&mut') else w
        body = body[:mm.start()] + f'fmt::write_display(&mut {w}, {arg})' + body[c+1:]
    u.fn('MarkupDisplay::fmt', f, "fn fmt(&self, fmt: &mut Formatter<'_>) -> (r: fmt::Result)", body,
         ensures=['r.is_ok() ==> final(fmt).bytes() == old(fmt).bytes() + match self.value { DisplayValue::Safe(t) => t.text(), DisplayValue::Unsafe(t) => self.escaper.esc(t.text()) }'],
         before='''impl<E: Escaper, T: Display> Display for MarkupDisplay<E, T> {
    open spec fn text(&self) -> Seq<u8> { match self.value { DisplayValue::Safe(t) => t.text(), DisplayValue::Unsafe(t) => self.escaper.esc(t.text()) } }''', after='}')
    u.drop('write!(w, "{t}") -> write_display(&mut w, t), which is verified against the contracts of Write and Display')
    # escape()
    st = s.find(r'pub\s+struct\s+Escaped'); t = strip_comments(st.text)
    t = rewrite(t, r'\bstring:', 'pub string:', 1); t = rewrite(t, r'\bescaper:', 'pub escaper:', 1); u.raw(t)
    f = s.find(r'pub\s+fn\s+escape<E>')
    u.fn('escape', f, "pub fn escape<E: Escaper>(string: &str, escaper: E) -> (r: Escaped<'_, E>)", strip_comments(f.body), ensures=['r.string == string', 'r.escaper == escaper'])
    imp = s.find(r"impl<E>\s+Display\s+for\s+Escaped"); f = imp.sub(r'fn\s+fmt\b')
    u.fn('Escaped::fmt', f, "fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> (r: fmt::Result)", strip_comments(f.body),
         ensures=['r.is_ok() ==> final(fmt).bytes() == old(fmt).bytes() + self.escaper.esc(self.string.spec_bytes())'],
         before='''impl<'a, E: Escaper> Display for Escaped<'a, E> {
    open spec fn text(&self) -> Seq<u8> { self.escaper.esc(self.string.spec_bytes()) }''', after='}')
    # filters
    g = Src(repo, 'askama/src/filters/mod.rs')
    for n, k in (('safe', 'Safe'), ('escape', 'Unsafe'), ('e', 'Unsafe')):
        f = g.find(rf'pub\s+fn\s+{n}<E,\s*T>')
        b = strip_comments(f.body)
        nm = {'safe': 'filter_safe', 'escape': 'filter_escape', 'e': 'filter_e'}[n]
        b = re.sub(r'\bescape\(', 'filter_escape(', b)
        u.fn(nm, f, f'pub fn {nm}<E: Escaper, T: Display>(e: E, v: T) -> (r: Result<MarkupDisplay<E, T>, Infallible>)', b,
             ensures=[f'r.is_ok()', f'r.unwrap().value == DisplayValue::{k}(v)', 'r.unwrap().escaper == e'])
    # the property itself
    u.raw('''
/// C01: an unsafe value displayed through Html is the HTML form of its text, a safe one the text itself
pub fn c01<T: Display>(v: T, w: T, x: T, f: &mut Formatter<'_>) -> (r: fmt::Result)
    ensures r.is_ok() ==> final(f).bytes() == old(f).bytes() + html(v.text()) + w.text() + x.text()
{
    MarkupDisplay::new_unsafe(v, Html).fmt(f)?;
    MarkupDisplay::new_unsafe(w, Html).mark_safe().fmt(f)?;
    MarkupDisplay::new_unsafe(x, Text).fmt(f)
}''', lemmas=['c01'])
    return u

UNITS = [('askama_escape', unit)]

def companion(tier): return run_harness('rt', 'C01', tier)
NOTE = ('Every function between a value and the escaped output (write_escaped of Html and Text, EscapeWriter, MarkupDisplay, Escaped, the filters safe/escape/e) is proved '
        'against its contract for all strings, all chunkings and all destinations. Trusted: core::fmt and str slicing by contract; write_char/write_fmt end in write_str.')

"""Extraction of the syntax tree types and of askama_derive's code generator for the units of several properties."""
import re
from .rsx import *
from .rw import *

G = 'askama_derive/src/generator.rs'; E = 'askama_parser/src/expr.rs'; N = 'askama_parser/src/node.rs'
VARIANTS = {'BoolLit': "&'a str", 'NumLit': "&'a str", 'StrLit': "&'a str", 'CharLit': "&'a str", 'Var': "&'a str", 'Path': "Vec<&'a str>", 'Array': "Vec<Expr<'a>>",
    'Attr': "Box<Expr<'a>>, &'a str", 'Index': "Box<Expr<'a>>, Box<Expr<'a>>", 'Filter': "Filter<'a>", 'NamedArgument': "&'a str, Box<Expr<'a>>", 'Unary': "&'a str, Box<Expr<'a>>",
    'BinOp': "&'a str, Box<Expr<'a>>, Box<Expr<'a>>", 'Range': "&'a str, Option<Box<Expr<'a>>>, Option<Box<Expr<'a>>>", 'Group': "Box<Expr<'a>>", 'Tuple': "Vec<Expr<'a>>",
    'Call': "Box<Expr<'a>>, Vec<Expr<'a>>", 'RustMacro': "Vec<&'a str>, &'a str", 'Try': "Box<Expr<'a>>", 'Generated': 'String'}

def expr_types(repo):
    """the enum Expr and the struct Filter, as they stand in the parser"""
    s = Src(repo, E); e = s.find(r'pub\s+enum\s+Expr<'); b = strip_comments(e.body)
    got = {}
    for v in split_args(b):
        g = re.match(r'^(\w+)\((.*)\)$', re.sub(r'\s+', ' ', v), re.S)
        if not g: raise Lost(f'Expr: {v}')
        got[g.group(1)] = g.group(2).strip().rstrip(',')
    if got != VARIANTS: raise Lost('the variants of Expr: ' + ', '.join(sorted(set(got.items()) ^ set(VARIANTS.items()), key=str)[0]))
    f = s.find(r'pub\s+struct\s+Filter<')
    if not re.search(r"pub name: &'a str,\s*pub arguments: Vec<Expr<'a>>,?\s*\}", strip_comments(f.text)): raise Lost('Filter')
    return strip_comments(f.text) + "\npub enum Expr<'a> {" + b + '}\n'

def alls(body, fn, helper):
    """E.iter().all(fn) -> helper(&E); E.as_ref().map_or(c, |v| b) -> match"""
    def f(e, a):
        g = re.match(r'^(.*)\.\s*iter\(\)$', e, re.S)
        if not g: raise Lost('all on ' + e)
        a0 = a[0].strip()
        if a0 != fn:
            p, b = closure(a0)
            if re.sub(r'\s', '', b) not in (f'{fn}({p})', f'self.{fn}({p})'): raise Lost('all with ' + a0)
        return f'{helper}({g.group(1)})'
    body = method_calls(body, 'all', f)
    def mo(e, a):
        g = re.match(r'^(.*?)\.\s*(as_ref|as_deref)\(\)$', e, re.S)
        if not g: raise Lost('map_or on ' + e)
        if re.match(r'^\w+$', a[1]): p, b = 'x__', f'{a[1]}(x__)'
        else: p, b = closure(a[1])
        return f'(match {g.group(1)} {{ Some({p}) => {b}, None => {a[0]} }})'
    return method_calls(body, 'map_or', mo)

BUFFER = r'''
pub struct CompileError { pub m: Ghost<int> }
#[verifier::external_body]
pub fn err_() -> CompileError { unimplemented!() }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r <==> a@ == b@ { a == b }
#[verifier::external_body]
pub fn ends_with_char(a: &str, c: char) -> (r: bool) ensures r <==> a@.len() > 0 && a@.last() == c { a.ends_with(c) }
#[verifier::external_body]
pub fn str_empty(a: &str) -> (r: bool) ensures r <==> a@.len() == 0 { a.is_empty() }
pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| ' ') }
/// the most levels of indentation that one may rely on (machine arithmetic)
pub open spec fn DEEP() -> int { 0x1000_0000 }
'''
BUFSPEC = r'''
impl Buffer {
    /// what the next write puts first
    pub open spec fn pad(&self) -> Seq<char> { if self.start { spaces(self.indent * 4) } else { Seq::empty() } }
    pub open spec fn same(&self, o: &Buffer) -> bool { self.buf@ == o.buf@ && self.indent == o.indent && self.start == o.start && self.discard == o.discard }
    /// self is o after the text s was written
    pub open spec fn wrote(&self, o: &Buffer, s: Seq<char>) -> bool {
        self.discard == o.discard && self.indent == o.indent && (if o.discard { self.same(o) } else { self.buf@ == o.buf@ + o.pad() + s && !self.start })
    }
    /// self is o after the line s was written
    pub open spec fn wrote_line(&self, o: &Buffer, s: Seq<char>) -> bool {
        let i = o.indent - (if s == "}"@ { 1int } else { 0 });
        self.discard == o.discard && (if o.discard { self.same(o) } else {
            i >= 0 && self.start && self.indent == i + (if s.len() > 0 && s.last() == '{' { 1int } else { 0 })
            && self.buf@ == o.buf@ + (if s.len() == 0 { Seq::empty() } else { (if o.start { spaces(i * 4) } else { Seq::empty() }) + s }) + "\n"@ })
    }
    pub open spec fn fresh(&self, i: int) -> bool { self.buf@ == Seq::<char>::empty() && self.indent == i && self.start && !self.discard }
}
'''
def str_eqs(b, names):
    """NAME == "lit" / NAME != "lit" / "lit" == NAME -> str_eq"""
    n = '|'.join(names)
    b = re.sub(rf'(?<![\w.)])({n})\s*==\s*("(?:[^"\\]|\\.)*")', r'str_eq(\1, \2)', b)
    b = re.sub(rf'(?<![\w.)])({n})\s*!=\s*("(?:[^"\\]|\\.)*")', r'!str_eq(\1, \2)', b)
    return b
def range_while(b):
    """for _ in 0..E { -> counting while loop"""
    n = 0
    while True:
        m = mask(b); mm = re.search(r'for\s+_\w*\s+in\s+0\s*\.\.\s*', m)
        if not mm: return b
        j = mm.end()
        while m[j] != '{':
            if m[j] in '([': j = match_close(m, j)
            j += 1
        n += 1; e = b[mm.end():j].strip(); v = f'rep{n}_'
        b = b[:mm.start()] + f'let {v}end: usize = {e}; let mut {v}: usize = 0; while {v} < {v}end {{ {v} += 1;' + b[j+1:]
def errs(b):
    """Err("..".into()), Err(format!(..).into()) -> Err(err_())"""
    i = 0
    while True:
        g = re.compile(r'\bErr\(').search(mask(b), i)
        if not g: return b
        c = match_close(mask(b), g.end() - 1); x = b[g.end():c].strip(); i = g.end()
        if re.search(r'\.\s*into\(\)$', x) and re.match(r'r?#*"|format!', x):
            b = b[:g.end()] + 'err_()' + b[c:]
def buffer(u, s):
    """Buffer with its methods, verified"""
    st = s.find(r'struct\s+Buffer\b')
    flds = dict(re.findall(r'(\w+): (\w+),', strip_comments(st.text)))
    if flds != {'buf': 'String', 'indent': 'usize', 'start': 'bool', 'discard': 'bool'}: raise Lost(f'Buffer: {flds}')
    u.raw(BUFFER + 'pub struct Buffer { pub buf: String, pub indent: usize, pub start: bool, pub discard: bool }' + BUFSPEC)
    u.trust('String, str::ends_with, equality of texts by contract; indentation stays below 2^28 levels (precondition of Buffer::write)')
    im = s.find(r'impl\s+Buffer\b'); fs = {n: im.sub(rf'fn\s+{n}\b') for n in ('new', 'writeln', 'write', 'indent', 'dedent')}
    extra = {re.match(r'(?:pub(?:\([^)]*\))?\s+)?fn\s+(\w+)', x.head).group(1) for x in im.subs(r'fn\s+\w+')} - set(fs)
    if extra: raise Lost(f'Buffer has new methods {extra}')
    a = {n: re.search(r'(\w+): (?:&str|usize)', f.head) for n, f in fs.items()}
    x = a['new'].group(1)
    u.fn('Buffer::new', fs['new'], f'pub fn new({x}: usize) -> (r: Self)', strip_comments(fs['new'].body), ensures=[f'r.fresh({x} as int)'], before='impl Buffer {')
    x = a['write'].group(1); b = range_while(strip_comments(fs['write'].body))
    b = add_invariants(b, ['invariant rep1_ <= rep1_end, self.buf@ =~= old(self).buf@ + spaces(rep1_ as int), self.indent == old(self).indent, self.start == old(self).start, self.discard == old(self).discard\n decreases rep1_end - rep1_']) if loop_positions(b) else b
    u.fn('Buffer::write', fs['write'], f'pub fn write(&mut self, {x}: &str)', b + ' assert(old(self).discard || self.buf@ =~= old(self).buf@ + old(self).pad() + ' + x + '@);', requires=['old(self).indent < DEEP()'], ensures=[f'final(self).wrote(old(self), {x}@)'], no_vacuity=True)
    x = a['writeln'].group(1); b = strip_comments(fs['writeln'].body); b = str_eqs(b, [x])
    b = re.sub(rf"\b{x}\.ends_with\('(.)'\)", rf"ends_with_char({x}, '\1')", b); b = re.sub(rf'\b{x}\.is_empty\(\)', f'str_empty({x})', b)
    b = ' proof { reveal_strlit("}"); reveal_strlit("\\n"); assert("\\n"@ =~= seq![\'\\n\']); assert("}"@[0] == \'}\'); }' + b
    b = re.sub(r'Ok\(\(\)\)\s*$', f'assert(self.buf@ =~= old(self).buf@ + (if {x}@.len() == 0 {{ Seq::empty() }} else {{ (if old(self).start {{ spaces((old(self).indent - (if {x}@ == "}}"@ {{ 1int }} else {{ 0 }})) * 4) }} else {{ Seq::empty() }}) + {x}@ }}) + "\\n"@); Ok(())', b)
    u.fn('Buffer::writeln', fs['writeln'], f'pub fn writeln(&mut self, {x}: &str) -> (r: Result<(), CompileError>)', errs(b), requires=['old(self).indent < DEEP()'],
         ensures=[f'r.is_ok() ==> final(self).wrote_line(old(self), {x}@)', f'r.is_err() ==> {x}@ == "}}"@ && old(self).indent == 0 && !old(self).discard'])
    u.fn('Buffer::indent', fs['indent'], 'pub fn indent(&mut self)', strip_comments(fs['indent'].body), requires=['old(self).indent < DEEP()'],
         ensures=['final(self).buf@ == old(self).buf@ && final(self).start == old(self).start && final(self).discard == old(self).discard', 'final(self).indent == old(self).indent + (if old(self).discard { 0int } else { 1 })'])
    u.fn('Buffer::dedent', fs['dedent'], 'pub fn dedent(&mut self) -> (r: Result<(), CompileError>)', errs(strip_comments(fs['dedent'].body)),
         ensures=['final(self).buf@ == old(self).buf@ && final(self).start == old(self).start && final(self).discard == old(self).discard', 'r.is_ok() ==> final(self).indent == old(self).indent - (if old(self).discard { 0int } else { 1 })', 'r.is_err() ==> old(self).indent == 0 && !old(self).discard'], after='}')

SHOW = r'''
pub uninterp spec fn dec(n: int) -> Seq<char>;
/// a literal that denotes the text (Debug of str)
pub uninterp spec fn quoted(s: Seq<char>) -> Seq<char>;
/// what {} displays
pub trait Show { spec fn shown(&self) -> Seq<char>; fn show(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.shown(); }
impl Show for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn show(&self, s: &mut String) { s.push_str(self); } }
impl<'x> Show for &'x str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn show(&self, s: &mut String) { s.push_str(self); } }
impl<'x> Show for &'x String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn show(&self, s: &mut String) { s.push_str(self); } }
impl<'x, 'y> Show for &'y &'x str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn show(&self, s: &mut String) { s.push_str(self); } }
impl Show for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn show(&self, s: &mut String) { s.push_str(&self.to_string()); } }
#[verifier::external_body]
pub fn push_quoted(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + quoted(t@) { unimplemented!() }
pub open spec fn CRATE() -> Seq<char> { "::askama"@ }
pub fn CRATE_() -> (r: &'static str) ensures r@ == CRATE() { "::askama" }
'''
SHOW_TRUST = 'Display of String, &str and usize by contract; Debug of a str is a Rust literal that denotes it'
def formats(b):
    """format!("a{x}b{}{:?}", ..) -> pushes onto a String"""
    while True:
        m = mask(b); mm = re.search(r'\bformat!\s*\(', m)
        if not mm: return re.sub(r'\bCRATE\b(?!_|\()', 'CRATE_()', b)
        c = match_close(m, mm.end() - 1); a = split_args(b[mm.end():c]); lit = a.pop(0)
        g = re.match(r'^"(.*)"$', lit, re.S)
        if not g: raise Lost('format! with ' + lit[:40])
        s = re.sub(r'\\\n\s*', '', g.group(1)); out = '{ let mut s_ = String::new(); '; cur = ''; i = 0
        def flush():
            nonlocal out, cur
            if cur: out += f's_.push_str("{cur}"); '; cur = ''
        while i < len(s):
            if s.startswith('{{', i) or s.startswith('}}', i): cur += s[i]; i += 2
            elif s[i] == '{':
                j = s.index('}', i); n, _, f = s[i+1:j].partition(':'); flush()
                if n == '': 
                    if not a: raise Lost('format!: arguments')
                    x = a.pop(0)
                elif re.match(r'^[A-Za-z_]\w*$', n): x = n
                else: raise Lost(f'format! with {{{n}}}')
                if f == '': out += f'Show::show(&{x}, &mut s_); '
                elif f in ('?', '#?'): out += f'push_quoted(&mut s_, {x}); '
                else: raise Lost(f'format! with {{{n}:{f}}}')
                i = j + 1
            elif s[i] == '\\': cur += s[i:i+2]; i += 2
            else: cur += s[i]; i += 1
        flush()
        if a: raise Lost('format!: arguments')
        b = b[:mm.start()] + out + 's_ }' + b[c+1:]

"""Configuration: delimiters (C22), the search for templates (C23) and escapers (C24) under contract."""
import re
from .rsx import *
from .rw import *
from . import gen
from .verus import Unit
C = 'askama_derive/src/config.rs'; L = 'askama_parser/src/lib.rs'; N = 'askama_parser/src/node.rs'; E = 'askama_parser/src/expr.rs'
FIELDS = ('block_start', 'block_end', 'expr_start', 'expr_end', 'comment_start', 'comment_end')
BASE = r'''
#[verifier::external_body]
pub struct CompileError { x: u8 }
#[verifier::external_body]
pub fn err_() -> CompileError { unimplemented!() }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r <==> a@ == b@ { a == b }
'''
SPEC = BASE + r'''
/// Unicode white space
pub uninterp spec fn ws(c: char) -> bool;
pub uninterp spec fn ascii_ws(c: char) -> bool;
#[verifier::external_body]
pub fn is_whitespace_(c: char) -> (r: bool) ensures r == ws(c) { c.is_whitespace() }
#[verifier::external_body]
pub fn is_ascii_whitespace_(c: char) -> (r: bool) ensures r == ascii_ws(c) { c.is_ascii_whitespace() }
#[verifier::external_body]
pub fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body]
pub fn starts_with_(a: &str, b: &str) -> (r: bool) ensures r == starts(a@, b@) { a.starts_with(b) }
#[verifier::external_body]
pub fn ends_with_(a: &str, b: &str) -> (r: bool) ensures r == (a@.len() >= b@.len() && a@.skip(a@.len() - b@.len()) == b@) { a.ends_with(b) }
/// t begins with p
pub open spec fn starts(t: Seq<char>, p: Seq<char>) -> bool { p.len() <= t.len() && t.take(p.len() as int) == p }
#[verifier::external_body]
pub fn byte_len(s: &str) -> (r: usize) ensures r == s.spec_bytes().len() { s.len() }
/// the operators of two and more characters, of the documentation of Rust
pub open spec fn operator(s: Seq<char>) -> bool {
    s == "||"@ || s == "&&"@ || s == "=="@ || s == "!="@ || s == ">="@ || s == "<="@ || s == "<<"@ || s == ">>"@ || s == ".."@ || s == "..="@
}
/// what C22 demands of one delimiter
pub open spec fn usable(s: &str) -> bool { s.spec_bytes().len() >= 2 && (forall|i: int| 0 <= i < s@.len() ==> !ws(#[trigger] s@[i])) && !operator(s@) }
pub open spec fn apart(a: Seq<char>, b: Seq<char>) -> bool { !starts(a, b) && !starts(b, a) }
pub open spec fn accepted(y: Syntax) -> bool {
    usable(y.block_start) && usable(y.block_end) && usable(y.expr_start) && usable(y.expr_end) && usable(y.comment_start) && usable(y.comment_end)
    && apart(y.block_start@, y.expr_start@) && apart(y.block_start@, y.comment_start@) && apart(y.expr_start@, y.comment_start@)
}
pub open spec fn or_(o: Option<&str>, d: Seq<char>) -> Seq<char> { match o { Some(s) => s@, None => d } }
/// the delimiters that a [[syntax]] table stands for
pub open spec fn configured(r: RawSyntax, y: Syntax) -> bool {
    y.block_start@ == or_(r.block_start, "{%"@) && y.block_end@ == or_(r.block_end, "%}"@) && y.expr_start@ == or_(r.expr_start, "{{"@)
    && y.expr_end@ == or_(r.expr_end, "}}"@) && y.comment_start@ == or_(r.comment_start, "{#"@) && y.comment_end@ == or_(r.comment_end, "#}"@)
}
'''
PARSE = r'''
/// a recoverable error of a parser
pub struct PErr { pub m: Ghost<int> }
#[verifier::external_body]
pub fn perr() -> PErr { unimplemented!() }
/// nom: tag(d)(i)
#[verifier::external_body]
pub fn tag<'i>(d: &str, i: &'i str) -> (r: Result<(&'i str, &'i str), PErr>)
    ensures r is Ok <==> starts(i@, d@), r matches Ok(p) ==> p.1@ == d@ && p.0@ == i@.skip(d@.len() as int)
{ unimplemented!() }
/// nom: anychar
#[verifier::external_body]
pub fn anychar<'i>(i: &'i str) -> (r: Result<(&'i str, char), PErr>)
    ensures r is Ok <==> i@.len() > 0, r matches Ok(p) ==> p.1 == i@[0] && p.0@ == i@.skip(1)
{ unimplemented!() }
/// alt over tags: the first one that matches
pub open spec fn hits(t: Seq<char>, ds: Seq<&str>) -> bool { exists|k: int| 0 <= k < ds.len() && starts(t, (#[trigger] ds[k])@) }
pub fn alt_tags<'i>(ds: &Vec<&str>, i: &'i str) -> (r: Result<(&'i str, &'i str), PErr>) ensures r is Ok <==> hits(i@, ds@)
{
    let mut k: usize = 0;
    while k < ds.len() invariant k <= ds.len(), forall|j: int| 0 <= j < k ==> !starts(i@, (#[trigger] ds@[j])@) decreases ds.len() - k {
        match tag(ds[k], i) { Ok(p) => { return Ok(p); } Err(e) => {} }
        k += 1;
    }
    Err(perr())
}
pub enum Next<'i> { IsEnd((&'i str, &'i str)), NotEnd }
/// opt(recognize(skip_till(p)))(i): what was skipped, and what is left
pub fn opt_recognize<'i>(i: &'i str, r: Result<(&'i str, (&'i str, &'i str)), PErr>) -> (o: Result<(&'i str, Option<&'i str>), PErr>)
    requires r matches Ok(p) ==> exists|n: int| 0 <= n <= i@.len() && p.0@ == #[trigger] i@.skip(n)
    ensures o is Ok, r matches Ok(p) ==> (o->Ok_0).0@ == p.0@ && ((o->Ok_0).1 matches Some(c) && c@ + p.0@ == i@), r is Err ==> (o->Ok_0).1 is None && (o->Ok_0).0@ == i@
{ match r { Ok(p) => { let c = consumed(i, p.0); Ok((p.0, Some(c))) } Err(e) => Ok((i, None)) } }
#[verifier::external_body]
pub fn consumed<'i>(i: &'i str, rest: &'i str) -> (r: &'i str) requires exists|n: int| 0 <= n <= i@.len() && rest@ == #[trigger] i@.skip(n) ensures r@ + rest@ == i@ { unimplemented!() }
pub fn not_eof<'i>(i: &'i str) -> (r: Result<(&'i str, ()), PErr>) ensures r is Ok <==> i@.len() > 0, r matches Ok(p) ==> p.0@ == i@ { if str_empty(i) { Err(perr()) } else { Ok((i, ())) } }
#[verifier::external_body]
pub fn str_empty(i: &str) -> (r: bool) ensures r == (i@.len() == 0) { i.is_empty() }
/// the start delimiters
pub open spec fn opens(t: Seq<char>, y: &Syntax) -> bool { starts(t, y.block_start@) || starts(t, y.comment_start@) || starts(t, y.expr_start@) }
pub struct State<'s> { pub syntax: &'s Syntax<'s> }
/// split_ws_parts (C03)
pub struct Lit<'a> { pub text: Ghost<Seq<char>>, pub x: &'a str }
impl<'a> Lit<'a> {
    #[verifier::external_body]
    pub fn split_ws_parts(s: &'a str) -> (r: Self) ensures r.text@ == s@ { unimplemented!() }
}
'''
def raw_struct(src, name, u):
    it = src.find(rf'struct\s+{name}\b'); b = strip_comments(it.body)
    b = re.sub(r'#\[[^\]]*\]', '', b); b = re.sub(r'pub\(crate\)\s+', '', b); b = re.sub(r'\bpub\s+', '', b)
    u.raw(f"pub struct {name}<'a> {{ " + ', '.join('pub ' + f.strip() for f in split_args(b)) + ' }')
def anys(b):
    """S.chars().any(|c| B), .all(..) -> a loop"""
    for n, init, brk in (('any', 'false', ''), ('all', 'true', '!')):
        def f(e, a, init=init, brk=brk):
            g = re.match(r'^(.*)\.\s*chars\(\)$', e, re.S)
            if not g: return None
            p, c = closure(a[0]); c = re.sub(rf'\b{p}\.is_whitespace\(\)', f'is_whitespace_({p})', c); c = re.sub(rf'\b{p}\.is_ascii_whitespace\(\)', f'is_ascii_whitespace_({p})', c)
            if re.sub(r'\s', '', a[0]) == 'char::is_whitespace': p, c = 'c', 'is_whitespace_(c)'
            return f'{{ let cs_ = chars_of({g.group(1)}); let mut k_: usize = 0; let mut r_ = {init}; while k_ < cs_.len() invariant k_ <= cs_.len(), r_ == {"" if brk else "!"}forall|j: int| 0 <= j < k_ ==> {"" if brk else "!"}ws(#[trigger] cs_@[j]) decreases cs_.len() - k_ {{ let {p} = cs_[k_]; k_ += 1; if {brk}({c}) {{ r_ = {"false" if brk else "true"}; }} }} r_ }}'
        b = method_calls(b, n, f)
    return b
def unroll(b):
    """for P in [a, b, ..] { B } -> one block per element"""
    while True:
        m = mask(b); g = re.search(r'\bfor\s+(\([^)]*\)|\w+)\s+in\s+\[', m)
        if not g: return b
        c = match_close(m, g.end() - 1); o = c + 1
        while m[o].isspace(): o += 1
        if m[o] != '{': raise Lost('for over an array')
        e = match_close(m, o); body = b[o+1:e]
        if re.search(r'\b(break|continue)\b', mask(body)): raise Lost('jump in a loop over an array')
        b = b[:g.start()] + ' '.join(f'{{ let {b[g.start(1):g.end(1)]} = {x}; {body} }}' for x in split_args(b[g.end():c])) + b[e+1:]
def syntax(repo):
    u = Unit('c22_syntax'); c = Src(repo, C); l = Src(repo, L); e = Src(repo, E)
    from . import pre
    u.use('use vstd::string::*;')
    raw_struct(l, 'Syntax', u); raw_struct(c, 'RawSyntax', u); u.raw(SPEC)
    u.trust('core: str::starts_with, chars, len (bytes), char::is_whitespace by contract')
    u.drop('texts of error messages; for over an array of tuples -> one block per element; chars().any(..) -> loop; [..].contains -> comparison with each element of the table in /repo')
    # the table of operators
    g = re.search(r'const\s+TWO_PLUS_CHAR_OPS:\s*&\[&str\]\s*=\s*&\[(.*?)\];', strip_comments(e.text), re.S)
    if not g: raise Lost('TWO_PLUS_CHAR_OPS')
    ops = [x.strip() for x in split_args(g.group(1))]
    f = l.find(r"impl\s+Default\s+for\s+Syntax").sub(r'fn\s+default\b'); b = strip_comments(f.body)
    u.fn('Syntax::default', f, "pub fn default_() -> (r: Syntax<'static>)", re.sub(r'\bSelf\b', 'Syntax', b), ensures=['r.block_start@ == "{%"@, r.block_end@ == "%}"@, r.expr_start@ == "{{"@, r.expr_end@ == "}}"@, r.comment_start@ == "{#"@, r.comment_end@ == "#}"@'])
    f = c.find(r"impl<'a>\s+TryInto<Syntax<'a>>\s+for\s+RawSyntax").sub(r'fn\s+try_into\b'); b = strip_comments(f.body)
    b = gen.errs(b); b = unroll(anys(b))
    b = re.sub(r'\bSyntax::default\(\)', 'default_()', b)
    b = re.sub(r'\bTWO_PLUS_CHAR_OPS\s*\.\s*contains\(&(\w+)\)', lambda g: '(' + ' || '.join(f'str_eq({g.group(1)}, {o})' for o in ops) + ')', b)
    b = re.sub(r'\b(\w+)\.len\(\)(?=\s*[<>=!])', lambda g: g.group(0) if g.group(1) == 'cs_' else f'byte_len({g.group(1)})', b)
    b = re.sub(r'\b(\w+)\.starts_with\((\w+)\)', r'starts_with_(\1, \2)', b); b = re.sub(r'\b(\w+)\.ends_with\((\w+)\)', r'ends_with_(\1, \2)', b)
    b = method_calls(b, 'unwrap_or', lambda r, a: f'(match {r} {{ Some(x__) => x__, None => {a[0]} }})')
    b = re.sub(r'\bself\b', 'this', b)
    u.fn('TryInto<Syntax> for RawSyntax', f, "pub fn try_into_<'a>(this: RawSyntax<'a>) -> (r: Result<Syntax<'a>, CompileError>)", b, attrs='#[verifier::loop_isolation(false)]',
         ensures=['r matches Ok(y) ==> configured(this, y) && accepted(y)', 'forall|y: Syntax| configured(this, y) && #[trigger] accepted(y) ==> r is Ok'])
    return u
def scanner(repo):
    u = Unit('c22_scanner'); l = Src(repo, L); n = Src(repo, N)
    u.use('use vstd::string::*;')
    raw_struct(l, 'Syntax', u); u.raw(SPEC.replace('pub open spec fn configured', 'pub open spec fn configured_').split('/// the delimiters that a')[0]); u.raw(PARSE)
    u.trust('nom: tag, anychar, alt, map, not(eof), opt, recognize by contract (documentation); their errors are recoverable ones')
    u.drop('the parser combinators as values: skip_till(p)(i) -> a function of p and i, where p is the list of the tags tried; other fields of State')
    st = l.find(r"impl<'a>\s+State<'a>")
    for k in FIELDS:
        f = st.sub(rf'fn\s+tag_{k}\b'); g = re.search(r"\(&self, (\w+): &'i str\)", f.head)
        b = re.sub(r'^\s*tag\((.*)\)\((\w+)\)\s*$', r'tag(\1, \2)', strip_comments(f.body), flags=re.S)
        if not g: raise Lost('tag_' + k)
        i = g.group(1)
        u.fn(f'State::tag_{k}', f, f"pub fn tag_{k}<'i>(&self, {i}: &'i str) -> (r: Result<(&'i str, &'i str), PErr>)", b, before="impl<'s> State<'s> {", after='}',
             ensures=[f'r is Ok <==> starts({i}@, self.syntax.{k}@)', f'r matches Ok(p) ==> p.1@ == self.syntax.{k}@ && p.0@ == {i}@.skip(self.syntax.{k}@.len() as int)'])
    # skip_till
    f = l.find(r'fn\s+skip_till\b'); b = strip_comments(f.body)
    if not re.search(r"end: impl FnMut\(&'a str\) -> ParseResult<'a, O>", f.head): raise Lost('skip_till')
    g = re.search(r'let\s+mut\s+next\s*=\s*alt\(\(map\(end,\s*Next::IsEnd\),\s*map\(anychar,\s*\|_\|\s*Next::NotEnd\)\)\);', b)
    h = re.search(r"move\s*\|(\w+):\s*&'a str\|\s*\{", b)
    if not g or not h: raise Lost('skip_till')
    o = h.end() - 1; inner = b[o+1:match_close(mask(b), o)]; S = h.group(1)
    u.raw(r'''fn next_<'i>(ds: &Vec<&str>, i: &'i str) -> (r: Result<(&'i str, Next<'i>), PErr>)
    ensures hits(i@, ds@) ==> r is Ok && (r->Ok_0).1 is IsEnd, !hits(i@, ds@) && i@.len() > 0 ==> r is Ok && (r->Ok_0).1 is NotEnd && (r->Ok_0).0@ == i@.skip(1), !hits(i@, ds@) && i@.len() == 0 ==> r is Err
{ match alt_tags(ds, i) { Ok(p) => Ok((p.0, Next::IsEnd(p))), Err(e) => match anychar(i) { Ok(p) => Ok((p.0, Next::NotEnd)), Err(e) => Err(e) } } }''')
    g = re.search(r'let\s+mut\s+(\w+)\s*=\s*' + S + r'\s*;', inner)
    if not g: raise Lost('skip_till: position')
    I = g.group(1)
    inner = re.sub(r'\bnext\((\w+)\)', r'next_(ds, \1)', inner)
    inner = re.sub(r'Next::IsEnd\((\w+)\)\s*=>\s*return Ok\(\((\w+),\s*\((\w+),\s*(\w+)\)\)\)', lambda q: f'Next::IsEnd({q.group(1)}) => {{ assert({I}@ == {S}@.skip(n_)); return Ok(({q.group(2)}, ({q.group(3)}, {q.group(4)}.1))); }}', inner)
    inner = inner[:g.end()] + f' let ghost mut n_: int = 0; assert({S}@.skip(0) =~= {S}@); ' + inner[g.end():]
    inner = add_invariants(inner, [f'invariant 0 <= n_ <= {S}@.len(), {I}@ == {S}@.skip(n_), forall|k: int| 0 <= k < n_ ==> !hits(#[trigger] {S}@.skip(k), ds@)\n decreases {S}@.len() - n_'])
    q = re.search(rf'Next::NotEnd\s*=>\s*({I}\s*=\s*\w+)\s*,?', inner)
    if not q: raise Lost('skip_till: NotEnd')
    inner = inner[:q.start(1)] + f'{{ {q.group(1)}; proof {{ assert({S}@.skip(n_).skip(1) =~= {S}@.skip(n_ + 1)); n_ = n_ + 1; }} }}' + inner[q.end(1):]
    inner = inner.replace('?;', f'?;', 1)
    u.fn('skip_till', f, f"pub fn skip_till<'i>(ds: &Vec<&str>, {S}: &'i str) -> (r: Result<(&'i str, (&'i str, &'i str)), PErr>)", inner, attrs='#[verifier::loop_isolation(false)]', no_vacuity=True, # leaves from inside of its loop only
         ensures=[f'r matches Ok(p) ==> exists|n: int| 0 <= n <= {S}@.len() && p.0@ == #[trigger] {S}@.skip(n) && hits(p.0@, ds@) && forall|k: int| 0 <= k < n ==> !hits(#[trigger] {S}@.skip(k), ds@)',
                  f'r is Err ==> forall|k: int| 0 <= k <= {S}@.len() ==> !hits(#[trigger] {S}@.skip(k), ds@)'])
    # Lit::parse
    f = n.find(r"impl<'a>\s+Lit<'a>").sub(r'fn\s+parse\b'); b = strip_comments(f.body); g = re.search(r"\((\w+): &'a str, (\w+): &State<'_>\)", f.head)
    if not g: raise Lost('Lit::parse')
    i, s = g.groups()
    g = re.search(r'let\s+(\w+)\s*=\s*alt\(\(', b)
    if not g: raise Lost('Lit::parse: alt')
    P = g.group(1); o = g.end() - 1; c = match_close(mask(b), o); tags = []
    for x in split_args(b[o+1:c]):
        q = re.match(rf'^tag\((.*)\)$', x, re.S); q2 = re.match(rf'^\|(\w+)\|\s*{s}\.tag_(\w+)\(\1\)$', x)
        if q: tags.append(q.group(1))
        elif q2: tags.append(f'{s}.syntax.{q2.group(2)}')
        else: raise Lost('Lit::parse: ' + x)
    e = b.index(';', c)
    b = b[:g.start()] + f'let mut {P}: Vec<&str> = Vec::new(); ' + ' '.join(f'{P}.push({t});' for t in tags) + f' assert forall|t: Seq<char>| #[trigger] hits(t, {P}@) == opens(t, {s}.syntax) by {{ ' + ' '.join(f'assert(starts(t, {P}@[{k}]@) ==> hits(t, {P}@));' for k in range(len(tags))) + ' } ' + b[e+1:]
    b = re.sub(r'not\(eof\)\((\w+)\)', r'not_eof(\1)', b)
    b, k = re.subn(rf'opt\(recognize\(skip_till\({P}\)\)\)\((\w+)\)', rf'opt_recognize(\1, skip_till(&{P}, \1))', b)
    if k != 1: raise Lost('Lit::parse: opt(recognize(skip_till))')
    b = re.sub(r'nom::Err::Error\(error_position!\([^)]*\)\)', 'perr()', b)
    b = re.sub(r'Some\(""\)\s*=>', 'Some(c__) if str_empty(c__) =>', b)
    b = re.sub(r'\bSelf::', 'Lit::', b)
    b = re.sub(r'^(\s*)', rf' let ghost i0_ = {i}@; let ghost x0_ = "";\1', b)
    t = '(r->Ok_0).1.text@'; rest = '(r->Ok_0).0@'
    b = re.sub(r'Ok\(\((\w+),\s*Lit::split_ws_parts\((\w+)\)\)\)\s*$', lambda q: f''' proof {{ reveal_strlit(""); assert({q.group(1)}@.len() == 0 || {q.group(1)}@ == i0_.skip({q.group(2)}@.len() as int)) by {{ assert(({q.group(2)}@ + {q.group(1)}@).skip({q.group(2)}@.len() as int) =~= {q.group(1)}@); }} assert({q.group(2)}@ + {q.group(1)}@ =~= i0_); assert(i0_.skip(0) =~= i0_);
 assert forall|k: int| 0 <= k < {q.group(2)}@.len() implies !opens(#[trigger] i0_.skip(k), {s}.syntax) by {{ assert(hits(i0_.skip(k), {P}@) == opens(i0_.skip(k), {s}.syntax)); }} }} Ok(({q.group(1)}, Lit::split_ws_parts({q.group(2)})))''', b)
    u.fn('Lit::parse', f, f"pub fn lit_parse<'a>({i}: &'a str, {s}: &State<'_>) -> (r: Result<(&'a str, Lit<'a>), PErr>)", b,
         ensures=[f'r is Ok ==> {t} + {rest} == {i}@ && {t}.len() > 0', f'r is Ok ==> {rest}.len() == 0 || opens({rest}, {s}.syntax)', f'r is Ok ==> forall|k: int| 0 <= k < {t}.len() ==> !opens(#[trigger] {i}@.skip(k), {s}.syntax)',
                  f'r is Err ==> {i}@.len() == 0 || opens({i}@, {s}.syntax)'])
    return u

INPUT = 'askama_derive/src/input.rs'
LOOKUP = BASE + r"""
/// file system paths; the files do not change while a template is compiled
#[verifier::external_body]
pub struct PathBuf { x: u8 }
pub uninterp spec fn exists_(p: PathBuf) -> bool;
pub uninterp spec fn join_(p: PathBuf, s: Seq<char>) -> PathBuf;
pub uninterp spec fn beside_(p: PathBuf, s: Seq<char>) -> PathBuf;
pub uninterp spec fn path_of(s: Seq<char>) -> PathBuf;
/// CARGO_MANIFEST_DIR
pub uninterp spec fn root_() -> PathBuf;
/// the file name
pub uninterp spec fn name_of(p: PathBuf) -> Seq<char>;
impl PathBuf {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) ensures r == exists_(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: PathBuf) ensures r == join_(*self, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_file_name(&self, s: &str) -> (r: PathBuf) ensures r == beside_(*self, s@) { unimplemented!() }
    pub fn into(self) -> (r: PathBuf) ensures r == self { self }
    /// file name up to the last dot, and after it
    #[verifier::external_body]
    pub fn extension_str(&self) -> (r: Option<&str>) ensures match r { Some(s) => ext_of(name_of(*self)) == Some(s@), None => ext_of(name_of(*self)) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn stem_path(&self) -> (r: &PathBuf) ensures name_of(*r) == stem_of(name_of(*self)) { unimplemented!() }
}
#[verifier::external_body]
pub fn manifest_dir() -> (r: PathBuf) ensures r == root_() { unimplemented!() }
#[verifier::external_body]
pub fn path_from(s: String) -> (r: PathBuf) ensures r == path_of(s@) { unimplemented!() }
pub open spec fn last_dot(n: Seq<char>) -> Option<int> decreases n.len() { if n.len() == 0 { None } else if n.last() == '.' { Some(n.len() - 1) } else { last_dot(n.drop_last()) } }
/// Path::extension
pub open spec fn ext_of(n: Seq<char>) -> Option<Seq<char>> { if n == ".."@ { None } else { match last_dot(n) { Some(i) if i > 0 => Some(n.skip(i + 1)), _ => None } } }
/// Path::file_stem
pub open spec fn stem_of(n: Seq<char>) -> Seq<char> { match last_dot(n) { Some(i) if i > 0 && n != ".."@ => n.take(i), _ => n } }
/// C23: the first existing file: next to the template that refers to it, then in the directories in their order
pub open spec fn first_at(dirs: Seq<PathBuf>, p: Seq<char>, k: int, r: PathBuf) -> bool {
    0 <= k < dirs.len() && r == join_(dirs[k], p) && exists_(r) && forall|j: int| 0 <= j < k ==> !exists_(join_(#[trigger] dirs[j], p))
}
pub open spec fn found(dirs: Seq<PathBuf>, p: Seq<char>, start: Option<&PathBuf>, r: PathBuf) -> bool {
    match start { Some(s) if exists_(beside_(*s, p)) => r == beside_(*s, p), _ => exists|k: int| first_at(dirs, p, k, r) }
}
pub open spec fn missing(dirs: Seq<PathBuf>, p: Seq<char>, start: Option<&PathBuf>) -> bool {
    (match start { Some(s) => !exists_(beside_(*s, p)), None => true }) && forall|j: int| 0 <= j < dirs.len() ==> !exists_(join_(#[trigger] dirs[j], p))
}
/// the delimiters of a [[syntax]] table, if they are usable (C22)
#[verifier::external_body]
pub struct Syntax { x: u8 }
pub uninterp spec fn default_delimiters() -> Syntax;
pub uninterp spec fn delimiters(r: RawSyntax) -> Option<Syntax>;
impl Syntax {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r == default_delimiters() { unimplemented!() }
}
#[verifier::external_body]
pub fn try_into_(r: RawSyntax<'_>) -> (o: Result<Syntax, CompileError>) ensures match o { Ok(y) => delimiters(r) == Some(y), Err(_) => delimiters(r) is None } { unimplemented!() }
/// BTreeMap<String, Syntax>
#[verifier::external_body]
pub struct Syntaxes { x: u8 }
impl Syntaxes {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Syntax>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Syntax>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: Syntax) -> (r: Option<Syntax>) ensures final(self)@ == old(self)@.insert(k@, v), r is Some <==> old(self)@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Syntax>) ensures r is Some <==> self@.contains_key(k@), r matches Some(s) ==> *s == self@[k@] { unimplemented!() }
}
/// HashSet<String>
#[verifier::external_body]
pub struct ExtSet { x: u8 }
impl ExtSet {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn contains(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
}
pub open spec fn has(v: Seq<&str>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == x }
#[verifier::external_body]
pub fn set_of(v: &Vec<&str>) -> (r: ExtSet) ensures forall|x: Seq<char>| #[trigger] r@.contains(x) == has(v@, x) { unimplemented!() }
#[verifier::external_body]
pub fn to_str(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// the first escaper whose extensions have x
pub open spec fn escaper_at(v: Seq<(ExtSet, String)>, x: Seq<char>) -> Option<Seq<char>> decreases v.len() {
    if v.len() == 0 { None } else { match escaper_at(v.drop_last(), x) { Some(e) => Some(e), None => if v.last().0@.contains(x) { Some(v.last().1@) } else { None } } }
}
/// the same for the table of the configuration
pub open spec fn configured_at(v: Seq<RawEscaper<'_>>, x: Seq<char>) -> Option<Seq<char>> decreases v.len() {
    if v.len() == 0 { None } else { match configured_at(v.drop_last(), x) { Some(e) => Some(e), None => if has(v.last().extensions@, x) { Some(v.last().path@) } else { None } } }
}
/// the built-in escapers, as documented
pub open spec fn html_ext(x: Seq<char>) -> bool { x == "html"@ || x == "htm"@ || x == "svg"@ || x == "xml"@ || x == "j2"@ || x == "jinja"@ || x == "jinja2"@ }
pub open spec fn text_ext(x: Seq<char>) -> bool { x == "md"@ || x == "none"@ || x == "txt"@ || x == "typ"@ || x == "yml"@ || x == ""@ }
pub open spec fn builtin(x: Seq<char>) -> Option<Seq<char>> { if html_ext(x) { Some(CRATE() + "::Html"@) } else if text_ext(x) { Some(CRATE() + "::Text"@) } else { None } }
proof fn disjoint(x: Seq<char>) ensures !(html_ext(x) && text_ext(x)) {
    reveal_strlit("html"); reveal_strlit("htm"); reveal_strlit("svg"); reveal_strlit("xml"); reveal_strlit("j2"); reveal_strlit("jinja"); reveal_strlit("jinja2");
    reveal_strlit("md"); reveal_strlit("none"); reveal_strlit("txt"); reveal_strlit("typ"); reveal_strlit("yml"); reveal_strlit("");
    assert("html"@[0] == 'h' && "htm"@[0] == 'h' && "svg"@[0] == 's' && "xml"@[0] == 'x' && "j2"@[0] == 'j' && "jinja"@[0] == 'j' && "jinja2"@[0] == 'j');
    assert("md"@[0] == 'm' && "none"@[0] == 'n' && "txt"@[0] == 't' && "typ"@[0] == 't' && "yml"@[0] == 'y');
    assert("html"@.len() == 4 && "htm"@.len() == 3 && "svg"@.len() == 3 && "xml"@.len() == 3 && "j2"@.len() == 2 && "jinja"@.len() == 5 && "jinja2"@.len() == 6 && ""@.len() == 0);
}
/// the whole TOML file, parsed (basic_toml, serde)
pub uninterp spec fn toml<'a>(s: Seq<char>) -> Option<RawConfig<'a>>;
pub open spec fn settings<'a>(s: Seq<char>) -> Option<RawConfig<'a>> { if s.len() == 0 { Some(RawConfig { general: None, syntax: None, escaper: None }) } else { toml(s) } }
pub fn no_settings<'a>() -> (r: RawConfig<'a>) ensures r == (RawConfig::<'a> { general: None, syntax: None, escaper: None }) { RawConfig { general: None, syntax: None, escaper: None } }
#[verifier::external_body]
pub fn from_toml_str<'a>(s: &'a str) -> (r: Result<RawConfig<'a>, CompileError>) ensures match r { Ok(c) => toml(s@) == Some(c), Err(_) => toml::<'a>(s@) is None } { unimplemented!() }
#[verifier::external_body]
pub fn str_empty(a: &str) -> (r: bool) ensures r <==> a@.len() == 0 { a.is_empty() }
pub open spec fn dirs_ok(raw: RawConfig<'_>, d: Seq<PathBuf>) -> bool {
    match raw.general { Some(General { dirs: Some(v), .. }) => d.len() == v@.len() && forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == join_(root_(), v@[i]@), _ => d.len() == 1 && d[0] == join_(root_(), "templates"@) }
}
pub open spec fn default_syntax_of(raw: RawConfig<'_>) -> Seq<char> { match raw.general { Some(General { default_syntax: Some(s), .. }) => s@, _ => "default"@ } }
/// of the template, then of the configuration, then of askama
pub open spec fn whitespace_of(raw: RawConfig<'_>, t: Option<&str>) -> Option<WhitespaceHandling> {
    match t {
        Some(w) => if w@ == "suppress"@ { Some(WhitespaceHandling::Suppress) } else if w@ == "minimize"@ { Some(WhitespaceHandling::Minimize) } else if w@ == "preserve"@ { Some(WhitespaceHandling::Preserve) } else { None },
        None => Some(match raw.general { Some(g) => g.whitespace, None => WhitespaceHandling::Preserve }),
    }
}
pub open spec fn syntaxes_at(v: Seq<RawSyntax<'_>>) -> Option<Map<Seq<char>, Syntax>> decreases v.len() {
    if v.len() == 0 { Some(Map::empty().insert("default"@, default_delimiters())) } else { match syntaxes_at(v.drop_last()) {
        Some(m) if !m.contains_key(v.last().name@) => match delimiters(v.last()) { Some(y) => Some(m.insert(v.last().name@, y)), None => None },
        _ => None } }
}
pub open spec fn syntaxes_of_(raw: RawConfig<'_>) -> Seq<RawSyntax<'_>> { match raw.syntax { Some(v) => v@, None => Seq::empty() } }
pub open spec fn escapers_of_(raw: RawConfig<'_>) -> Seq<RawEscaper<'_>> { match raw.escaper { Some(v) => v@, None => Seq::empty() } }
/// C24: configured escapers take precedence
pub open spec fn escaper_of(raw: RawConfig<'_>, x: Seq<char>) -> Option<Seq<char>> { match configured_at(escapers_of_(raw), x) { Some(e) => Some(e), None => builtin(x) } }
proof fn syntaxes_monotone(v: Seq<RawSyntax<'_>>, n: int) requires 0 <= n <= v.len(), syntaxes_at(v) is Some ensures syntaxes_at(v.take(n)) is Some decreases v.len() - n {
    if n < v.len() { syntaxes_monotone(v, n + 1); assert(v.take(n + 1).drop_last() =~= v.take(n)); } else { assert(v.take(n) =~= v); }
}
"""
def by_value(b, name, inv, extra=''):
    """for X in V { .. } over a vector by value -> a loop that removes the first element; inv gets (taken as ghost seq v0_, n_)"""
    g = re.search(rf'for\s+(\w+)\s+in\s+{name}\s*\{{', mask(b))
    if not g: raise Lost('for over ' + name)
    o = g.end() - 1; c = match_close(mask(b), o)
    return (b[:g.start()] + f'let mut q_ = {name}; let ghost v0_ = q_@; let ghost mut n_: int = 0; assert(v0_.take(0) =~= Seq::empty()); while q_.len() > 0\n invariant 0 <= n_ <= v0_.len(), q_@ == v0_.skip(n_), {inv}\n decreases q_.len()\n {{ let {g.group(1)} = q_.remove(0); proof {{ assert({g.group(1)} == v0_[n_]); assert(q_@ =~= v0_.skip(n_ + 1)); assert(v0_.take(n_ + 1).drop_last() =~= v0_.take(n_)); assert(v0_.take(n_ + 1).last() == v0_[n_]); }} {extra}'
            + b[o+1:c] + f' proof {{ n_ = n_ + 1; }} }} proof {{ assert(v0_.take(n_) =~= v0_); }}' + b[c+1:])
def str_match(b):
    """match S { "lit" => X, .., v => Y } -> if chain"""
    i = 0
    while True:
        g = re.compile(r'\bmatch\s+(\w+)\s*\{').search(mask(b), i)
        if not g: return b
        o = g.end() - 1; c = match_close(mask(b), o); arms = split_args(b[o+1:c]); i = g.end(); out = []
        if not re.match(r'^"', arms[0]): continue
        for a in arms:
            h = re.match(r'^("(?:[^"\\]|\\.)*"(?:\s*\|\s*"(?:[^"\\]|\\.)*")*|\w+)\s*=>\s*(.*)$', a, re.S)
            if not h: raise Lost('match over texts')
            if h.group(1)[0] == '"': out.append('if ' + ' || '.join(f'str_eq({g.group(1)}, {l.strip()})' for l in re.findall(r'"(?:[^"\\]|\\.)*"', h.group(1))) + f' {{ {h.group(2)} }} else ')
            else: out.append(f'{{ let {h.group(1)} = {g.group(1)}; {h.group(2)} }}')
        b = b[:g.start()] + '(' + ''.join(out) + ')' + b[c+1:]
def config_types(u, c):
    for n in ('General', 'RawSyntax', 'RawEscaper', 'RawConfig'): raw_struct(c, n, u)
    e = c.find(r'enum\s+WhitespaceHandling\b'); vs = [re.sub(r'#\[[^\]]*\]', '', v).strip() for v in split_args(strip_comments(e.body))]
    if sorted(vs) != ['Minimize', 'Preserve', 'Suppress']: raise Lost('WhitespaceHandling')
    d = [v for v in split_args(strip_comments(e.body)) if '#[default]' in v]
    if len(d) != 1: raise Lost('WhitespaceHandling: default')
    u.raw('#[derive(Clone, Copy)]\npub enum WhitespaceHandling { ' + ', '.join(vs) + ' }\nimpl WhitespaceHandling { pub fn default() -> (r: Self) ensures r == WhitespaceHandling::' + re.sub(r'#\[[^\]]*\]', '', d[0]).strip() + ' { WhitespaceHandling::' + re.sub(r'#\[[^\]]*\]', '', d[0]).strip() + ' } }')
    f = re.sub(r'\s+', ' ', strip_comments(c.find(r'struct\s+Config\b').text))
    for x in ('dirs: Vec<PathBuf>', "syntaxes: BTreeMap<String, Syntax<'a>>", "default_syntax: &'a str", 'escapers: Vec<(HashSet<String>, String)>', 'whitespace: WhitespaceHandling'):
        if x not in f: raise Lost('Config: ' + x)
    u.raw("pub struct Config<'a> { pub dirs: Vec<PathBuf>, pub syntaxes: Syntaxes, pub default_syntax: &'a str, pub escapers: Vec<(ExtSet, String)>, pub whitespace: WhitespaceHandling }")
def find_template(u, c, own=('C23',)):
    f = c.find(r"impl<'a>\s+Config<'a>").sub(r'fn\s+find_template\b'); b = strip_comments(f.body); g = re.search(r'(\w+): &str,\s*(\w+): Option<&Path>', f.head)
    if not g: raise Lost('find_template')
    p, s = g.groups(); b = gen.errs(b)
    h = re.search(r'for\s+(\w+)\s+in\s+&self\.dirs\s*\{', mask(b)) or re.search(r'for\s+(\w+)\s+in\s+self\.dirs\.iter\(\)(?:\.rev\(\))?\s*\{', mask(b))
    if not h: raise Lost('find_template: for')
    o = h.end() - 1; cl = match_close(mask(b), o); inner = re.sub(r'return Ok\(([^;]*)\)\s*;', r'{ let r_ = \1; assert(first_at(self.dirs@, ' + p + r'@, k_ - 1, r_)); return Ok(r_); }', b[o+1:cl])
    b = b[:h.start()] + f'let mut k_: usize = 0; while k_ < self.dirs.len() invariant k_ <= self.dirs.len(), forall|j: int| 0 <= j < k_ ==> !exists_(join_(#[trigger] self.dirs@[j], {p}@)) decreases self.dirs.len() - k_ {{ let {h.group(1)} = &self.dirs[{"self.dirs.len() - 1 - k_" if ".rev()" in h.group(0) else "k_"}]; k_ += 1; {inner} }}' + b[cl+1:]
    u.fn('Config::find_template', f, f"pub fn find_template(&self, {p}: &str, {s}: Option<&PathBuf>) -> (r: Result<PathBuf, CompileError>)", b, before="impl<'a> Config<'a> {", after='}', attrs='#[verifier::loop_isolation(false)]', own=own,
         ensures=[f'r matches Ok(q) ==> found(self.dirs@, {p}@, {s}, q)', f'r is Err ==> missing(self.dirs@, {p}@, {s})'])
def static(c, n):
    g = re.search(rf'static\s+{n}:\s*&str\s*=\s*("[^"]*");', c.text) or re.search(rf'const\s+{n}:\s*&str\s*=\s*("[^"]*");', c.text)
    if not g: raise Lost(n)
    return g.group(1)
def table(name, vals):
    return '{ let mut x_: Vec<&str> = Vec::new(); ' + ' '.join(f'x_.push({v});' for v in vals) + f' x_ }}'
def config(repo, prop='C23'):
    u = Unit(prop.lower() + '_config'); c = Src(repo, C); u.use('use vstd::string::*;'); config_types(u, c); u.raw(LOOKUP); u.raw(gen.SHOW)
    u.trust('Path, PathBuf, HashSet, BTreeMap by contract; ' + gen.SHOW_TRUST + '; the TOML parser (basic_toml with serde derives) as an unknown function of the text'); u.trust('the file system does not change while a template is compiled')
    u.drop('texts of error messages; Rc<Path> and Path -> PathBuf; for loops -> while loops; iter().map(..).collect() -> loops; static tables written out')
    if prop == 'C23': find_template(u, c)
    f = c.find(r'fn\s+str_set\b')
    if not re.match(r'^vals\.iter\(\)\.map\(\|s\| s\.to_string\(\)\)\.collect\(\)$', re.sub(r'\s+(?=[.])', '', strip_comments(f.body).strip())): raise Lost('str_set')
    f = c.find(r"impl<'a>\s+Config<'a>").sub(r'fn\s+new\b'); b = strip_comments(f.body); g = re.search(r"(\w+): &'a str,\s*(\w+): Option<&str>", f.head)
    if not g: raise Lost('Config::new')
    s, tw = g.groups(); b = gen.errs(b)
    b = re.sub(r'PathBuf::from\(env::var\("CARGO_MANIFEST_DIR"\)\.unwrap\(\)\)', 'manifest_dir()', b)
    b = re.sub(r'let default_dirs = vec!\[([^\]]*)\];', r'let default_dirs = { let mut d_ = Vec::new(); d_.push(\1); d_ };', b)
    b = re.sub(r'\bBTreeMap::new\(\)', 'Syntaxes::new()', b); b = re.sub(r'\bDEFAULT_SYNTAX_NAME\b', static(c, 'DEFAULT_SYNTAX_NAME'), b)
    b = re.sub(r'RawConfig::default\(\)', 'no_settings()', b); b = b.replace('RawConfig::from_toml_str', 'from_toml_str')
    b = re.sub(r'\b(\w+)\.is_empty\(\)', r'str_empty(\1)', b); b = str_match(b)
    b = re.sub(r'("[^"]*"|\b(?:name|escaper\.path))\.to_string\(\)', r'to_str(\1)', b); b = re.sub(r'\b(\w+)\.try_into\(\)', r'try_into_(\1)', b)
    def mo(e, a):
        p, x = closure(a[1]); h = re.match(rf'^\{{?\s*{p}\.into_iter\(\)\.map\((.*)\)\.collect\(\)\s*\}}?$', re.sub(r'\s*\n\s*', '', x), re.S)
        if not h: raise Lost('map_or: ' + x)
        q, y = closure(h.group(1))
        return f'(match {e} {{ Some({p}) => {{ let mut o_: Vec<PathBuf> = Vec::new(); let mut k_: usize = 0; while k_ < {p}.len() invariant k_ <= {p}.len(), o_.len() == k_, forall|j: int| 0 <= j < k_ ==> #[trigger] o_@[j] == join_(root_(), {p}@[j]@) decreases {p}.len() - k_ {{ let {q} = {p}[k_]; k_ += 1; o_.push({y}); }} o_ }}, None => {a[0]} }})'
    b = method_calls(b, 'map_or', mo); b = method_calls(b, 'unwrap_or', lambda r, a: f'(match {r} {{ Some(x__) => x__, None => {a[0]} }})')
    # the syntaxes
    b = by_value(b, 'raw_syntaxes', 'syntaxes_at(v0_.take(n_)) == Some(syntaxes@), v0_ == syntaxes_of_(raw0_)', 'proof { if syntaxes_at(v0_) is Some { syntaxes_monotone(v0_, n_ + 1); } }')
    # the escapers
    b = re.sub(r'escaper\s*\.extensions\s*\.iter\(\)\s*\.map\(\|(\w+)\| \(\*\1\)\.to_string\(\)\)\s*\.collect\(\)', 'set_of(&escaper.extensions)', b)
    step = 'let ghost e0_ = escapers@;'
    b = by_value(b, 'configured', 'v0_ == escapers_of_(raw0_), forall|x: Seq<char>| #[trigger] escaper_at(escapers@, x) == configured_at(v0_.take(n_), x)', step)
    g = re.search(r'escapers\.push\(\((?:[^;]*)\)\);', b)
    if not g: raise Lost('escapers.push')
    b = b[:g.end()] + ' assert(escapers@.drop_last() =~= e0_); assert forall|x: Seq<char>| #[trigger] escaper_at(escapers@, x) == configured_at(v0_.take(n_ + 1), x) by { let _ = escaper_at(e0_, x); assert(escaper_at(e0_, x) == configured_at(v0_.take(n_), x)); assert(escapers@.last().0@.contains(x) == has(v0_[n_].extensions@, x)); } ' + b[g.end():]
    g = re.search(r'static\s+DEFAULT_ESCAPERS:\s*&\[\(&\[&str\], &str\)\]\s*=\s*&\[(.*?)\];', strip_comments(c.text), re.S); h = re.search(r'for\s+\((\w+),\s*(\w+)\)\s+in\s+DEFAULT_ESCAPERS\s*\{', mask(b))
    if not g or not h: raise Lost('DEFAULT_ESCAPERS')
    o = h.end() - 1; cl = match_close(mask(b), o); inner = b[o+1:cl]; out = ''; n = 0
    if re.search(r'\b(break|continue|return)\b', mask(inner)): raise Lost('DEFAULT_ESCAPERS: jump')
    for row in split_args(g.group(1)):
        q = re.match(r'^\(&\[(.*?)\],\s*("[^"]*")\s*\)$', row, re.S)
        if not q: raise Lost('DEFAULT_ESCAPERS: ' + row)
        vals = split_args(q.group(1))
        out += f'{{ let ghost e0_ = escapers@; let {h.group(1)} = {table("x", vals)}; let {h.group(2)} = {q.group(2)}; {inner} proof {{ assert(escapers@.drop_last() =~= e0_); ' + ' '.join(f'assert({h.group(1)}@[{k}]@ == {v}@);' for k, v in enumerate(vals))
        out += f' assert forall|x: Seq<char>| #[trigger] escapers@.last().0@.contains(x) == (' + ' || '.join(f'x == {v}@' for v in vals) + f') by {{ }} }} let ghost l{n}_ = escapers@.last(); assert forall|x: Seq<char>| #[trigger] escaper_at(escapers@, x) == (match escaper_at(e0_, x) {{ Some(e) => Some(e), None => if ' + ' || '.join(f'x == {v}@' for v in vals) + f' {{ Some(CRATE() + {q.group(2)}@) }} else {{ None }} }}) by {{ }} }}\n'; n += 1
    b = b[:h.start()] + out + ' proof { assert forall|x: Seq<char>| #[trigger] escaper_at(escapers@, x) == escaper_of(raw0_, x) by { disjoint(x); } } ' + b[cl+1:]
    b = re.sub(r'\bstr_set\((\w+)\)', r'set_of(&\1)', b)
    b = gen.formats(b)
    b = b.replace('let (dirs, default_syntax, mut whitespace) =', 'let ghost raw0_ = raw; let (dirs, default_syntax, mut whitespace) =', 1)
    b = re.sub(r'let mut escapers = Vec::new\(\);', 'let mut escapers: Vec<(ExtSet, String)> = Vec::new();', b)
    ok = f'settings::<\'a>({s}@) is Some && whitespace_of(settings::<\'a>({s}@)->0, {tw}) is Some && (syntaxes_at(syntaxes_of_(settings::<\'a>({s}@)->0)) matches Some(m) && m.contains_key(default_syntax_of(settings::<\'a>({s}@)->0)))'
    R = f"settings::<'a>({s}@)->0"
    u.fn('Config::new', f, f"pub fn config_new<'a>({s}: &'a str, {tw}: Option<&str>) -> (r: Result<Config<'a>, CompileError>)", b, attrs='#[verifier::loop_isolation(false)]',
         ensures={'C23': [f'r is Ok <==> {ok}', f'r matches Ok(c) ==> dirs_ok({R}, c.dirs@)', f'r matches Ok(c) ==> c.default_syntax@ == default_syntax_of({R}) && syntaxes_at(syntaxes_of_({R})) == Some(c.syntaxes@) && c.syntaxes@.contains_key(c.default_syntax@)',
                  f'r matches Ok(c) ==> whitespace_of({R}, {tw}) == Some(c.whitespace)'], 'C24': [f'r matches Ok(c) ==> forall|x: Seq<char>| #[trigger] escaper_at(c.escapers@, x) == escaper_of({R}, x)']}[prop])
    return u

MIMES = ('TEXT_PLAIN', 'TEXT_HTML', 'TEXT_CSS', 'TEXT_CSV', 'TEXT_TAB_SEPARATED_VALUES', 'APPLICATION_JAVASCRIPT')
ARGS = r"""
#[verifier::external_body]
pub struct Ident { x: u8 }
pub uninterp spec fn ident_text(i: Ident) -> Seq<char>;
impl Show for Ident { open spec fn shown(&self) -> Seq<char> { ident_text(*self) } #[verifier::external_body] fn show(&self, s: &mut String) { unimplemented!() } }
pub struct DeriveInput { pub ident: Ident }
#[derive(Clone, Copy)]
pub struct Print { pub n: u8 }
pub enum Source { Path(String), Source(String) }
pub struct TemplateArgs { pub source: Option<Source>, pub block: Option<String>, pub print: Print, pub escaping: Option<String>, pub ext: Option<String>, pub syntax: Option<String>, pub config: Option<String>, pub whitespace: Option<String> }
pub struct TemplateInput<'a> { pub ast: &'a DeriveInput, pub config: &'a Config<'a>, pub syntax: &'a Syntax, pub source: &'a Source, pub block: Option<&'a str>, pub print: Print, pub escaper: &'a str, pub ext: Option<&'a str>, pub mime_type: String, pub path: PathBuf }
pub open spec fn ov(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn sv(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn or_(o: Option<Seq<char>>, d: Seq<char>) -> Seq<char> { match o { Some(s) => s, None => d } }
#[verifier::external_body]
pub fn as_deref_<'a>(o: &'a Option<String>) -> (r: Option<&'a str>) ensures sv(r) == ov(*o) { o.as_deref() }
/// Option::expect panics, which ends the compilation
#[verifier::external_body]
pub fn expect_<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { unimplemented!() }
/// C24: what is reported as the extension of a file
pub open spec fn template_ext(x: Seq<char>) -> bool { x == "j2"@ || x == "jinja"@ || x == "jinja2"@ }
pub open spec fn reported(n: Seq<char>) -> Option<Seq<char>> {
    match ext_of(n) { None => None, Some(e) => if template_ext(e) { match ext_of(stem_of(n)) { Some(x) => Some(x), None => Some(e) } } else { Some(e) } }
}
pub open spec fn reported_of(ext: Option<Seq<char>>, p: PathBuf) -> Option<Seq<char>> { match ext { Some(e) => Some(e), None => reported(name_of(p)) } }
/// the crates mime and mime_guess: types by number
pub struct Mime { pub n: Ghost<int> }
pub uninterp spec fn mime_text(n: int) -> Seq<char>;
pub uninterp spec fn guessed(ext: Seq<char>) -> int;
#[verifier::external_body]
pub fn guess_(ext: &str) -> (r: Mime) ensures r.n@ == guessed(ext@) { unimplemented!() }
#[verifier::external_body]
pub fn mime_eq(a: &Mime, b: &Mime) -> (r: bool) ensures r <==> a.n@ == b.n@ { unimplemented!() }
impl Mime {
    pub fn clone(&self) -> (r: Mime) ensures r.n@ == self.n@ { Mime { n: self.n } }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == mime_text(self.n@) { unimplemented!() }
}
/// C24: text types are reported as UTF-8 (TYPE n with charset is n + 1000)
pub open spec fn utf8_(n: int) -> int { if 1 <= n <= %d { n + 1000 } else { n } }
/// what determines the escaper
pub open spec fn escaping_of(a: TemplateArgs, p: PathBuf) -> Seq<char> { or_(ov(a.escaping), or_(ext_of(name_of(p)), ""@)) }
/// the file, or the name made up for a source
pub open spec fn located(a: TemplateArgs, i: DeriveInput, c: Config<'_>, p: PathBuf) -> bool {
    match a.source { Some(Source::Path(s)) => found(c.dirs@, s@, None, p), Some(Source::Source(_)) => a.ext is Some && p == path_of(ident_text(i.ident) + "."@ + a.ext->0@), None => false }
}
/// files
pub uninterp spec fn contents(p: PathBuf) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn read_to_string_(p: &PathBuf) -> (r: Result<String, CompileError>) ensures match r { Ok(s) => contents(*p) == Some(s@), Err(_) => contents(*p) is None } { unimplemented!() }
"""
def jump_free(b):
    if re.search(r'\b(break|continue)\b', mask(b)): raise Lost('jump in a loop over a table')
def inputs(repo, prop='C24'):
    u = Unit(prop.lower() + '_input'); c = Src(repo, C); s = Src(repo, INPUT); u.use('use vstd::string::*;'); config_types(u, c); u.raw(LOOKUP); u.raw(gen.SHOW); u.raw(ARGS % len(MIMES))
    u.raw("impl<'a> Config<'a> { #[verifier::external_body] pub fn find_template(&self, path: &str, start_at: Option<&PathBuf>) -> (r: Result<PathBuf, CompileError>) ensures r matches Ok(q) ==> found(self.dirs@, path@, start_at, q), r is Err ==> missing(self.dirs@, path@, start_at) { unimplemented!() } }")
    u.trust('Path::extension and file_stem by contract on the file name (UTF-8); mime_guess as an unknown function of the extension, equality of MIME types, their constants'); u.trust('find_template by its contract (proved in the unit c23_config)')
    u.drop('texts of error messages; Rc<Path> -> PathBuf; tables written out; destructuring of TemplateArgs -> one let per field')
    st = re.sub(r'\s+', ' ', strip_comments(s.find(r'struct\s+TemplateArgs\b').body)).replace('pub(crate) ', '')
    if sorted(x.strip() for x in st.split(',') if x.strip()) != sorted(['source: Option<Source>', 'block: Option<String>', 'print: Print', 'escaping: Option<String>', 'ext: Option<String>', 'syntax: Option<String>', 'config: Option<String>', 'whitespace: Option<String>']): raise Lost('TemplateArgs')
    def paths(b):
        b = re.sub(r'\.\s*extension\(\)\s*\.map\(\|(\w+)\| \1\.to_str\(\)\.unwrap\(\)\)', '.extension_str()', b)
        return re.sub(r'\bPath::new\((\w+)\.file_stem\(\)\.unwrap\(\)\)', r'\1.stem_path()', b)
    def opts(b):
        b = method_calls(b, 'or_else', lambda r, a: f'(match {r} {{ Some(x__) => Some(x__), None => {closure(a[0])[1]} }})')
        b = method_calls(b, 'or', lambda r, a: f'(match {r} {{ Some(x__) => Some(x__), None => {a[0]} }})')
        b = method_calls(b, 'unwrap_or', lambda r, a: f'(match {r} {{ Some(x__) => x__, None => {a[0]} }})')
        return method_calls(b, 'unwrap_or_else', lambda r, a: f'(match {r} {{ Some(x__) => x__, None => {closure(a[0])[1]} }})')
    # extension
    f = s.find(r'fn\s+extension\(path'); b = paths(strip_comments(f.body))
    g = re.search(r'const\s+(\w+):\s*\[&str;\s*\d+\]\s*=\s*\[(.*?)\];', b, re.S)
    if g:
        b = b[:g.start()] + b[g.end():]; vals = split_args(g.group(2))
        b = re.sub(rf'\b{g.group(1)}\s*\.\s*contains\(&(\w+)\)', lambda q: '(' + ' || '.join(f'str_eq({q.group(1)}, {v})' for v in vals) + ')', b)
    u.fn('extension', f, 'pub fn extension(path: &PathBuf) -> (r: Option<&str>)', opts(b), ensures=['sv(r) == reported(name_of(*path))'], own=('C24',))
    f = s.find(r'fn\s+ext_default_to_path\b'); u.fn('ext_default_to_path', f, "pub fn ext_default_to_path<'a>(ext: Option<&'a str>, path: &'a PathBuf) -> (r: Option<&'a str>)", opts(strip_comments(f.body)), ensures=['sv(r) == reported_of(sv(ext), *path)'], own=('C24',))
    # MIME types
    t = re.search(r'const\s+TEXT_TYPES:\s*\[\(Mime, Mime\);\s*\d+\]\s*=\s*\[(.*?)\];', strip_comments(s.text), re.S)
    if not t: raise Lost('TEXT_TYPES')
    rows = [tuple(x.strip() for x in split_args(r.strip()[1:-1])) for r in split_args(t.group(1))]; names = {}
    for r in rows:
        for x in r:
            g = re.match(r'^mime::([A-Z0-9_]+)$', x)
            if not g: raise Lost('TEXT_TYPES: ' + x)
            n = g.group(1)
            if n in names: continue
            names[n] = MIMES.index(n) + 1 if n in MIMES else MIMES.index(n[:-6]) + 1001 if n.endswith('_UTF_8') and n[:-6] in MIMES else 5000 + len(names)
    u.raw(''.join(f'pub fn m_{n}() -> (r: Mime) ensures r.n@ == {k} {{ Mime {{ n: Ghost({k}int) }} }}\n' for n, k in names.items()))
    f = s.find(r'fn\s+extension_to_mime_type\b'); b = strip_comments(f.body); b = re.sub(r'mime_guess::from_ext\((\w+)\)\s*\.\s*first_or_octet_stream\(\)', r'guess_(\1)', b)
    h = re.search(r'for\s+\((\w+),\s*(\w+)\)\s+in\s+&?TEXT_TYPES\s*\{', mask(b))
    if not h: raise Lost('extension_to_mime_type')
    o = h.end() - 1; cl = match_close(mask(b), o); inner = b[o+1:cl]; jump_free(inner)
    inner = re.sub(r'&(\w+)\s*==\s*(\w+)\b', r'mime_eq(&\1, \2)', inner)
    b = b[:h.start()] + '\n'.join(f'{{ let {h.group(1)} = &m_{a[6:]}(); let {h.group(2)} = &m_{z[6:]}(); {inner} }}' for a, z in rows) + b[cl+1:]
    u.fn('extension_to_mime_type', f, 'pub fn extension_to_mime_type(ext: &str) -> (r: Mime)', b, ensures=['r.n@ == utf8_(guessed(ext@))'], own=('C24',))
    # TemplateInput::new
    f = s.find(r"impl\s+TemplateInput<'_>").sub(r'fn\s+new\b'); b = strip_comments(f.body)
    g = re.search(r'let\s+TemplateArgs\s*\{([^}]*)\}\s*=\s*args;', b)
    if not g: raise Lost('TemplateInput::new: args')
    b = b[:g.start()] + ' '.join(f'let {x} = &args.{x};' for x in (y.strip() for y in g.group(1).split(',')) if x and x != '..') + b[g.end():]
    b = re.sub(r'\b(\w+)\s*\.as_ref\(\)\s*\.expect\("[^"]*"\)', r'expect_(\1.as_ref())', b)
    g = re.search(r'match\s+\(&(\w+),\s*&(\w+)\)\s*\{', b)
    if g:
        o = g.end() - 1; cl = match_close(mask(b), o); b = b[:g.start()] + f'match ({g.group(1)}, {g.group(2)}) {{' + re.sub(r'\(&\s*Source::', '(Source::', b[o+1:cl]) + b[cl:]
    b = gen.errs(paths(b)); b = re.sub(r'PathBuf::from\(', 'path_from(', b)
    b = re.sub(r'CompileError::from\(format!\((?:[^()"]|"(?:[^"\\]|\\.)*")*\)\)', 'err_()', b)
    b = re.sub(r'\b(\w+)\.as_deref\(\)', r'as_deref_(\1)', re.sub(r'\b(\w+)\s*\.as_deref\(\)', r'\1.as_deref()', b))
    def moe(e, a):
        p, x = closure(a[1]); return f'(match {e} {{ Some({p}) => {x}, None => {closure(a[0])[1]} }})'
    b = method_calls(b, 'map_or_else', moe); b = method_calls(b, 'ok_or_else', lambda r, a: f'(match {r} {{ Some(x__) => Ok(x__), None => Err({closure(a[0])[1]}) }})')
    b = opts(b); b = gen.formats(b)
    h = re.search(r'for\s+\((\w+),\s*(\w+)\)\s+in\s+&config\.escapers\s*\{', mask(b))
    if not h: raise Lost('TemplateInput::new: escapers')
    o = h.end() - 1; cl = match_close(mask(b), o); inner = b[o+1:cl]
    V = re.search(r'\.contains\((\w+)\)', inner); D = re.search(r'let mut (\w+) = None;\s*$', b[:h.start()])
    if not V or not D: raise Lost('TemplateInput::new: escapers')
    D = D.group(1); PV = re.search(r'let\s+(\w+)(?::[^=;]*)?\s*=\s*match\s*\(', b)
    if not PV: raise Lost('TemplateInput::new: path')
    PV = PV.group(1)
    eqn = lambda n: f'(match {D} {{ Some(e_) => escaper_at(es_.take({n}), {V.group(1)}@) == Some(e_@), None => escaper_at(es_.take({n}), {V.group(1)}@) is None }})'
    inner = re.sub(r'\bbreak\s*;', '{ proof { escaper_stays(es_, k_ as int, ' + V.group(1) + '@); } break; }', inner)
    b = (b[:h.start()].replace(f'let mut {D} = None;', f'let mut {D}: Option<&String> = None;') + f'let ghost es_ = config.escapers@; let mut k_: usize = 0; assert(es_.take(0) =~= Seq::empty()); while k_ < config.escapers.len() invariant_except_break k_ <= es_.len(), {D} is None, escaper_at(es_.take(k_ as int), {V.group(1)}@) is None ensures {eqn("es_.len() as int")} decreases config.escapers.len() - k_ {{ let {h.group(1)} = &config.escapers[k_].0; let {h.group(2)} = &config.escapers[k_].1; k_ += 1; proof {{ assert(es_.take(k_ as int).drop_last() =~= es_.take(k_ - 1)); }} {inner} }} proof {{ assert(es_.take(es_.len() as int) =~= es_); assert(located(*args, *ast, *config, {PV})); assert(escaping_of(*args, {PV}) == {V.group(1)}@); }}' + b[cl+1:])
    u.raw("proof fn escaper_stays(v: Seq<(ExtSet, String)>, n: int, x: Seq<char>) requires 0 <= n <= v.len(), escaper_at(v.take(n), x) is Some ensures escaper_at(v.take(v.len() as int), x) == escaper_at(v.take(n), x) decreases v.len() - n { if n < v.len() { assert(v.take(n + 1).drop_last() =~= v.take(n)); escaper_stays(v, n + 1, x); } }")
    key = "or_(ov(args.syntax), config.default_syntax@)"
    u.fn('TemplateInput::new', f, "pub fn input_new<'n>(ast: &'n DeriveInput, config: &'n Config<'_>, args: &'n TemplateArgs) -> (r: Result<TemplateInput<'n>, CompileError>)", b, attrs='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
         requires=['config.syntaxes@.contains_key(config.default_syntax@)'],
         ensures={'C23': ['r matches Ok(t) ==> located(*args, *ast, *config, t.path)', f'r matches Ok(t) ==> config.syntaxes@.contains_key({key}) && *t.syntax == config.syntaxes@[{key}]',
                  'r matches Ok(t) ==> escaper_at(config.escapers@, escaping_of(*args, t.path)) == Some(t.escaper@)',
                  'r matches Ok(t) ==> sv(t.ext) == ov(args.ext) && sv(t.block) == ov(args.block) && Some(*t.source) == args.source && *t.config == *config',
                  f'r is Err ==> (args.source matches Some(Source::Path(s)) && missing(config.dirs@, s@, None)) || (args.source matches Some(Source::Source(_)) && args.ext is None) || !config.syntaxes@.contains_key({key}) || exists|p: PathBuf| located(*args, *ast, *config, p) && escaper_at(config.escapers@, #[trigger] escaping_of(*args, p)) is None'],
                  'C24': ['r matches Ok(t) ==> escaper_at(config.escapers@, escaping_of(*args, t.path)) == Some(t.escaper@)', 'r matches Ok(t) ==> t.mime_type@ == mime_text(utf8_(guessed(or_(reported_of(ov(args.ext), t.path), "txt"@))))',
                  'r matches Ok(t) ==> sv(t.ext) == ov(args.ext)', f'(exists|p: PathBuf| located(*args, *ast, *config, p) && escaper_at(config.escapers@, #[trigger] escaping_of(*args, p)) is Some && forall|q: PathBuf| located(*args, *ast, *config, q) ==> q == p) && config.syntaxes@.contains_key({key}) ==> r is Ok']}[prop])
    f = s.find(r"impl\s+TemplateInput<'_>").sub(r'fn\s+extension\b')
    u.fn('TemplateInput::extension', f, 'pub fn input_extension(&self) -> (r: Option<&str>)', strip_comments(f.body), ensures=['sv(r) == reported_of(sv(self.ext), self.path)'], before="impl<'a> TemplateInput<'a> {", after='}', own=('C24',))
    # the configuration file
    f = c.find(r'fn\s+read_config_file\b'); b = gen.errs(strip_comments(f.body)); b = re.sub(r'PathBuf::from\(env::var\("CARGO_MANIFEST_DIR"\)\.unwrap\(\)\)', 'manifest_dir()', b)
    b = re.sub(r'\bCONFIG_FILE_NAME\b', static(c, 'CONFIG_FILE_NAME'), b); b = re.sub(r'fs::read_to_string\(&(\w+)\)', r'read_to_string_(&\1)', b)
    b = method_calls(b, 'map_err', lambda r, a: f'(match {r} {{ Ok(x__) => Ok(x__), Err(_) => Err(err_()) }})'); b = re.sub(r'("[^"]*")\.to_string\(\)', r'to_str(\1)', b)
    F = 'join_(root_(), match config_path { Some(p) => p@, None => "askama.toml"@ })'
    u.fn('read_config_file', f, 'pub fn read_config_file(config_path: Option<&str>) -> (r: Result<String, CompileError>)', b, own=('C23',),
         ensures=[f'r matches Ok(s) ==> (if exists_({F}) {{ contents({F}) == Some(s@) }} else {{ config_path is None && s@ == ""@ }})', f'r is Err ==> (if exists_({F}) {{ contents({F}) is None }} else {{ config_path is Some }})'])
    f = s.find(r'impl\s+TemplateArgs').sub(r'fn\s+config\b')
    u.fn('TemplateArgs::config', f, 'pub fn args_config(&self) -> (r: Result<String, CompileError>)', re.sub(r'\b((?:self\.)?\w+)\.as_deref\(\)', r'as_deref_(&\1)', strip_comments(f.body)), own=('C23',), before='impl TemplateArgs {', after='}',
         ensures=['r matches Ok(s) ==> ({ let f = join_(root_(), or_(ov(self.config), "askama.toml"@)); if exists_(f) { contents(f) == Some(s@) } else { self.config is None && s@ == ""@ } })'])
    return u

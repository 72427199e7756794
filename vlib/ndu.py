"""The parsers of the tags under contract: which parts of a tag end up where in its node (productions of the template language)."""
import re
from .rsx import *
from .rw import *
from . import gen, cou
from .nomc import Nom
from .verus import Unit

SPEC = r'''
/// what a parser has consumed, part by part; blanks between the parts are not recorded
pub enum Ev<'a> {
    /// delimiters
    BS, BE, ES, EE, CS, CE,
    /// the place of a whitespace marker, and the marker that stands there
    Mark(Option<Whitespace>),
    /// a name or keyword; punctuation; one character of verbatim text
    Id(Seq<char>), Tok(Seq<char>), Any(char),
    Str(Seq<char>), PathOr(PathOrIdentifier<'a>), TLit(Target<'a>),
    Ex(Expr<'a>), Args(bool, Vec<Expr<'a>>), Filt((&'a str, Option<Vec<Expr<'a>>>)),
    Tgt(Target<'a>), Tgt1(Target<'a>), Named((&'a str, Target<'a>)), Params(Vec<&'a str>),
    CT(CondTest<'a>), IfCT(CondTest<'a>), Branch(Cond<'a>), When(When<'a>), Else(When<'a>),
    Nodes(Vec<Node<'a>>), Nd(Node<'a>), Stmt(Node<'a>), Chr(Seq<char>), Num(Seq<char>), Bool(Seq<char>),
}
pub enum PathOrIdentifier<'a> { Path(Vec<&'a str>), Identifier(&'a str) }
pub open spec fn mk<'a>(w: Option<Whitespace>) -> Ev<'a> { Ev::Mark(w) }
pub open spec fn id<'a>(s: &str) -> Ev<'a> { Ev::Id(s@) }
pub open spec fn tok<'a>(s: &str) -> Ev<'a> { Ev::Tok(s@) }
/// these begin with the start delimiter of a block
pub open spec fn opens(e: Ev) -> bool { e is BS || e is Branch || e is When || e is Else || e is Nodes }
/// the rest of the template, with what was consumed before; loose: blanks outside of tags were skipped
#[derive(Clone, Copy)]
pub struct Inp<'a> { pub s: &'a str, pub log: Ghost<Seq<Ev<'a>>>, pub sp: Ghost<bool>, pub loose: Ghost<bool> }
pub open spec fn fresh(i: Inp) -> bool { i.log@.len() == 0 && !i.sp@ && !i.loose@ }
pub open spec fn step<'a>(i: Inp<'a>, j: Inp<'a>, e: Ev<'a>) -> bool { j.log@ == i.log@.push(e) && !j.sp@ && j.loose@ == (i.loose@ || (i.sp@ && opens(e))) }
#[verifier::external_body] pub struct Ec { x: u8 }
#[verifier::external_body] pub fn ec() -> Ec { unimplemented!() }
pub mod nom { pub enum Err { Incomplete, Error(super::Ec), Failure(super::Ec) } }
pub type PR<'a, T> = Result<(Inp<'a>, T), nom::Err>;
#[verifier::external_body]
pub fn same_place(a: Inp<'_>, b: Inp<'_>) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn skip_ws<'a>(i: Inp<'a>) -> (j: Inp<'a>) ensures j.log@ == i.log@, j.sp@, j.loose@ == (i.loose@ || (i.log@.len() > 0 && i.log@.last() is BE)) { unimplemented!() }
#[verifier::external_body]
pub fn tag_<'a>(t: &str, i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::Tok(t@)) && v@ == t@ { unimplemented!() }
pub open spec fn ch<'a>(c: char) -> Ev<'a> { Ev::Tok(seq![c]) }
#[verifier::external_body]
pub fn char_<'a>(c: char, i: Inp<'a>) -> (r: PR<'a, char>) ensures r matches Ok((j, v)) ==> step(i, j, ch(c)) && v == c { unimplemented!() }
#[verifier::external_body]
pub fn anychar<'a>(i: Inp<'a>) -> (r: PR<'a, char>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::Any(v)) { unimplemented!() }
/// the text of a run of characters
pub open spec fn text(l: Seq<Ev>) -> Seq<char> { Seq::new(l.len(), |k: int| l[k]->Any_0) }
#[verifier::external_body]
pub fn between<'a>(i: Inp<'a>, j: Inp<'a>) -> (r: &'a str) ensures
    (j.log@.len() >= i.log@.len() && (forall|k: int| i.log@.len() <= k < j.log@.len() ==> j.log@[k] is Any)) ==> r@ == text(j.log@.skip(i.log@.len() as int)) { unimplemented!() }
#[verifier::external_body]
pub fn identifier<'a>(i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::Id(v@)) { unimplemented!() }
#[verifier::external_body]
pub fn str_lit<'a>(i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::Str(v@)) { unimplemented!() }
#[verifier::external_body]
pub fn eof<'a>(i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> j.log@ == i.log@ && j.loose@ == i.loose@ { unimplemented!() }
#[verifier::external_body]
pub fn path_or_identifier<'a>(i: Inp<'a>) -> (r: PR<'a, PathOrIdentifier<'a>>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::PathOr(v)) { unimplemented!() }
#[verifier::external_body]
pub fn mark_<'a>(i: Inp<'a>) -> (r: PR<'a, Option<Whitespace>>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::Mark(v)), r is Ok { unimplemented!() }
#[verifier::external_body]
pub fn filter<'a>(i: Inp<'a>, l: Level) -> (r: PR<'a, (&'a str, Option<Vec<Expr<'a>>>)>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::Filt(v)) { unimplemented!() }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r <==> a@ == b@ { a == b }
#[verifier::external_body]
pub fn str_empty(a: &str) -> (r: bool) ensures r <==> a@.len() == 0 { a.is_empty() }
#[derive(Clone, Copy)] pub struct Level(pub u8);
#[verifier::external_body] pub struct State<'s> { x: &'s str }
impl<'s> State<'s> {
    #[verifier::external_body] pub fn tag_block_start<'a>(&self, i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::BS) { unimplemented!() }
    #[verifier::external_body] pub fn tag_block_end<'a>(&self, i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::BE) { unimplemented!() }
    #[verifier::external_body] pub fn tag_expr_start<'a>(&self, i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::ES) { unimplemented!() }
    #[verifier::external_body] pub fn tag_expr_end<'a>(&self, i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::EE) { unimplemented!() }
    #[verifier::external_body] pub fn tag_comment_start<'a>(&self, i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::CS) { unimplemented!() }
    #[verifier::external_body] pub fn tag_comment_end<'a>(&self, i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::CE) { unimplemented!() }
    #[verifier::external_body] pub fn nest<'a>(&self, i: Inp<'a>) -> (r: PR<'a, ()>) ensures r matches Ok((j, v)) ==> j == i { unimplemented!() }
    #[verifier::external_body] pub fn leave(&self) { unimplemented!() }
    #[verifier::external_body] pub fn enter_loop(&self) { unimplemented!() }
    #[verifier::external_body] pub fn leave_loop(&self) { unimplemented!() }
    #[verifier::external_body] pub fn is_in_loop(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn level_(&self) -> Level { unimplemented!() }
}
impl<'a> Expr<'a> {
    #[verifier::external_body] pub fn parse(i: Inp<'a>, l: Level) -> (r: PR<'a, Expr<'a>>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::Ex(v)) { unimplemented!() }
    #[verifier::external_body] pub fn arguments(i: Inp<'a>, l: Level, m: bool) -> (r: PR<'a, Vec<Expr<'a>>>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::Args(m, v)) { unimplemented!() }
}
pub trait Dflt: Sized { spec fn none_(&self) -> bool; fn dflt_() -> (r: Self) ensures r.none_(); }
impl<T> Dflt for Option<T> { open spec fn none_(&self) -> bool { *self is None } fn dflt_() -> Self { None } }
impl<T> Dflt for Vec<T> { open spec fn none_(&self) -> bool { self@.len() == 0 } fn dflt_() -> Self { Vec::new() } }
impl<A: Dflt, B: Dflt, C: Dflt> Dflt for (A, B, C) { open spec fn none_(&self) -> bool { self.0.none_() && self.1.none_() && self.2.none_() } fn dflt_() -> Self { (A::dflt_(), B::dflt_(), C::dflt_()) } }
pub fn or_default_<T: Dflt>(o: Option<T>) -> (r: T) ensures o matches Some(x) ==> r == x, o is None ==> r.none_() { match o { Some(x) => x, None => T::dflt_() } }
pub fn vec1_<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); assert(v@ =~= seq![x]); v }
pub fn extend_<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { let mut w = w; v.append(&mut w); }
'''
# the events of lists
LISTS = {'filts': ("(&'a str, Option<Vec<Expr<'a>>>)", 'Filt'), 'branches': ('Cond', 'Branch'), 'whens': ('When', 'When'), 'nodes': ('Node', 'Nd')}
def lists():
    out = ''
    for n, (t, e) in LISTS.items():
        if t[0] != '(': t += "<'a>"
        out += f'''pub open spec fn {n}<'a>(v: Seq<{t}>) -> Seq<Ev<'a>> {{ Seq::new(v.len(), |k: int| Ev::{e}(v[k])) }}
pub broadcast proof fn {n}_push<'a>(v: Seq<{t}>, x: {t}) ensures #[trigger] {n}(v.push(x)) == {n}(v).push(Ev::{e}(x)) {{ assert({n}(v.push(x)) =~= {n}(v).push(Ev::{e}(x))); }}
'''
    return out + f"pub broadcast group list_lemmas {{ {', '.join(n + '_push' for n in LISTS)} }}\n"

def errors(b):
    """the text of an error is dropped"""
    i = 0
    while True:
        g = re.compile(r'\bErr\s*\(').search(mask(b), i)
        if not g: return b
        c = match_close(mask(b), g.end() - 1); x = b[g.end():c]; i = g.end()
        if 'ErrorContext' not in x and 'error_position!' not in x: continue
        if mask(b)[:g.start()].endswith('nom::'): continue
        k = 'Failure' if re.search(r'\.\s*into\(\)\s*,?\s*$', x) and 'nom::Err' not in x else re.search(r'nom::Err::(\w+)', x).group(1)
        b = b[:g.start()] + f'Err(nom::Err::{k}(ec()))' + b[c+1:]
def plain(b):
    b = re.sub(r'\bs\s*\.\s*level\s*\.\s*get\(\)', 's.level_()', b)
    b = method_calls(b, 'unwrap_or_default', lambda e, a: f'or_default_({e})')
    b = method_calls(b, 'extend', lambda e, a: f'extend_(&mut {e}, {a[0]})')
    b = re.sub(r'\bvec!\s*\[\s*\]', 'Vec::new()', b)
    while True:
        m = mask(b); g = re.search(r'\bvec!\s*\[', m)
        if not g: break
        c = match_close(m, g.end() - 1)
        if len(split_args(b[g.end():c])) != 1: raise Lost('vec!')
        b = b[:g.start()] + 'vec1_(' + b[g.end():c] + ')' + b[c+1:]
    return b

def str_match(b):
    """match X { "a" | "b" => E, _ => E } on a str -> if"""
    i = 0
    while True:
        m = mask(b); g = re.compile(r'\bmatch\s+(\w+)\s*\{\s*(?=")').search(m, i)
        if not g: return b
        o = m.index('{', g.start()); c = match_close(m, o); x = g.group(1); out = ''; k = o + 1
        while b[k:c].strip():
            j = m.index('=>', k); pat = b[k:j].strip(); k = j + 2
            while m[k].isspace(): k += 1
            if m[k] == '{': z = match_close(m, k) + 1; e = b[k:z]; k = z
            else:
                z = k
                while z < c and m[z] != ',':
                    if m[z] in PAIR: z = match_close(m, z)
                    z += 1
                e = '{ ' + b[k:z].strip() + ' }'; k = z
            while k < c and (m[k].isspace() or m[k] == ','): k += 1
            if pat == '_': out += e; break
            ls = [q.strip() for q in pat.split('|')]
            if not all(re.match(r'^"[^"\\]*"$', q) for q in ls): raise Lost('pattern ' + pat)
            out += 'if ' + ' || '.join(f'str_eq({x}, {q})' for q in ls) + ' ' + e + ' else '
        b = b[:g.start()] + '(' + out + ')' + b[c+1:]; i = g.start() + 2
def str_cmp(b, *names):
    """comparisons of strings -> str_eq"""
    lit = r'"(?:[^"\\]|\\.)*"'
    b = re.sub(rf'(?<![\w.)])([a-z_]\w*)\s*(==|!=)\s*({lit})', lambda g: ('!' if g.group(2) == '!=' else '') + f'str_eq({g.group(1)}, {g.group(3)})', b)
    if names:
        n = '|'.join(names)
        b = re.sub(rf'(?<![\w.)])({n})\s*(==|!=)\s*({n})\b', lambda g: ('!' if g.group(2) == '!=' else '') + f'str_eq({g.group(1)}, {g.group(3)})', b)
    return b
def dispatch(b):
    """let func = match tag { "x" => |i, s| E, .. }; .. func(i, s) -> the match where func is called; wrap(F, R) by its definition"""
    g = re.search(r'fn\s+wrap\s*<', mask(b))
    if g:
        k = b.index('{', g.end()); z = match_close(mask(b), k)
        if re.sub(r'\s', '', b[k+1:z]) != 'result.map(|(i,n)|(i,func(n)))': raise Lost('wrap')
        a = b.rfind('#[inline]', 0, g.start()); a = a if a >= 0 and not b[a+9:g.start()].strip() else g.start()
        b = b[:a] + b[z+1:]
    m = mask(b); g = re.search(r'\blet\s+func\s*=\s*match\s+tag\s*\{', m)
    if not g: raise Lost('dispatch')
    c = match_close(m, g.end() - 1); mt = b[g.start():c+1]; mt = mt[mt.index('match'):]; b = b[:g.start()] + re.sub(r'^\s*;', '', b[c+1:])
    out = ''; k = 0; mm = mask(mt); n = 0
    while True:
        h = re.compile(r'=>\s*\|(\w+),\s*(\w+)\|\s*').search(mm, k)
        if not h: out += mt[k:]; break
        z = h.end()
        while mm[z] not in ',}':
            if mm[z] in PAIR: z = match_close(mm, z)
            z += 1
        out += mt[k:h.start()] + f'=> {{ let ({h.group(1)}, {h.group(2)}) = (i, s); ' + mt[h.end():z].strip() + ' }'; k = z; n += 1
    if not n or len(re.findall(r'\bfunc\(i, s\)', b)) != 1: raise Lost('dispatch')
    b = b.replace('func(i, s)', out)
    while True:
        m = mask(b); g = re.search(r'\bwrap\s*\(', m)
        if not g: break
        c = match_close(m, g.end() - 1); f, r = split_args(b[g.end():c])
        if f.startswith('|'): p, e = closure(f); e = f'{{ let {p} = n_; {e} }}'
        else: e = f'{f}(n_)'
        b = b[:g.start()] + f'(match {r} {{ Ok((i_, n_)) => Ok((i_, {e})), Err(e_) => Err(e_) }})' + b[c+1:]
    return str_match(b)

SEPS = {'alts': ("Target<'a>", 'Ev::Tgt1({})', 'tok("or")'), 'csv': ("Target<'a>", 'Ev::Tgt({})', "ch(',')"), 'fields': ("(&'a str, Target<'a>)", 'Ev::Named({})', "ch(',')"), 'names': ("&'a str", 'Ev::Id({}@)', "ch(',')")}
def seps():
    out = ''
    for n, (t, e, sep) in SEPS.items():
        out += f"""pub open spec fn {n}<'a>(v: Seq<{t}>) -> Seq<Ev<'a>> decreases v.len() {{ if v.len() == 0 {{ seq![] }} else if v.len() == 1 {{ seq![{e.format('v[0]')}] }} else {{ {n}(v.drop_last()).push({sep}).push({e.format('v.last()')}) }} }}
pub broadcast proof fn {n}_push<'a>(v: Seq<{t}>, x: {t}) ensures #[trigger] {n}(v.push(x)) == (if v.len() == 0 {{ seq![{e.format('x')}] }} else {{ {n}(v).push({sep}).push({e.format('x')}) }}) {{ assert(v.push(x).drop_last() =~= v); }}
"""
    return out + f"pub broadcast group seq_lemmas {{ list_lemmas, {', '.join(n + '_push' for n in SEPS)} }}\n"
MORE = r'''
/// a keyword is an identifier (checked below)
#[verifier::external_body]
pub fn keyword<'a>(k: &str, i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::Id(k@)) && v@ == k@ { unimplemented!() }
#[verifier::external_body]
pub fn blanks_<'a>(i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> j.log@ == i.log@ && j.sp@ { unimplemented!() }
#[verifier::external_body]
pub fn char_lit<'a>(i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::Chr(v@)) { unimplemented!() }
#[verifier::external_body]
pub fn num_lit<'a>(i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::Num(v@)) { unimplemented!() }
#[verifier::external_body]
pub fn bool_lit<'a>(i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::Bool(v@)) { unimplemented!() }
pub open spec fn with_else<'a>(n: Loop<'a>, l: Seq<Ev<'a>>) -> Seq<Ev<'a>> {
    let k = if n.cond is Some { 12int } else { 10 };
    if l.len() > k + 2 { seq![id("else"), mk(n.ws2.1), Ev::BE, Ev::Nodes(n.else_nodes), Ev::BS, mk(n.ws3.0)] } else { seq![] }
}
/// items, perhaps a comma, and the bracket that closes the list
pub open spec fn closes<'a>(pre: Seq<Ev<'a>>, items: Seq<Ev<'a>>, c: char, l: Seq<Ev<'a>>) -> bool { l =~= pre + items + seq![ch(c)] || (items.len() > 0 && l =~= pre + items + seq![ch(','), ch(c)]) }
pub open spec fn with<'a>(l: Seq<Ev<'a>>) -> Seq<Ev<'a>> { if l.len() > 1 && l[1] == id("with") { seq![id("with")] } else { seq![] } }
pub open spec fn path<'a>(p: Vec<&'a str>) -> Ev<'a> { Ev::PathOr(PathOrIdentifier::Path(p)) }
pub open spec fn one_target<'a>(n: Target<'a>, l: Seq<Ev<'a>>) -> bool {
    l =~= seq![Ev::TLit(n)] || l =~= seq![ch('('), Ev::Tgt(n), ch(')')] || (match n {
        Target::Name(x) => l =~= seq![Ev::Id(x@)],
        Target::Path(p) => l =~= seq![path(p)],
        Target::Tuple(p, ts) => (p@.len() == 0 && closes(seq![ch('(')], csv(ts@), ')', l)) || closes(seq![path(p)] + with(l) + seq![ch('(')], csv(ts@), ')', l),
        Target::Struct(p, ts) => closes(seq![path(p)] + with(l) + seq![ch('{')], fields(ts@), '}', l),
        _ => false })
}
pub open spec fn match_head<'a>(n: Match<'a>) -> Seq<Ev<'a>> { seq![mk(n.ws1.0), id("match"), Ev::Ex(n.expr), mk(n.ws1.1), Ev::BE] }
pub open spec fn match_tail<'a>(n: Match<'a>) -> Seq<Ev<'a>> { seq![Ev::BS, mk(n.ws2.0), id("endmatch"), mk(n.ws2.1)] }
pub broadcast proof fn whens_push_drop<'a>(v: Seq<When<'a>>, x: When<'a>) ensures #[trigger] v.push(x).drop_last() == v { assert(v.push(x).drop_last() =~= v); }
pub open spec fn again<'a>(name: Seq<char>, l: Seq<Ev<'a>>) -> Seq<Ev<'a>> { if l[l.len() - 3] is Id { seq![Ev::Id(name)] } else { seq![] } }
pub open spec fn macro_params<'a>(n: Macro<'a>, l: Seq<Ev<'a>>) -> Seq<Ev<'a>> {
    if l[3] is Mark { seq![] } else if l[5 + names(n.args@).len() as int] is Mark { seq![ch('(')] + names(n.args@) + seq![ch(')')] } else { seq![ch('(')] + names(n.args@) + seq![ch(','), ch(')')] }
}
pub open spec fn filts_of<'a>(l: Seq<Ev<'a>>) -> Seq<(&'a str, Option<Vec<Expr<'a>>>)> { Seq::new(l.len(), |k: int| l[k]->Filt_0) }
/// what is written later is applied later, to the result of what stands before it; the first filter is applied to the content of the block
pub open spec fn chain<'a>(f: Filter<'a>, name: Seq<char>, args: Seq<Expr<'a>>, extra: Seq<(&'a str, Option<Vec<Expr<'a>>>)>) -> bool decreases extra.len() {
    f.arguments@.len() >= 1 && (if extra.len() == 0 { f.name@ == name && f.arguments@[0] is Generated && f.arguments@.skip(1) =~= args } else {
        f.name@ == extra.last().0@ && f.arguments@.skip(1) =~= (match extra.last().1 { Some(v) => v@, None => seq![] })
        && (f.arguments@[0] matches Expr::Filter(g) && chain(g, name, args, extra.drop_last())) })
}
pub open spec fn raw_end<'a>(g: Option<(Inp<'a>, (&'a str, Option<Whitespace>, &'a str, Option<Whitespace>, &'a str))>, i: Inp<'a>) -> bool { g matches Some(x) ==> x.0.loose@ == i.loose@ && x.0.log@ =~= i.log@ + seq![Ev::BS, mk(x.1.1), id("endraw"), mk(x.1.3)] }
impl<'a> Lit<'a> {
    /// C03
    #[verifier::external_body] pub fn split_ws_parts(s: &'a str) -> (r: Lit<'a>) ensures r.lws@ + r.val@ + r.rws@ == s@ { unimplemented!() }
}
pub open spec fn no_else(n: Loop<'_>) -> bool { n.ws2.1 is None && n.else_nodes@.len() == 0 && n.ws3.0 is None }
'''
TAB = []
def P(name, impl, rx, ty, event, prod, invs=(), tight=True, extra=None, types=None, own=None): TAB.append(dict(name=name, impl=impl, rx=rx, ty=ty, event=event, prod=prod, invs=invs, tight=tight, extra=extra, types=types, own=own))
L = 'CUR.log@ =~= BEG.log@ + {}(ACC@), CUR.sp@ ==> BEG.sp@, !BEG.sp@ ==> CUR.loose@ == BEG.loose@, ACC@.len() > 0 ==> CUR.log@.len() > 0 && !(CUR.log@.last() is BE)'
P('break', 'Node', 'r#break', "Node<'a>", 'Ev::Stmt(v)', 'n matches Node::Break(w) && l =~= seq![mk(w.0), id("break"), mk(w.1)]')
P('continue', 'Node', 'r#continue', "Node<'a>", 'Ev::Stmt(v)', 'n matches Node::Continue(w) && l =~= seq![mk(w.0), id("continue"), mk(w.1)]')
P('expr', 'Node', 'expr', "Node<'a>", 'Ev::Nd(v)', 'n matches Node::Expr(w, e) && l =~= seq![Ev::ES, mk(w.0), Ev::Ex(e), mk(w.1), Ev::EE]')
P('node', 'Node', 'parse', "Node<'a>", 'Ev::Nd(v)', 'l =~= seq![Ev::BS, Ev::Stmt(n), Ev::BE]', extra=dispatch)
P('many', 'Node', 'many', "Vec<Node<'a>>", 'Ev::Nodes(v)', 'l =~= nodes(n@)', [L.format('nodes')])
P('lit', 'Target', 'lit', "Target<'a>", 'Ev::TLit(v)', 'match n { Target::StrLit(x) => l =~= seq![Ev::Str(x@)], Target::CharLit(x) => l =~= seq![Ev::Chr(x@)], Target::NumLit(x) => l =~= seq![Ev::Num(x@)], Target::BoolLit(x) => l =~= seq![Ev::Bool(x@)], _ => false }')
L2 = 'CUR.log@ =~= BEG.log@ + {}(ACC@), CUR.loose@ == BEG.loose@, ACC@.len() > 0 ==> CUR.log@.len() > 0 && !(CUR.log@.last() is BE)'
P('target', 'Target', 'parse', "Target<'a>", 'Ev::Tgt(v)', 'l =~= seq![Ev::Tgt1(n)] || (n matches Target::OrChain(v) && v@.len() >= 2 && l =~= alts(v@))', [L2.format('alts') + ', (ACC@.len() >= 1 || (RES is Some && !GO))'])
P('named', 'Target', 'named', "(&'a str, Target<'a>)", 'Ev::Named(v)', "(l =~= seq![Ev::Id(n.0@)] && (n.1 matches Target::Name(x) && x@ == n.0@)) || l =~= seq![Ev::Id(n.0@), ch(':'), Ev::Tgt(n.1)]")
P('parse_one', 'Target', 'parse_one', "Target<'a>", 'Ev::Tgt1(v)', 'one_target(n, l)', ["CUR.log@ =~= seq![ch('(')] + csv(targets@), targets@.len() > 0, CUR.loose@ == BEG.loose@", L2.format('csv') + ', (ACC@.len() >= 1 || (RES is Some && !GO))', L2.format('fields') + ', (ACC@.len() >= 1 || (RES is Some && !GO))'])
P('arm', 'When', 'when', "When<'a>", 'Ev::When(v)', 'l =~= seq![Ev::BS, mk(n.ws.0), id("when"), Ev::Tgt(n.target), mk(n.ws.1), Ev::BE, Ev::Nodes(n.nodes)]')
P('else_arm', 'When', 'r#match', "When<'a>", 'Ev::Else(v)', 'l =~= seq![Ev::BS, mk(n.ws.0), id("else"), mk(n.ws.1), Ev::BE, Ev::Nodes(n.nodes)] && (n.target matches Target::Name(x) && x@ == "_"@)')
P('if_test', 'CondTest', 'parse', "CondTest<'a>", 'Ev::IfCT(v)', 'l =~= seq![id("if"), Ev::CT(n)]')
P('test', 'CondTest', 'parse_cond', "CondTest<'a>", 'Ev::CT(v)', """match n.target { None => l =~= seq![Ev::Ex(n.expr)], Some(t) => l =~= seq![id("let"), Ev::Tgt(t), ch('='), Ev::Ex(n.expr)] || l =~= seq![id("set"), Ev::Tgt(t), ch('='), Ev::Ex(n.expr)] }""")
P('branch', 'Cond', 'parse', "Cond<'a>", 'Ev::Branch(v)', 'l =~= seq![Ev::BS, mk(n.ws.0)] + (match n.cond { None => seq![id("else")], Some(c) => if l.len() > 3 && l[3] is CT { seq![id("elif"), Ev::CT(c)] } else { seq![id("else"), Ev::IfCT(c)] } }) + seq![mk(n.ws.1), Ev::BE, Ev::Nodes(n.nodes)]')
P('if', 'If', 'parse', "If<'a>", 'Ev::Stmt(Node::If(v))', '''n.branches@.len() >= 1 && (n.branches@[0].cond matches Some(c) && l =~= seq![mk(n.branches@[0].ws.0), Ev::IfCT(c), mk(n.branches@[0].ws.1), Ev::BE, Ev::Nodes(n.branches@[0].nodes)]
        + branches(n.branches@.skip(1)) + seq![Ev::BS, mk(n.ws.0), id("endif"), mk(n.ws.1)])''', [L.format('branches')])
P('match', 'Match', 'parse', "Match<'a>", 'Ev::Stmt(Node::Match(v))', '''{ let m = l.len() - 9 - n.arms@.len(); m >= 0 && n.arms@.len() >= 1 && (forall|k: int| 5 <= k < 5 + m ==> (#[trigger] l[k]) is Nd && l[k]->Nd_0 is Comment)
        && (if l[l.len() - 5] is Else { n.arms@.len() >= 2 && l =~= match_head(n) + l.subrange(5, 5 + m) + whens(n.arms@.drop_last()).push(Ev::Else(n.arms@.last())) + match_tail(n) } else { l =~= match_head(n) + l.subrange(5, 5 + m) + whens(n.arms@) + match_tail(n) }) }''',
  ['CUR.log@.len() >= BEG.log@.len(), forall|k: int| 0 <= k < BEG.log@.len() ==> #[trigger] CUR.log@[k] == BEG.log@[k], forall|k: int| BEG.log@.len() <= k < CUR.log@.len() ==> (#[trigger] CUR.log@[k]) is Nd && CUR.log@[k]->Nd_0 is Comment', L.format('whens') + ', (ACC@.len() >= 1 || (RES is Some && !GO))'], tight=False)
P('for', 'Loop', 'parse', "Loop<'a>", 'Ev::Stmt(Node::Loop(Box::new(v)))', '''l =~= seq![mk(n.ws1.0), id("for"), Ev::Tgt(n.var), id("in"), Ev::Ex(n.iter)] + (match n.cond { Some(c) => seq![id("if"), Ev::Ex(c)], None => seq![] })
        + seq![mk(n.ws1.1), Ev::BE, Ev::Nodes(n.body), Ev::BS, mk(n.ws2.0)] + with_else(n, l) + seq![id("endfor"), mk(n.ws3.1)] && (with_else(n, l).len() > 0 || no_else(n))''')
P('import', 'Import', 'parse', "Import<'a>", 'Ev::Stmt(Node::Import(v))', 'l =~= seq![mk(n.ws.0), id("import"), Ev::Str(n.path@), id("as"), Ev::Id(n.scope@), mk(n.ws.1)]')
P('call', 'Call', 'parse', "Call<'a>", 'Ev::Stmt(Node::Call(v))', '''l =~= seq![mk(n.ws.0), id("call")] + (match n.scope { Some(x) => seq![Ev::Id(x@), tok("::")], None => seq![] }) + seq![Ev::Id(n.name@)] + (if l.len() >= 2 && l[l.len() - 2] is Args { seq![Ev::Args(true, n.args)] } else { seq![] }) + seq![mk(n.ws.1)]
        && (l[l.len() - 2] is Args || n.args@.len() == 0)''')
P('let', 'Let', 'parse', "Let<'a>", 'Ev::Stmt(Node::Let(v))', """l.len() >= 2 && (l[1] == id("let") || l[1] == id("set")) && l =~= seq![mk(n.ws.0), l[1], Ev::Tgt(n.var)] + (match n.val { Some(e) => seq![ch('='), Ev::Ex(e)], None => seq![] }) + seq![mk(n.ws.1)]""")
P('include', 'Include', 'parse', "Include<'a>", 'Ev::Stmt(Node::Include(v))', 'l =~= seq![mk(n.ws.0), id("include"), Ev::Str(n.path@), mk(n.ws.1)]')
P('extends', 'Extends', 'parse', "Extends<'a>", 'Ev::Stmt(Node::Extends(v))', 'l =~= seq![mk(None), id("extends"), Ev::Str(n.path@), mk(None)]')


L3 = 'CUR.log@ =~= BEG.log@ + {}(ACC@), CUR.loose@ == BEG.loose@, ACC@.len() > 0 ==> CUR.log@.len() > 0 && !(CUR.log@.last() is BE)'
P('macro', 'Macro', 'parse', "Macro<'a>", 'Ev::Stmt(Node::Macro(v))', """l.len() >= 10 && n.name@ != "super"@ && l =~= seq![mk(n.ws1.0), id("macro"), Ev::Id(n.name@)] + macro_params(n, l) + seq![mk(n.ws1.1), Ev::BE, Ev::Nodes(n.nodes), Ev::BS, mk(n.ws2.0), id("endmacro")]
        + again(n.name@, l) + seq![mk(n.ws2.1)] && (macro_params(n, l).len() > 0 || n.args@.len() == 0)""", [L3.format('names') + ', (ACC@.len() >= 1 || !GO)'])
P('block', 'BlockDef', 'parse', "BlockDef<'a>", 'Ev::Stmt(Node::BlockDef(v))', """l.len() >= 10 && l =~= seq![mk(n.ws1.0), id("block"), Ev::Id(n.name@), mk(n.ws1.1), Ev::BE, Ev::Nodes(n.nodes), Ev::BS, mk(n.ws2.0), id("endblock")] + again(n.name@, l) + seq![mk(n.ws2.1)]""")
P('filter', 'FilterBlock', 'parse', "FilterBlock<'a>", 'Ev::Stmt(Node::FilterBlock(v))', """{ let a = if l.len() > 3 && l[3] is Args { 1int } else { 0 }; let m = l.len() - 10 - a; m >= 0 && l[2] is Id && (a == 1 ==> !l[3]->Args_0)
        && l =~= seq![mk(n.ws1.0), id("filter"), l[2]] + l.subrange(3, 3 + a) + filts(filts_of(l.subrange(3 + a, 3 + a + m))) + seq![mk(n.ws1.1), Ev::BE, Ev::Nodes(n.nodes), Ev::BS, mk(n.ws2.0), id("endfilter"), mk(n.ws2.1)]
        && chain(n.filters, l[2]->Id_0, if a == 1 { l[3]->Args_1@ } else { Seq::empty() }, filts_of(l.subrange(3 + a, 3 + a + m))) }""", [L3.format('filts')])
P('raw', 'Raw', 'parse', "Raw<'a>", 'Ev::Stmt(Node::Raw(v))', """l.len() >= 8 && (forall|k: int| 4 <= k < l.len() - 4 ==> (#[trigger] l[k]) is Any) && l =~= seq![mk(n.ws1.0), id("raw"), mk(n.ws1.1), Ev::BE] + l.subrange(4, l.len() - 4) + seq![Ev::BS, mk(n.ws2.0), id("endraw"), mk(n.ws2.1)]
        && n.lit.lws@ + n.lit.val@ + n.lit.rws@ =~= text(l.subrange(4, l.len() - 4))""",
  ["""CUR.log@.len() >= BEG.log@.len(), CUR.loose@ == BEG.loose@, !CUR.sp@, !BEG.sp@, forall|k: int| 0 <= k < BEG.log@.len() ==> #[trigger] CUR.log@[k] == BEG.log@[k], forall|k: int| BEG.log@.len() <= k < CUR.log@.len() ==> (#[trigger] CUR.log@[k]) is Any,
      raw_end(ACC, CUR), GO ==> ACC is None"""])
STUBS = [('Lit', 'parse', "Lit<'a>", 'Ev::Nd(Node::Lit(v))'), ('Comment', 'parse', "Comment<'a>", 'Ev::Nd(Node::Comment(v))')]
def chain_loop(b):
    """for P in V { .. F = Filter { .. } } -> while, with what is known of F"""
    m = mask(b); g = re.search(r'\bfor\s+(\([^)]*\)|\w+)\s+in\s+(\w+)\s*\{', m)
    if not g: raise Lost('filters')
    c = match_close(m, g.end() - 1); f = re.search(r'(\w+)\s*=\s*Filter\s*\{', m[g.end():c])
    if not f: raise Lost('filters')
    f = f.group(1); v = g.group(2)
    return (b[:g.start()] + f"""let ghost first_ = {f}; let ghost ex_ = {v}@; proof {{ exs_ = ex_; fst_ = first_.arguments@.skip(1); }} let mut rest_ = {v};
    while rest_.len() > 0 invariant rest_@.len() <= ex_.len(), rest_@ =~= ex_.skip(ex_.len() - rest_@.len()), chain({f}, first_.name@, first_.arguments@.skip(1), ex_.take(ex_.len() - rest_@.len())) {{
        let ghost k_ = ex_.len() - rest_@.len(); let {g.group(1)} = rest_.remove(0); proof {{ assert(ex_.take(k_ + 1).drop_last() =~= ex_.take(k_)); assert(ex_.take(k_ + 1).last() == ex_[k_]); }}
    """ + b[g.end():c] + '} proof { assert(ex_.take(ex_.len() as int) =~= ex_); }' + b[c+1:])
def heads(it, types):
    from .filt import params
    out = []
    for k, (n, t) in enumerate(params(it.head)):
        if types and n in types: t = types[n]
        elif k == 0: t = "Inp<'a>"
        out.append((n.replace('mut ', ''), t))
    return out
TGT = ['verify_name', 'lit', 'target', 'named', 'parse_one']
# which parsers decide which property; the markers matter for C03 only
WHO = {'C03': None, 'C04': ['node', 'many', 'expr', 'raw', 'break', 'continue'], 'C12': ['for'], 'C19': TGT + ['let', 'macro', 'check_end_name', 'call'], 'C20': ['block', 'check_end_name', 'extends', 'include', 'import'],
       'C25': TGT + ['if', 'branch', 'if_test', 'test', 'match', 'arm', 'else_arm', 'let', 'expr', 'many', 'node'], 'C26': ['filter', 'filter_expr']}
def unit(repo, pid, only=None):
    u = Unit('nodes_parser'); s = Src(repo, gen.N); lib = Src(repo, 'askama_parser/src/lib.rs')
    only = only or WHO[pid]; marks = pid == 'C03'
    spec = SPEC
    if not marks:
        # the markers are the concern of C03
        spec = spec.replace("mk<'a>(w: Option<Whitespace>) -> Ev<'a> { Ev::Mark(w) }", "mk<'a>(w: Option<Whitespace>) -> Ev<'a> { Ev::Mark(None) }").replace("step(i, j, Ev::Mark(v)), r is Ok", "step(i, j, Ev::Mark(None)), r is Ok")
    u.raw(cou.tree(repo) + spec + lists() + seps() + MORE)
    u.trust("nom's combinators (pair, tuple, preceded, delimited, alt, opt, cut, map, many0, many1, separated_list0/1, fold_many0, peek, not, value, recognize, consumed) are expanded by their definitions in nom 7; its elementary parsers (tag, char, anychar) by contract")
    u.trust('identifier, the literals, paths, expressions and arguments consume a part of the input and return it (contracts); Vec, Option as in vstd')
    u.drop('the text of errors; the position in the input (that a repetition stops where nothing was consumed is nondeterministic)')
    want = lambda n: only is None or n in only
    if want('keyword'):
        f = lib.find(r'fn\s+keyword\b'); k = re.search(r"\(\s*(\w+)\s*:", f.head).group(1); g = re.match(r"\s*move\s*\|(\w+): &'a str\|\s*->\s*ParseResult<'a>\s*(\{.*\})\s*$", strip_comments(f.body), re.S)
        if not g: raise Lost('keyword')
        h = re.search(r'let\s*\((\w+),\s*(\w+)\)\s*=\s*identifier', g.group(2))
        if not h: raise Lost('keyword')
        u.fn('keyword', f, f"pub fn keyword_body<'a>({k}: &str, {g.group(1)}: Inp<'a>) -> (r: PR<'a, &'a str>)", str_cmp(errors(g.group(2)), k, h.group(2)), ensures=[f"r matches Ok((j, v)) ==> step({g.group(1)}, j, Ev::Id({k}@)) && v@ == {k}@"])
    if want('Whitespace'):
        f = s.find(r'impl\s+Whitespace\b').sub(r'fn\s+parse\b'); (n, _), = heads(f, {})
        u.fn('Whitespace::parse', f, f"pub fn parse_mark<'a>({n}: Inp<'a>) -> (r: PR<'a, Whitespace>)", Nom('Whitespace::parse').code(plain(strip_comments(f.body)).replace('Self::', 'Whitespace::')),
             ensures=[f"r matches Ok((j, v)) ==> step({n}, j, ch(match v {{ Whitespace::Preserve => '+', Whitespace::Suppress => '-', Whitespace::Minimize => '~' }}))"])
    if want('filter_expr'):
        f = lib.find(r'fn\s+filter\b'); ps = heads(f, {})
        u.fn('filter', f, f"pub fn filter_body<'a>({', '.join(f'{n}: {t}' for n, t in ps)}) -> (r: PR<'a, (&'a str, Option<Vec<Expr<'a>>>)>)", Nom('filter').code(plain(strip_comments(f.body))), requires=[f'fresh({ps[0][0]})'],
             ensures=["r matches Ok((j, n)) ==> j.log@ =~= seq![ch('|'), Ev::Id(n.0@)] + (match n.1 { Some(a) => seq![Ev::Args(false, a)], None => seq![] })"])
    it = s.find(r'impl<[^>]*>\s+Target\b').sub(r'fn\s+verify_name\b'); ps = heads(it, {}); n = ps[1][0]
    if want('verify_name'): u.fn('Target::verify_name', it, f"pub fn verify_name({ps[0][0]}: Inp<'a>, {n}: &'a str) -> (r: Result<Self, nom::Err>)", str_match(errors(strip_comments(it.body))),
         ensures=[f'r matches Ok(t) ==> (t matches Target::Name(x) && x@ == {n}@) && {n}@ != "self"@ && {n}@ != "writer"@'], before="impl<'a> Target<'a> {", after='}')
    it = s.find(r'fn\s+check_end_name\b'); ps = heads(it, {'before': "Inp<'a>", 'after': "Inp<'a>"})
    if len(ps) != 5: raise Lost('check_end_name')
    if want('check_end_name'): u.fn('check_end_name', it, 'pub fn check_end_name<\'a>(' + ', '.join(f'{n}: {t}' for n, t in ps) + ") -> (r: PR<'a, &'a str>)", str_cmp(errors(strip_comments(it.body)), ps[2][0], ps[3][0]),
         ensures=[f'r matches Ok((j, v)) ==> j == {ps[1][0]} && v@ == {ps[3][0]}@ && {ps[2][0]}@ == {ps[3][0]}@', 'r matches Err(e) ==> e is Failure'])
    for d in TAB:
        name, impl = d['name'], d['impl']
        it = s.find(rf'impl<[^>]*>\s+{impl}\b').sub(rf'fn\s+{d["rx"]}\b')
        ps = heads(it, d['types']); sig = ', '.join(f'{n}: {t}' for n, t in ps); i = ps[0][0]
        pn = 'prod_' + name; rx = d['rx']
        u.raw(f"pub open spec fn {pn}<'a>(n: {d['ty']}, l: Seq<Ev<'a>>) -> bool {{ {d['prod']} }}")
        u.raw(f"impl<'a> {impl}<'a> {{ #[verifier::external_body] pub fn {rx}({sig}) -> (r: PR<'a, {d['ty']}>) ensures r matches Ok((j, v)) ==> step({i}, j, {d['event']}) {{ unimplemented!() }} }}")
        if not want(name): continue
        b = plain(errors(strip_comments(it.body)))
        if d['extra']: b = d['extra'](b)
        b = opt_map(str_cmp(b))
        if name == 'filter': b = chain_loop(b)
        nm = Nom(name, d['invs'], prims={'opt(Whitespace::parse)': 'mark_(@)', 'take_till(not_ws)': 'blanks_(@)'})
        b = nm.code(b)
        if name == 'filter': b = '''let ghost mut exs_ = Seq::empty(); let ghost mut fst_ = Seq::empty(); let r_ = {''' + b + '''}; proof { if r_ is Ok { let l = r_->Ok_0.0.log@; let a = if l[3] is Args { 1int } else { 0 };
            assert(filts_of(l.subrange(3 + a, l.len() - 7)) =~= exs_); assert(fst_ =~= (if a == 1 { l[3]->Args_1@ } else { Seq::empty() })); } } r_'''
        if d['name'] == 'match': b = 'broadcast use whens_push_drop; ' + b
        if nm.used != len(nm.invs): raise Lost(f'{name}: {nm.used} repetitions where the annotations are for {len(nm.invs)}')
        ens = [f'r matches Ok((j, n)) ==> {pn}(n, j.log@)'] + (['r matches Ok((j, n)) ==> !j.loose@'] if d['tight'] else [])
        u.fn(f'{impl}::{d["rx"].replace("r#", "")}', it, f"pub fn {name}_body({sig}) -> (r: PR<'a, {d['ty']}>)", f'broadcast use seq_lemmas; let ghost inp_ = {i};' + b, requires=[f'fresh({i})'], ensures=ens, before=f"impl<'a> {impl}<'a> {{", after='}',
             attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::spinoff_prover]')
    for impl, f, ty, ev in STUBS:
        sg = re.sub(r"&'a str", "Inp<'a>", 'i: Inp, s: &State')
        u.raw(f"impl<'a> {impl}<'a> {{ #[verifier::external_body] pub fn {f}(i: Inp<'a>, s: &State<'_>) -> (r: PR<'a, {ty}>) ensures r matches Ok((j, v)) ==> step(i, j, {ev}) {{ unimplemented!() }} }}")
    return u

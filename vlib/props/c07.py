import re
from ..rsx import *
from ..verus import Unit
from .. import pre
from ..filt import *
from ..common import run_harness
NOTE = ('linebreaks, linebreaksbr and paragraphbreaks are proved for all strings against a character-by-character specification of the property. '
        'Trusted: str::replace, str::split and String by contract (leftmost, non-overlapping).')
SPEC = r'''
pub open spec fn starts(t: Seq<char>, p: Seq<char>) -> bool { p.len() <= t.len() && t.subrange(0, p.len() as int) == p }
/// str::replace: leftmost occurrences which do not overlap
pub open spec fn rep(t: Seq<char>, p: Seq<char>, to: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 || p.len() == 0 { t }
    else if starts(t, p) { to + rep(t.skip(p.len() as int), p, to) }
    else { seq![t[0]] + rep(t.skip(1), p, to) }
}
/// str::split: the parts between these occurrences
pub open spec fn parts(t: Seq<char>, p: Seq<char>) -> Seq<Seq<char>> decreases t.len() {
    if t.len() == 0 || p.len() == 0 { seq![t] }
    else if starts(t, p) { seq![Seq::<char>::empty()] + parts(t.skip(p.len() as int), p) }
    else { let r = parts(t.skip(1), p); seq![seq![t[0]] + r[0]] + r.skip(1) }
}
#[verifier::external_body]
pub fn str_replace(t: &str, p: &str, to: &str) -> (r: String) requires p@.len() > 0 ensures r@ == rep(t@, p@, to@) { t.replace(p, to) }
#[verifier::external_body]
pub fn str_replace_char(t: &str, p: char, to: &str) -> (r: String) ensures r@ == rep(t@, seq![p], to@) { t.replace(p, to) }
#[verifier::external_body]
pub fn str_split<'a>(t: &'a str, p: &str) -> (r: Vec<&'a str>) requires p@.len() > 0
    ensures r.len() == parts(t@, p@).len(), forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k])@ == parts(t@, p@)[k]
{ t.split(p).collect() }
#[verifier::external_body]
pub fn is_empty_str(t: &str) -> (r: bool) ensures r == (t@.len() == 0) { t.is_empty() }
pub open spec fn BR() -> Seq<char> { seq!['<', 'b', 'r', '/', '>'] }
pub open spec fn P0() -> Seq<char> { seq!['<', 'p', '>'] }
pub open spec fn P1() -> Seq<char> { seq!['<', '/', 'p', '>'] }
pub open spec fn NN() -> Seq<char> { seq!['\n', '\n'] }
pub proof fn lemma_lits()
    ensures "<br/>"@ =~= BR(), "<p>"@ =~= P0(), "</p>"@ =~= P1(), "</p><p>"@ =~= P1() + P0(), "\n\n"@ =~= NN(), "\n"@ =~= seq!['\n']
{ reveal_strlit("<br/>"); reveal_strlit("<p>"); reveal_strlit("</p>"); reveal_strlit("</p><p>"); reveal_strlit("\n\n"); reveal_strlit("\n"); }
/// linebreaksbr: each newline
pub open spec fn br(t: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { t } else { (if t[0] == '\n' { BR() } else { seq![t[0]] }) + br(t.skip(1)) }
}
/// linebreaks: each pair of newlines from the left, and each other newline
pub open spec fn lb(t: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { t }
    else if t.len() >= 2 && t[0] == '\n' && t[1] == '\n' { P1() + P0() + lb(t.skip(2)) }
    else { (if t[0] == '\n' { BR() } else { seq![t[0]] }) + lb(t.skip(1)) }
}
/// paragraphbreaks: the parts between pairs, those which are not empty as paragraphs
pub open spec fn pb(ps: Seq<Seq<char>>) -> Seq<char> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() }
    else { pb(ps.drop_last()) + (if ps.last().len() == 0 { Seq::empty() } else { P0() + ps.last() + P1() }) }
}
proof fn lemma_br(t: Seq<char>)
    ensures rep(t, seq!['\n'], BR()) == br(t)
    decreases t.len()
{
    if t.len() > 0 {
        lemma_br(t.skip(1));
        assert(starts(t, seq!['\n']) <==> t[0] == '\n') by { assert(t.subrange(0, 1) =~= seq![t[0]]); assert(seq![t[0]][0] == t[0]); assert(seq!['\n'][0] == '\n'); }
    }
}
proof fn lemma_br_concat(a: Seq<char>, b: Seq<char>)
    ensures br(a + b) == br(a) + br(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(br(a) + br(b) =~= br(b)); }
    else {
        lemma_br_concat(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert(br(a + b) =~= br(a) + br(b));
    }
}
proof fn lemma_br_plain(a: Seq<char>)
    requires forall|k: int| 0 <= k < a.len() ==> a[k] != '\n'
    ensures br(a) == a
    decreases a.len()
{
    if a.len() > 0 { lemma_br_plain(a.skip(1)); assert(br(a) =~= seq![a[0]] + a.skip(1)); assert(seq![a[0]] + a.skip(1) =~= a); }
}
/// the two passes amount to one pass over the text
proof fn lemma_lb(t: Seq<char>)
    ensures br(rep(t, NN(), P1() + P0())) == lb(t)
    decreases t.len()
{
    if t.len() > 0 {
        let q = P1() + P0();
        assert(starts(t, NN()) <==> t.len() >= 2 && t[0] == '\n' && t[1] == '\n') by {
            if t.len() >= 2 { assert(t.subrange(0, 2) =~= seq![t[0], t[1]]); assert(seq![t[0], t[1]][0] == t[0]); assert(seq![t[0], t[1]][1] == t[1]); assert(NN()[0] == '\n'); assert(NN()[1] == '\n');
                if t[0] == '\n' && t[1] == '\n' { assert(t.subrange(0, 2) =~= NN()); } }
        }
        if starts(t, NN()) {
            lemma_lb(t.skip(2)); lemma_br_concat(q, rep(t.skip(2), NN(), q)); lemma_br_plain(q);
        } else {
            lemma_lb(t.skip(1)); lemma_br_concat(seq![t[0]], rep(t.skip(1), NN(), q));
            assert(br(seq![t[0]]) =~= (if t[0] == '\n' { BR() } else { seq![t[0]] })) by { reveal_with_fuel(br, 3); assert(seq![t[0]].skip(1) =~= Seq::<char>::empty()); }
        }
    }
}
proof fn lemma_parts(t: Seq<char>, p: Seq<char>)
    ensures parts(t, p).len() >= 1
    decreases t.len()
{ if t.len() > 0 && p.len() > 0 { if starts(t, p) { lemma_parts(t.skip(p.len() as int), p); } else { lemma_parts(t.skip(1), p); } } }
'''
def replaces(body):
    """E.replace("..", "..") / E.replace('.', "..") -> str_replace(..)"""
    while True:
        m = mask(body); mm = re.search(r'\.replace\(', m)
        if not mm: return body
        c = match_close(m, mm.end() - 1); a = split_args(body[mm.end():c])
        # receiver: a path, or a call that was rewritten before
        j = mm.start(); k = j
        if m[k-1] == ')':
            d = 0; k -= 1
            while True:
                if m[k] == ')': d += 1
                elif m[k] == '(':
                    d -= 1
                    if d == 0: break
                k -= 1
            while k > 0 and (m[k-1].isalnum() or m[k-1] == '_'): k -= 1
            recv = '&' + body[k:j]
        else:
            while k > 0 and (m[k-1].isalnum() or m[k-1] == '_'): k -= 1
            recv = '&' + body[k:j]
        if k == j or len(a) != 2: raise Lost('replace on ' + body[max(0, k-20):j])
        fn = 'str_replace_char' if a[0].startswith("'") else 'str_replace'
        body = body[:k] + f'{fn}(({recv}).as_str(), {a[0]}, {a[1]})' + body[c+1:]
def concat(kind, dest, pieces):
    if kind != 'format': raise Lost(kind)
    r = '{ let mut s_ = String::new(); '
    for k, p in pieces: r += f's_.push_str("{p}"); ' if k == 'lit' else f's_.push_str(({p}).as_str()); '
    return r + 's_ }'
def unit(repo):
    u = Unit('c07'); s = Src(repo, F)
    u.use(pre.USES); u.raw(pre.STR + pre.TEXT + SPEC)
    u.trust(pre.TEXT_TRUST); u.trust('str::replace replaces, and str::split splits at, the leftmost occurrences that do not overlap (spec functions rep and parts)')
    ens = {'linebreaksbr': 'r.unwrap()@ =~= br({0})', 'linebreaks': 'r.unwrap()@ =~= P0() + lb({0}) + P1()', 'paragraphbreaks': 'r.unwrap()@ =~= pb(parts({0}, NN()))'}
    hint = {'linebreaksbr': 'lemma_br({0});', 'linebreaks': 'lemma_br(rep({0}, NN(), P1() + P0())); lemma_lb({0});', 'paragraphbreaks': 'lemma_parts({0}, NN());'}
    for n in ('linebreaksbr', 'linebreaks', 'paragraphbreaks'):
        outer, inner, tail = inner_outer(s, n)
        (sn, st), = params(inner.head)
        body = strip_comments(inner.body)
        body = replaces(format_to(body, concat))
        m = mask(body); mm = re.search(r'for\s+(\w+)\s+in\s+(\w+)\.split\(', m); inv = []
        if mm:
            c = match_close(m, mm.end() - 1); arg = body[mm.end():c]; o = m.index('{', c)
            body = body[:mm.start()] + f'let items_ = str_split({mm.group(2)}.as_str(), {arg}); let mut k_: usize = 0; while k_ < items_.len() {{ let {mm.group(1)} = items_[k_]; k_ += 1; proof {{ assert(parts({sn}@, NN()).subrange(0, k_ as int).drop_last() =~= parts({sn}@, NN()).subrange(0, k_ - 1)); }}' + body[o+1:]
            body = re.sub(rf'\b{mm.group(1)}\.is_empty\(\)', f'is_empty_str({mm.group(1)})', body)
            acc = re.search(r'let\s+mut\s+(\w+)(?:\s*:\s*String)?\s*=\s*String::new\(\)', body).group(1)
            inv = [f'invariant k_ <= items_.len(), {acc}@ =~= pb(parts({sn}@, NN()).subrange(0, k_ as int))\n decreases items_.len() - k_']
            # after the loop
            body = add_invariants(body, inv)
            k = loop_positions(body)[0][2]; e = match_close(mask(body), k) + 1
            body = body[:e] + f' proof {{ assert(parts({sn}@, NN()).subrange(0, k_ as int) =~= parts({sn}@, NN())); }}' + body[e:]
        elif loop_positions(body): raise Lost('loops')
        body = f' proof {{ lemma_lits(); {hint[n].format(sn + "@")} assert(Seq::<char>::empty() + Seq::<char>::empty() =~= Seq::<char>::empty()); }}' + body
        u.fn(n + ' (inner)', inner, f'fn {n}_inner({sn}: String) -> (r: Result<String, Infallible>)', body, ensures=['r.is_ok()', ens[n].format(sn + '@')], attrs='#[verifier::loop_isolation(false)]')
        (a, _), = params(outer.head)
        u.fn(n, outer, f'pub fn {n}<S_: ToText>({a}: S_) -> (r: Result<String, Infallible>)', re.sub(rf'\b{n}\(', f'{n}_inner(', tail),
             ensures=['r.is_ok()', ens[n].format(a + '.chars_()')])
    u.drop('inner functions moved out; x.replace(p, t) -> str_replace(x, p, t); format!("a{x}b") -> pushes onto a String; `for p in s.split(q)` -> counting while loop over the parts; `impl ToString`/`impl Display` named')
    return u
UNITS = [('linebreaks', unit)]
def companion(tier): return run_harness('rt', 'C07', tier)

"""The parsers of expressions under contract: the grammar, and so how operators group (C25)."""
import re
from .rsx import *
from .rw import *
from . import gen, cou, ndu
from .nomc import Nom
from .filt import params
from .verus import Unit

# the levels of the grammar, outermost first: function of Expr, what its operands are, operators between operands
LAYERS = [('or', 'and', ['||']), ('and', 'compare', ['&&']), ('compare', 'bor', ['==', '!=', '>=', '>', '<=', '<']), ('bor', 'bxor', ['|']), ('bxor', 'band', ['^']), ('band', 'shifts', ['&']),
          ('shifts', 'addsub', ['>>', '<<']), ('addsub', 'muldivmod', ['+', '-']), ('muldivmod', 'filtered', ['*', '/', '%'])]
LV = {n: k for k, n in enumerate(['parse'] + [x[0] for x in LAYERS] + ['filtered', 'prefix', 'suffix', 'single', 'num', 'str', 'char', 'path_var_bool', 'array', 'group'])}
SPEC = r'''
pub uninterp spec fn skipped(s: Seq<char>) -> bool;
pub open spec fn lv<'a>(n: int, e: Expr<'a>) -> Ev<'a> { Ev::Lv(n, e) }
impl Level { #[verifier::external_body] pub fn nest<'a>(self, i: Inp<'a>) -> (r: PR<'a, Level>) ensures r matches Ok((j, _)) ==> j == i { unimplemented!() } }
/// the operators of each level
pub open spec fn isop(n: int, t: Seq<char>) -> bool { ISOP }
pub open spec fn pairs<'a>(lev: int, v: Seq<(&'a str, Expr<'a>)>) -> Seq<Ev<'a>> decreases v.len() { if v.len() == 0 { seq![] } else { pairs(lev, v.drop_last()).push(Ev::Tok(v.last().0@)).push(lv(lev, v.last().1)) } }
pub broadcast proof fn pairs_push<'a>(lev: int, v: Seq<(&'a str, Expr<'a>)>, x: (&'a str, Expr<'a>)) ensures #[trigger] pairs(lev, v.push(x)) == pairs(lev, v).push(Ev::Tok(x.0@)).push(lv(lev, x.1)) { assert(v.push(x).drop_last() =~= v); }
/// operators of one level group to the left; their operands are expressions of the next level (op: this level, lev: the next one)
#[verifier::opaque]
pub open spec fn left_fold<'a>(op: int, lev: int, e: Expr<'a>, l: Seq<Ev<'a>>) -> bool decreases l.len() {
    if l.len() == 1 { l[0] == lv(lev, e) } else { l.len() >= 3 && (e matches Expr::BinOp(o, a, b) && isop(op, o@) && l[l.len() - 2] == Ev::Tok(o@) && l.last() == lv(lev, *b) && left_fold(op, lev, *a, l.take(l.len() - 2))) }
}
pub proof fn left_fold_one<'a>(op: int, lev: int, e: Expr<'a>) ensures left_fold(op, lev, e, seq![lv(lev, e)]) { reveal(left_fold); }
pub proof fn left_fold_more<'a>(op: int, lev: int, e: Expr<'a>, a: Expr<'a>, o: &'a str, b: Expr<'a>, l: Seq<Ev<'a>>)
    requires left_fold(op, lev, a, l), isop(op, o@), e matches Expr::BinOp(p, x, y) && p == o && *x == a && *y == b
    ensures left_fold(op, lev, e, l.push(Ev::Tok(o@)).push(lv(lev, b))) { reveal(left_fold); let m = l.push(Ev::Tok(o@)).push(lv(lev, b)); assert(m.take(m.len() - 2) =~= l); }
/// of several filters, the last is the outermost: its first argument is what stands before it
pub open spec fn filtered_by<'a>(e: Expr<'a>, e0: Expr<'a>, extra: Seq<(&'a str, Option<Vec<Expr<'a>>>)>) -> bool decreases extra.len() {
    if extra.len() == 0 { e == e0 } else { e matches Expr::Filter(f) && f.name@ == extra.last().0@ && f.arguments@.len() >= 1 && f.arguments@.skip(1) =~= (match extra.last().1 { Some(v) => v@, None => seq![] }) && filtered_by(f.arguments@[0], e0, extra.drop_last()) }
}
pub open spec fn filts_of<'a>(l: Seq<Ev<'a>>) -> Seq<(&'a str, Option<Vec<Expr<'a>>>)> { Seq::new(l.len(), |k: int| l[k]->Filt_0) }
pub open spec fn is_prefix(t: Seq<char>) -> bool { t == "!"@ || t == "-"@ }
pub open spec fn toks<'a>(v: Seq<&'a str>) -> Seq<Ev<'a>> { Seq::new(v.len(), |k: int| Ev::Tok(v[k]@)) }
pub broadcast proof fn toks_push<'a>(v: Seq<&'a str>, x: &'a str) ensures #[trigger] toks(v.push(x)) == toks(v).push(Ev::Tok(x@)) { assert(toks(v.push(x)) =~= toks(v).push(Ev::Tok(x@))); }
/// prefix operators apply to all that follows
pub open spec fn unary<'a>(e: Expr<'a>, l: Seq<Ev<'a>>) -> bool decreases l.len() {
    if l.len() == 1 { l[0] == lv(SUFFIX, e) } else { l.len() > 1 && (e matches Expr::Unary(o, x) && is_prefix(o@) && l[0] == Ev::Tok(o@) && unary(*x, l.skip(1))) }
}
/// suffixes apply to all that stands before them, in their order
pub open spec fn suffixed<'a>(e: Expr<'a>, l: Seq<Ev<'a>>) -> bool decreases l.len() {
    if l.len() == 1 { l[0] == lv(SINGLE, e) } else { l.len() > 1 && l.last() is Suf && (match l.last()->Suf_0 {
        Suffix::Attr(a) => e matches Expr::Attr(x, b) && b@ == a@ && suffixed(*x, l.drop_last()),
        Suffix::Index(a) => e matches Expr::Index(x, b) && *b == a && suffixed(*x, l.drop_last()),
        Suffix::Call(a) => e matches Expr::Call(x, b) && b == a && suffixed(*x, l.drop_last()),
        Suffix::Try => e matches Expr::Try(x) && suffixed(*x, l.drop_last()),
        Suffix::MacroCall(a) => e matches Expr::RustMacro(p, b) && b@ == a@ && (suffixed(Expr::Path(p), l.drop_last()) || (p@.len() == 1 && suffixed(Expr::Var(p@[0]), l.drop_last()))),
    }) }
}
pub proof fn suffixed_more<'a>(l: Seq<Ev<'a>>, x: Ev<'a>) ensures l.push(x).drop_last() == l { assert(l.push(x).drop_last() =~= l); }
/// expressions with commas between them
pub open spec fn elems<'a>(v: Seq<Expr<'a>>) -> Seq<Ev<'a>> decreases v.len() { if v.len() == 0 { seq![] } else if v.len() == 1 { seq![lv(0, v[0])] } else { elems(v.drop_last()).push(ch(',')).push(lv(0, v.last())) } }
pub broadcast proof fn elems_push<'a>(v: Seq<Expr<'a>>, x: Expr<'a>) ensures #[trigger] elems(v.push(x)) == (if v.len() == 0 { seq![lv(0, x)] } else { elems(v).push(ch(',')).push(lv(0, x)) }) { assert(v.push(x).drop_last() =~= v); }
/// arguments: as elements, but they may be named
pub open spec fn argv<'a>(e: Expr<'a>) -> Ev<'a> { if e is NamedArgument { Ev::Named_(e) } else { lv(0, e) } }
pub open spec fn argvs<'a>(v: Seq<Expr<'a>>) -> Seq<Ev<'a>> decreases v.len() { if v.len() == 0 { seq![] } else if v.len() == 1 { seq![argv(v[0])] } else { argvs(v.drop_last()).push(ch(',')).push(argv(v.last())) } }
pub broadcast proof fn argvs_push<'a>(v: Seq<Expr<'a>>, x: Expr<'a>) ensures #[trigger] argvs(v.push(x)) == (if v.len() == 0 { seq![argv(x)] } else { argvs(v).push(ch(',')).push(argv(x)) }) { assert(v.push(x).drop_last() =~= v); }
pub open spec fn closes<'a>(pre: Seq<Ev<'a>>, items: Seq<Ev<'a>>, c: char, l: Seq<Ev<'a>>) -> bool { l =~= pre + items + seq![ch(c)] || l =~= pre + items + seq![ch(','), ch(c)] }
/// named arguments come last, and each name once
pub open spec fn names<'a>(v: Seq<Expr<'a>>) -> Set<Seq<char>> decreases v.len() { if v.len() == 0 { Set::empty() } else if v.last() is NamedArgument { names(v.drop_last()).insert(v.last()->NamedArgument_0@) } else { names(v.drop_last()) } }
pub open spec fn named_last<'a>(v: Seq<Expr<'a>>) -> bool decreases v.len() { v.len() == 0 || (named_last(v.drop_last()) && (if v.last() is NamedArgument { !names(v.drop_last()).contains(v.last()->NamedArgument_0@) } else { names(v.drop_last()) == Set::<Seq<char>>::empty() })) }
pub broadcast proof fn names_push<'a>(v: Seq<Expr<'a>>, x: Expr<'a>) ensures #[trigger] names(v.push(x)) == (if x is NamedArgument { names(v).insert(x->NamedArgument_0@) } else { names(v) }) { assert(v.push(x).drop_last() =~= v); }
pub broadcast proof fn named_push<'a>(v: Seq<Expr<'a>>, x: Expr<'a>) ensures #[trigger] named_last(v.push(x)) == (named_last(v) && (if x is NamedArgument { !names(v).contains(x->NamedArgument_0@) } else { names(v) == Set::<Seq<char>>::empty() })) { assert(v.push(x).drop_last() =~= v); }
/// `::` and a name, again and again
pub open spec fn segs<'a>(v: Seq<&'a str>) -> Seq<Ev<'a>> decreases v.len() { if v.len() == 0 { seq![] } else { segs(v.drop_last()).push(Ev::Tok("::"@)).push(Ev::Id(v.last()@)) } }
pub broadcast proof fn segs_push<'a>(v: Seq<&'a str>, x: &'a str) ensures #[trigger] segs(v.push(x)) == segs(v).push(Ev::Tok("::"@)).push(Ev::Id(x@)) { assert(v.push(x).drop_last() =~= v); }
pub uninterp spec fn capital(s: Seq<char>) -> bool;
#[verifier::external_body] pub fn starts_capital(s: &str) -> (r: bool) ensures r == capital(s@) { unimplemented!() }
#[verifier::external_body] pub fn rest_of<'a, 'b>(x: &'b Option<Vec<&'a str>>) -> (r: &'b [&'a str]) ensures r@ == (match x { Some(v) => v@, None => seq![] }) { unimplemented!() }
#[verifier::external_body] pub fn more_<'a>(v: &mut Vec<&'a str>, x: &[&'a str]) ensures final(v)@ == old(v)@ + x@ { unimplemented!() }
pub open spec fn of_path<'a>(p: Seq<&'a str>, l: Seq<Ev<'a>>) -> bool {
    (p.len() >= 2 && p[0]@ == ""@ && l =~= seq![Ev::Tok("::"@), Ev::Id(p[1]@)] + segs(p.skip(2))) || (p.len() >= 1 && (p.len() > 1 || capital(p[0]@)) && l =~= seq![Ev::Id(p[0]@)] + segs(p.skip(1)))
}
pub struct Names { pub s: Ghost<Set<Seq<char>>> }
impl Names {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.s@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r <==> self.s@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: &str) -> (r: bool) ensures final(self).s@ == old(self).s@.insert(x@), r <==> !old(self).s@.contains(x@) { unimplemented!() }
}
pub broadcast group exp_lemmas { pairs_push, toks_push, elems_push, argvs_push, names_push, named_push, filts_push, segs_push }
#[verifier::external_body]
pub fn macro_args_<'a>(i: Inp<'a>) -> (r: PR<'a, &'a str>) ensures r matches Ok((j, v)) ==> step(i, j, Ev::Str(v@)) { unimplemented!() }
'''
def macro_arms(s):
    m = re.search(r'macro_rules!\s*expr_prec_layer\s*\{', s.m)
    if not m: raise Lost('expr_prec_layer')
    o = m.end() - 1; c = match_close(s.m, o); t = strip_comments(s.text[o+1:c]); out = []; i = 0
    while True:
        mm = mask(t); g = re.compile(r'\(').search(mm, i)
        if not g: return out
        z = match_close(mm, g.start()); b = mm.index('{', z); e = match_close(mm, b)
        if t[z+1:b].strip() != '=>': raise Lost('macro_rules')
        out.append((t[g.start()+1:z], t[b+1:e])); i = e + 1
def layer(arms, args):
    """expr_prec_layer!(name, inner, ops..) expanded"""
    for p, b in arms:
        q = re.sub(r'\s', '', p)
        if q == '$name:ident,$inner:ident,$op:expr' and len(args) == 3: return b.replace('$name', args[0]).replace('$inner', args[1]).replace('$op', args[2])
        if q == '$name:ident,$inner:ident,$($op:expr),+' and len(args) >= 3:
            b = b.replace('$name', args[0]).replace('$inner', args[1])
            while True:
                i = b.find('$(')
                if i < 0: break
                m = mask(b); c = match_close(m, i + 1); g = re.match(r'\s*(\S?)\s*\+', b[c+1:])
                if not g: raise Lost('macro_rules')
                b = b[:i] + (g.group(1) + ' ').join(b[i+2:c].replace('$op', x) for x in args[2:]) + b[c+1+g.end():]
            return b
    raise Lost('expr_prec_layer!')
def fold(b, op, lev):
    """R.into_iter().fold(INIT, |acc, P| BODY) -> while"""
    n = [0]
    def f(e, a):
        g = re.match(r'^(\w+)\s*\.\s*into_iter\(\)$', e)
        if not g or len(a) < 2: raise Lost('fold')
        p, body = closure(', '.join(a[1:])); acc, pat = split_args(p); n[0] += 1
        return f"""({{ let ghost all_ = {g.group(1)}@; let mut rest_ = {g.group(1)}; let mut acc_ = {a[0]}; let ghost base_ = seq![lv({lev}, acc_)]; proof {{ base__ = base_; alls_ = all_; left_fold_one({op}, {lev}, acc_); assert(base_ + pairs({lev}, all_.take(0)) =~= base_); }}
        while rest_.len() > 0 invariant !(acc_ is NamedArgument), rest_@.len() <= all_.len(), rest_@ =~= all_.skip(all_.len() - rest_@.len()), left_fold({op}, {lev}, acc_, base_ + pairs({lev}, all_.take(all_.len() - rest_@.len()))) {{
            let ghost k_ = all_.len() - rest_.len(); let ghost was_ = acc_; let ghost x_ = rest_@[0]; let {pat} = rest_.remove(0); let {acc} = acc_; acc_ = {body};
            proof {{ assert(x_ == all_[k_]); assert(all_.take(k_ + 1) =~= all_.take(k_).push(x_)); left_fold_more({op}, {lev}, acc_, was_, x_.0, x_.1, base_ + pairs({lev}, all_.take(k_)));
                assert(base_ + pairs({lev}, all_.take(k_ + 1)) =~= (base_ + pairs({lev}, all_.take(k_))).push(Ev::Tok(x_.0@)).push(lv({lev}, x_.1))); }}
        }} proof {{ assert(all_.take(all_.len() as int) =~= all_); }} acc_ }})"""
    b = method_calls(b, 'fold', f)
    if n[0] != 1: raise Lost('fold')
    return "let ghost mut base__ = Seq::empty(); let ghost mut alls_ = Seq::empty(); let r_ = {" + b + f"}}; proof {{ if r_ is Ok {{ assert(r_->Ok_0.0.log@ =~= base__ + pairs({lev}, alls_)); }} }} r_"
def filter_loop(b):
    m = mask(b); g = re.search(r'\bfor\s+(\([^)]*\))\s+in\s+(\w+)\s*\{', m)
    if not g: raise Lost('filters')
    c = match_close(m, g.end() - 1); f = re.search(r'(\w+)\s*=\s*(?:Self|Expr)::Filter\s*\(', m[g.end():c])
    if not f: raise Lost('filters')
    f = f.group(1); v = g.group(2)
    return "let ghost mut exs_ = Seq::empty(); let r_ = {" + b[:g.start()] + f"""let ghost first_ = {f}; let ghost ex_ = {v}@; proof {{ exs_ = ex_; }} let mut rest_ = {v};
    while rest_.len() > 0 invariant rest_@.len() <= ex_.len(), rest_@ =~= ex_.skip(ex_.len() - rest_@.len()), filtered_by({f}, first_, ex_.take(ex_.len() - rest_@.len())), first_ is NamedArgument || !({f} is NamedArgument) {{
        let ghost k_ = ex_.len() - rest_@.len(); let {g.group(1)} = rest_.remove(0); proof {{ assert(ex_.take(k_ + 1).drop_last() =~= ex_.take(k_)); assert(ex_.take(k_ + 1).last() == ex_[k_]); }}
    """ + b[g.end():c] + '} proof { assert(ex_.take(ex_.len() as int) =~= ex_); }' + b[c+1:] + "}; proof { if r_ is Ok { assert(filts_of(r_->Ok_0.0.log@.skip(1)) =~= exs_); } } r_"
def prefix_loop(b):
    m = mask(b); g = re.search(r'\bfor\s+(\w+)\s+in\s+(\w+)\s*\.\s*iter\(\)\s*\.\s*rev\(\)\s*\{', m)
    if not g: raise Lost('prefix')
    c = match_close(m, g.end() - 1); f = re.search(r'(\w+)\s*=\s*(?:Self|Expr)::Unary\s*\(', m[g.end():c]); h = re.search(r'let\s*\((\w+),\s*\(', m[:g.start()])
    if not f or not h: raise Lost('prefix')
    f, v, i = f.group(1), g.group(2), h.group(1)
    return b[:g.start()] + f"""let ghost l_ = {i}.log@; let mut k_ = {v}.len(); assert(l_.skip({v}@.len() as int) =~= seq![lv({LV['suffix']}, {f})]);
    while k_ > 0 invariant k_ <= {v}@.len(), l_ == {i}.log@, unary({f}, l_.skip(k_ as int)), !({f} is NamedArgument) {{ k_ = k_ - 1; proof {{ assert(l_.skip(k_ as int).skip(1) =~= l_.skip(k_ + 1)); assert(l_.skip(k_ as int)[0] == l_[k_ as int]); }} let {g.group(1)} = {v}[k_];
    """ + b[g.end():c] + '} proof { assert(l_.skip(0) =~= l_); }' + b[c+1:]
def suffix_loop(b):
    g = re.search(r'let\s*\(\s*mut\s+(\w+)\s*,\s*mut\s+(\w+)\s*\)\s*=', b); m = mask(b); h = re.search(r'\bloop\s*\{', m); t = re.search(r'let\s*\((\w+),\s*(\w+)\)\s*=\s*opt\(', m)
    if not g or not h or not t or t.start() < h.start(): raise Lost('suffixes')
    i, e = g.groups(); c = match_close(m, h.end() - 1)
    b = b[:h.start()] + f'loop invariant suffixed({e}, {i}.log@), !({e} is NamedArgument) {{ let ghost l_ = {i}.log@; let ghost e_ = {e}; proof {{ assert forall|x: Ev<\'a>| (#[trigger] l_.push(x)).drop_last() == l_ by {{ suffixed_more(l_, x); }} }}' + b[h.end():c] + '}' + b[c+1:]
    return re.sub(r'\b(\w+)\.into\(\)', r'Box::new(\1)', b)
def names(b):
    """the set of names is a variable of the function that is only borrowed"""
    b = re.sub(r'\bHashSet::new\(\)', 'Names::new()', b)
    g = re.search(r'\blet\s+(\w+)\s*=\s*&mut\s+(\w+);', b)
    if g:
        if g.group(1) != g.group(2): raise Lost('names')
        n = g.group(1); b = b[:g.start()] + b[g.end():]
        b = re.sub(rf'(?<=[(,])(\s*){n}(\s*[,)])', rf'\1&mut {n}\2', b)
    return b
def matches_mac(b):
    while True:
        m = mask(b); g = re.search(r'\bmatches!\s*\(', m)
        if not g: return b
        c = match_close(m, g.end() - 1); e, p = split_args(b[g.end():c])[0], ', '.join(split_args(b[g.end():c])[1:])
        b = b[:g.start()] + f'(match &{e} {{ {p} => true, _ => false }})' + b[c+1:]
def bool_pats(b):
    """Identifier(v @ "true") => .. : string patterns -> comparisons"""
    def f(g):
        return g.group(0)
    return b
def unit(repo, pid='C25', only=None):
    u = Unit('expr_parser'); s = Src(repo, gen.E)
    a = ndu.SPEC.index("impl<'a> Expr<'a> {"); z = ndu.SPEC.index('pub trait Dflt')
    spec = ndu.SPEC[:a] + ndu.SPEC[z:]; spec = spec.replace('Bool(Seq<char>),', "Bool(Seq<char>), Lv(int, Expr<'a>), Suf(Suffix<'a>), Named_(Expr<'a>),", 1)
    for o, n in (('j.log@ == i.log@, j.sp@,', 'j.log@ == i.log@, j.sp@, skipped(j.s@), skipped(i.s@) ==> j.s@ == i.s@,'), ('step(i, j, ch(c)) && v == c {', 'step(i, j, ch(c)) && v == c, r is Ok <==> i.s@.len() > 0 && i.s@[0] == c {')):
        if o not in spec: raise Lost('specification')
        spec = spec.replace(o, n, 1)
    suf = strip_comments(s.find(r'enum\s+Suffix\b').text); suf = 'pub ' + suf if not suf.startswith('pub') else suf
    isop = ' else '.join(f'if n == {LV[n]} {{ ' + ' || '.join(f't == "{o}"@' for o in ops) + ' }' for n, _, ops in LAYERS) + ' else { false }'
    lists = ndu.lists(); i = lists.index('pub broadcast group list_lemmas')
    u.raw(cou.tree(repo) + suf + spec + lists[:i] + ndu.MORE[:ndu.MORE.index('pub open spec fn with_else')] + SPEC.replace('ISOP', isop).replace('SUFFIX', str(LV['suffix'])).replace('SINGLE', str(LV['single'])))
    u.trust("nom's combinators are expanded by their definitions in nom 7; its elementary parsers (tag, char) by contract"); u.trust('identifier, paths and literals consume a part of the input and return it (contracts); HashSet, Vec, Box, Option')
    u.drop('the text of errors; nesting levels (C15); the position in the input')
    arms = macro_arms(s); impl = s.find(r"impl<'a>\s+Expr<'a>"); simpl = s.find(r"impl<'a>\s+Suffix<'a>")
    NOT = '!(v is NamedArgument)'
    ES = "Inp<'a>, level: Level"
    def stub(ty, f, sig, ret, ens): u.raw(f"impl<'a> {ty}<'a> {{ #[verifier::external_body] pub fn {f}({sig}) -> (r: PR<'a, {ret}>) ensures r matches Ok((j, v)) ==> {ens} {{ unimplemented!() }} }}")
    X = "Expr<'a>"
    for n in LV:
        if n == 'suffix': continue
        lev = '' if n in ('num', 'str', 'char', 'path_var_bool') else ', level: Level'
        stub('Expr', n, f"i: Inp<'a>{lev}", X, f'step(i, j, lv({LV[n]}, v)) && {NOT}')
    stub('Expr', 'named_argument', "i: Inp<'a>, level: Level, named: &mut Names, start: Inp<'a>, m: bool", X, "step(i, j, Ev::Named_(v)) && (v matches Expr::NamedArgument(x, _) && !old(named).s@.contains(x@) && final(named).s@ == old(named).s@.insert(x@)) && m, r matches Err(nom::Err::Error(_)) ==> final(named).s@ == old(named).s@")
    stub('Expr', 'arguments', "i: Inp<'a>, level: Level, m: bool", "Vec<Expr<'a>>", 'step(i, j, Ev::Args(m, v))')
    stub('Suffix', 'parse', "i: Inp<'a>, level: Level", X, f"step(i, j, lv({LV['suffix']}, v)) && {NOT}")
    S = "Suffix<'a>"
    for n in ('attr', 'r#try', 'r#macro'): stub('Suffix', n, "i: Inp<'a>", S, 'step(i, j, Ev::Suf(v))')
    for n in ('index', 'call'): stub('Suffix', n, "i: Inp<'a>, level: Level", S, 'step(i, j, Ev::Suf(v))')
    for n in LV:
        if n not in ('suffix',): u.raw('')
    def put(name, it, body, ty, prod, invs=(), pre=None, post=None, ret=X, named=False, env=None, extra='', sig=None, req=(), ens=()):
        if only and name not in only: return
        ps = ndu.heads(it, {}) if it is not None and sig is None else sig
        i = ps[0][0]; b = ndu.plain(ndu.errors(strip_comments(body))); b = matches_mac(b)
        if pre: b = pre(b)
        b = ndu.str_cmp(b); b = re.sub(r'\.\s*map\(\s*Box::new\s*\)', '.map(|b_| Box::new(b_))', b)
        nm = Nom(name, invs, prims={'take_till(not_ws)': 'blanks_(@)', 'recognize(nested_parenthesis)': 'macro_args_(@)'}, local={'nested_parenthesis'})
        b = opt_map(nm.code(b)) if not post else post(opt_map(nm.code(b)))
        if nm.used != len(nm.invs): raise Lost(f'{name}: {nm.used} repetitions where the annotations are for {len(nm.invs)}')
        mut = [f'let mut {n} = {n}; ' for n, t in ps if t.startswith('MUT')]
        pn = 'prod_' + name
        u.raw(f"pub open spec fn {pn}<'a>(n: {ret}, l: Seq<Ev<'a>>) -> bool {{ {prod} }}")
        ens = list(ens) + [f'r matches Ok((j, n)) ==> {pn}(n, j.log@)'] + ([] if named or ret != X else ['r matches Ok((j, n)) ==> !(n is NamedArgument)'])
        u.fn(f'{ty}::{name}', it or impl, f"pub fn {name}_body({', '.join(f'{n}: {t[3:] if t.startswith('MUT') else t}' for n, t in ps)}) -> (r: PR<'a, {ret}>)", 'broadcast use exp_lemmas; ' + extra + ''.join(mut) + b, requires=[f'fresh({i})'] + list(req), ensures=ens,
             before=f"impl<'a> {ty}<'a> {{", after='}', attrs='#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::spinoff_prover]')
    # the layers
    found = {}
    for g in re.finditer(r'\bexpr_prec_layer!\s*\(', impl.src.m[impl.start:impl.end]):
        o = impl.start + g.end() - 1; c = match_close(impl.src.m, o); a = split_args(impl.src.text[o+1:c]); found[a[0]] = a
    for n, inner, ops in LAYERS:
        if n not in found: raise Lost('layer ' + n)
        t = layer(arms, found[n]); m = mask(t); g = re.search(r'fn\s+(\w+)\s*\(', m)
        if not g or g.group(1) != n: raise Lost('layer ' + n)
        c = match_close(m, g.end() - 1); o = m.index('{', c); e = match_close(m, o)
        ps = [(x.partition(':')[0].strip(), "Inp<'a>" if k == 0 else x.partition(':')[2].strip()) for k, x in enumerate(split_args(t[g.end():c]))]
        put(n, None, t[o+1:e], 'Expr', f'left_fold({LV[n]}, {LV[inner]}, n, l)', [f"CUR.log@ =~= BEG.log@ + pairs({LV[inner]}, ACC@), forall|k: int| 0 <= k < ACC@.len() ==> isop({LV[n]}, (#[trigger] ACC@[k]).0@)"], pre=lambda b, n=n, inner=inner: fold(b, LV[n], LV[inner]), sig=ps)
    f = lambda n: impl.sub(rf'fn\s+{n}\b')
    it = f('filtered'); P, SX, SG = LV['prefix'], LV['suffix'], LV['single']
    put('filtered', it, it.body, 'Expr', f"l.len() >= 1 && l[0] is Lv && l[0]->Lv_0 == {P} && l =~= seq![l[0]] + filts(filts_of(l.skip(1))) && filtered_by(n, l[0]->Lv_1, filts_of(l.skip(1)))", ['CUR.log@ =~= BEG.log@ + filts(ACC@)'], pre=filter_loop)
    it = f('prefix'); put('prefix', it, it.body, 'Expr', 'unary(n, l)', ['CUR.log@ =~= BEG.log@ + toks(ACC@), forall|k: int| 0 <= k < ACC@.len() ==> is_prefix((#[trigger] ACC@[k])@)'], pre=prefix_loop, sig=[(n.replace('mut ', ''), t if not n.startswith('mut') else 'MUT' + t) for n, t in ndu_heads(it)])
    it = f('single'); put('single', it, it.body, 'Expr', ' || '.join(f"l =~= seq![lv({LV[n]}, n)]" for n in ('num', 'str', 'char', 'path_var_bool', 'array', 'group')))
    for n, v, e in (('num', 'NumLit', 'Num'), ('str', 'StrLit', 'Str'), ('char', 'CharLit', 'Chr')):
        it = f(n); put(n, it, it.body, 'Expr', f"n matches Expr::{v}(x) && l =~= seq![Ev::{e}(x@)]")
    it = f('path_var_bool'); put('path_var_bool', it, it.body, 'Expr', """match n { Expr::Path(p) => l =~= seq![Ev::PathOr(PathOrIdentifier::Path(p))], Expr::Var(x) => l =~= seq![Ev::PathOr(PathOrIdentifier::Identifier(x))] && x@ != "true"@ && x@ != "false"@,
        Expr::BoolLit(x) => l =~= seq![Ev::PathOr(PathOrIdentifier::Identifier(x))] && (x@ == "true"@ || x@ == "false"@), _ => false }""", pre=at_pats)
    it = Src(repo, 'askama_parser/src/lib.rs').find(r'fn\s+path_or_identifier\b')
    put('path_or_identifier', it, it.body, 'Expr', "match n { PathOrIdentifier::Path(p) => of_path(p@, l), PathOrIdentifier::Identifier(x) => !capital(x@) && l =~= seq![Ev::Id(x@)] }", ["CUR.log@ =~= BEG.log@ + segs(ACC@)"], pre=path_code, ret="PathOrIdentifier<'a>")
    it = f('group'); put('group', it, it.body, 'Expr', """match n { Expr::Group(e) => l =~= seq![ch('('), lv(0, *e), ch(')')], Expr::Tuple(v) => (v@.len() == 0 && l =~= seq![ch('('), ch(')')]) || (v@.len() == 1 && l =~= seq![ch('('), lv(0, v@[0]), ch(','), ch(')')]) || (v@.len() > 1 && closes(seq![ch('(')], elems(v@), ')', l)), _ => false }""",
        ["CUR.log@ =~= seq![ch('(')] + elems(XS@), XS@.len() >= 1, XS@.len() == 1 ==> CUR.s@ == BEG.s@".replace('XS', (re.search(r'let\s+mut\s+(\w+)\s*=\s*vec!', it.body) or ['', 'x'])[1])])
    it = f('array'); put('array', it, it.body, 'Expr', "n matches Expr::Array(v) && closes(seq![ch('[')], elems(v@), ']', l)", ['CUR.log@ =~= BEG.log@ + elems(ACC@), ACC@.len() >= 1 || !GO'])
    it = f('parse'); put('parse', it, it.body, 'Expr', f"""match n {{ Expr::Range(o, a, b) if l.len() > 1 || l[0] is Tok => (o@ == ".."@ || o@ == "..="@) && l =~= (match a {{ Some(x) => seq![lv(1, *x)], None => seq![] }}) + seq![Ev::Tok(o@)] + (match b {{ Some(x) => seq![lv(1, *x)], None => seq![] }}), _ => l =~= seq![lv(1, n)] }}""")
    it = f('named_argument'); ps = ndu_heads(it)
    put('named_argument', it, it.body, 'Expr', "n matches Expr::NamedArgument(x, e) && l =~= seq![Ev::Id(x@), ch('='), lv(0, *e)]", named=True, ens=[f"r matches Ok((j, n)) ==> {ps[4][0]} && (n matches Expr::NamedArgument(x, _) && !old({ps[2][0]}).s@.contains(x@) && final({ps[2][0]}).s@ == old({ps[2][0]}).s@.insert(x@))", f"r matches Err(nom::Err::Error(_)) ==> final({ps[2][0]}).s@ == old({ps[2][0]}).s@"], sig=[(n, 'Names' if 0 else '&mut Names' if 'HashSet' in t else "Inp<'a>" if t == "&'a str" else t) for n, t in ps])
    it = f('arguments'); put('arguments', it, it.body, 'Expr', "closes(seq![ch('(')], argvs(n@), ')', l) && named_last(n@)", ["CUR.log@ =~= BEG.log@ + argvs(ACC@), ACC@.len() >= 1 || !GO, named_last(ACC@), GO ==> NAMES.s@ == names(ACC@)".replace('NAMES', (re.search(r'let\s+mut\s+(\w+)\s*=\s*HashSet::new', it.body) or ['', 'x'])[1])], pre=names, ret="Vec<Expr<'a>>")
    f = lambda n: simpl.sub(rf'fn\s+{n}\b')
    it = f('parse'); put('suffix', it, it.body, 'Suffix', 'suffixed(n, l)', pre=suffix_loop)
    it = f('attr'); put('attr', it, it.body, 'Suffix', "n matches Suffix::Attr(x) && (l =~= seq![ch('.'), Ev::Id(x@)] || l =~= seq![ch('.'), Ev::Num(x@)])", ret=S)
    it = f('index'); put('index', it, it.body, 'Suffix', "n matches Suffix::Index(e) && l =~= seq![ch('['), lv(0, e), ch(']')]", ret=S)
    it = f('call'); put('call', it, it.body, 'Suffix', "n matches Suffix::Call(v) && l =~= seq![Ev::Args(false, v)]", ret=S)
    it = f('r#try'); put('try_', it, it.body, 'Suffix', "n is Try && l =~= seq![ch('?')]", ret=S)
    it = f('r#macro'); put('macro_', it, it.body, 'Suffix', "n matches Suffix::MacroCall(x) && l =~= seq![ch('!'), ch('('), Ev::Str(x@), ch(')')]", ret=S)
    return u
def path_code(b):
    """slice patterns and the comparison of the first letter"""
    b = re.sub(r'(\w+)\s*\.\s*as_deref\(\)\s*\.\s*unwrap_or_default\(\)', r'rest_of(&\1)', b)
    b = re.sub(r'or_default_\(\s*(\w+)\s*\.\s*as_deref\(\)\s*\)', r'rest_of(&\1)', b)
    b = re.sub(r'\bif\s+(\w+)\s*\.\s*chars\(\)\s*\.\s*next\(\)\s*\.\s*map_or\(true,\s*\|(\w+)\|\s*!\2\.is_uppercase\(\)\)', r'if !starts_capital(\1)', b)
    b = re.sub(r'\[\]\)\s*if\b', 's_) if s_.len() == 0 &&', b)
    b = re.sub(r'Vec::with_capacity\([^;]*\);', 'Vec::new();', b)
    return re.sub(r'\bextend_\(&mut (\w+),\s*(\w+)\);', r'more_(&mut \1, \2); proof { assert(\1@.skip(\1@.len() - \2@.len()) =~= \2@); }', b)
def ndu_heads(it): 
    return [(n, "Inp<'a>" if k == 0 else t) for k, (n, t) in enumerate(params(it.head))]
def at_pats(b):
    """Identifier(v @ "true") => X -> guards on the name"""
    g = re.search(r'PathOrIdentifier::Identifier\((\w+)\s*@\s*"', b)
    if not g: return b
    m = mask(b); k = m.rfind('match', 0, g.start()); o = m.index('{', k); c = match_close(m, o); out = ''; from_ = b[o+1:c]; ids = []
    from .visu import arms
    for p, gd, body in arms(from_):
        h = re.match(r'^PathOrIdentifier::Identifier\((\w+)(?:\s*@\s*("[^"]*"(?:\s*\|\s*"[^"]*")*))?\)$', p)
        if h: ids.append((h.group(1), h.group(2), body))
        else: out += f'{p} => {{ {body} }}, '
    x = ''
    for v, q, body in ids:
        x += (f'if ' + ' || '.join(f'str_eq(id_, {t.strip()})' for t in q.split('|')) + f' {{ let {v} = id_; {body} }} else ') if q else f'{{ let {v} = id_; {body} }}'
    if not x.endswith('}'): raise Lost('identifiers')
    return b[:o+1] + out + f'PathOrIdentifier::Identifier(id_) => {{ {x} }}' + b[c:]

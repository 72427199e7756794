import re
from ..rsx import *
from ..verus import Unit
from .. import rnd, gen
NOTE = ('is_cacheable, named_expression, prepare_format and write_buf_writable are under contract: for every sequence of pending output, the emitted write! evaluates each expression anew and in order, unless it is free of calls, macros, filters and fallible expressions at any depth and stands for an earlier occurrence of the same code; its format string, read as std documents, displays text and expressions in their places (lemma_meaning). '
        'The order in which tags reach the pending output is checked against a reference semantics (bounded).')
SPEC = r'''
/// nothing in e is evaluated with an effect: no call, macro, filter or `?`
pub open spec fn pure(e: Expr) -> bool decreases e {
    match e {
        Expr::Call(_, _) => false, Expr::RustMacro(_, _) => false, Expr::Filter(_) => false, Expr::Try(_) => false,
        Expr::Array(v) => pure_v(v), Expr::Tuple(v) => pure_v(v),
        Expr::Attr(a, _) => pure(*a), Expr::Index(a, b) => pure(*a) && pure(*b), Expr::Unary(_, a) => pure(*a), Expr::BinOp(_, a, b) => pure(*a) && pure(*b),
        Expr::Range(_, a, b) => (match a { Some(x) => pure(*x), None => true }) && (match b { Some(x) => pure(*x), None => true }),
        Expr::Group(a) => pure(*a), Expr::NamedArgument(_, a) => pure(*a),
        Expr::BoolLit(_) => true, Expr::NumLit(_) => true, Expr::StrLit(_) => true, Expr::CharLit(_) => true, Expr::Var(_) => true, Expr::Path(_) => true, Expr::Generated(_) => true,
    }
}
pub open spec fn pure_v(v: Vec<Expr>) -> bool decreases v { forall|i: int| 0 <= i < v@.len() ==> pure(#[trigger] v@[i]) }
/// v.iter().all(is_cacheable)
pub fn all_cacheable(v: &Vec<Expr<'_>>) -> (r: bool) ensures r ==> pure_v(*v) decreases *v {
    let mut i: usize = 0;
    while i < v.len() invariant i <= v.len(), forall|k: int| 0 <= k < i ==> pure(#[trigger] v@[k]) decreases v.len() - i {
        if !is_cacheable(&v[i]) { return false; }
        i += 1;
    }
    true
}
'''
def cache_unit(repo):
    u = Unit('c18_cacheable'); s = Src(repo, gen.G)
    u.raw(gen.expr_types(repo) + SPEC)
    f = s.find(r'fn\s+is_cacheable\b'); a = re.search(r'\((\w+): &Expr', f.head).group(1)
    u.fn('is_cacheable', f, f"pub fn is_cacheable({a}: &Expr<'_>) -> (r: bool)", gen.alls(strip_comments(f.body), 'is_cacheable', 'all_cacheable'), ensures=[f'r ==> pure(*{a})'], decreases=f'*{a}')
    u.drop('v.iter().all(f) -> a loop; o.as_ref().map_or(c, |v| b) -> match')
    return u
def write_unit(repo):
    from .. import wru
    return wru.unit(repo, 'C18')
UNITS = [('is_cacheable', cache_unit), ('output statements', write_unit)]
def companion(tier): return rnd.c18(tier)

"""Random expressions and patterns whose expected value rustc itself computes from the fully parenthesised tree."""
from . import common, tcomp
from .batch import rust_str
P = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 3, '>': 3, '<=': 3, '>=': 3, '|': 4, '^': 5, '&': 6, '<<': 7, '>>': 7, '+': 8, '-': 8, '*': 9, '/': 9, '%': 9}
# filter binds tighter than the binary operators and looser than the prefix ones
FILT, PRE, SUF, ATOM = 10, 11, 12, 13

class X:
    def __init__(self, t, o, p): self.t = t; self.o = o; self.p = p     # template text, oracle text, precedence
class G:
    def __init__(self, r): self.r = r
    def at(self, x, p):
        """text of x in a place which needs precedence p"""
        return x.t if x.p >= p and self.r.random() < .93 else '(' + x.t + ')'
    def sp(self, op): return op if self.r.random() < .3 and op not in ('|', '&', '<', '<<', '&&', '-', '||') else f' {op} '
    def bin(self, op, a, b):
        p = P[op]; cmp = p == 3
        # `x|f | y` applies a filter `y`
        if op == '|' and a.t.endswith('neg'): a = X('(' + a.t + ')', a.o, ATOM)
        return X(self.at(a, p + 1 if cmp else p) + self.sp(op) + self.at(b, p + 1), f'(({a.o}) {op} ({b.o}))', p)
    def int(self, d):
        r = self.r; k = r.random()
        if d <= 0 or k < .15:
            c = r.choice(['lit', 'a', 'b', 'c', 'st', 'tup', 'deep', 'arr'])
            if c == 'lit': n = r.randint(0, 9); s = r.choice([str(n), f'{n}i64', f'0x{n:x}', f'0b{n:b}', f'0o{n:o}', f'{n}_0'] ) ; return X(s, f'({s})', ATOM)
            n = {'st': 'st.x', 'tup': 'tup.0', 'deep': 'st.inner.y', 'arr': 'arr[1]'}.get(c, c); return X('self.n(arr[1])' if c == 'arr' else n, n, SUF if c in ('st', 'tup', 'deep', 'arr') else ATOM)
        if k < .6:
            op = r.choice(['+', '-', '*', '|', '^', '&', '%', '/', '<<', '>>', '-', '+'])
            a = self.int(d-1)
            if op in '%/': n = r.randint(1, 5); b = X(str(n), str(n), ATOM)
            elif op in ('<<', '>>'): n = r.randint(0, 3); b = X(str(n), str(n), ATOM)
            else: b = self.int(d-1)
            return self.bin(op, a, b)
        if k < .72:
            a = self.int(d-1); op = r.choice('-!'); return X(op + self.at(a, PRE), f'({op}({a.o}))', PRE)
        if k < .82:
            a, b = self.int(d-1), self.int(d-1); f = r.choice(['sub', 'add'])
            if r.random() < .6: return X(f'{self.at(a, FILT)}|{f}({b.t})', f'filters::{f}({a.o}, {b.o}).unwrap()', FILT)
            return X(f'{self.at(a, FILT)}|{f}({b.t})|neg', f'filters::neg(filters::{f}({a.o}, {b.o}).unwrap()).unwrap()', FILT)
        c = r.choice(['max', 'idx', 'fn', 'len', 'meth', 'paren', 'array', 'try', 'suffix', 'suffix'])
        a = self.int(d-1)
        # a suffix behind parentheses applies to all that is in them
        if c == 'suffix':
            b = r.randint(0, 9); m = r.choice(['wrapping_sub', 'wrapping_add', 'pow']); b = 2 if m == 'pow' else b
            n = lambda a: X(f'self.n({a.t})', f'(({a.o}) as i64)', SUF)
            a = n(a)
            if r.random() < .4: a = self.bin(r.choice('+-*^&'), a, n(self.int(1)))
            if r.random() < .5: u = r.choice('-!'); a = X(u + self.at(a, PRE), f'({u}({a.o}))', PRE)
            return X(f'({a.t}).{m}({b})', f'({a.o}).{m}({b})', SUF)
        if c == 'max': b = self.int(d-1); return X(f'self.mx({a.t}, {b.t})', f'mx({a.o}, {b.o})', SUF)
        if c == 'idx': return X(f'self.n(arr[self.ix({a.t})])', f'arr[ix({a.o})]', SUF)
        if c == 'array': b = self.int(d-1); return X(f'self.second([{a.t}, {b.t}])', f'(({b.o}))', SUF)
        if c == 'try': return X(f'self.okay({a.t})?', f'({a.o})', SUF)
        if c == 'fn': return X(f'self::half({a.t})', f'half({a.o})', SUF)
        if c == 'len': return X('self.num(arr.len())', '(arr.len() as i64)', SUF)
        if c == 'meth': return X(f'st.twice({a.t})', f'(st.x + 2 * ({a.o}))', SUF)
        return X(f'({a.t})', f'({a.o})', ATOM)
    def bool(self, d):
        r = self.r; k = r.random()
        if d <= 0: n = r.choice(['p', 'q', 'true', 'false']); return X(n, n, ATOM)
        if k < .45: return self.bin(r.choice(['==', '!=', '<', '>', '<=', '>=']), self.int(d-1), self.int(d-1))
        if k < .85: return self.bin(r.choice(['&&', '||']), self.bool(d-1), self.bool(d-1))
        if k < .92: a, b, c = self.int(1), self.int(1), self.int(1); op = r.choice(['..', '..=']); return X(f'({a.t}{op}{b.t}).contains(self.rf({c.t}))', f'(({a.o}){op}({b.o})).contains(&({c.o}))', SUF)
        a = self.bool(d-1); return X('!' + self.at(a, PRE), f'(!({a.o}))', PRE)

COMMON = '''pub struct In { pub y: i64 } pub struct St { pub x: i64, pub inner: In }
impl St { pub fn twice(&self, a: impl std::fmt::Display) -> i64 { self.x + 2 * num(a) } }
pub fn num(a: impl std::fmt::Display) -> i64 { a.to_string().parse().unwrap() }
pub fn mx(a: i64, b: i64) -> i64 { a.max(b) }
pub fn ix(a: i64) -> usize { a.rem_euclid(3) as usize }
pub fn half(a: impl std::fmt::Display) -> i64 { num(a) / 2 }
pub mod filters {
    use super::num;
    pub fn sub(a: impl std::fmt::Display, b: impl std::fmt::Display) -> askama::Result<i64> { Ok(num(a) - 3 * num(b)) }
    pub fn add(a: impl std::fmt::Display, b: impl std::fmt::Display) -> askama::Result<i64> { Ok(2 * num(a) + num(b)) }
    pub fn neg(a: impl std::fmt::Display) -> askama::Result<i64> { Ok(1 - num(a)) }
}
'''
IMPL = '''impl T {
    fn mx(&self, a: impl std::fmt::Display, b: impl std::fmt::Display) -> i64 { num(a).max(num(b)) }
    fn ix(&self, a: impl std::fmt::Display) -> usize { ix(num(a)) }
    fn n(&self, a: impl std::fmt::Display) -> i64 { num(a) }
    fn num(&self, a: usize) -> i64 { a as i64 }
    fn second(&self, a: impl AsRef<[i64]>) -> i64 { a.as_ref()[1] }
    fn okay(&self, a: impl std::fmt::Display) -> Result<i64, rtd::Oops> { Ok(num(a)) }
    fn rf(&self, a: impl std::fmt::Display) -> &'static i64 { Box::leak(Box::new(num(a))) }
}
'''
def cases(tag, n):
    cs = []
    for i in range(n):
        r = common.rng(f'{tag}:{i}'); g = G(r); xs = []
        for _ in range(4): xs.append(g.int(r.randint(1, 4)) if r.random() < .6 else g.bool(r.randint(1, 4)))
        conds = [g.bool(3) for _ in range(r.randint(1, 3))]
        src = '|'.join('{{ ' + x.t + ' }}' for x in xs) + '/' + ''.join(f'{{% {"if" if k == 0 else "else if"} {c.t} %}}{k}' for k, c in enumerate(conds)) + '{% else %}e{% endif %}'
        rng = (g.int(1), g.int(1)); op = r.choice(['..', '..='])
        src += f'{{% for y in self.ix({rng[0].t}){op}self.ix({rng[1].t}) %}}<{{{{ y }}}}>{{% endfor %}}'
        want = 'let mut w = String::new(); ' + ' w.push_str("|"); '.join(f'w.push_str(&({x.o}).to_string());' for x in xs) + 'w.push_str("/");' \
            + ' else '.join(f'if {c.o} {{ w.push_str("{k}"); }}' for k, c in enumerate(conds)) + ' else { w.push_str("e"); }' + f' for y in ix({rng[0].o}){op}ix({rng[1].o}) {{ w.push_str(&format!("<{{y}}>")); }} w'
        vals = [(r.randint(-5, 9), r.randint(-5, 9), r.randint(0, 6), r.random() < .5, r.random() < .5) for _ in range(3)]
        # expressions nested deeper than the parser's limit are refused (C15)
        d = m = 0
        for ch in src:
            d += (ch in '([') - (ch in ')]'); m = max(m, d)
        if m > 5: continue
        rust = COMMON + f'#[derive(Template)] #[template(source = {rust_str(src)}, ext = "txt")] pub struct T {{ a: i64, b: i64, c: i64, st: St, tup: (i64, i64), arr: [i64; 3], p: bool, q: bool }}\n' + IMPL + f'''
fn want(a: i64, b: i64, c: i64, st: St, tup: (i64, i64), arr: [i64; 3], p: bool, q: bool) -> String {{ {want} }}
fn one(a: i64, b: i64, c: i64, p: bool, q: bool) -> Result<String, String> {{
    let w = std::panic::catch_unwind(|| want(a, b, c, St {{ x: a + 1, inner: In {{ y: b - 1 }} }}, (c, a), [c, b, a], p, q)).ok();
    let g = std::panic::catch_unwind(|| r(T {{ a, b, c, st: St {{ x: a + 1, inner: In {{ y: b - 1 }} }}, tup: (c, a), arr: [c, b, a], p, q }}).unwrap()).ok();
    if w == g {{ Ok("=".into()) }} else {{ Ok(format!("rustc {{w:?}} askama {{g:?}}")) }}
}}
pub fn run() -> Vec<Result<String, String>> {{ vec![{", ".join(f"one({a}, {b}, {c}, {str(p).lower()}, {str(q).lower()})" for a, b, c, p, q in vals)}] }}'''
        cs.append(tcomp.Case(rust, [('ok', '=')] * 3, {'source': src, 'values of a b c p q': vals, 'oracle': want}))
    return cs

PATS = {
 'e': (['E::A', 'E::B(1)', 'E::B(x)', 'E::B with (x)', 'E::B(_)', 'E::C { x, y }', 'E::C with { x, y }', 'E::C { x: 1, y }', 'E::C { x: z, y: 2 }', 'E::D(Some(x))', 'E::D(None)', 'E::D(_)', 'E::D(Some(1 or 2))', 'E::A or E::B(2)', 'E::B(x) or E::D(Some(x))', 'E::F(x, y)', 'E::F(1, _)', 'E::F(_, 2)'],
       ['E::A', 'E::B(1)', 'E::B(2)', 'E::B(3)', 'E::C { x: 1, y: 2 }', 'E::C { x: 3, y: 2 }', 'E::C { x: 3, y: 4 }', 'E::D(None)', 'E::D(Some(1))', 'E::D(Some(3))', 'E::F(1, 2)', 'E::F(2, 2)', 'E::F(2, 3)']),
 't': (['(1, true)', '(x, true)', '(1, y)', '(1 or 2, _)', '(_, false)', '(x, y)'], ['(1, true)', '(1, false)', '(2, true)', '(2, false)', '(3, true)']),
 's': (['"a"', '"b" or "c"', '"<"', '"a\\n"', '""', '"é"', '"\\u{e9}x"', '"a" or "b"'], ['"a"', '"b"', '"c"', '"<"', '"a\\n"', '""', '"é"', '"éx"', '"zz"']),
 'c': (["'a'", "'b' or 'c'", "'\\n'", "'\\''", "'é'", "'\\u{41}'", "'\\x42'", "'\"'"], ["'a'", "'b'", "'c'", "'\\n'", "'\\''", "'é'", "'A'", "'B'", "'\"'", "'z'"]),
 'i': (['1', '2 or 3', '0x10', '1_0', '0b101', '0o7', '16'], ['1', '2', '3', '16', '10', '5', '7', '8']),
 'b': (['true', 'false'], ['true', 'false']),
 'o': (['Some(x)', 'Some with (x)', 'None', 'Some(1)', 'Some(1 or 2)', 'Some(_)', 'Option::Some(x)'], ['None', 'Some(1)', 'Some(2)', 'Some(3)']),
}
TY = {'e': 'E', 't': '(i32, bool)', 's': "&'static str", 'c': 'char', 'i': 'i32', 'b': 'bool', 'o': 'Option<i32>'}
import re
def oracle_pat(p): return re.sub(r' or ', ' | ', p).replace(' with ', ' ')
def bound(p): return [n for n in ('x', 'y', 'z') if re.search(rf'(?<![\w"\'\\{{]){n}(?!\w*:)\b', p) and not re.search(rf'\b{n}: ', p)]
def patterns(tag, n):
    cs = []
    for i in range(n):
        r = common.rng(f'{tag}:{i}'); k = r.choice(list(PATS)); pats, vals = PATS[k]
        arms = r.sample(pats, min(len(pats), r.randint(1, 4)))
        iflet = r.random() < .3
        body = lambda p, j: f'{j}:' + ''.join(f'{b}={{{{ {b} }}}};' for b in (bound(p) if k in 'eto' else []))
        obody = lambda p, j: f'format!("{j}:' + ''.join(f'{b}={{{b}}};' for b in (bound(p) if k in 'eto' else [])) + '")'
        if iflet and k in 'eo':
            src = ''.join(f'{{% {"else " if j else ""}if let {p} = v %}}{body(p, j)}' for j, p in enumerate(arms)) + '{% else %}none{% endif %}'
        else:
            els = r.choice(['{% else %}none', '{% when _ %}none'])
            src = '{% match v %}' + r.choice(['', ' ', '\n']) + ''.join(f'{{% when {p} %}}{body(p, j)}' for j, p in enumerate(arms)) + els + '{% endmatch %}'
        want = 'match v { ' + ', '.join(f'{oracle_pat(p)} => {obody(p, j)}' for j, p in enumerate(arms)) + ', _ => "none".to_string() }'
        rust = f'''pub enum E {{ A, B(i32), C {{ x: i32, y: i32 }}, D(Option<i32>), F(i32, i32) }}
#[derive(Template)] #[template(source = {rust_str(src)}, ext = "txt")] pub struct T {{ v: {TY[k]} }}
fn want(v: {TY[k]}) -> String {{ {want} }}
fn one(v: {TY[k]}, w: {TY[k]}) -> Result<String, String> {{ let w = want(w); let g = r(T {{ v }}); if g.as_ref() == Ok(&w) {{ Ok("=".into()) }} else {{ Ok(format!("rustc {{w:?}} askama {{g:?}}")) }} }}
pub fn run() -> Vec<Result<String, String>> {{ vec![{", ".join(f"one({v}, {v})" for v in vals)}] }}'''
        cs.append(tcomp.Case(rust, [('ok', '=')] * len(vals), {'source': src, 'values': vals, 'oracle': want}))
    return cs


def macro_calls(tag, n):
    """calls of Rust macros: their arguments are handed on as they are, to the parenthesis that belongs to the call"""
    cs = []
    PIECES = ['(', ')', '\\"', '\\\\', 'a', ' ', ',', 'é', '((', '))', '\\\\\\"', '!(', '[', '}', '%', "'", '\\n', ')(']
    for i in range(n):
        r = common.rng(f'{tag}:{i}')
        lit = lambda: '"' + ''.join(r.choice(PIECES) for _ in range(r.randint(0, 4))) + '"'
        def arg(d):
            k = r.random()
            if d <= 0 or k < .5: return lit()
            if k < .7: return 'concat!(' + ', '.join(arg(d - 1) for _ in range(r.randint(0, 3))) + ')'
            if k < .8: return str(r.randint(0, 99))
            if k < .9: return 'stringify!(' + r.choice(['a', '(b)', '((c) d)', '"(" e', '"\\"" (f)', '()', '[g, (h)]']) + ')'
            return r.choice(['true', "'x'", '1.5', "'\\\\'"]) if r.random() < .7 else 'concat!()'
        def call():
            k = r.random()
            if k < .4: return 'concat!(' + ', '.join(arg(2) for _ in range(r.randint(0, 3))) + ')'
            if k < .6: return 'stringify!(' + r.choice(['a', '(b)', '((c) d)', '"(" e', '"\\"" (f)', '', '()', '")" "("']) + ')'
            return 'format!(' + ', '.join(['"' + r.choice(['', '(', ')', '\\"']) + '{}{}"', arg(1), r.choice([arg(1), '(7)', '(1 + 2) * 3', 'mx(1, (2))', '((4))'])]) + ')'
        ms = [call() for _ in range(r.randint(1, 3))]; num = r.choice(['7', '1_', '2.5', '1e2', '3.5e1', '0x1', '9.0'])
        src = 'x'.join('{{ ' + m + ' }}' for m in ms) + '(' + '{{ ' + ms[0] + '.len() }}' + ')"{{ ' + num + '.am() }}|{{ ' + ms[-1] + ' == ' + ms[-1] + ' }}'
        rust = 'pub trait Am { fn am(self) -> String; } impl Am for i32 { fn am(self) -> String { format!("i{self}") } } impl Am for f64 { fn am(self) -> String { format!("f{self}") } }\npub fn mx(a: i64, b: i64) -> i64 { a.max(b) }\n' \
             + f'#[derive(Template)] #[template(source = {rust_str(src)}, ext = "txt")] pub struct T;\n' \
             + 'fn want() -> String { let mut w = String::new(); ' + 'w.push_str("x");'.join(f'w.push_str(&({m}).to_string());' for m in ms) + f'w.push_str(&format!("({{}})\\"{{}}|true", {ms[0]}.len(), {num}.am())); w }}\n' \
             + 'pub fn run() -> Vec<Result<String, String>> { vec![if r(T) == Ok(want()) { Ok("=".into()) } else { Ok(format!("rustc {:?} askama {:?}", want(), r(T))) }] }'
        cs.append(tcomp.Case(rust, [('ok', '=')], {'source': src}))
    return cs

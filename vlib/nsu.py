"""The nesting budget of the parser (C15): Level, State and, for each parser, what it does with them."""
import re
from .rsx import *
from . import gen
from .visu import arms
from .verus import Unit
L = 'askama_parser/src/lib.rs'
SPEC = r'''
/// the fixed limit of nesting
pub open spec fn LIMIT() -> int { 128 }
pub struct ParseError { pub m: Ghost<int> }
#[verifier::external_body]
pub fn err_() -> ParseError { unimplemented!() }
/// which way the input takes the parser
#[verifier::external_body]
pub fn nd() -> bool { unimplemented!() }
'''
STATE = r'''
pub struct State { pub level: Level, pub loop_depth: usize }
impl State {
    pub open spec fn same(&self, o: &State) -> bool { self.level == o.level && self.loop_depth == o.loop_depth }
}
/// C15: a parser that is called as the d-th of those which have not ended, and may be followed at its level by k more of them
pub open spec fn within(d: int, k: int, level: Level) -> bool { d >= 0 && level.0 <= LIMIT() && d + k <= PER_LEVEL() * (level.0 + 1) }
'''
KW = re.compile(r'\b(if|else|match|loop|while|for|let|return|break|continue|fn|move|unsafe)\b')
class Slicer:
    """keeps of a body the nesting levels, the calls of parsers that get one, and the control flow, where the input decides"""
    def __init__(self, own, typ, known, levelvar, statevar):
        self.own = own; self.typ = typ; self.known = known; self.lv = levelvar; self.sv = statevar; self.edges = []; self.n = 0; self.depth = 0
        self.lazy = {}; self.vers = {levelvar: 0} if levelvar else {}
    def callee(self, path):
        p = path.replace('r#', '').replace(' ', '')
        p = re.sub(r'^Self::', (self.typ or '') + '::', p)
        return p
    def run(self, b): 
        return self.code(strip_comments(b), 'return;')
    def block_end(self, m, o): return match_close(m, o)
    def code(self, t, ex):
        m = mask(t); out = []; i = 0; n = len(t)
        while i < n:
            c = m[i]
            if c == '|' and m[i:i+2] != '||' or (m[i:i+2] == '||' and self.clos(m, i)):
                if not self.clos(m, i): i += 1; continue
                j = i + 2 if m[i:i+2] == '||' else m.index('|', i + 1) + 1
                k = j
                while k < n and m[k].isspace(): k += 1
                if m.startswith('->', k): k = m.index('{', k)
                if k < n and m[k] == '{': e = match_close(m, k) + 1; body = t[k+1:e-1]
                else:
                    e = k
                    while e < n and m[e] not in ',;)]}':
                        if m[e] in PAIR: e = match_close(m, e)
                        e += 1
                    body = t[k:e]
                self.n += 1; lab = f"'c{self.n}"; sv = dict(self.vers)
                x = self.code(body, f'continue {lab};'); self.vers = sv
                if self.does(x): out.append(f'{lab}: while nd() {self.inv()} {{ {x} }}')
                i = e; continue
            g = re.match(r'[A-Za-z_$][\w$]*', m[i:])
            if g and (i == 0 or not (m[i-1].isalnum() or m[i-1] in '_.\'')) or (g and m[i-1] == '.' and False):
                w = g.group(0)
                if w == 'fn':  # an item of its own
                    o = i
                    while m[o] != '{':
                        if m[o] in '([': o = match_close(m, o)
                        o += 1
                    i = match_close(m, o) + 1; continue
                if w == 'let' : i = self.let(t, m, i, ex, out); continue
                if w == 'if':
                    o = self.brace(m, i + 2); out.append(self.code(t[i+2:o], ex)); i, s = self.ifs(t, m, o, ex); out.append(s); continue
                if w in ('while', 'for', 'loop'):
                    o = self.brace(m, i + len(w)); e = match_close(m, o)
                    h = self.code(t[i+len(w):o], ex)
                    out.append(h if w == 'for' else ''); sv = dict(self.vers)
                    # a level that the loop increases
                    x = self.code(t[o+1:e], ex); 
                    if w != 'while': h = ''
                    if self.does(x + h): out.append(f'while nd() {self.inv()} {{ {h} {x} }}')
                    i = e + 1; continue
                if w == 'match':
                    o = self.brace(m, i + 5); e = match_close(m, o); out.append(self.code(t[i+5:o], ex))
                    bs = []
                    for p, gd, body in arms(self.params(t[o+1:e])):
                        sv = dict(self.vers); bs.append(((self.code(gd, ex) if gd else '') + self.code(body, ex))); self.vers = sv
                    if any(x.strip() for x in bs):
                        out.append(' else '.join((f'if nd() {{ {x} }}' if k < len(bs) - 1 else f'{{ {x} }}') for k, x in enumerate(bs)) if len(bs) > 1 else f'{{ {bs[0]} }}')
                    i = e + 1; continue
                if w == 'return':
                    e = i
                    while e < n and m[e] not in ';}' :
                        if m[e] in PAIR: e = match_close(m, e)
                        e += 1
                    out.append(self.code(t[i+6:e], ex)); out.append(ex); i = e + 1; continue
                if w == 'break': out.append('break;'); i += 5; continue
                if w == 'continue': out.append('continue;'); i += 8; continue
                # a path, perhaps called
                g = re.match(r'(?:[A-Za-z_$][\w$#]*\s*::\s*)*[A-Za-z_$r#][\w$#]*', m[i:]); p = g.group(0); j = i + g.end()
                if p == self.sv:
                    i = self.state(t, m, j, ex, out); continue
                if p in self.vers:
                    h = re.match(r'\s*=\s*([A-Za-z_]\w*)\.nest\(\w+\)\?\s*\.1\s*;', t[j:]) or re.match(r'\s*=\s*([A-Za-z_]\w*)\.nest\(\w+\)\?\s*\.1\s*$', t[j:])
                    if h and h.group(1) in self.vers:
                        out.append(f'match {h.group(1)}.nest("") {{ Ok((_, l_)) => {{ {p} = l_; }} Err(_) => {{ {ex} }} }}'); i = j + h.end(); continue
                    raise Lost(f'{self.own}: use of the level {t[i:i+60]!r}')
                if m[j:j+1] == '(':
                    e = match_close(m, j); a = split_args(t[j+1:e]); lv = [x for x in a if x in self.vers or self.sv and x in (self.sv, f'{self.sv}.level.get()')]
                    rest = ', '.join(x for x in a if x not in lv)
                    out.append(self.code(rest, ex))
                    if lv:
                        if len(lv) > 1: raise Lost(f'{self.own}: {t[i:e+1]!r}')
                        if p in self.lazy: out.append(self.force(p, ex))
                        else:
                            q = self.callee(p); q = next((x for x in (f'{self.own}::{q}', f"{self.own.rsplit('::', 1)[0]}::{q}") if x in self.known and '::' not in p), q)
                            if q not in self.known: raise Lost(f'{self.own} calls {q}')
                            kind = self.known[q]; x = lv[0]
                            if kind == 'S':
                                if x != self.sv: raise Lost(f'{self.own}: {q}({x})')
                                out.append(f'{fname(q)}(s_, Ghost(d_ + 1));'); self.edges.append((q, self.nested))
                            else:
                                y = 's_.level' if x not in self.vers else x
                                out.append(f'{fname(q)}({y}, Ghost(d_ + 1));'); self.edges.append((q, self.nested if x not in self.vers else self.vers[x] > 0))
                    elif p in self.lazy: out.append(self.force(p, ex))
                    else:
                        q = self.callee(p); q = next((x for x in (f'{self.own}::{q}', f"{self.own.rsplit('::', 1)[0]}::{q}") if x in self.known and '::' not in p), q)
                        if q in self.known:
                            # a level from elsewhere
                            if self.known[q] != 'L' or not any(re.fullmatch(r'Level::default\(\)|Level\(0\)', x) for x in a): raise Lost(f'{self.own}: {t[i:e+1]!r}')
                            out.append(f'{fname(q)}(Level(0), Ghost(d_ + 1));'); self.edges.append((q, True))
                    i = e + 1; continue
                if p in self.lazy: out.append(self.force(p, ex))
                i = j; continue
            if c == '?': out.append(f'if nd() {{ {ex} }}'); i += 1; continue
            if c == '{':
                e = match_close(m, i); sv = dict(self.vers); x = self.code(t[i+1:e], ex); self.vers = sv
                if x.strip(): out.append('{ ' + x + ' }')
                i = e + 1; continue
            i += 1
        return ' '.join(x for x in out if x)
    def params(self, t):
        """the parameters of closures without commas, which arms are split at"""
        m = mask(t); i = 0
        while i < len(t):
            if m[i] == '|' and m[i:i+2] != '||' and self.clos(m, i):
                j = m.index('|', i + 1)
                if not re.search(r'[=>]', m[i+1:j]): t = t[:i] + t[i:j].replace(',', ' ') + t[j:]
                i = j
            i += 1
        return t
    nested = False
    def does(self, x): return 'Ghost(d_' in x or '.nest(' in x or '.leave()' in x or 'leave_loop()' in x or 'return;' in x
    def force(self, p, ex):
        # what it returns at once was returned where it was defined
        r = self.lazy.pop(p); x = self.code(r, ''); self.lazy[p] = r; return x
    def inv(self):
        inv = ['d_ >= 0']
        if self.sv: inv += ['s_.same(old(s_))'] if not self.nested else ['s_.loop_depth == old(s_).loop_depth', 's_.level == lv0_', 's_.level.0 == old(s_).level.0 + 1']
        for v, k in self.vers.items(): inv += [f'{v}.0 <= LIMIT()', f'{v}.0 >= level0_.0 + {min(k, 1)}']
        return 'invariant ' + ', '.join(inv) + ',\n'
    def clos(self, m, i):
        k = i - 1
        while k >= 0 and m[k].isspace(): k -= 1
        if k < 0: return True
        if m[k] in '(,={;' or m[k] == '>' and m[k-1] == '=': return True
        return bool(re.search(r'\b(move|return)$', m[:k+1]))
    def brace(self, m, j):
        while m[j] != '{':
            if m[j] in '([': j = match_close(m, j)
            j += 1
        return j
    def ifs(self, t, m, o, ex):
        e = match_close(m, o); sv = dict(self.vers); a = self.code(t[o+1:e], ex); self.vers = sv; i = e + 1
        g = re.match(r'\s*else\b\s*', m[i:])
        if not g: return i, (f'if nd() {{ {a} }}' if a.strip() else '')
        i += g.end()
        if m.startswith('if', i):
            o = self.brace(m, i + 2); h = self.code(t[i+2:o], ex); i, b = self.ifs(t, m, o, ex); b = h + b
        else: e = match_close(m, i); b = self.code(t[i+1:e], ex); self.vers = sv; i = e + 1
        return i, (f'if nd() {{ {a} }} else {{ {b} }}' if (a + b).strip() else '')
    def let(self, t, m, i, ex, out):
        # `if let`, `while let` come here too: their pattern is skipped up to `=`
        k = i + 3; d = 0
        while k < len(m) and not (m[k] == '=' and m[k+1] != '=' and m[k-1] not in '=!<>.'):
            if m[k] in '([{': k = match_close(m, k)
            if m[k] == ';': return k + 1
            k += 1
        if k >= len(m): return len(m)
        pat = t[i+3:k].strip(); e = k + 1
        while e < len(m) and m[e] != ';':
            if m[e] in PAIR: e = match_close(m, e)
            e += 1
        rhs = t[k+1:e].strip()
        g = re.match(r'^(\w+)\.nest\(\w+\)\?(\s*\.1)?$', rhs)
        if g and g.group(1) in self.vers:
            h = re.match(r'^\(\s*_\s*,\s*(?:mut\s+)?(\w+)\s*\)$', pat) if not g.group(2) else re.match(r'^(?:mut\s+)?(\w+)$', pat)
            if not h: raise Lost(f'{self.own}: let {pat} = {rhs}')
            v = h.group(1); out.append(f'let mut {v} = match {g.group(1)}.nest("") {{ Ok((_, l_)) => l_, Err(_) => {{ {ex} }} }};')
            self.vers[v] = self.vers[g.group(1)] + 1
            return e + 1
        g = re.match(r'^(?:mut\s+)?(\w+)$', pat)
        if g and rhs in self.vers: out.append(f'let mut {g.group(1)} = {rhs};'); self.vers[g.group(1)] = self.vers[rhs]; return e + 1
        if g and not self.eager(rhs):
            if g.group(1) in self.vers or g.group(1) == self.sv: raise Lost(f'{self.own}: let {pat}')
            self.lazy[g.group(1)] = rhs
            if re.search(r'\breturn\b', mask(rhs)): out.append(f'if nd() {{ {ex} }}')
            return e + 1
        le = re.search(r'\belse\s*\{', mask(rhs))
        if le and not re.match(r'^\s*(if|match)\b', rhs) and m[k+1:e].rstrip().endswith('}'):
            o = le.end() - 1; out.append(self.code(rhs[:le.start()], ex)); x = self.code(rhs[o+1:match_close(mask(rhs), o)], ex); out.append(f'if nd() {{ {x} }}')
        else: out.append(self.code(rhs, ex))
        for x in re.findall(r'\w+', pat):
            if x in self.vers or x == self.sv: raise Lost(f'{self.own}: let {pat}')
            self.lazy.pop(x, None)
        return e + 1
    def eager(self, rhs):
        """whether it does anything at once, outside of closures"""
        m = mask(rhs); t = []; i = 0
        if re.search(r'\?', m) and not re.search(r'\|', m): return True
        while i < len(m):
            if m[i] == '|' and self.clos(m, i):
                j = i + 2 if m[i:i+2] == '||' else m.index('|', i + 1) + 1; k = j
                while k < len(m) and m[k].isspace(): k += 1
                if k < len(m) and m[k] == '{': i = match_close(m, k) + 1; continue
                while k < len(m) and m[k] not in ',;)]}':
                    if m[k] in PAIR: k = match_close(m, k)
                    k += 1
                i = k; continue
            t.append(m[i]); i += 1
        t = ''.join(t)
        if '?' in t: return True
        names = list(self.vers) + ([self.sv] if self.sv else []) + list(self.lazy)
        # a parser that was defined before is applied
        for x in self.lazy:
            if re.search(rf'\b{x}\s*\(', t): return True
        return any(re.search(rf'(?<![\w.]){re.escape(x)}\b', t) for x in names if x not in self.lazy)
    def state(self, t, m, j, ex, out):
        g = re.match(r'\s*\.\s*(nest|leave|enter_loop|leave_loop|is_in_loop|tag_\w+)\(', m[j:])
        if g:
            o = j + g.end() - 1; e = match_close(m, o); f = g.group(1); out.append(self.code(t[o+1:e], ex))
            if f == 'nest':
                q = m[e+1:e+2] == '?'
                out.append(f'match s_.nest("") {{ Ok(_) => {{}} Err(_) => {{ {ex} }} }}' if q else 'let _ = s_.nest("");')
                if self.nested: raise Lost(f'{self.own}: nests twice')
                self.nested = True; out.append('let ghost lv0_ = s_.level;')
                return e + 2 if q else e + 1
            if f == 'leave': out.append('s_.leave();'); self.nested = False
            elif f in ('enter_loop', 'leave_loop'): out.append(f's_.{f}({"Ghost(d_)" if f == "enter_loop" else ""});')
            return e + 1
        g = re.match(r'\s*\.\s*syntax\b', m[j:])
        if g: return j + g.end()
        g = re.match(r'\s*\.\s*level\s*\.\s*get\(\)', m[j:])
        if g: raise Lost(f'{self.own}: the level is read')
        raise Lost(f'{self.own}: {t[max(0,j-20):j+30]!r}')
def fname(q): return re.sub(r'\W+', '_', q)
def parsers(repo):
    """[(name, type, kind, parameter, item source, body)]"""
    res = []
    for f in (gen.E, gen.N, L):
        s = Src(repo, f); text = s.text
        # layers of the operator grammar
        g = re.search(r'macro_rules!\s*expr_prec_layer\s*\{', s.m)
        layers = []
        if g:
            e = match_close(s.m, g.end() - 1); arm = []
            for h in re.finditer(r'\(\s*\$name:ident[^)]*?(\$op:expr|\$\(\s*\$op:expr\s*\),\+)\s*\)\s*=>\s*\{', s.m[g.end():e]):
                o = g.end() + h.end() - 1; c = match_close(s.m, o); arm.append(('+' in h.group(1), s.text[o+1:c], o))
            if not arm: raise Lost('expr_prec_layer')
            for h in re.finditer(r'expr_prec_layer!\(', s.m):
                a = split_args(s.text[h.end():match_close(s.m, h.end() - 1)]); multi = len(a) > 3
                for plus, body, o in arm:
                    if plus == multi or plus: layers.append((a[0], a[1], body, o)); break
                else: raise Lost('expr_prec_layer')
            for nm, inner, body, o in layers:
                b = body.replace('$name', nm).replace('$inner', inner); mm = mask(b); k = mm.index('{'); 
                h = re.search(r'(\w+): Level', b[:k])
                if not h: raise Lost('expr_prec_layer')
                res.append(('Expr::' + nm, 'Expr', 'L', h.group(1), s, (o, o + len(body)), b[k+1:match_close(mm, k)]))
        for h in re.finditer(r'\bfn\s+(r#)?(\w+)(?:<[^>]*>)?\s*\(', s.m):
            if g and g.start() < h.start() < match_close(s.m, g.end() - 1): continue
            o = h.end() - 1; c = match_close(s.m, o); sig = s.text[o:c]; b = c
            while s.m[b] not in '{;': b += 1
            if s.m[b] == ';': continue
            lv = re.search(r'(\w+): Level\b', sig); sv = re.search(r'(\w+): &(?:\'\w+ )?State\b', sig)
            if 'self' in re.findall(r'\w+', sig)[:2]: continue
            if not lv and not sv: continue
            # the type that it belongs to
            t = None
            for im in re.finditer(r'\bimpl(?:<[^>]*>)?\s+(?:[\w:<>\' ]+\s+for\s+)?(\w+)(?:<[^>]*>)?\s*\{', s.m):
                if im.start() < h.start() < match_close(s.m, im.end() - 1): t = im.group(1)
            inner = None
            for k in re.finditer(r'\bfn\s+(?:r#)?(\w+)(?:<[^>]*>)?\s*\(', s.m[:h.start()]):
                bo = s.m.index('{', match_close(s.m, k.end() - 1))
                if bo < h.start() < match_close(s.m, bo): inner = k.group(1)
            nm = '::'.join(x for x in (t, inner, h.group(2)) if x)
            res.append((nm, t, 'L' if lv else 'S', (lv or sv).group(1), s, (h.start(), match_close(s.m, b) + 1), s.text[b+1:match_close(s.m, b)]))
    names = [r[0] for r in res]
    if len(set(names)) != len(names): raise Lost('parsers with the same name: ' + str(sorted(n for n in names if names.count(n) > 1)))
    return res
class Where:
    def __init__(self, src, a, b): self.src = src; self.a = a; self.b = b
    def lines(self): return (self.src.text.count('\n', 0, self.a) + 1, self.src.text.count('\n', 0, self.b) + 1)
def unit(repo):
    u = Unit('c15_nesting'); s = Src(repo, L)
    if not re.search(r'struct\s+Level\(u8\);', s.m): raise Lost('Level')
    st = strip_comments(s.find(r'struct\s+State\b').body)
    if not re.search(r'\blevel: Cell<Level>', st) or not re.search(r'\bloop_depth: Cell<usize>', st): raise Lost('State')
    u.raw(SPEC); im = s.find(r'impl\s+Level\b'); u.raw('#[derive(Clone, Copy)]\npub struct Level(pub u8);')
    u.trust('Cell by contract (a State is used by one thread and its cells are only touched by the methods of State); the combinators of nom call the closures they are given any number of times, in any order, and nothing else that gets a level')
    u.drop('of each parser: nesting levels, calls of parsers that get a level or a State, closures (run any number of times), branches and loops (taken or not, whatever the input is) and exits are kept; what is recognized and built is left out')
    c = re.search(r'const\s+MAX_DEPTH:\s*u8\s*=\s*(\w+);', im.text)
    if not c: raise Lost('MAX_DEPTH')
    def err(b):
        while True:
            g = re.search(r'\bErr\(\s*(?!err_)(?=[A-Z]|nom)', mask(b))
            if not g: return b
            o = g.start() + 3; b = b[:o+1] + 'err_()' + b[match_close(mask(b), o):]
    f = im.sub(r'fn\s+nest\b'); g = re.search(r'(\w+): &', f.head)
    u.fn('Level::nest', f, f"pub fn nest(self, {g.group(1)}: &str) -> (r: Result<(&str, Level), ParseError>)", err(strip_comments(f.body)).replace('Self::MAX_DEPTH', 'MAX_DEPTH'), requires=['self.0 <= LIMIT()'],
         ensures=['r is Ok <==> self.0 < LIMIT()', f'r matches Ok(x) ==> x.1.0 == self.0 + 1'], before=f'pub const MAX_DEPTH: u8 = {c.group(1)};\nimpl Level {{')
    f = im.sub(r'fn\s+leave\b'); u.fn('Level::leave', f, 'pub fn leave(&self) -> (r: Level)', strip_comments(f.body).replace('Self(', 'Level('), requires=['self.0 > 0'], ensures=['r.0 == self.0 - 1'], after='}')
    ps = parsers(repo); known = {p[0]: p[2] for p in ps}; sl = {}
    for nm, typ, kind, par, src, span, body in ps:
        z = Slicer(nm, typ, known, par if kind == 'L' else None, par if kind == 'S' else None)
        code = z.run(body)
        sl[nm] = (z, code)
    # ranks: how many parsers can follow at the same level
    same = {nm: sorted({q for q, nest in z.edges if not nest}) for nm, (z, _) in sl.items()}
    rank = {}; path = []
    def go(q):
        if q in rank: return rank[q]
        if q in path: return 0
        path.append(q); r = 1 + max([go(x) for x in same[q]], default=0); path.pop(); rank[q] = r; return r
    for q in sl: go(q)
    R = max(rank.values()) + 1
    u.raw(f'pub open spec fn PER_LEVEL() -> int {{ {R} }}' + STATE)
    si = s.find(r'impl<\'a>\s+State<\'a>')
    def cell(b):
        b = re.sub(r'self\s*\.\s*(level|loop_depth)\s*\.\s*get\(\)', r'self.\1', strip_comments(b)); b = method_calls_set(b); return b
    def method_calls_set(b):
        while True:
            g = re.search(r'self\s*\.\s*(level|loop_depth)\s*\.\s*set\(', mask(b))
            if not g: return b
            e = match_close(mask(b), g.end() - 1); b = b[:g.start()] + f'self.{g.group(1)} = ' + b[g.end():e] + b[e+1:]
    f = si.sub(r'fn\s+nest\b'); a = re.search(r'(\w+): &', f.head).group(1)
    u.fn('State::nest', f, f"pub fn nest<'b>(&mut self, {a}: &'b str) -> (r: Result<(&'b str, ()), ParseError>)", cell(f.body), requires=['old(self).level.0 <= LIMIT()'],
         ensures=['r is Ok <==> old(self).level.0 < LIMIT()', 'final(self).loop_depth == old(self).loop_depth', 'r is Ok ==> final(self).level.0 == old(self).level.0 + 1', 'r is Err ==> final(self).level == old(self).level'], before='impl State {')
    f = si.sub(r'fn\s+leave\b'); u.fn('State::leave', f, 'pub fn leave(&mut self)', cell(f.body), requires=['old(self).level.0 > 0'], ensures=['final(self).level.0 == old(self).level.0 - 1', 'final(self).loop_depth == old(self).loop_depth'])
    f = si.sub(r'fn\s+enter_loop\b'); u.fn('State::enter_loop', f, 'pub fn enter_loop(&mut self, Ghost(d_): Ghost<int>)', cell(f.body), requires=['old(self).loop_depth <= d_ <= PER_LEVEL() * (LIMIT() + 1)'], ensures=['final(self).level == old(self).level', 'final(self).loop_depth == old(self).loop_depth + 1'])
    f = si.sub(r'fn\s+leave_loop\b'); u.fn('State::leave_loop', f, 'pub fn leave_loop(&mut self)', cell(f.body), requires=['old(self).loop_depth > 0'], ensures=['final(self).level == old(self).level', 'final(self).loop_depth == old(self).loop_depth - 1'])
    f = si.sub(r'fn\s+is_in_loop\b'); u.fn('State::is_in_loop', f, 'pub fn is_in_loop(&self) -> (r: bool)', cell(f.body), ensures=['r == (self.loop_depth > 0)'], after='}')
    at = '#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]'
    for nm, typ, kind, par, src, span, body in ps:
        z, code = sl[nm]; w = Where(src, *span); k = rank[nm]
        if kind == 'L':
            u.fn(nm, w, f'pub fn {fname(nm)}({par}_: Level, Ghost(d_): Ghost<int>)', f' let mut {par} = {par}_; let ghost level0_ = {par}_; {code}', requires=[f'within(d_, {k}, {par}_)'], attrs=at)
        else:
            u.fn(nm, w, f'pub fn {fname(nm)}(s_: &mut State, Ghost(d_): Ghost<int>)', code, requires=[f'within(d_, {k}, old(s_).level)', 'old(s_).loop_depth <= d_'], ensures=['final(s_).same(old(s_))'], attrs=at)
    f = s.find(r'impl\s+Ast\b|impl<\'a>\s+Ast<\'a>').sub(r'fn\s+from_str\b')
    b = re.sub(r'\s', '', f.body)
    if 'Node::many(' not in b or 'State::new(' not in b or 'Node::many' not in sl: raise Lost('Ast::from_str')
    n = si.sub(r'fn\s+new\b')
    if not re.search(r'loop_depth:\s*Cell::new\(0\)', n.body) or not re.search(r'level:\s*Cell::new\(Level::default\(\)\)', n.body): raise Lost('State::new')
    u.raw(f'''/// C15: parsing starts with the whole budget and ends with it, and no more than LIMIT + 1 times PER_LEVEL parsers are active at any time
pub fn whole() {{ let mut s = State {{ level: Level(0), loop_depth: 0 }}; {fname('Node::many')}(&mut s, Ghost(0)); assert(s.level.0 == 0); }}''', lemmas=['whole'])
    return u

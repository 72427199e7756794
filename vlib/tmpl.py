"""Random templates with an independent reference semantics (written from the properties, not from the generator of /repo)."""
import random, os
from .batch import rust_str

class Err(Exception): pass       # rendering fails
class Discard(Exception): pass   # case not wanted (arithmetic out of range)
class Brk(Exception): pass
class Cont(Exception): pass

ESC = {'<': '&lt;', '>': '&gt;', '&': '&amp;', '"': '&quot;', "'": '&#x27;'}
def html(s): return ''.join(ESC.get(c, c) for c in s)
def show(v):
    if v is True: return 'true'
    if v is False: return 'false'
    return str(v)
WS = ' \t\r\n'

class Env:
    def __init__(self, fields, escape, world):
        self.fields = fields; self.escape = escape; self.world = world; self.scopes = [{}]; self.loops = []; self.ticks = [0]; self.blocks = None; self.supers = []; self.macros = {}; self.imports = {}
    def get(self, n):
        for s in reversed(self.scopes):
            if n in s: return s[n]
        return self.fields[n]
    def fresh(self):
        e = Env(self.fields, self.escape, self.world); e.ticks = self.ticks; e.blocks = self.blocks; e.macros = self.macros; e.imports = self.imports; return e

class E:
    """expression: source text, type, evaluation"""
    def __init__(self, src, ty, ev, safe=None, atom=False): self.src = src; self.ty = ty; self.ev = ev; self.safe = safe; self.atom = atom
def par(e): return e.src if e.atom else f'({e.src})'

def text_of(nodes, env):
    out = []
    for n in nodes: n.run(env, out)
    return ''.join(out)

class Node: pass
class Text(Node):
    def __init__(self, s): self.s = s; self.out = None
    def emit(self, o): o.append(('text', self))
    def run(self, env, out): out.append(self.out)
class Raw(Node):
    def __init__(self, s, w): self.t = Text(s); self.w = w
    def emit(self, o): o.append(('tag', self.w[0], 'raw', self.w[1], '%')); o.append(('text', self.t)); o.append(('tag', self.w[2], 'endraw', self.w[3], '%'))
    def run(self, env, out): out.append(self.t.out)
class Comment(Node):
    def __init__(self, s, w): self.s = s; self.w = w
    def emit(self, o): o.append(('tag', self.w[0], self.s, self.w[1], '#'))
    def run(self, env, out): pass
class Out(Node):
    def __init__(self, e, w): self.e = e; self.w = w
    def emit(self, o): o.append(('tag', self.w[0], self.e.src, self.w[1], '{'))
    def run(self, env, out):
        v = show(self.e.ev(env))
        if self.e.safe == 'safe': out.append(v)
        elif self.e.safe == 'html': out.append(html(v))
        elif self.e.safe == 'none': out.append(v)
        else: out.append(html(v) if env.escape else v)
class Let(Node):
    def __init__(self, name, e, w): self.name = name; self.e = e; self.w = w
    def emit(self, o): o.append(('tag', self.w[0], f'let {self.name} = {self.e.src}' if self.e else f'let {self.name}', self.w[1], '%'))
    def run(self, env, out):
        if self.e is None: env.scopes[-1][self.name] = None; return
        v = self.e.ev(env)
        # an assignment to a declared variable without value, otherwise a new definition
        for s in reversed(env.scopes):
            if self.name in s:
                if s[self.name] is None: s[self.name] = v; return
                break
        env.scopes[-1][self.name] = v
def scoped(env, nodes, out, binds=None):
    env.scopes.append(dict(binds or {}))
    try:
        for n in nodes: n.run(env, out)
    finally: env.scopes.pop()
class If(Node):
    """arms: (kind, expr, bind, body, ws); kind if/iflet/else"""
    def __init__(self, arms, wend): self.arms = arms; self.wend = wend
    def emit(self, o):
        for k, (kind, e, bind, body, w) in enumerate(self.arms):
            t = {'if': lambda: f'if {e.src}', 'iflet': lambda: f'if let Some({bind}) = {e.src}', 'else': lambda: ''}[kind]()
            o.append(('tag', w[0], ('else ' + t).strip() if k else t, w[1], '%'))
            for n in body: n.emit(o)
        o.append(('tag', self.wend[0], 'endif', self.wend[1], '%'))
    def run(self, env, out):
        for kind, e, bind, body, w in self.arms:
            if kind == 'else': return scoped(env, body, out)
            v = e.ev(env)
            if kind == 'if' and v: return scoped(env, body, out)
            if kind == 'iflet' and v is not None: return scoped(env, body, out, {bind: v})
class Match(Node):
    """arms: (pattern source, matches: value -> None or bindings, body, ws)"""
    def __init__(self, e, arms, w, wend, gap=''): self.e = e; self.arms = arms; self.w = w; self.wend = wend; self.gap = gap
    def emit(self, o):
        o.append(('tag', self.w[0], 'match ' + self.e.src, self.w[1], '%'))
        if self.gap: o.append(('gap', self.gap))
        for src, f, body, w in self.arms:
            o.append(('tag', w[0], src, w[1], '%'))
            for n in body: n.emit(o)
        o.append(('tag', self.wend[0], 'endmatch', self.wend[1], '%'))
    def run(self, env, out):
        v = self.e.ev(env)
        for src, f, body, w in self.arms:
            b = f(v)
            if b is not None: return scoped(env, body, out, b)
        raise AssertionError('no arm')
class For(Node):
    def __init__(self, var, it, cond, body, els, w1, w2, w3): self.var = var; self.it = it; self.cond = cond; self.body = body; self.els = els; self.w1 = w1; self.w2 = w2; self.w3 = w3
    def emit(self, o):
        o.append(('tag', self.w1[0], f'for {self.var} in {self.it.src}' + (f' if {self.cond.src}' if self.cond else ''), self.w1[1], '%'))
        for n in self.body: n.emit(o)
        if self.els is not None:
            o.append(('tag', self.w2[0], 'else', self.w2[1], '%'))
            for n in self.els: n.emit(o)
        o.append(('tag', self.w3[0], 'endfor', self.w3[1], '%'))
    def run(self, env, out):
        vs = list(self.it.ev(env)); items = []
        if self.cond is None: items = vs
        else:
            # the condition is evaluated lazily; it has no effects here
            for v in vs:
                env.scopes.append({self.var: v})
                try:
                    if self.cond.ev(env): items.append(v)
                finally: env.scopes.pop()
        for i, v in enumerate(items):
            env.loops.append((i, len(items)))
            try: scoped(env, self.body, out, {self.var: v})
            except Brk: break
            except Cont: continue
            finally: env.loops.pop()
        if not items and self.els is not None: scoped(env, self.els, out)
class Jump(Node):
    def __init__(self, kind, w): self.kind = kind; self.w = w
    def emit(self, o): o.append(('tag', self.w[0], self.kind, self.w[1], '%'))
    def run(self, env, out): raise (Brk if self.kind == 'break' else Cont)()
class Macro(Node):
    def __init__(self, name, args, body, w1, w2): self.name = name; self.args = args; self.body = body; self.w1 = w1; self.w2 = w2
    def emit(self, o):
        o.append(('tag', self.w1[0], f'macro {self.name}({", ".join(self.args)})', self.w1[1], '%'))
        for n in self.body: n.emit(o)
        o.append(('tag', self.w2[0], 'endmacro', self.w2[1], '%'))
    def run(self, env, out): pass
class Call(Node):
    def __init__(self, mac, args, w, scope=None, named=()): self.mac = mac; self.args = args; self.w = w; self.scope = scope; self.named = named
    def emit(self, o):
        a = [(f'{n} = {e.src}' if n in self.named else e.src) for n, e in self.args]
        o.append(('tag', self.w[0], f'call {self.scope + "::" if self.scope else ""}{self.mac.name}({", ".join(a)})', self.w[1], '%'))
    def run(self, env, out):
        vs = {n: e.ev(env) for n, e in self.args}
        e = env.fresh(); e.scopes = [{}]; scoped(e, self.mac.body, out, vs)
class Include(Node):
    def __init__(self, path, nodes, w): self.path = path; self.nodes = nodes; self.w = w
    def emit(self, o): o.append(('tag', self.w[0], f'include "{self.path}"', self.w[1], '%'))
    def run(self, env, out): scoped(env, self.nodes, out)
FILTERS = {'upper': str.upper, 'lower': str.lower, 'trim': lambda s: s.strip(), 'linebreaksbr': lambda s: s.replace('\n', '<br/>'), 'capitalize': lambda s: s[:1].upper() + s[1:].lower()}
class Filter(Node):
    """filters: names in order of application; 'safe' last marks the result as safe"""
    def __init__(self, filters, body, w1, w2): self.filters = filters; self.body = body; self.w1 = w1; self.w2 = w2
    def emit(self, o):
        o.append(('tag', self.w1[0], 'filter ' + '|'.join(f if isinstance(f, str) else f[0] for f in self.filters), self.w1[1], '%'))
        for n in self.body: n.emit(o)
        o.append(('tag', self.w2[0], 'endfilter', self.w2[1], '%'))
    def run(self, env, out):
        inner = []
        scoped(env, self.body, inner)
        t = ''.join(inner); safe = False
        for f in self.filters:
            if f == 'safe': safe = True
            elif isinstance(f, str): t = FILTERS[f](t)
            else: t = f[1](t, env)
        out.append(html(t) if env.escape and not safe else t)
class Block(Node):
    def __init__(self, name, body, w1, w2, endname=True): self.name = name; self.body = body; self.w1 = w1; self.w2 = w2; self.endname = endname
    def emit(self, o):
        o.append(('tag', self.w1[0], f'block {self.name}', self.w1[1], '%'))
        for n in self.body: n.emit(o)
        o.append(('tag', self.w2[0], f'endblock {self.name}' if self.endname else 'endblock', self.w2[1], '%'))
    def run(self, env, out): run_block(env, self.name, 0, out)
class Sink(list):
    """drops what is written, except by one block"""
    def __init__(self, only, real): self.only = only; self.real = real
    def append(self, x): pass
def run_block(env, name, gen, out):
    if isinstance(out, Sink) and out.only == name: out = out.real
    defs = env.blocks[name]
    if gen >= len(defs): raise Discard('no super')
    e = env.fresh(); e.supers = [(name, gen)]
    scoped(e, defs[gen].body, out)
class Super(Node):
    def __init__(self, w): self.w = w
    def emit(self, o): o.append(('tag', self.w[0], 'call super()', self.w[1], '%'))
    def run(self, env, out): name, gen = env.supers[-1]; run_block(env, name, gen + 1, out)
class Tag(Node):
    """a tag without output: extends, import"""
    def __init__(self, s, w): self.s = s; self.w = w
    def emit(self, o): o.append(('tag', self.w[0], self.s, self.w[1], '%'))
    def run(self, env, out): pass

OPEN = {'%': ('{%', '%}'), '{': ('{{', '}}'), '#': ('{#', '#}')}
def walk(nodes):
    for n in nodes:
        yield n
        for a in ('body', 'els'):
            if getattr(n, a, None): yield from walk(getattr(n, a))
        if isinstance(n, (If,)):
            for arm in n.arms: yield from walk(arm[3])
        if isinstance(n, Match):
            for arm in n.arms: yield from walk(arm[2])

def minimized(s): return '\n' if '\n' in s else ' '
def apply_ws(s, how):
    if not s or how == '+': return s
    return '' if how == '-' else minimized(s)
STRONG = {'-': 2, '~': 1, '+': 0}
def source(nodes, default='+', delims=None, pad=(' ', ' '), file=False):
    """text of a template file; decides what its text nodes contribute. default: + - ~; file: one final newline is dropped"""
    o = []; default = '+' if default == 'p' else default
    for n in nodes: n.emit(o)
    final = ''
    if file and o and o[-1][0] == 'text' and o[-1][1].s.endswith('\n'): final = '\n'; o[-1][1].s = o[-1][1].s[:-1]
    out = []; D = delims or OPEN
    for k, it in enumerate(o):
        if it[0] == 'tag':
            a, b = D[it[4]]; w = it[1] or ''; x = it[3] or ''
            if it[4] == '#': out.append(a + w + pad[0] + it[2] + pad[1] + x + b)
            else: out.append(a + w + pad[0] + it[2] + pad[1] + x + b)
        elif it[0] == 'gap': out.append(it[1])
        else:
            t = it[1]; s = t.s; out.append(s)
            left = next((q for q in reversed(o[:k]) if q[0] == 'tag'), None) if k else None
            right = next((q for q in o[k+1:] if q[0] == 'tag'), None)
            dl = (left[3] or default) if left else None; dr = (right[1] or default) if right else None
            core = s.strip(WS)
            if core:
                i = s.index(core[0], len(s) - len(s.lstrip(WS))); lead = s[:len(s) - len(s.lstrip(WS))]; trail = s[len(s.rstrip(WS)):]
                t.out = (apply_ws(lead, dl) if dl else lead) + core + (apply_ws(trail, dr) if dr else trail)
            else:
                ds = [d for d in (dl, dr) if d]
                t.out = apply_ws(s, max(ds, key=lambda d: STRONG[d])) if ds else s
    return ''.join(out) + final

# ---------------------------------------------------------------------------------------------
FIELDS = {'s': 'str', 't': 'str', 'u': 'str', 'i': 'int', 'j': 'int', 'k': 'int', 'p': 'bool', 'q': 'bool', 'li': 'ints', 'ls': 'strs', 'o': 'opt', 'o2': 'opt', 'mf': 'str', 'mi': 'int'}
TICKS = [('rtd::IDN[self.tick()]', 'int', lambda n: n), ('(self.tick())', 'int', lambda n: n), ('[self.tick(), 0][0]', 'int', lambda n: n), ('-self.n(self.tick())', 'int', lambda n: -n), ('!(self.tick() == 0)', 'bool', lambda n: n != 0),
         ('self.tick() + 0', 'int', lambda n: n), ('0 + self.tick()', 'int', lambda n: n), ('1 == 1 && self.tick() != 2', 'bool', lambda n: n != 2), ('self.pair().1', 'int', lambda n: n), ('self.good_tick()?', 'int', lambda n: n), ('(self.good_tick()?)', 'int', lambda n: n),
         ('format!("{}", self.tick())', 'str', lambda n: str(n)), ('(self.tick()..9).start', 'int', lambda n: n), ('self.sh(rtd::IDN[self.tick()])', 'str', lambda n: str(n)), ('rtd::tick()', 'int', lambda n: n), ('"x"|ticked', 'strf', lambda n: 'x' + str(n)), ('rtd::IDN[0]|ticked', 'strf', lambda n: '0' + str(n)),
         ('("x"|ticked)|upper', 'strf', lambda n: 'X' + str(n)), ('rtd::IDN[self.pair().1]', 'int', lambda n: n), ('-rtd::IDI[self.tick()]', 'int', lambda n: -n), ('rtd::IDN[1 + self.tick()]', 'int', lambda n: n + 1), ('rtd::IDN[(self.tick())]', 'int', lambda n: n),
         ('(0..self.tick()).end', 'int', lambda n: n), ('(self.tick()..).start', 'int', lambda n: n), ('(..self.tick()).end', 'int', lambda n: n), ('(0..=self.n(self.tick())).end()', 'int', lambda n: n), ('[0, self.tick()][1]', 'int', lambda n: n),
         ('self.good_tick()? + 0', 'int', lambda n: n), ('!(self.n(self.tick()))', 'int', lambda n: ~n), ('format!("{}{}", 1, self.tick())', 'str', lambda n: '1' + str(n)), ('rtd::tick() * 1', 'int', lambda n: n), ('1 * rtd::tick()', 'int', lambda n: n)]
WRAPS = [('safe|as_ref', None, lambda t, esc: t), ('safe|upper', None, lambda t, esc: t.upper()), ('upper|safe', 'safe', lambda t, esc: t.upper()), ('as_ref|safe', 'safe', lambda t, esc: t), ('as_ref', None, lambda t, esc: t), ('escape|as_ref', None, lambda t, esc: html(t) if esc else t),
         ('escape|lower', None, lambda t, esc: (html(t) if esc else t).lower()), ('e("html")|trim', None, lambda t, esc: html(t).strip()), ('cat("<")|safe', 'safe', lambda t, esc: t + '<'), ('safe|cat("<")', None, lambda t, esc: t + '<'), ('cat("<"|safe)', None, lambda t, esc: t + '<'), ('escape("none")|upper', None, lambda t, esc: t.upper()),
         ('as_ref|as_ref', None, lambda t, esc: t), ('safe|as_ref|safe', 'safe', lambda t, esc: t), ('escape("none")|as_ref', None, lambda t, esc: t), ('lower|as_ref', None, lambda t, esc: t.lower())]
DECL = '''pub struct T { pub s: &'static str, pub t: &'static str, pub u: &'static str, pub i: i32, pub j: i32, pub k: i32, pub p: bool, pub q: bool, pub li: Vec<i32>, pub ls: Vec<&'static str>, pub o: Option<i32>, pub o2: Option<i32>, pub mf: &'static str, pub mi: i32 }
impl T {
    pub fn tick(&self) -> u32 { rtd::tick() }
    pub fn n<A: std::fmt::Display>(&self, x: A) -> i32 { x.to_string().parse().unwrap() }
    pub fn sh<A: std::fmt::Display>(&self, x: A) -> String { x.to_string() }
    pub fn good(&self) -> Result<i32, rtd::Oops> { Ok(7) }
    pub fn good_tick(&self) -> Result<u32, rtd::Oops> { Ok(rtd::tick()) }
    pub fn pair(&self) -> (u32, u32) { (0, rtd::tick()) }
}'''
STRS = ['', 'a', '<b>', '&amp;', '"q"', "it's", 'é<', 'Ab c', '{{x}}', '\\n', 'x\ny', '🦀>', '%}', ' sp ', '<p></p>']
def values(rng):
    v = {}
    for n, t in FIELDS.items():
        v[n] = {'str': lambda: rng.choice(STRS), 'int': lambda: rng.randint(-3, 9), 'bool': lambda: rng.random() < .5,
                'ints': lambda: [rng.randint(-2, 5) for _ in range(rng.choice([0, 1, 2, 3, 5]))], 'strs': lambda: [rng.choice(STRS) for _ in range(rng.choice([0, 1, 2, 3]))],
                'opt': lambda: rng.choice([None, rng.randint(0, 5)])}[t]()
    return v
def rust_val(t, v):
    return {'str': lambda: rust_str(v), 'int': lambda: str(v), 'bool': lambda: show(v), 'ints': lambda: 'vec![' + ', '.join(map(str, v)) + ']',
            'strs': lambda: 'vec![' + ', '.join(map(rust_str, v)) + ']', 'opt': lambda: 'None' if v is None else f'Some({v})'}[t]()
def rust_struct(v, name='T'): return name + ' { ' + ', '.join(f'{n}: {rust_val(FIELDS[n], x)}' for n, x in v.items()) + ' }'

def small(v):
    if isinstance(v, int) and abs(v) >= 2**31: raise Discard('range')
    return v

def plain(s):
    """no tag may begin inside of a text"""
    for a in ('{{', '{%', '{#'):
        while a in s: s = s.replace(a, a[0] + '.' + a[1])
    return s

class Gen:
    def __init__(self, rng, w, texts, ws=('',), max_depth=3):
        """w: weights of node kinds; texts: alphabet of texts; ws: markers"""
        self.r = rng; self.w = w; self.texts = texts; self.ws = ws; self.max_depth = max_depth
        self.scopes = [{}]; self.loops = 0; self.in_filter = False; self.macros = []; self.includes = []; self.block_names = []; self.free = True; self.in_block = False; self.n = 0; self.fields = dict(FIELDS); self.tick = w.get('tick', 0); self.super_ok = False
        self.names = ['x', 'y', 'z', 's', 'i', 'u', 'v', 'p']
    def mk(self): return (self.r.choice(self.ws), self.r.choice(self.ws))
    def text(self): return Text(plain(''.join(self.r.choice(self.texts) for _ in range(self.r.randint(1, 4)))))
    def visible(self, ty):
        seen = {}; 
        for s in reversed(self.scopes):
            for n, t in s.items(): seen.setdefault(n, t)
        res = [n for n, t in seen.items() if t == ty]
        res += [n for n, t in self.fields.items() if t == ty and n not in seen and (self.free or n in ('mf', 'mi'))]
        return res
    # expressions
    def var(self, ty):
        vs = self.visible(ty)
        if not vs: return None
        n = self.r.choice(vs); return E(n, ty, lambda env: env.get(n), atom=True)
    def int(self, d=2):
        r = self.r; k = r.random()
        if self.loops and k < .2: 
            a = r.choice(['index', 'index0']); return E('loop.' + a, 'int', lambda env: env.loops[-1][0] + (a == 'index'), atom=True)
        if self.loops and getattr(self, 'cycle', False) and r.random() < .15:
            xs = [r.randint(0, 9) for _ in range(r.randint(1, 3))]
            return E('loop.cycle([' + ', '.join(map(str, xs)) + '])', 'int', lambda env: xs[env.loops[-1][0] % len(xs)], atom=True)
        if k < .6 or d <= 0:
            v = self.var('int')
            if v and r.random() < .8: return v
            n = r.randint(0, 9); return E(str(n), 'int', lambda env: n, atom=True)
        a = self.int(d-1); b = self.int(d-1); op = r.choice('+-*')
        f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[op]
        # usize (loop.index) does not mix with i32
        return E(f'self.n({a.src}) {op} self.n({b.src})', 'int', lambda env: small(f(a.ev(env), b.ev(env))))
    def str(self, d=2):
        r = self.r; k = r.random()
        if k < .65 or d <= 0:
            v = self.var('str')
            if v and r.random() < .85: return v
            s = r.choice([x for x in STRS if '\\' not in x and '"' not in x and '\n' not in x and '}' not in x]); return E(f'"{s}"', 'str', lambda env: s, atom=True)
        a = self.str(d-1) if r.random() < .7 else self.int(1); f = r.choice(['upper', 'lower', 'trim'])
        return E(f'{par(a)}|{f}', 'strf', lambda env: FILTERS[f](show(a.ev(env))))
    def bool(self, d=2):
        r = self.r; k = r.random()
        if k < .3 or d <= 0:
            v = self.var('bool')
            if v: return v
            b = r.random() < .5; return E(show(b), 'bool', lambda env: b, atom=True)
        if k < .4 and self.loops:
            a = r.choice(['first', 'last']); return E('loop.' + a, 'bool', lambda env: env.loops[-1][0] == 0 if a == 'first' else env.loops[-1][0] + 1 == env.loops[-1][1], atom=True)
        if k < .5: a = self.bool(d-1); return E(f'!{par(a)}', 'bool', lambda env: not a.ev(env))
        if k < .75:
            a, b = self.int(1), self.int(1); op = r.choice(['==', '!=', '<', '>', '<=', '>='])
            f = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y, '>': lambda x, y: x > y, '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y}[op]
            return E(f'self.n({a.src}) {op} self.n({b.src})', 'bool', lambda env: f(a.ev(env), b.ev(env)))
        a, b = self.bool(d-1), self.bool(d-1); op = r.choice(['&&', '||'])
        return E(f'{par(a)} {op} {par(b)}', 'bool', (lambda env: a.ev(env) and b.ev(env)) if op == '&&' else (lambda env: a.ev(env) or b.ev(env)))
    def shown(self):
        r = self.r; k = r.random()
        if self.tick and k < self.tick:
            def ev(env): env.ticks[0] += 1; return env.ticks[0]
            if getattr(self, 'ticky', False):
                if r.random() < .45:
                    # a call, a filter, a macro or a fallible part anywhere in the expression
                    src, typ, f = r.choice(TICKS)
                    return E(src, typ, lambda env: f(ev(env)))
                q = r.random()
                if q < .25: f = r.choice(['lower', 'upper', 'trim']); return E(f'self.tick()|{f}', 'strf', ev)
                if q < .4: return E('self.tick()|safe', 'int', ev, safe='safe')
                if q < .5: return E('self.sh(self.tick())', 'str', ev)
                if q < .6: return E('self.good()?', 'int', lambda env: 7)
                if q < .7: return E('self.n(self.tick()) + 1', 'int', lambda env: ev(env) + 1)
            return E('self.tick()', 'int', ev, atom=True)
        if k < .55: e = self.str()
        elif k < .85: e = self.int()
        else: e = self.bool()
        if r.random() < self.w.get('wraps', 0):
            src, safe, f = r.choice(WRAPS)
            return E(f'{par(e)}|{src}', 'strf', lambda env: f(show(e.ev(env)), env.escape), **({'safe': safe} if safe else {}))
        m = r.random()
        if m < self.w.get('safe', .15): return E(f'{par(e)}|safe', 'str', e.ev, safe='safe')
        if m < self.w.get('safe', .15) + self.w.get('escape', .1):
            f = r.choice(['escape', 'e', 'escape("html")', 'escape("txt")' , 'e("none")'])
            return E(f'{par(e)}|{f}', 'str', e.ev, safe={'escape("html")': 'html', 'escape("txt")': 'none', 'e("none")': 'none'}.get(f))
        return e
    # nodes
    def body(self, d, binds=None, lo=1, hi=3, loop=False):
        self.scopes.append(dict(binds or {})); self.loops += loop
        try: return self.nodes(d, self.r.randint(lo, hi))
        finally: self.scopes.pop(); self.loops -= loop
    def nodes(self, d, n):
        res = []
        for _ in range(n):
            x = self.node(d)
            if isinstance(x, Text) and res and isinstance(res[-1], Text): continue
            res.append(x)
        return res
    def node(self, d):
        kinds = dict(self.w['nodes'])
        if d <= 0: kinds = {k: v for k, v in kinds.items() if k in ('text', 'out', 'let', 'comment', 'raw', 'call', 'jump', 'super')}
        if not self.loops or self.in_filter: kinds.pop('jump', None)
        if not self.macros or self.in_block: kinds.pop('call', None)
        if not self.includes or self.in_block: kinds.pop('include', None)
        if not self.super_ok or (self.super_ok == 'block' and not (self.in_block and self.cur_block in self.known)): kinds.pop('super', None)
        if not self.block_names or self.loops: kinds.pop('block', None)
        k = self.r.choices(list(kinds), list(kinds.values()))[0]
        return getattr(self, 'g_' + k)(d)
    def g_text(self, d): return self.text()
    def g_out(self, d): return Out(self.shown(), self.mk())
    def g_comment(self, d): return Comment(self.r.choice(['c', ' {{ s }} ', '{# nested #}', '{% if %}', '"', '"# not"'.replace('#', ''), 'a - b']), self.mk())
    def g_raw(self, d): return Raw(self.text().s + self.r.choice(['', '{{ s }}', '{% x %}', '}}']), self.mk() + self.mk())
    def g_let(self, d):
        ty = self.r.choice(['int', 'str', 'bool']); e = {'int': self.int, 'str': lambda: self.str(0), 'bool': self.bool}[ty]()
        n = self.r.choice(self.names)
        if e.src.startswith('loop.'): ty = 'int' if ty == 'int' else 'bool'
        self.scopes[-1][n] = ty
        return Let(n, e, self.mk())
    def g_if(self, d):
        arms = []
        for k in range(self.r.choice([1, 1, 2, 3])):
            if self.r.random() < .25 and self.visible('opt'):
                o = self.var('opt'); b = self.r.choice(self.names); arms.append(('iflet', o, b, self.body(d-1, {b: 'int'}), self.mk()))
            else: c = self.bool(); arms.append(('if', c, None, self.body(d-1), self.mk()))
        if self.r.random() < .5: arms.append(('else', None, None, self.body(d-1), self.mk()))
        return If(arms, self.mk())
    def g_match(self, d):
        r = self.r; k = r.random(); gap = r.choice(['', ' ', '\n']) 
        if k < .4 and self.visible('opt'):
            o = self.var('opt'); b = r.choice(self.names)
            arms = [(f'when Some with ({b})', lambda v: None if v is None else {b: v}, self.body(d-1, {b: 'int'}), self.mk()), ('when None', lambda v: {} if v is None else None, self.body(d-1), self.mk())]
            if r.random() < .3: arms[1] = ('else', lambda v: {}, arms[1][2], arms[1][3])
            elif r.random() < .5: arms.reverse()
            return Match(o, arms, self.mk(), self.mk(), gap)
        lits = r.sample(range(0, 6), r.choice([1, 2, 3])); e = self.int(1)
        arms = [(f'when {n}', (lambda n: lambda v: {} if v == n else None)(n), self.body(d-1), self.mk()) for n in lits]
        arms.append(('else', lambda v: {}, self.body(d-1), self.mk()))
        return Match(E(f'self.n({e.src})', 'int', e.ev), arms, self.mk(), self.mk(), gap)
    def g_for(self, d):
        r = self.r; k = r.random(); v = r.choice(self.names)
        if k < .4: a, b = r.randint(0, 2), r.randint(0, 4); it = E(f'{a}..{b}', 'ints', lambda env: range(a, b)); ty = 'int'
        elif k < .5: a, b = r.randint(0, 2), r.randint(2, 4); it = E(f'{a}..={b}', 'ints', lambda env: range(a, b + 1)); ty = 'int'
        elif k < .6: xs = [r.randint(0, 9) for _ in range(r.randint(1, 3))]; it = E('[' + ', '.join(map(str, xs)) + ']', 'ints', lambda env: xs); ty = 'int'
        elif k < .8: it = self.var('ints'); ty = 'int'
        else: it = self.var('strs'); ty = 'str'
        if it is None: a, b = 0, 3; it = E('0..3', 'ints', lambda env: range(3)); ty = 'int'
        cond = None
        if ty == 'int' and r.random() < .35:
            n = r.randint(0, 4); op = r.choice(['<', '>', '!=']); f = {'<': lambda x: x < n, '>': lambda x: x > n, '!=': lambda x: x != n}[op]
            cond = E(f'self.n({v}) {op} {n}', 'bool', lambda env: f(env.get(v)))
        body = self.body(d-1, {v: ty}, loop=True)
        els = self.body(d-1) if r.random() < .5 else None
        return For(v, it, cond, body, els, self.mk(), self.mk(), self.mk())
    def g_jump(self, d):
        c = self.bool(1); return If([('if', c, None, [Jump(self.r.choice(['break', 'continue']), self.mk())], self.mk())], self.mk())
    def g_call(self, d):
        m, scope = self.r.choice(self.macros); args = []
        for a in m.args: 
            e = self.str(0) if a.startswith('ms') else self.int(1)
            # finding C19 macro-argument: a bare `loop.x` is looked up where the macro uses it
            if e.src.startswith('loop.'): e = E(f'self.n({e.src})', 'int', e.ev)
            args.append((a, e))
        named = ()
        if m.args and self.r.random() < .3: named = tuple(m.args[self.r.randint(0, len(m.args) - 1):])
        if named:
            tail = [x for x in args if x[0] in named]; self.r.shuffle(tail) if False else None
            args = [x for x in args if x[0] not in named] + tail
        return Call(m, args, self.mk(), scope, named)
    def g_include(self, d): p, nodes = self.r.choice(self.includes); return Include(p, nodes, self.mk())
    def cat(self):
        e = self.str() if self.r.random() < .8 else self.int()
        return f'cat({e.src})', lambda t, env: t + show(e.ev(env))
    def g_filter(self, d):
        fs = [self.r.choice(['upper', 'lower', 'trim', 'linebreaksbr', 'capitalize']) for _ in range(self.r.choice([1, 1, 2, 3]))]
        if self.r.random() < self.w.get('filter_args', 0): fs[self.r.randrange(len(fs))] = self.cat()
        if self.r.random() < .3: fs.append('safe')
        old = self.in_filter; self.in_filter = True
        b = self.body(d-1, lo=self.r.choice([0, 1]), hi=4); self.in_filter = old
        return Filter(fs, b, self.mk(), self.mk())
    def g_block(self, d):
        n = self.block_names.pop()
        s, sc, lo, ib = self.scopes, None, self.loops, self.in_block
        self.scopes = [{}]; self.loops = 0; self.in_block = True; cb = getattr(self, 'cur_block', None); self.cur_block = n
        b = self.body(d-1); self.cur_block = cb; self.scopes = s; self.loops = lo; self.in_block = ib
        return Block(n, b, self.mk(), self.mk(), self.r.random() < .5)
    def g_super(self, d): return Super(self.mk())
    # macros and includes do not use what surrounds their use
    def macro(self, name, d=2):
        save = (self.scopes, self.loops, self.free, self.names, self.macros, self.includes)
        args = self.r.sample(['ms1', 'ms2', 'mi1', 'mi2'], self.r.randint(0, 3))
        self.scopes = [{a: 'str' if a.startswith('ms') else 'int' for a in args}]; self.loops = 0; self.free = False; self.names = ['m_x', 'm_y', 'm_z']; self.includes = []
        b = self.nodes(d, self.r.randint(1, 3)); (self.scopes, self.loops, self.free, self.names, self.macros, self.includes) = save
        return Macro(name, args, b, self.mk(), self.mk())
    def include_file(self, d=2):
        save = (self.scopes, self.loops, self.free, self.names, self.macros, self.includes)
        self.scopes = [{}]; self.loops = 0; self.free = False; self.names = ['n_x', 'n_y', 's', 'i']; self.macros = []; self.includes = []
        # names that a surrounding template may define are not read before this file defines them
        b = self.nodes(d, self.r.randint(1, 4)); (self.scopes, self.loops, self.free, self.names, self.macros, self.includes) = save
        return b
def splitlit(nodes):
    """an opening brace must not come to stand next to a tag"""
    o = []
    for n in nodes: n.emit(o)
    for k, it in enumerate(o):
        if it[0] == 'text' and (k + 1 < len(o)) and it[1].s.endswith('{'): it[1].s += '.'
    return nodes
def render(nodes, vals, escape, blocks=None):
    env = Env(vals, escape, None); env.blocks = blocks
    out = []
    try:
        for n in nodes: n.run(env, out)
    except RecursionError: raise Discard('deep')
    return ''.join(out)

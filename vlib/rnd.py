"""The random template campaigns of the properties about rendering; each turns its own dial."""
import random
from . import common, tcomp, tmpl
from .tmpl import *

PLAIN = ['a', 'b', 'x y', 'é', ',']
def strs(*xs):
    def f(r):
        v = tmpl.values(r)
        for n, t in tmpl.FIELDS.items():
            if t == 'str': v[n] = r.choice(xs)
            if t == 'strs': v[n] = [r.choice(xs) for _ in range(r.choice([0, 1, 2, 3]))]
        return v
    return f
def count(tier, q): return q if tier != 'thorough' else q * 8
def result(parts):
    fails = []; cov = {}
    for name, (f, c) in parts.items(): fails += f; cov[name] = c
    return {'failures': fails, 'coverage': cov, 'errors': []}

def filt_safe(g, r):
    # the result of a filter block counts as marked safe here (C26 looks at the rest)
    old = g.g_filter
    def f(d):
        n = old(d)
        if 'safe' not in n.filters: n.filters.append('safe')
        return n
    g.g_filter = f

def c02(tier):
    n = count(tier, 700); m = tcomp.manifest('C02')
    cs = tcomp.random_cases('c02', n, {'nodes': {'text': 2, 'out': 8, 'if': 1.5, 'match': 1, 'for': 1.5, 'call': 2, 'include': 1, 'filter': .7}, 'safe': .2, 'escape': .25, 'wraps': .2},
        PLAIN, size=(2, 6), includes=(0, 1, 1), per=3, tweak=filt_safe, mdir=m, vals=strs('<', '&amp;', '"q"', "it's", 'a>b', 'plain', '<b>&</b>'))
    cs += inherited('c02i', count(tier, 150), {'nodes': {'text': 1, 'out': 6, 'if': 1, 'for': 1, 'block': 2, 'super': 1}, 'safe': .2, 'escape': .25, 'wraps': .2}, PLAIN, m, vals=strs('<', '&amp;', "it's", 'plain'))
    return result({'random templates': tcomp.campaign('C02', cs, m), 'forms of expressions': tcomp.campaign('C02', grid(tier), m, tag='g')})

X = '<&>"\'é'      # what the places of GRID hold
GRID = [('s', X), ('self.s', X), ('(s)', X), ('((self.s))', X), ('self.sh(s)', X), ('self.sh(self.s)', X), ('t.sh(s)', X), ('self.o.sh(s)', X), ('o.sh(s)', X), ('sub.x', X), ('sub.f(s)', X), ('sub.deep.x', X), ('sub.deep.f("<")', '<'), ('pair.0', X), ('pair.1.0', X), ('arr[1]', X), ('[s, s][0]', X), ('[1, 2][0]', '1'),
    ('self.ok(s)?', X), ('(self.ok(s)?)', X), ('"<&"', '<&'), ("'<'", '<'), ('("<&")', '<&'), ('s|cat("")', X), ('s|as_ref', X), ('self::sh(s)', X), ('format!("{}<", self.s)', X + '<'), ('f(s)', X), ('self.f(s)', X), ('g.0(s)', X), ('maps["<"]', X), ('self::LT', '<b>'), ('b"a<"[0]', '97'),
    ('-n', '-3'), ('!n', '-4'), ('n + 1', '4'), ('1 == 1', 'true'), ('n == 3 && true', 'true'), ('(n, 1).0', '3'), ('(s, 1).0', X), ('("<", s).1', X), ('n', '3'), ('q', X), ('q.sh(s)', X), ('h.q', X), ('s[0..1]', '<'), ('(s)[..2]', '<&'), ('*n', '3'), ('x1', '<'), ('s.chars().count()', '6'), ('Tag("<")', '[<]'), ('Tag("<").0', '<'),
    ('arr|join("<")', '<' + X), ('[s, "&"]|join("")', X + '&'), ('(arr|join(""))', X), ('s|upper', X.upper()), ('s|trim', X), ('s|lower|trim', X), ('"<{}>"|format(s)', '<' + X + '>'), ('s|fmt("{}<")', X + '<'), ('s|truncate(2)', '<&...'), ('s|wordcount', '1'), ('s|center(8)', ' ' + X + ' '), ('arr|join("")|upper', X.upper())]
GRID = [g for g in GRID if g[0] not in ('t.sh(s)', 'self.o.sh(s)', 'o.sh(s)', 'b"a<"[0]', 'g.0(s)', '*n', 'h.q', 'x1', 'q', 'q.sh(s)', 'f(s)', 'self.f(s)')]
def grid(tier):
    """every form of expression: escaped once, or verbatim if it is marked, alone and repeated, in many places"""
    cs = []
    D = '''pub struct T { s: &'static str, sub: Sub, pair: (&'static str, (&'static str, u8)), arr: [&'static str; 2], n: i32, maps: std::collections::HashMap<&'static str, &'static str> }
pub struct Deep { pub x: &'static str } impl Deep { pub fn f(&self, a: &str) -> String { a.into() } }
pub struct Sub { pub x: &'static str, pub deep: Deep } impl Sub { pub fn f(&self, a: &str) -> String { a.into() } }
pub struct Tag(pub &'static str); impl std::fmt::Display for Tag { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "[{}]", self.0) } }
pub const LT: &str = "<b>";
pub fn sh(a: impl std::fmt::Display) -> String { a.to_string() }
pub mod filters { pub use rtd::filters::cat; }
impl T { fn sh(&self, a: impl std::fmt::Display) -> String { a.to_string() } fn ok(&self, a: &str) -> Result<String, rtd::Oops> { Ok(a.into()) } }'''
    x = tcomp.rust_str(X)
    val = f'T {{ s: {x}, sub: Sub {{ x: {x}, deep: Deep {{ x: {x} }} }}, pair: ({x}, ({x}, 1)), arr: ["", {x}], n: 3, maps: [("<", {x})].into_iter().collect() }}'
    val = val.replace(f'arr: ["", {x}]', f'arr: [{tcomp.rust_str("")}, {x}]')
    PL = [('%s', 1), ('%s%s', 2), ('%s.%s', 2), ('{%% if true %%}%s{%% endif %%}%s', 2), ('{%% for z in 0..2 %%}%s{%% endfor %%}', 2), ('{%% match n %%}{%% when 3 %%}%s{%% else %%}{%% endmatch %%}', 1), ('{%% block a %%}%s{%% endblock %%}', 1), ('{%% macro m() %%}%s{%% endmacro %%}{%% call m() %%}', 1), ('{%% let z = 1 %%}%s', 1),
          ('{%% if let Some(z) = Some(1) %%}%s{%% endif %%}', 1), ('{%% for z in 0..0 %%}{%% else %%}%s{%% endfor %%}', 1), ('{%% filter cat("") %%}%s{%% endfilter %%}', -1), ('{%% filter safe %%}%s{%% endfilter %%}', 1)]
    from . import common
    for i, (e, v) in enumerate(GRID):
        for ext, esc in (('html', html), ('txt', lambda t: t)):
            r = common.rng(f'grid:{i}:{ext}')
            for mark, f in (('', esc), ('|safe', lambda t: t), ('|escape', esc), ('|e', esc), ('|escape("html")', html), ('|e("none")', lambda t: t)):
                if mark and r.random() < .4: continue
                for pl, k in ([PL[0], PL[1]] if not mark else [PL[0]]) + [r.choice(PL[2:])]:
                    o = f'{{{{ {e if not mark or "?" not in e[-1:] else "(" + e + ")"}{mark} }}}}' if not mark else f'{{{{ ({e}){mark} }}}}'
                    src = pl.replace('%%', '%').replace('%s', o) ; out = '.'.join([f(v)] * 2) if pl == '%s.%s' else (esc(f(v)) if k < 0 else f(v) * k)
                    c = tcomp.Case(f'#[derive(Template)] #[template(source = {tcomp.rust_str(src)}, ext = "{ext}")] {D}\npub fn run() -> Vec<Result<String, String>> {{ vec![r({val})] }}', [('ok', out)], {'source': src, 'ext': ext, 'values': f'texts are {X}'})
                    cs.append(c)
    return cs

def c03(tier):
    n = count(tier, 900); m = tcomp.manifest('C03')
    ws = [' ', '\n', '\t', '  ', ' \n ', '\r\n', 'a', 'b', '.', ' c ']
    w = {'nodes': {'text': 9, 'out': 4, 'if': 2, 'match': 1.5, 'for': 2, 'call': 1, 'include': 1, 'filter': .8, 'comment': 2, 'raw': 1.5, 'let': 1, 'jump': .3}, 'safe': 0, 'escape': 0}
    cs = tcomp.random_cases('c03', n, w, ws, ('', '', '-', '+', '~'), size=(2, 6), default=lambda r: r.choice('+-~p'), per=1, mdir=m, esc=False, vals=strs('v', ' v ', '\n'))
    # default markers of the configuration
    cs += inherited('c03i', count(tier, 150), {'nodes': {'text': 6, 'out': 2, 'if': 1, 'block': 3, 'super': 1.5, 'comment': 1}, 'safe': 0, 'escape': 0}, ws, m, ws=('', '', '-', '+', '~'), default=lambda r: r.choice('+-~'), vals=strs('v', ' v '))
    return result({'random templates': tcomp.campaign('C03', cs, m)})

ODD = ['a', '{', '}', '%', '#', '{ {', '}}', '%}', '#}', '"', '\\', '\\n', "'", '\x00', '\x07', '\x1b', '\x7f', '\u00a0', '\u2028', 'é', 'ß', '🦀', '\u0301', '\ufeff', '\t', ' ', '\n', '\r', '\x0b', '\x0c', '&', '<', '>', '$', '`', 'r#"', '"#', '{}', '{0}', '//', '/*']
def c04(tier):
    n = count(tier, 500); m = tcomp.manifest('C04')
    cs = tcomp.random_cases('c04', n, {'nodes': {'text': 9, 'out': 1, 'if': 1, 'for': .7, 'comment': 2, 'raw': 3, 'match': .4}, 'safe': 0, 'escape': 0}, ODD, size=(1, 6), per=1, mdir=m, vals=strs('v'))
    # whole files: one final newline is dropped
    for i in range(count(tier, 160)):
        from . import common
        r = common.rng(f'c04f:{i}')
        t = tmpl.plain(''.join(r.choice(ODD) for _ in range(r.randint(0, 6))))
        if r.random() < .5: t += '.' + r.choice(['{{ s }}', '{# c #}', '{% if true %}x\n{% endif %}', '{% raw %}{{ a }}\n{% endraw %}']) 
        t += r.choice(['', '\n', '\n\n', '\r\n', '\n\r', ' \n', '\n ', '\n\n\n'])
        # the file may end in a brace; nothing follows it
        p = f'f{i}.html'; tcomp.put(m, {p: t})
        e = t[:-1] if t.endswith('\n') else t
        for a, b in (('{{ s }}', 'v'), ('{# c #}', ''), ('{% if true %}x\n{% endif %}', 'x\n'), ('{% raw %}{{ a }}\n{% endraw %}', '{{ a }}\n')): e = e.replace(a, b)
        v = strs('v')(r)
        cs.append(tcomp.template(None, [v], 'html', [('ok', e)], path=p, shown={'file': p, 'content': t}))
    return result({'random templates and files': tcomp.campaign('C04', cs, m)})

def c12(tier):
    n = count(tier, 700); m = tcomp.manifest('C12')
    def tw(g, r):
        g.cycle = True
    cs = tcomp.random_cases('c12', n, {'nodes': {'text': 2, 'out': 5, 'for': 6, 'if': 1.2, 'jump': 2, 'let': .5}, 'safe': 0, 'escape': 0}, PLAIN, size=(1, 3), per=3, mdir=m, esc=False, tweak=tw, vals=strs('u', 'v'))
    return result({'random templates': tcomp.campaign('C12', cs, m), 'iterators': tcomp.campaign('C12', iterators(tier), m, tag='i')})

ITERS = [   # what is iterated over, its items, and how to write an item
    ('xs', None, '{{ x }}'), ('xs.iter()', None, '{{ x }}'), ('self.odd_hint()', None, '{{ x }}'), ('self.no_hint()', None, '{{ x }}'), ('self.stuttering()', None, '{{ x }}'), ('xs.iter().rev()', 'rev', '{{ x }}'),
    ('xs.iter().chain(xs.iter())', 'twice', '{{ x }}'), ('xs[1..]', 'tail', '{{ x }}'), ('once', None, '{{ x }}'), ('set.iter()', 'set', '{{ x }}')]
def iterators(tier):
    """every kind of iterator, with every selection of its items, and jumps"""
    from . import common
    D = '''pub struct T { xs: Vec<u8>, text: String, set: std::collections::BTreeSet<u8>, once: Vec<u8> }
pub struct Hint(std::vec::IntoIter<u8>, (usize, Option<usize>));
impl Iterator for Hint { type Item = u8; fn next(&mut self) -> Option<u8> { self.0.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.1 } }
pub struct Stutter(std::vec::IntoIter<u8>, bool);
impl Iterator for Stutter { type Item = u8; fn next(&mut self) -> Option<u8> { if self.1 { return Some(99) } let r = self.0.next(); if r.is_none() { self.1 = true; } r } }
impl T { fn has(&self, s: &str, x: impl std::fmt::Display) -> bool { s.contains(&x.to_string()) } fn odd_hint(&self) -> Hint { Hint(self.xs.clone().into_iter(), (0, Some(self.xs.len() + 3))) } fn no_hint(&self) -> Hint { Hint(self.xs.clone().into_iter(), (0, None)) }
  fn stuttering(&self) -> Stutter { Stutter(self.xs.clone().into_iter(), false) } }'''
    def xs_of(k, xs): return {None: xs, 'rev': xs[::-1], 'twice': xs + xs, 'tail': xs[1:], 'set': sorted(set(xs))}[k]
    cs = []
    for i in range(count(tier, 260)):
        r = common.rng(f'c12i:{i}'); src = ''; outs = None
        vals = [[r.randint(0, 5) for _ in range(r.choice([1, 2, 3, 4, 5]))] for _ in range(3)]
        it, how, x = r.choice(ITERS)
        sel = ''.join(c for c in '012345' if r.random() < r.choice([.3, .7])) if r.random() < .7 else None
        jump = r.choice([None, None, 'break', 'continue']); jx = r.choice('012345') if jump else None; jp = r.random() < .5
        els = r.random() < .5; inner = r.choice([None, None, 'for', 'cond', 'else', 'jump']); cyc = [r.randint(0, 9) for _ in range(r.randint(1, 3))]
        marks = '{{ loop.index }}.{{ loop.index0 }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %}{{ loop.cycle([' + ', '.join(map(str, cyc)) + ']) }}'
        cond = f' if self.has("{sel}", x)' if sel is not None else ''
        j = f'{{% if self.has("{jx}", x) %}}{{% {jump} %}}{{% endif %}}' if jump else ''
        IN = {None: '', 'for': '({% for y in 0..2 %}{{ loop.index }}{{ y }}{% endfor %})', 'cond': '({% for y in 0..4 if *y != 3 %}{{ loop.index0 }}{% if loop.last %}l{% endif %}{% endfor %})', 'else': '({% for y in 0..0 %}{% else %}{{ loop.index }}{% endfor %})',
              'jump': '({% for y in 0..4 %}{% if *y == 2 %}{% break %}{% endif %}{{ loop.index }}{% endfor %})'}
        if inner in ('cond', 'jump'): IN[inner] = IN[inner].replace('*y', 'self.id(y)')
        src = f'<{{% for x in {it}{cond} %}}{j if jp else ""}{x}:{IN[inner]}{marks}{"" if jp else j};' + ('{% else %}none' if els else '') + '{% endfor %}>'
        exp = []
        for v in vals:
            t = [q for q in xs_of(how, v) if sel is None or str(q) in sel]; o = '<'
            for k, q in enumerate(t):
                hit = jump and str(q) == jx
                if hit and jp:
                    if jump == 'break': break
                    continue
                ins = {None: '', 'for': '(1021)', 'cond': '(012l)' , 'else': f'({k + 1})', 'jump': '(12)'}[inner]
                o += f'{q}:{ins}{k + 1}.{k}' + ('F' if k == 0 else '') + ('L' if k == len(t) - 1 else '') + str(cyc[k % len(cyc)])
                if hit:
                    if jump == 'break': break
                    continue
                o += ';'
            if not t and els: o += 'none'
            exp.append(('ok', o + '>'))
        D2 = D.replace('impl T {', 'impl T { fn id(&self, x: impl std::fmt::Display) -> i32 { x.to_string().parse().unwrap() }')
        new = ', '.join(f'r(T {{ xs: vec!{v}, text: String::new(), set: vec!{v}.into_iter().collect(), once: vec!{v} }})' for v in vals)
        cs.append(tcomp.Case(f'#[derive(Template)] #[template(source = {tcomp.rust_str(src)}, ext = "txt")] {D2}\npub fn run() -> Vec<Result<String, String>> {{ vec![{new}] }}', exp, {'source': src, 'values': repr(vals)}))
    return cs

def in_order(tag, n):
    """sequences of statements and outputs with calls that count: each is evaluated where it stands"""
    cs = []
    v = {k: (1 if isinstance(x, int) and not isinstance(x, bool) else x) for k, x in tmpl.values(random.Random(1)).items()}
    for i in range(n):
        r = common.rng(f'{tag}:{i}'); c = 0; src = ''; out = ''; nv = 0; decl = []
        def t():
            nonlocal c
            c += 1; return c
        def step(depth):
            nonlocal src, out, nv
            k = r.choice(['out'] * 4 + ['let', 'decl', 'assign', 'if', 'for', 'match', 'call', 'filter', 'arr', 'text'])
            if k == 'out': src += '{{ self.tick() }}'; out += str(t())
            elif k == 'text': src += '.'; out += '.'
            elif k == 'arr': src += '{{ [self.tick(), self.tick()][1] }}'; t(); out += str(t())
            elif k == 'let': nv += 1; src += f'{{% let v{nv} = self.tick() %}}'; x = t(); src += f'{{{{ self.tick() }}}}-{{{{ v{nv} }}}}'; out += f'{t()}-{x}'
            elif k == 'decl' and depth == 0: nv += 1; decl.append(f'v{nv}'); src += f'{{% let v{nv} %}}'
            elif k == 'assign' and depth == 0 and decl: x = decl.pop(); src += f'{{{{ self.tick() }}}}{{% let {x} = self.tick() %}}{{{{ {x} }}}}'; out += str(t()) + str(t())
            elif k == 'if' and depth < 2:
                x = t(); src += f'{{% if self.tick() == {x} %}}'; step(depth + 1); src += '{% else %}{{ self.tick() }}{% endif %}'
            elif k == 'for' and depth < 2: src += '{% for q in 0..(self.n(self.tick()) - ' + f'{t() - 1}' + ') %}'; step(depth + 1); src += '{% endfor %}'
            elif k == 'match' and depth < 2: x = t(); src += f'{{% match self.tick() %}}{{% when {x} %}}'; step(depth + 1); src += '{% when _ %}{{ self.tick() }}{% endmatch %}'
            elif k == 'call': src += '{% call cc(self.tick()) %}'; x = t(); y = t(); out += f'({y},{x},{x})'
            elif k == 'filter' and depth < 2: src += '{% filter upper %}'; step(depth + 1); src += '{{ self.tick() }}{% endfilter %}'; out += str(t())
        for _ in range(r.randint(3, 8)): step(0)
        while decl: nv += 1; x = decl.pop(); src += f'{{{{ self.tick() }}}}{{% let {x} = self.tick() %}}{{{{ {x} }}}}'; out += str(t()) + str(t())
        src = '{% macro cc(y) %}({{ self.tick() }},{{ y }},{{ y }}){% endmacro %}' + src
        cs.append(tcomp.template(src, [v], 'txt', [('ok', out)]))
    return cs

def c18(tier):
    n = count(tier, 700); m = tcomp.manifest('C18')
    def tw(g, r): g.ticky = True
    cs = tcomp.random_cases('c18', n, {'nodes': {'text': 3, 'out': 9, 'for': 1.5, 'if': 1.5, 'match': .7, 'call': 1.5, 'include': .7, 'filter': .7, 'let': .5}, 'safe': .1, 'escape': .1, 'tick': .35}, PLAIN, size=(2, 7), per=2, mdir=m, tweak=tw, vals=strs('u', '<v>'))
    return result({'random templates': tcomp.campaign('C18', cs, m), 'order of evaluation': tcomp.campaign('C18', in_order('c18o', count(tier, 250)), m, tag='o'), 'each form twice': tcomp.campaign('C18', twice(), m, tag='t')})

def twice():
    """each form of an expression that must be evaluated anew, several times in one template"""
    from . import common
    cs = []; v = tmpl.values(random.Random(1)); v = {k: (1 if isinstance(x, int) and not isinstance(x, bool) else x) for k, x in v.items()}
    for i, (src, typ, f) in enumerate(tmpl.TICKS):
        o = '{{ ' + src + ' }}'
        g = lambda n: show(f(n))
        for k, (t, out) in enumerate([(o + o, g(1) + g(2)), (o + '.' + o + '{% if true %}' + o + '{% endif %}' + o, g(1) + '.' + g(2) + g(3) + g(4)), ('{% for z in 0..2 %}' + o + o + '{% endfor %}', g(1) + g(2) + g(3) + g(4)),
                                      ('{{ s }}' + o + '{{ s }}' + o, v['s'] + g(1) + v['s'] + g(2))]):
            cs.append(tcomp.template(t, [v], 'txt', [('ok', out)]))
    return cs

def macro_args():
    """arguments are expressions of the caller, whatever the parameters are called"""
    cs = []
    D = 'struct T { a: u32, b: u32, c: u32 }'
    val = {'9': 9, 'a': 1, 'b': 2, 'c': 3, 'a + 0': 1, 'b + 0': 2, 'l': 5, 'self.a': 1, 'self.b': 2, 'l + 1': 6, 'z': 1}
    def add(src, out):
        cs.append(tcomp.Case(f'#[derive(Template)] #[template(source = {tcomp.rust_str(src)}, ext = "txt")] {D}\npub fn run() -> Vec<Result<String, String>> {{ vec![r(T {{ a: 1, b: 2, c: 3 }})] }}', [('ok', out)], {'source': src, 'values': 'a: 1, b: 2, c: 3'}))
    M = '{% macro m(a, b) %}{{ a }},{{ b }};{{ a }}{% endmacro %}{% let l = 5 %}{% let z = a %}'
    for x in val:
        for y in val:
            o = f'{val[x]},{val[y]};{val[x]}'
            add(M + f'{{% call m({x}, {y}) %}}', o)
            if (len(x) + len(y)) % 2: add(M + f'{{% call m(b={y}, a={x}) %}}{{{{ a }}}}{{{{ b }}}}', o + '12')
    add('{% macro m(a, b) %}{% call n(b, a) %}{% endmacro %}{% macro n(a, b) %}{{ a }}{{ b }}{% endmacro %}{% call m(1, 2) %}', '21')
    add('{% macro m(a, b) %}{% call n(b + 0, a + 0) %}{{ a }}{% endmacro %}{% macro n(a, b) %}{{ a }}{{ b }}{% endmacro %}{% call m(1, 2) %}', '211')
    add('{% macro m(x, b) %}{% for a in x..b %}{% call n(a, loop.index) %}{% endfor %}{% endmacro %}{% macro n(b, a) %}{{ a }}{{ b }}.{% endmacro %}{% call m(5, 7) %}', '15.26.')
    return cs

def c19(tier):
    n = count(tier, 900); m = tcomp.manifest('C19')
    cs = tcomp.random_cases('c19', n, {'nodes': {'text': 1, 'out': 6, 'let': 5, 'for': 2, 'if': 2, 'match': 1, 'call': 1, 'include': 1, 'filter': .7}, 'safe': 0, 'escape': 0}, PLAIN, size=(2, 7), per=2, mdir=m, esc=False, includes=(0, 1), tweak=filt_safe, vals=strs('1', '2', '3', 'w'))
    cs += inherited('c19i', count(tier, 150), {'nodes': {'text': 1, 'out': 5, 'let': 4, 'for': 1, 'if': 1, 'block': 2, 'super': 1.5}, 'safe': 0, 'escape': 0}, PLAIN, m, esc=False, vals=strs('1', '2', 'w'))
    # the recorded finding: an argument of a macro that is a variable stays bound to its name
    v = {n: (0 if isinstance(x, int) and not isinstance(x, bool) else x) for n, x in tmpl.values(random.Random(1)).items()}
    for src, exp, key in (('{% macro m(y) %}{% let x = 5 %}{{ y }}{% endmacro %}{% let x = 1 %}{% call m(x) %}', '1', 'macro-argument'),
                          ('{% macro m(y) %}{% for q in 0..2 %}{{ y }}{% endfor %}{% endmacro %}{% for w in 5..7 %}{% call m(loop.index) %},{% endfor %}', '11,22,', 'macro-argument-loop'),
                          ('{% macro m(a, b) %}{{ a }}{{ b }}{% endmacro %}{% let a = 4 %}{% call m(2, a) %}', '24', 'macro-argument-parameter')):
        cs.append(tcomp.template(src, [v], 'txt', [('ok', exp)], key=key))
    return result({'random templates': tcomp.campaign('C19', cs, m), 'macro arguments': tcomp.campaign('C19', macro_args(), m, tag='m')})

def c26(tier):
    n = count(tier, 700); m = tcomp.manifest('C26')
    cs = tcomp.random_cases('c26', n, {'nodes': {'text': 4, 'out': 4, 'filter': 5, 'for': 1.5, 'if': 1.5, 'match': .5, 'call': 1, 'include': .7, 'let': .4}, 'safe': .1, 'escape': .1, 'filter_args': .5}, PLAIN + ['<', 'Ab', '\n'], size=(1, 5), per=2, mdir=m, vals=strs('u', '<v>', 'Ab c', ' sp '))
    return result({'random templates': tcomp.campaign('C26', cs, m)})

def c25(tier):
    n = count(tier, 500); m = tcomp.manifest('C25')
    cs = tcomp.random_cases('c25', n, {'nodes': {'text': 2, 'out': 4, 'if': 5, 'match': 4, 'let': .5}, 'safe': 0, 'escape': 0}, PLAIN, size=(1, 5), per=4, mdir=m, esc=False)
    return result({'random conditions and matches': tcomp.campaign('C25', cs, m), 'expressions against rustc': tcomp.campaign('C25', exprs(tier), m, tag='e')})

def c20(tier):
    m = tcomp.manifest('C20')
    cs = inherited('c20', count(tier, 600), {'nodes': {'text': 4, 'out': 4, 'if': 1.2, 'for': 1, 'match': 1.2, 'block': 4, 'super': 2.5}, 'safe': 0, 'escape': 0}, PLAIN, m, esc=False, vals=strs('u', 'v'))
    # the recorded findings: the conditions around a block in a discarded block are lost; super() that reaches its own block again
    v = tmpl.values(random.Random(1))
    cs.append(tcomp.template('{% block a %}{% if false %}{% block b %}b{% endblock %}{% endif %}{% endblock %}', [v], 'txt', [('ok', '')], 'block = "b"', key='conditional-fragment'))
    tcomp.put(m, {'rec0.txt': '{% block a %}{% block b %}0{% endblock %}{% endblock %}', 'rec1.txt': '{% extends "rec0.txt" %}{% block b %}{% block a %}{% call super() %}{% endblock %}{% endblock %}'})
    rec = tcomp.template(None, [v], 'txt', None, path='rec1.txt', key='recursive-expansion'); rec.says = ()
    return result({'random inheritance chains': tcomp.campaign('C20', cs, m), 'recursive': tcomp.campaign('C20', [rec], m, tag='r')})

def inherited(tag, n, weights, texts, m, ws=('',), default='+', esc=None, vals=None, depth=2):
    """chains of templates; the most derived one is compiled, or one block of it is rendered alone"""
    from . import common
    cs = []
    for i in range(n):
        r = common.rng(f'{tag}:{i}'); levels = r.choice([1, 2, 2, 3, 4]); d = default(r) if callable(default) else default
        e = r.random() < .7 if esc is None else esc; ext = 'html' if e else 'txt'
        names = ['b1', 'b2', 'b3', 'b4'][:r.randint(1, 4)]; defs = {b: [] for b in names}   # root first here
        files = {}; trees = []; known = set()
        for lv in range(levels):
            g = tmpl.Gen(r, weights, texts, ws, depth)
            pool = [b for b in names if lv == 0 or b in known]
            g.block_names = [b for b in pool if r.random() < (.8 if lv == 0 else .7)]; r.shuffle(g.block_names)
            mine = list(g.block_names); g.super_ok = False
            if lv: g.super_ok = 'block'
            g.known = set(known); g.all_defs = defs
            nodes = []
            if lv:
                # whatever stands outside of the blocks of a derived template has no effect
                for b in list(g.block_names):
                    if b not in g.block_names: continue
                    if r.random() < .4: nodes.append(g.text())
                    if r.random() < .3: nodes.append(tmpl.Out(g.shown(), g.mk()))
                    g.block_names.remove(b); g.block_names.append(b)
                    nodes.append(g.g_block(depth))
                if r.random() < .3: nodes.append(g.text())
                if r.random() < .3: nodes.append(tmpl.Comment('x', g.mk()))
                merged = []
                for x in nodes:
                    if isinstance(x, tmpl.Text) and merged and isinstance(merged[-1], tmpl.Text): continue
                    merged.append(x)
                nodes = merged
            else:
                nodes = g.nodes(depth, r.randint(1, 3))
                while g.block_names and r.random() < .8: nodes += [g.g_block(depth)] + ([g.text()] if r.random() < .5 else [])
                merged = []
                for x in nodes:
                    if isinstance(x, tmpl.Text) and merged and isinstance(merged[-1], tmpl.Text): continue
                    merged.append(x)
                nodes = merged
            for x in tmpl.walk(nodes):
                if isinstance(x, tmpl.Block): defs[x.name].append((lv, x)); known.add(x.name)
            if lv: nodes = [tmpl.Tag(f'extends "{tag}_{i}_{lv-1}.{ext}"', ('', ''))] + nodes
            tmpl.splitlit(nodes); trees.append(nodes)
            files[f'{tag}_{i}_{lv}.{ext}'] = tmpl.source(nodes, d, file=True)
        blocks = {b: [x for lv, x in sorted(ds, key=lambda y: -y[0])] for b, ds in defs.items() if ds}
        # finding C20 recursive-expansion: a block reached again through super() has no finite expansion
        def expand(nodes, cur, seen):
            for x in tmpl.walk(nodes):
                nxt = (x.name, 0) if isinstance(x, tmpl.Block) else ((cur[0], cur[1] + 1) if isinstance(x, tmpl.Super) and cur else None)
                if nxt:
                    if nxt in seen or nxt[1] >= len(blocks[nxt[0]]): return False
                    if not expand(blocks[nxt[0]][nxt[1]].body, nxt, seen | {nxt}): return False
            return True
        if not expand(trees[0], None, frozenset()): continue
        top = f'{tag}_{i}_{levels-1}.{ext}'
        vs = []; exp = []; alone = r.choice([None, None, *blocks]) if blocks else None
        # finding C20 conditional-fragment: the conditions around a block within another block are lost
        if any(isinstance(y, (tmpl.Block, tmpl.Super)) for ds in blocks.values() for x in ds for c in tmpl.walk(x.body) if isinstance(c, (tmpl.If, tmpl.For, tmpl.Match)) for y in tmpl.walk([c])): alone = None
        for _ in range(2):
            v = (vals or tmpl.values)(r)
            try:
                if alone:
                    env = tmpl.Env(v, e, None); env.blocks = blocks; o = []; [x.run(env, tmpl.Sink(alone, o)) for x in trees[0]]; t = ''.join(o)
                else: t = tmpl.render(trees[0], v, e, blocks)
                exp.append(('ok', t)); vs.append(v)
            except (tmpl.Discard, RecursionError): pass
        if not vs: continue
        tcomp.put(m, files); a = []
        if d != '+': a.append('whitespace = ' + tmpl.rust_str({'-': 'suppress', '~': 'minimize', 'p': 'preserve'}[d]))
        if alone: a.append(f'block = "{alone}"')
        cs.append(tcomp.template(None, vs, ext, exp, ', '.join(a), path=top, shown={'files': files, 'template': top, 'attributes': a, 'values': vs}))
    return cs
def exprs(tier):
    from . import exprs as x
    return x.cases("c25x", count(tier, 500)) + x.patterns("c25p", count(tier, 300)) + x.macro_calls("c25m", count(tier, 120))

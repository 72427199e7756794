"""Companion campaigns of the properties about compiling templates: settings, files, names, literals, entry points."""
import itertools, os
from . import tcomp, tmpl, common
from .tcomp import Case, template
from .batch import rust_str
from .rnd import strs, count, result, PLAIN

# ---------------------------------------------------------------------------------------------- C13
FAIL_DECL = '''pub struct T { pub b: rtd::Bad, pub g: rtd::Chunks, pub s: &'static str, pub n: i32, pub l: Vec<i32> }
impl T { pub fn fail(&self) -> Result<i32, rtd::Oops> { Err(rtd::Oops) } pub fn good(&self) -> Result<i32, rtd::Oops> { Ok(7) } pub fn at(&self, k: &i32) -> Result<i32, rtd::Oops> { if *k == 2 { Err(rtd::Oops) } else { Ok(*k) } } }
pub mod filters { pub fn boom(_: impl std::fmt::Display) -> askama::Result<String> { Err(askama::Error::Fmt(std::fmt::Error)) }
pub fn custom(_: impl std::fmt::Display) -> askama::Result<String> { Err(askama::Error::Custom(Box::new(rtd::Oops))) }
pub fn same(s: impl std::fmt::Display) -> askama::Result<String> { Ok(s.to_string()) } }'''
FAIL_VAL = 'T { b: rtd::Bad("part"), g: rtd::Chunks(&["x", "<", "", "yz&"]), s: "<s>", n: 3, l: vec![1, 2, 3] }'
# (source, rendered text or None for an error)
FAILING = [('{{ b }}', None), ('text {{ b }} more', None), ('{{ b|safe }}', None), ('{{ g }}{{ b }}', None), ('{{ self.fail()? }}', None), ('a{{ self.good()? }}b', 'a7b'),
    ('{{ s|boom }}', None), ('a{{ s|custom }}', None), ('{{ s|same|boom }}', None), ('{% if n == 3 %}{{ b }}{% endif %}', None), ('{% if n == 4 %}{{ b }}{% endif %}ok', 'ok'),
    ('{% for i in l %}{{ i }}{{ self.at(i)? }}{% endfor %}', None), ('{% for i in l %}{% if i|same == \"5\" %}{{ b }}{% endif %}.{% endfor %}', '...'),
    ('{% filter upper %}a{{ b }}{% endfilter %}', None), ('{% filter boom %}a{% endfilter %}', None), ('{% filter upper %}{% filter boom %}a{% endfilter %}{% endfilter %}', None),
    ('{% filter upper %}{% for i in l %}{{ self.at(i)? }}{% endfor %}{% endfilter %}', None), ('{% macro m(x) %}{{ x }}{{ b }}{% endmacro %}a{% call m(1) %}', None), ('{% block k %}{{ b }}{% endblock %}', None),
    ('{% match n %}{% when 3 %}{{ b }}{% when _ %}{% endmatch %}', None), ('{% let x = self.fail()? %}{{ n }}', None), ('{{ g }}', 'x&lt;yz&amp;'), ('{{ g|safe }}{{ s }}', 'x<yz&&lt;s&gt;'),
    ('{% for i in l[3..] %}{% else %}{{ b }}{% endfor %}', None), ('{{ l|join(b) }}', None), ('{{ [b, b]|join(", ") }}', None), ('{{ b|indent(2) }}{{ s }}', 'PANIC'), ('{{ loop_ }}', 'X'), ('', ''), ('\n', '\n'), ('é🦀{{ s }}', 'é🦀&lt;s&gt;')]
CUSTOM = r'''
/// writes pieces, then maybe fails; the estimate of its size is what it is
pub struct U<const H: usize>(pub &'static [&'static str], pub bool);
impl<const H: usize> askama::Template for U<H> {
    fn render_into(&self, w: &mut (impl std::fmt::Write + ?Sized)) -> askama::Result<()> { for s in self.0 { w.write_str(s)?; } if self.1 { return Err(askama::Error::Custom(Box::new(rtd::Oops))); } Ok(()) }
    const EXTENSION: Option<&'static str> = EXT; const SIZE_HINT: usize = H; const MIME_TYPE: &'static str = "text/x";
}
impl<const H: usize> std::fmt::Display for U<H> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.render_into(f).map_err(|_| std::fmt::Error) } }
'''
def c13(tier):
    n = count(tier, 250); m = tcomp.manifest('C13')
    cs = tcomp.random_cases('c13', n, {'nodes': {'text': 4, 'out': 5, 'if': 1, 'match': .7, 'for': 1.5, 'call': 1, 'include': .7, 'filter': .7, 'let': .5}, 'safe': .2, 'escape': .2, 'tick': .1}, PLAIN, per=2, mdir=m, vals=strs('u', '<v>', 'é', ''), run=lambda v: f'entry({tmpl.rust_struct(v)})')
    for src, e in FAILING:
        if e in ('PANIC', 'X'): continue
        where = f'source = {rust_str(src)}, ext = "html"'
        cs.append(Case(f'#[derive(Template)] #[template({where})]\n{FAIL_DECL}\npub fn run() -> Vec<Result<String, String>> {{ vec![entry({FAIL_VAL})] }}', [('ok', e) if e is not None else ('err', None)], {'source': src, 'value': FAIL_VAL}))
    for h in ('0', '1', '3', '1000', '(1 << 40)', 'usize::MAX'):
        for ps, bad in ((['a', 'b<'], False), ([], False), (['', 'é', ''], False), (['part'], True), ([], True)):
            for ext in ('None', 'Some("html")'):
                cs.append(Case(CUSTOM.replace('EXT;', ext + ';') + f'pub fn run() -> Vec<Result<String, String>> {{ vec![entry(U::<{{ {h} }}>(&[{", ".join(map(rust_str, ps))}], {"true" if bad else "false"}))] }}',
                    [('err', None)] if bad else [('ok', ''.join(ps))], {'template': 'written by hand', 'SIZE_HINT': h, 'pieces': ps, 'fails': bad}))
    return result({'templates through all entry points': tcomp.campaign('C13', cs, m)})

# ---------------------------------------------------------------------------------------------- C16
def compared(lit, key='literal', optional=False, pattern=True):
    """{{ lit }} must show what Rust shows; as argument and in a comparison it must be the same value"""
    src = f'{{{{ {lit} }}}}|{{{{ self.id({lit}) }}}}|{{% let x = {lit} %}}{{{{ x }}}}|{{% if {lit} == {lit} %}}y{{% else %}}n{{% endif %}}|{{% for _ in 0..1 %}}{{% if true %}}{{{{ self.id({lit}) }}}}{{% if x == {lit} %}}y{{% else %}}n{{% endif %}}{{{{ {lit} }}}}{{% endif %}}{{% endfor %}}'
    c = Case(f'#[derive(Template)] #[template(source = {rust_str(src)}, ext = "txt")]\npub struct T; impl T {{ fn id<A: std::fmt::Display>(&self, a: A) -> String {{ a.to_string() }} }}\n'
             f'pub fn run() -> Vec<Result<String, String>> {{ let v = {lit}; let w = format!("{{0}}|{{0}}|{{0}}|{{1}}|{{0}}{{1}}{{0}}", v, if v == v {{ "y" }} else {{ "n" }}); match r(T) {{ Ok(t) if t == w => vec![Ok("same".into())], o => vec![Ok(format!("{{o:?}} where Rust has {{w:?}}"))] }} }}',
             [('ok', 'same')], {'literal': lit, 'source': src}, key)
    c.optional = optional; return c
def matched(lit, ty, key='literal', optional=False):
    """the literal as a pattern fits exactly its own value"""
    src = f'{{% match v %}}{{% when {lit} %}}y{{% else %}}n{{% endmatch %}}{{% if true %}}{{% match v %}}{{% when {lit} %}}y{{% else %}}n{{% endmatch %}}{{% endif %}}'
    c = Case(f'#[derive(Template)] #[template(source = {rust_str(src)}, ext = "txt")]\npub struct T {{ v: {ty} }}\n'
             f'pub fn run() -> Vec<Result<String, String>> {{ vec![r(T {{ v: {lit} }})] }}', [('ok', 'yy')], {'pattern': lit, 'source': src}, key)
    c.optional = optional; return c
def refused(lit, says=(), key='accepted'):
    src = f'{{{{ {lit} }}}}'
    return Case(f'#[derive(Template)] #[template(source = {rust_str(src)}, ext = "txt")]\npub struct T;', None, {'source': src}, key, says)
def in_template(s):
    """the text of a string literal may not close the tag: it may in fact, the literal is read first"""
    return s
def c16(tier):
    r = common.rng('c16'); cs = []
    SUFI = ['', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize']
    for s in SUFI:
        for b in ('0', '7', '1_0', '100', '0b101', '0o17', '0x1F', '0xab', '0b_1', '0x_f_', '12__3_'): cs += [compared(b + s)] if (b, s) != ('0xab', 'i8') else []
        cs.append(matched('5' + s, s or 'i32')); cs.append(matched('0x1' + s, s or 'u8'))
    for b in ('1.0', '0.5', '1.25', '1e3', '1E3', '1e+3', '1e-3', '1.5e2', '12.5E-1', '1_0.2_5', '1_000.0', '3.0e0'):
        for s in ('', 'f32', 'f64', '_f32') : 
            cs.append(compared(b + s, optional=s == '_f32'))
    for s in ('1f32', '2f64', '1_f64', '00012', '1_', '0_', '127i8', '255u8', '18446744073709551615u64', '340282366920938463463374607431768211455u128', '-128i8', '-1', '-0', '- 1', '-1.5', '-1e3', '-0x1'): cs.append(compared(s, optional=s in ('- 1',)))
    for s in ('true', 'false'): cs += [compared(s), matched(s, 'bool')]
    esc = ['\\n', '\\t', '\\r', '\\0', '\\\\', '\\"', "\\'", '\\x41', '\\x7f', '\\u{e9}', '\\u{1F980}', '\\u{0}', '\\u{10FFFF}']
    plain = ['a', ' ', "'", 'é', '🦀', '{{', '}}', '%}', '#}', '{', '}', '{0}', '{:?}', '//', '/*', '|', '\t', '<', '&', '\u2028', 'r#', '\n', '\n  ', '\\\n   x']
    for x in esc + plain + ['']: cs += [compared('"' + x + '"'), matched('"' + x + '"', "&'static str")]
    for i in range(count(tier, 150)):
        s = '"' + ''.join(r.choice(esc + plain) for _ in range(r.randint(0, 6))) + '"'
        cs.append(compared(s)); cs.append(matched(s, "&'static str"))
    for x in esc + ['a', ' ', '"', 'é', '🦀', '{', '}', '%', '\u0301', '\u2028']: cs += [compared("'" + x + "'"), matched("'" + x + "'", 'char')]
    # texts over the alphabet of numbers: what is accepted has the value that Rust gives it
    al = ['0', '1', '7', '9', '_', 'b', 'o', 'x', 'e', 'E', '.', '-', '+', 'i32', 'u8', 'f64', 'f32', 'a', 'F', 'usize']
    for i in range(count(tier, 250)):
        s = r.choice('0179') + ''.join(r.choice(al) for _ in range(r.randint(1, 5)))
        cs.append(compared(s, optional=True))
    ch = ['a', 'é', '\\n', '\\', '\\x', '\\x4', '\\x41', '\\x80', '\\xfg', '\\u', '\\u{', '\\u{}', '\\u{41}', '\\u{110000}', '\\u{d800}', '\\u{1234567}', '\\q', '"', "\\'", ' ', '']
    for a in ch:
        c = compared("'" + a + "'", optional=True); cs.append(c)
        for b in ('a', '\\n', '}'): cs.append(compared("'" + a + b + "'", optional=True))
    for i in range(count(tier, 80)):
        s = ''.join(r.choice(['\\x', '\\u{', '}', '4', '1', 'f', 'e', '8', 'd', '\\', 'n', 'a', ' ', '\\q', '\\x9', '\\u']) for _ in range(r.randint(1, 5)))
        cs.append(compared('"' + s + '"', optional=True)); cs.append(compared("'" + s + "'", optional=True))
    for x, says in (("''", ['character']), ("'ab'", ['character']), ("'\\x80'", ['\\x00-\\x7f']), ("'\\u{110000}'", ['10ffff']), ("'\\q'", ['character']), ("'\\x4'", ['character']), ("'\\u{}'", ['character']), ("'\\u{1234567}'", ['character']),
            ("'\\xfg'", ['character']), ("'\\'", []), ("'a", []), ('"abc', []), ('"abc\\"', []), ('"\\q"', []), ('"\\x80"', []), ('"\\u{110000}"', []), ('1u7', []), ('0b2', []), ('0o8', []), ('0xg', []), ('0b', []), ('1e', []), ('1.0i32', []), ('256u8', []), ('0b1f32', [])): cs.append(refused(x, says))
    # texts that may be refused: whatever is accepted is a literal of Rust, which is then compared
    opt = [c for c in cs if c.optional]; cs = [c for c in cs if not c.optional]
    pro = [Case(f'#[derive(Template)] #[template(source = {rust_str("{{ " + c.shown["literal"] + " }}")}, ext = "txt")]\npub struct T;', [], {'probe': c.shown['literal']}) for c in opt]
    for c in pro: c.optional = True
    f, cov, got = tcomp.campaign('C16', pro, compile_only=True, tag='p', statuses=True)
    taken = [c for c, p in zip(opt, pro) if got[p.id]['status'] == 'compiled']
    return result({'texts that may be refused': (f, {**cov, 'accepted': len(taken)}), 'literals compared with those of rustc': tcomp.campaign('C16', cs), 'accepted texts compared with rustc': tcomp.campaign('C16', taken, tag='t')})

# ---------------------------------------------------------------------------------------------- C17
KEYWORDS = ('as break const continue dyn else enum extern false fn for if impl in let match mod move mut pub ref return static struct trait true type unsafe use where while async await '
            'abstract become box do final macro override priv typeof unsized virtual yield try').split()
EXCLUDED = ('self', 'Self', 'super', 'crate', 'loop', 'true', 'false')
WEAK = 'union auto macro_rules raw safe gen default dyn_ Type As iF fo forx fory asy asyncx awaitt abstrac abstracts continues overridee _type type_ typ tru truee fals falsee el els elsee r r_ x ab abc abcd abcde abcdef abcdefg abcdefgh abcdefghi privv vir virtua virtuall é type1 matc whil yiel becom retur unsafee unsize dO doo bx boxe tr tryy mo modd'.split()
def names(raw, n):
    """every place in which a name may occur; raw: the name as Rust writes it"""
    cs = []
    def one(what, src, decl, val, exp):
        head, sep, decl = decl.rpartition('pub struct T')
        cs.append(Case(f'{head}#[derive(Template)] #[template(source = {rust_str(src)}, ext = "txt")]\n{sep}{decl}\npub fn run() -> Vec<Result<String, String>> {{ vec![r({val})] }}', [('ok', exp)], {'name': n, 'as': what, 'source': src}))
    if not n[0].isupper(): one('field', f'{{{{ {n} }}}}.{{{{ self.{n} }}}}.{{% if {n} == 3 %}}y{{% endif %}}', f'pub struct T {{ {raw}: i32 }}', f'T {{ {raw}: 3 }}', '3.3.y')
    if not n[0].isupper():      # a name in upper case is a path by the documentation
        one('variable', f'{{% let {n} = 4 %}}{{{{ {n} }}}}{{% let x = {n} %}}{{{{ x }}}}', f'pub struct T {{ {raw}: i32 }}', f'T {{ {raw}: 3 }}', '44')
        one('declared variable', f'{{% let {n} %}}{{% if true %}}{{% let {n} = 1 %}}{{% else %}}{{% let {n} = 2 %}}{{% endif %}}{{{{ {n} }}}}', 'pub struct T;', 'T', '1')
        one('loop variable', f'{{% for {n} in list_of_it %}}{{{{ {n} }}}}{{% endfor %}}{{{{ {n} }}}}', f'pub struct T {{ list_of_it: Vec<i32>, {raw}: i32 }}', f'T {{ list_of_it: vec![1, 2], {raw}: 3 }}', '123')
        one('macro argument', f'{{% macro m({n}) %}}{{{{ {n} }}}}{{% endmacro %}}{{% call m(5) %}}{{% call m({n} = 6) %}}{{% call m({n}) %}}', f'pub struct T {{ {raw}: i32 }}', f'T {{ {raw}: 3 }}', '563')
        one('binding', f'{{% if let Some({n}) = o %}}{{{{ {n} }}}}{{% endif %}}{{% match o %}}{{% when Some with ({n}) %}}{{{{ {n} }}}}{{% when None %}}{{% endmatch %}}', 'pub struct T { o: Option<i32> }', 'T { o: Some(8) }', '88')
        # in every kind of expression, as a field and as a variable
        one('called field', f'{{{{ {n}(1) }}}}{{{{ self.id({n}(2)) }}}}', f'pub fn inc_(x: i32) -> i32 {{ x + 1 }} pub struct T {{ {raw}: fn(i32) -> i32 }} impl T {{ fn id(&self, x: i32) -> i32 {{ x }} }}', f'T {{ {raw}: inc_ }}', '23')
        one('called variable', f'{{% let {n} = g %}}{{{{ {n}(1) }}}}', f'pub fn inc_(x: i32) -> i32 {{ x + 1 }} pub struct T {{ g: fn(i32) -> i32 }}', 'T { g: inc_ }', '2')
        ops = f'{{{{ v[self.us({n})] }}}}{{{{ -{n} }}}}{{{{ {n} + {n} * 2 }}}}{{{{ ({n}) }}}}{{{{ {n}|upper }}}}{{% for x in {n}..3 %}}{{{{ x }}}}{{% endfor %}}{{% match {n} %}}{{% when 1 %}}m{{% when _ %}}{{% endmatch %}}{{{{ {n}.abs() }}}}{{% if {n} == 1 && !({n} != 1) %}}i{{% endif %}}{{{{ [{n}, {n}][0] }}}}'
        dec = 'impl T { fn us(&self, x: impl std::borrow::Borrow<i32>) -> usize { *x.borrow() as usize } }'
        one('operand (field)', ops, f'{dec} pub struct T {{ {raw}: i32, v: Vec<u8> }}', f'T {{ {raw}: 1, v: vec![7, 8] }}', '8-131112m1i1')
        one('operand (variable)', f'{{% let {n} = k %}}' + ops, f'{dec} pub struct T {{ k: i32, v: Vec<u8> }}', 'T { k: 1, v: vec![7, 8] }', '8-131112m1i1')
        one('operand (collection)', f'{{{{ {n}[1] }}}}{{% for x in {n} %}}{{{{ x }}}}{{% endfor %}}{{{{ {n}.len() }}}}{{% for (a_, {n}) in {n}.iter().enumerate() %}}{{{{ a_ }}}}{{{{ {n} }}}}{{% endfor %}}{{{{ {n}|join("-") }}}}{{% filter upper %}}{{{{ {n}[0] }}}}{{% endfilter %}}', f'pub struct T {{ {raw}: Vec<u8> }}', f'T {{ {raw}: vec![5, 6] }}', '65620516' + '5-6' + '5')
        one('operand (result)', f'{{{{ {n}? }}}}', f'pub struct T {{ {raw}: Result<u8, std::fmt::Error> }}', f'T {{ {raw}: Ok(5) }}', '5')
    one('attribute', f'{{{{ s.{n} }}}}{{{{ s.i.{n} }}}}', f'pub struct I {{ {raw}: i32 }} pub struct S {{ {raw}: i32, i: I }} pub struct T {{ s: S }}', f'T {{ s: S {{ {raw}: 1, i: I {{ {raw}: 2 }} }} }}', '12')
    one('method', f'{{{{ s.{n}() }}}}{{{{ self.{n}() }}}}', f'pub struct S; impl S {{ fn {raw}(&self) -> i32 {{ 5 }} }} pub struct T {{ s: S }} impl T {{ fn {raw}(&self) -> i32 {{ 6 }} }}', 'T { s: S }', '56')
    one('field of a pattern', f'{{% match s %}}{{% when S with {{ {n} }} %}}{{{{ {n} }}}}{{% endmatch %}}{{% if let S {{ {n}: v }} = s %}}{{{{ v }}}}{{% endif %}}', f'pub struct S {{ {raw}: i32 }} pub struct T {{ s: S }}', f'T {{ s: S {{ {raw}: 9 }} }}', '99')
    return cs
def c17(tier):
    cs = []
    for k in KEYWORDS:
        if k not in EXCLUDED: cs += names('r#' + k, k)
    r = common.rng('c17'); ws = list(WEAK)
    for i in range(count(tier, 40)):
        w = r.choice('abcdefghijklmnopqrstuvwxyz_') + ''.join(r.choice('abcdefghijklmnopqrstuvwxyz_0123456789') for _ in range(r.randint(0, 9)))
        if w.strip('_') and w not in KEYWORDS and w not in EXCLUDED: ws.append(w)
    for i in range(count(tier, 30)):        # neighbours of the keywords
        k = r.choice(KEYWORDS); p = r.randrange(len(k)); w = r.choice([k[:p] + k[p+1:], k[:p] + r.choice('aelrst_') + k[p:], k[:p] + r.choice('aelrst_') + k[p+1:], k + '_', '_' + k])
        if w.strip('_') and not w[0].isdigit() and w not in KEYWORDS and w not in EXCLUDED: ws.append(w)
    for w in dict.fromkeys(ws): cs += [c for c in names(w, w)]
    return result({'names': tcomp.campaign('C17', cs)})

# ---------------------------------------------------------------------------------------------- C21
PLACES = ['{}', '{{% if true %}}{}{{% endif %}}', '{{% if false %}}{{% else %}}{}{{% endif %}}', '{{% if false %}}{{% else if true %}}{}{{% else %}}{{% endif %}}', '{{% for _ in 0..1 %}}{}{{% endfor %}}', '{{% for _ in 0..0 %}}{{% else %}}{}{{% endfor %}}',
          '{{% match 1 %}}{{% when 1 %}}{}{{% when _ %}}{{% endmatch %}}', '{{% match 2 %}}{{% when 1 %}}{{% else %}}{}{{% endmatch %}}', '{{% filter trim %}}{}{{% endfilter %}}', '{{% block u{}_ %}}{}{{% endblock %}}', '{{% if let Some(_) = Some(1) %}}{}{{% endif %}}']
def include(r, d, k, j, p, files):
    """an include somewhere in a statement, often of a file that nothing else uses"""
    if r.random() < .5:
        q = f't_u{k}_{j}.html'; files[d + q] = files[d + p]; p = q
    x = f'{{% include "{p}" %}}'
    for _ in range(r.choice([0, 1, 1, 2])):
        w = r.choice(PLACES); x = w.replace('{}', '{0}', 1).replace('u{0}_', f'u{k}_{j}_{r.randrange(1000000)}_').replace('{}', '{0}').format(x)
    return x
def c21(tier):
    m = tcomp.manifest('C21'); cs = []
    for i in range(count(tier, 220)):
        r = common.rng(f'c21:{i}'); n = r.randint(1, 6); d = f'g{i}/'
        names_ = [d + f't{k}.html' for k in range(n)]
        style = r.choice(['any', 'any', 'acyclic', 'cycle'])
        ext = []
        for k in range(n):
            if style == 'acyclic': ext.append(r.choice([None, *range(k)]) if k else None)
            elif style == 'cycle': ext.append((k + 1) % n if r.random() < .85 else r.choice([None, *range(n)]))
            else: ext.append(r.choice([None, *range(n)]))
        top = r.randrange(n)
        # helpers below the templates: shared by several, each with an own chain of ancestors
        uses = {k: [] for k in range(n)}; extra = {}
        for h in range(r.choice([0, 0, 1, 2])):
            p = f't_h{h}.html'; up = r.choice([None, None, 'base'])
            extra[d + p] = ('{% extends "t_base.html" %}{% block q %}h' + str(h) + '{% endblock %}') if up else f'H{h}'
            if up: extra[d + 't_base.html'] = '[{% block q %}{% endblock %}]'
            for k in range(n):
                if r.random() < .5: uses[k].append(p)
        for h in range(r.choice([0, 0, 1])):
            extra[d + 't_m.html'] = '{% macro mm() %}m{% endmacro %}'
            for k in range(n):
                if r.random() < .5: uses[k].append('import')
        files = dict(extra); selfish = [r.random() < .15 for _ in range(n)]
        for k in range(n):
            t = ''
            if ext[k] is not None: t += f'{{% extends "t{ext[k]}.html" %}}'
            if 'import' in uses[k]: t += '{% import "t_m.html" as x %}'
            # a template may use its own macros by an import
            own = selfish[k]
            if own: t += f'{{% import "t{k}.html" as me %}}{{% macro mm() %}}s{{% endmacro %}}'
            t += '{% block b %}' + f'{k}' + ''.join(include(r, d, k, j, p, files) for j, p in enumerate(uses[k]) if p != 'import') + ('{% call me::mm() %}' if own else '') + '{% endblock %}'
            files[names_[k]] = t
        tcomp.put(m, files)
        seen = set(); k = top; cyc = False
        while k is not None:
            if k in seen: cyc = True; break
            seen.add(k); k = ext[k]
        shown = {'files': files, 'template': names_[top]}
        if cyc: cs.append(Case(f'#[derive(Template)] #[template(path = {rust_str(names_[top])})]\npub struct T;', None, shown, 'cycle-accepted', ('cyclic',)))
        else:
            def inc(p): return extra[d + p] if 'extends' not in extra[d + p] else '[h' + p[3] + ']'
            e = str(top) + ''.join(inc(p) for p in uses[top] if p != 'import') + ('s' if selfish[top] else '')
            cs.append(Case(f'#[derive(Template)] #[template(path = {rust_str(names_[top])})]\npub struct T;\npub fn run() -> Vec<Result<String, String>> {{ vec![r(T)] }}', [('ok', e)], shown, 'acyclic-refused'))
    # long chains
    for n, cyc in ((40, False), (40, True), (120, False)):
        files = {f'l{n}{cyc}/t{k}.html': (f'{{% extends "t{k-1}.html" %}}' if k else ('{% extends "t7.html" %}' if cyc else '')) + (f'{{% block b %}}{k}{{% endblock %}}' if not k or k == n - 1 else '') for k in range(n)}
        tcomp.put(m, files); p = f'l{n}{cyc}/t{n-1}.html'
        cs.append(Case(f'#[derive(Template)] #[template(path = {rust_str(p)})]\npub struct T;\n' + ('' if cyc else 'pub fn run() -> Vec<Result<String, String>> { vec![r(T)] }'), None if cyc else [('ok', str(n - 1))], {'chain of': n, 'cyclic': cyc}, 'long-chain', ('cyclic',) if cyc else ()))
    good = [c for c in cs if c.expected is not None]; bad = [c for c in cs if c.expected is None]
    return result({'inheritance graphs without cycle': tcomp.campaign('C21', good, m, timeout=50), 'inheritance graphs with a cycle': tcomp.campaign('C21', bad, m, compile_only=True, tag='c', timeout=50)})

# ---------------------------------------------------------------------------------------------- C22
DCH = ['@', '$', ';', '`', '§', '→', '¶', 'ñ', '^', '😀']
DKEYS = ['block_start', 'block_end', 'expr_start', 'expr_end', 'comment_start', 'comment_end']
DDEF = dict(zip(DKEYS, ['{%', '%}', '{{', '}}', '{#', '#}']))
OPS = ['||', '&&', '==', '!=', '>=', '<=', '<<', '>>', '..', '..=']
DEND = ['@', '$', ';', '`', chr(92), '#']      # without meaning inside of tags
def delimiter(r, end=False):
    while True:
        s = ''.join(r.choice(DEND if end else DCH) for _ in range(r.choice([1, 2, 2, 2, 3, 4])))
        k = r.random()
        if k < .25: s = ('}' if end else '{') + s
        elif k < .4: s = s + '}'
        elif k < .45: s = ('' if end else '{{') + s
        if len(s.encode()) >= 2: return s
def syntaxes(r):
    """an accepted set of delimiters"""
    while True:
        d = dict(DDEF)
        for k in DKEYS:
            if r.random() < .75: d[k] = delimiter(r, k.endswith('end'))
        plain = {k for k in DKEYS if not set(d[k]) - set(DEND + ['}', '{'])}
        if 'block_start' in plain and r.random() < .4: d['block_end'] = d['block_start']
        if 'expr_start' in plain and r.random() < .3: d['expr_end'] = d['expr_start']
        if r.random() < .15: d['comment_end'] = d['comment_start']
        if r.random() < .1: d['expr_end'] = d['block_end'] = d['comment_end'] = delimiter(r, True)
        if r.random() < .1: d['comment_end'] = d['comment_start'] + r.choice(DCH)
        st = [d['block_start'], d['expr_start'], d['comment_start']]
        if any(a.startswith(b) for i, a in enumerate(st) for j, b in enumerate(st) if i != j): continue
        # the tags contain no character of a delimiter, except where the delimiters are the default ones
        return d
def toml_syntax(name, d, only=None): return f"[[syntax]]\nname = '{name}'\n" + ''.join(f"{k} = '{v}'\n" for k, v in d.items() if only is None or k in only)
def clean(t, d):
    """no tag may begin inside of a text, nor with its end"""
    st = [d['block_start'], d['expr_start'], d['comment_start']]
    while any(x in t for x in st):
        for x in st: t = t.replace(x, x[0] + '.' + x[1:] if len(x) > 1 else '.')
    core = t.rstrip(tmpl.WS)
    if core and any(core[-1] in x for x in st): t = core + '.' + t[len(core):]
    return t
PIECES = ['a', ' ', '\n', '{{ s }}', '{% if p %}', '{# c #}', '{{', '}}', '{%', '%}', '{#', '#}', '{', '}', 'é', '{% endraw %}', '@', '$', ';', '^', '§', '<']
def c22(tier):
    m = tcomp.manifest('C22'); n = count(tier, 420)
    def dl(r, i):
        d = syntaxes(r); how = r.choice(['default', 'attribute', 'both'])
        other = toml_syntax('other', {'block_start': '<!', 'block_end': '!>', 'expr_start': '<=>'}) if r.random() < .4 else ''
        nm = r.choice(['foo', 'my syntax', 'x-1'])
        gen = {'default': f"[general]\ndefault_syntax = '{nm}'\n", 'attribute': '', 'both': f"[general]\ndefault_syntax = 'other'\n" if other else ''}[how]
        only = [k for k in DKEYS if d[k] != DDEF[k] or r.random() < .5]
        f = f'c22_{i}.toml'; t = [toml_syntax(nm, d, only), other]; r.shuffle(t)
        tcomp.put(m, {f: gen + ''.join(t)}, sub=None)
        D = {'%': (d['block_start'], d['block_end']), '{': (d['expr_start'], d['expr_end']), '#': (d['comment_start'], d['comment_end'])}
        return D, f'config = "{f}"' + (f', syntax = "{nm}"' if how != 'default' else '')
    def tw(g, r):
        D = g.delims; d = dict(zip(DKEYS, D['%'] + D['{'] + D['#'])); d = {'block_start': D['%'][0], 'expr_start': D['{'][0], 'comment_start': D['#'][0]}
        g.text = lambda: tmpl.Text(clean(''.join(r.choice(PIECES) for _ in range(r.randint(1, 4))), d))
        a, b = D['#']
        def comment(_):
            c = r.choice(['c', 'a - b', '{{ s }}', '{% if %}', '{# x #}', '"', 'n'])
            if a in c or b in c: c = 'c'
            if c == 'n' and not b.startswith(a): c = f'{a} nested {b}'
            return tmpl.Comment(c, g.mk())
        g.g_comment = comment
        old = g.g_raw
        def raw(dd):
            n_ = old(dd); n_.t.s = clean(n_.t.s, d); return n_
        g.g_raw = raw
    cs = tcomp.random_cases('c22', n, {'nodes': {'text': 6, 'out': 5, 'if': 1.5, 'for': 1, 'match': .5, 'comment': 2, 'raw': 1.5, 'include': .7, 'call': .7, 'let': .5, 'filter': .5}, 'safe': .1, 'escape': .1}, PIECES, ('', '', '-', '+', '~'), size=(2, 6), per=1, mdir=m, delims=dl, tweak=tw, vals=strs('u', '<v>'))
    bad = []; k = 0
    def conf(t, shown, says, default='foo'):
        nonlocal k
        f = f'b{k}.toml'; k += 1; tcomp.put(m, {f: (f"[general]\ndefault_syntax = '{default}'\n" if default else '') + t}, sub=None)
        return Case(f'#[derive(Template)] #[template(source = "a", ext = "txt", config = "{f}")]\npub struct T;\npub fn run() -> Vec<Result<String, String>> {{ vec![r(T)] }}', says and None, {'configuration': t, **shown}, 'delimiter-accepted' if says else 'delimiter-refused', says or ())
    r = common.rng('c22b')
    for key in DKEYS:
        for s, says in ([(x, ('two characters',)) for x in ('', 'a', '@', '%')] + [(x, ('whitespace',)) for x in ('  ', 'a ', ' a', '@\u00a0', '@\u2003@', '\t@', '@ @', '{ %')] + [(x, ('operator',)) for x in OPS]):
            bad.append(conf(toml_syntax('foo', {key: s}), {}, says)); bad.append(conf(toml_syntax('foo', {key: s}), {'used': False}, says, default=None))
    st = ['block_start', 'expr_start', 'comment_start']
    for a, b in itertools.permutations(st, 2):
        for x, y in (('@@', '@@'), ('@@', '@@@'), ('@$', '@$;'), ('§', '§§'), ('{%', '{%%'), ('{@', '{@{@')): bad.append(conf(toml_syntax('foo', {a: x, b: y}), {}, ('prefix',)))
        bad.append(conf(toml_syntax('foo', {a: DDEF[b]}), {}, ('prefix',))); bad.append(conf(toml_syntax('foo', {a: DDEF[b] + '@'}), {}, ('prefix',)))
    bad.append(conf(toml_syntax('foo', {}) + toml_syntax('foo', {'expr_start': '@@'}), {}, ('already defined',)))
    bad.append(conf(toml_syntax('default', {'expr_start': '@@'}), {}, ('already defined',), default='default'))
    bad.append(conf(toml_syntax('bar', {}), {}, ('not found',)))
    good = []
    for key in DKEYS:
        for s in ('é', '@@', '|@', '&@', '==@', '<<<', '...', '=>', '{}', '"@', "%%"):
            if key == 'comment_end' or not any(o.startswith(s) or s.startswith(o) for q, o in DDEF.items() if q != key and q in st and key in st): good.append(conf(toml_syntax('foo', {key: s}), {}, None))
    for c in good: c.expected = [('ok', 'a')]
    return result({'templates with custom delimiters': tcomp.campaign('C22', cs, m), 'refused configurations': tcomp.campaign('C22', [c for c in bad], m, compile_only=True, tag='b'), 'accepted configurations': tcomp.campaign('C22', good, m, tag='g')})

# ---------------------------------------------------------------------------------------------- C23
class Missing(Exception): pass
def c23(tier):
    m = tcomp.manifest('C23'); cs = []
    for i in range(count(tier, 400)):
        r = common.rng(f'c23:{i}'); root = f'p{i}'; n = r.randint(1, 4)
        dirs = r.sample(['d1', 'd2', 'd2/sub', 'd1/sub', 'deep/er'], r.randint(1, 3))
        conf = r.random() < .8 and f'c{i}.toml'
        if not conf: dirs = ['templates']
        base = root if conf else f'templates/{root}'
        D = [f'{root}/{d}' if conf else 'templates' for d in dirs]
        names_ = [f'n{k}.html' for k in range(n)]
        pre = '' if conf else root + '/'
        subs = ['', 'sub/', 'er/', 'sub/er/']
        files = {}
        pool = [(d, s) for d in D for s in subs]
        places = [(d + '/' + pre + s).replace('//', '/') for d, s in pool]
        where = {k: r.sample(places, r.randint(1, min(4, len(places)))) for k in range(n)}
        files = {pl + names_[k]: {} for k in range(n) for pl in where[k]}
        exists = {os.path.normpath(p): p for p in files}
        def find(p, start):
            c = [os.path.join(os.path.dirname(start), p)] if start else []
            for q in c + [os.path.join(d, p) for d in D]:
                # a path through a directory which does not exist leads nowhere
                cur = []; ok = True
                for part in q.split('/')[:-1]:
                    cur.append(part)
                    if os.path.normpath('/'.join(cur)) not in alldirs: ok = False
                if ok and os.path.normpath(q) in exists: return exists[os.path.normpath(q)]
            raise Missing(p)
        alldirs = {'.', ''}
        for p in files:
            q = os.path.dirname(p)
            while q: alldirs.add(q); q = os.path.dirname(q)
        lost = r.random() < .15
        def rel(k, start=None):
            for _ in range(12):
                p = r.choice(['', '', '', pre, pre + 'sub/', 'sub/', '../', './', 'er/']) + names_[k]
                try: find(p, start); return p
                except Missing:
                    if lost: return p
            return p
        for k in range(n):
            for pl in where[k]:
                later = list(range(k + 1, n))
                f = {'k': k, 'ext': None, 'imports': [], 'body': [], 'macro': []}
                if later and r.random() < .3: f['ext'] = rel(r.choice(later), pl + names_[k])
                if later and r.random() < .35: f['imports'].append(('q', rel(r.choice(later), pl + names_[k])))
                def items(depth):
                    o = []
                    for _ in range(r.randint(0, 3)):
                        x = r.random()
                        if later and x < .5: o.append(('inc', rel(r.choice(later), pl + names_[k])))
                        elif x < .65 and f['imports']: o.append(('call', 'q'))
                        else: o.append(('mark',))
                    return o
                f['body'] = [('mark',)] + items(0); f['block'] = items(1) + [('mark',)] if f['ext'] is None or r.random() < .7 else None
                f['macro'] = items(1) + [('mark',)] if not f['imports'] else [('mark',)] + [x for x in items(1) if x[0] != 'call']
                files[pl + names_[k]].update(f)
        def text(p, f):
            mk = '[' + p.split('/', 1)[1] + ']'
            def it(xs, k): return ''.join({'mark': lambda: mk + k, 'inc': lambda: f'{{% include "{x[1]}" %}}', 'call': lambda: '{% call q::m() %}'}[x[0]]() for x in xs)
            o = ''
            if f['ext']: o += f'{{% extends "{f["ext"]}" %}}'
            for a, q in f['imports']: o += f'{{% import "{q}" as {a} %}}'
            o += '{% macro m() %}' + it(f['macro'], 'm') + '{% endmacro %}' + it(f['body'], '')
            if f['block'] is not None: o += '{% block b %}' + it(f['block'], 'b') + '{% endblock %}'
            return o
        seen = set()
        def reach(p):
            if p in seen: return
            seen.add(p); f = files[p]
            for q in [f['ext']] * bool(f['ext']) + [q for a, q in f['imports']] + [x[1] for xs in (f['body'], f['block'] or [], f['macro']) for x in xs if x[0] == 'inc']: reach(find(q, p))
        def render(p):
            f = files[p]; chain = [p]
            while files[chain[-1]]['ext']: chain.append(find(files[chain[-1]]['ext'], chain[-1]))
            b = next(q for q in chain if files[q]['block'] is not None) if any(files[q]['block'] is not None for q in chain) else None
            top = chain[-1]
            return run(top, files[top]['body'], '') + (run(b, files[b]['block'], 'b') if files[top]['block'] is not None else '')
        def run(p, xs, k):
            f = files[p]; o = ''
            for x in xs:
                if x[0] == 'mark': o += '[' + p.split('/', 1)[1] + ']' + k
                elif x[0] == 'inc': o += render(find(x[1], p))
                else: q = find(dict(f['imports'])['q'], p); o += run(q, files[q]['macro'], 'm')
            return o
        txt = {p: text(p, f) for p, f in files.items()}
        tcomp.put(m, txt, sub=None)
        top = rel(r.choice([0, 0, n - 1]))
        if conf: tcomp.put(m, {conf: '[general]\ndirs = [' + ', '.join(f"'{d}'" for d in D) + ']\n'}, sub=None)
        shown = {'files': txt, 'template': top, 'dirs': D}
        try: p = find(top, None); reach(p); e = render(p)
        except Missing: e = None
        where = f'path = {rust_str(top)}' + (f', config = "{conf}"' if conf else '')
        cs.append(Case(f'#[derive(Template)] #[template({where})]\npub struct T;' + ('' if e is None else '\npub fn run() -> Vec<Result<String, String>> { vec![r(T)] }'), None if e is None else [('ok', e)], shown, 'lookup', ('not found',) if e is None else ()))
    good = [c for c in cs if c.expected]; bad = [c for c in cs if not c.expected]
    # precedence of settings
    st = []; k = 0
    def one(src, attrs, conf, exp, decl='pub struct T { s: &\'static str }', val='T { s: "<s>" }', ext='html', says=(), path=None):
        nonlocal k
        a = (f'path = "{path}"' if path else f'source = {rust_str(src)}, ext = "{ext}"') + (', ' + attrs if attrs else '')
        if conf is not None:
            f = f's{k}.toml'; k += 1; tcomp.put(m, {f: conf}, sub=None); a += f', config = "{f}"'
        st.append(Case(f'#[derive(Template)] #[template({a})]\n{decl}\npub fn run() -> Vec<Result<String, String>> {{ vec![r({val})] }}', None if exp is None else [('ok', exp)], {'attributes': a, 'configuration': conf}, 'setting', says))
    W = {'suppress': '-', 'minimize': '~', 'preserve': '+', None: '+'}
    src = 'a \n {% if true %} b\t{% endif %}  c {{- s }}x \n{{+ s }}'
    for at in (None, 'suppress', 'minimize', 'preserve'):
        for cf in (None, 'suppress', 'minimize', 'preserve', ''):
            w = W[at or cf or None]; g = lambda x: tmpl.apply_ws(x, w)
            e = 'a' + g(' \n ') + g(' ') + 'b' + g('\t') + g('  ') + 'c&lt;s&gt;x \n&lt;s&gt;'
            one(src, f'whitespace = "{at}"' if at else '', None if cf is None else ('[general]\n' + (f'whitespace = "{cf}"\n' if cf else "dirs = ['x']\n")), e)
    for x in ('Suppress', 'trim', '', 'none'):
        one('a', f'whitespace = "{x}"', None, None, says=('whitespace',)); one('a', '', f'[general]\nwhitespace = "{x}"\n', None)
    sy = "[[syntax]]\nname = 'foo'\nexpr_start = '<<<'\n[[syntax]]\nname = 'bar'\nexpr_start = '@@'\n"
    src = '{{s}}<<<s}}@@s}}'
    R = {'default': '&lt;s&gt;<<<s}}@@s}}', 'foo': '{{s}}&lt;s&gt;@@s}}', 'bar': '{{s}}<<<s}}&lt;s&gt;'}
    for at in (None, 'default', 'foo', 'bar'):
        for cf in (None, 'default', 'foo', 'bar'): one(src, f'syntax = "{at}"' if at else '', (f"[general]\ndefault_syntax = '{cf}'\n" if cf else '') + sy, R[at or cf or 'default'])
    one('a', 'syntax = "nope"', sy, None, says=('syntax',)); one('a', 'syntax = "foo"', None, None, says=('syntax',)); one('a', '', "[general]\ndefault_syntax = 'nope'\n", None, says=('syntax',))
    ES = '<s>'; H = '&lt;s&gt;'
    up = "[[escaper]]\npath = '::rtd::Up'\nextensions = ['html', 'up']\n"
    for ext in ('html', 'txt', 'up'):
        for at in (None, 'html', 'none', 'txt', 'up', 'xml'):
            for cf in (False, True):
                which = at or ext
                e = ('<S>' if cf and which in ('html', 'up') else H if which in ('html', 'xml') else ES if which in ('txt', 'none') else None)
                one('{{ s }}', f'escape = "{at}"' if at else '', up if cf else '', e, ext=ext, says=('escaper',) if e is None else (), decl='#[allow(dead_code)] pub struct T { s: &\'static str }')
    for b, e in ((None, '[1<2]3'), ('a', '1<2'), ('b', '2')):
        one('[{% block a %}1<{% block b %}2{% endblock %}{% endblock %}]3', f'block = "{b}"' if b else '', None, e)
    one('{% block a %}{% endblock %}', 'block = "c"', None, None, says=('block',))
    # the file that is named wins over askama.toml
    n0 = len(st)
    tcomp.put(m, {'askama.toml': "[general]\nwhitespace = 'suppress'\n"}, sub=None)
    one('a {{ s }} b', '', None, 'a&lt;s&gt;b'); one('a {{ s }} b', '', '', 'a &lt;s&gt; b'); one('a {{ s }} b', 'whitespace = "minimize"', None, 'a &lt;s&gt; b'); one('a {{ s }} b', '', "[general]\nwhitespace = 'minimize'\n", 'a &lt;s&gt; b')
    one('a', 'config = "nope.toml"', None, None, says=('exist',)); one('a', 'path = "x.html"', None, None); one('a', 'nonsense = "1"', None, None); one('a', '', 'x = [', None, says=('toml',))
    one('', '', None, None, path='nope.html', says=('not found',))
    out = {}
    # cases without a configuration file must not see askama.toml unless they are meant to
    with_toml = [c for i, c in enumerate(st) if i >= n0]; without = [c for i, c in enumerate(st) if i < n0]
    os.remove(os.path.join(m, 'askama.toml'))
    out['settings'] = tcomp.campaign('C23', [c for c in without if c.expected], m, tag='s')
    out['refused settings'] = tcomp.campaign('C23', [c for c in without if not c.expected], m, tag='r', compile_only=True)
    tcomp.put(m, {'askama.toml': "[general]\nwhitespace = 'suppress'\n"}, sub=None)
    out['askama.toml'] = tcomp.campaign('C23', [c for c in with_toml if c.expected], m, tag='t'); out['askama.toml, refused'] = tcomp.campaign('C23', [c for c in with_toml if not c.expected], m, tag='u', compile_only=True)
    os.remove(os.path.join(m, 'askama.toml'))
    out['directories of files'] = tcomp.campaign('C23', good, m); out['missing files'] = tcomp.campaign('C23', bad, m, compile_only=True, tag='m')
    return result(out)

# ---------------------------------------------------------------------------------------------- C24
HTML_EXT = ['html', 'htm', 'svg', 'xml', 'j2', 'jinja', 'jinja2']; TEXT_EXT = ['md', 'none', 'txt', 'typ', 'yml', '']
MIMES = {'html': 'text/html; charset=utf-8', 'htm': 'text/html; charset=utf-8', 'txt': 'text/plain; charset=utf-8', 'css': 'text/css; charset=utf-8', 'csv': 'text/csv; charset=utf-8', 'tsv': 'text/tab-separated-values; charset=utf-8', 'svg': 'image/svg+xml',
    'json': 'application/json', 'png': 'image/png', 'j2': 'application/octet-stream', 'jinja': 'application/octet-stream', 'jinja2': 'application/octet-stream', 'pdf': 'application/pdf', 'nonsense': 'application/octet-stream'}
def c24(tier):
    m = tcomp.manifest('C24'); cs = []; r = common.rng('c24'); k = 0
    exts = HTML_EXT + TEXT_EXT[:-1] + ['css', 'csv', 'tsv', 'json', 'png', 'pdf', 'nonsense', 'HTML', 'Txt', 'htmlx', 'ht', 'jinja3']
    js = 'j2 jinja jinja2'.split()
    def case(path, ext, escape, conf, source=None):
        """conf: list of (extensions, is Up)"""
        nonlocal k
        name = path.rsplit('/', 1)[-1] if path else 'T.' + ext
        def extension(n): return n.rsplit('.', 1)[1] if '.' in n[1:] else None
        e = escape if escape is not None else (extension(name) or '')
        which = None
        for xs, up in conf or []:
            if e in xs: which = 'up' if up else 'text'; break
        if which is None: which = 'html' if e in HTML_EXT else 'text' if e in TEXT_EXT else None
        x = ext
        if x is None:
            x = extension(name)
            if x in js: x = extension(name[:-len(x) - 1]) or x
        mime = MIMES.get(x or 'txt', None)
        a = [f'path = "{path}"' if path else 'source = "[{{ s }}]"']
        if ext is not None: a.append(f'ext = "{ext}"')
        if escape is not None: a.append(f'escape = "{escape}"')
        if conf is not None:
            f = f'c{k}.toml'; k += 1; a.append(f'config = "{f}"')
            tcomp.put(m, {f: ''.join(f"[[escaper]]\npath = '::rtd::{'Up' if up else 'askama::Text'}'\nextensions = [{', '.join(repr(q) for q in xs)}]\n" for xs, up in conf)}, sub=None)
        if path: tcomp.put(m, {path: '[{{ s }}]'})
        r.shuffle(a)
        s = '<Ab é>'; t = {'html': '&lt;Ab é&gt;', 'text': s, 'up': '<AB É>', None: None}[which]
        xs = 'None' if x is None else f'Some({rust_str(x)})'
        run = f'vec![r(T {{ s: {rust_str(s)} }}), Ok(format!("{{:?}}", <T as Template>::EXTENSION)), Ok(<T as Template>::MIME_TYPE.to_string())]'
        if mime is None: run = run.replace(', Ok(<T as Template>::MIME_TYPE.to_string())', '')
        exp = None if which is None else [('ok', f'[{t}]'), ('ok', 'None' if x is None else f'Some("{x}")')] + ([('ok', mime)] if mime else [])
        cs.append(Case(f'#[derive(Template)] #[template({", ".join(a)})]\npub struct T {{ s: &\'static str }}\npub fn run() -> Vec<Result<String, String>> {{ {run} }}', exp, {'attributes': a, 'escapers': conf}, 'escaper', ('escaper',) if which is None else ()))
    case('plain', None, None, None); case('sub.d/plain', None, None, None); case('.hidden', None, None, None)
    for e in exts:
        case(f'a.{e}', None, None, None); case(None, e, None, None); case(f'b.c.{e}', None, None, None)
        for j in js: case(f'a.{e}.{j}', None, None, None); case(f'd.e/x.{e}.{j}', None, None, None); case(f'w.{j}.{e}', None, None, None)
        j = r.choice(js); case(f'q.{e}.{j}.{r.choice(js)}', None, None, None)
    for j in js:
        case(f'only.{j}', None, None, None); case(f'only.{j}.{j}', None, None, None); case(f'html.{j}', None, None, None); case(f'.hid.{j}', None, None, None); case(f'three.txt.{j}.{r.choice(js)}.{j}', None, None, None)
        for x in ('html', 'txt', '', 'none', 'nonsense', 'jinja'): case(f'a.{e}', None, x, None); case(None, e, x, None)
        for x in ('html', 'css', 'json', 'txt', 'nonsense', 'j2'): case(f'a.{e}', x, None, None); case(f'a.{e}.j2', x, 'html', None)
    for i in range(count(tier, 250)):
        conf = [(r.sample(exts + [''], r.randint(0, 4)), r.random() < .6) for _ in range(r.randint(1, 3))] if r.random() < .7 else None
        name = ''.join(r.choice(['a', 'b-c', 'é', 'x y', 'd1']) for _ in range(r.randint(1, 2))) + ''.join('.' + r.choice(exts + js) for _ in range(r.choice([0, 1, 1, 2, 2, 3])))
        p = (r.choice(['', '', 'x/', 'x.html/', 'y.j2/']) + name) if r.random() < .75 else None
        # a directory and a file cannot share a name
        if p and '/' in p: p = 'dir_' + p
        case(p, r.choice([None, None, *exts]) if p else r.choice(exts), r.choice([None, None, None, *exts, '']), conf)
    good = [c for c in cs if c.expected]; bad = [c for c in cs if not c.expected]
    return result({'escapers and types': tcomp.campaign('C24', good, m), 'refused': tcomp.campaign('C24', bad, m, compile_only=True, tag='r')})

# ---------------------------------------------------------------------------------------------- C15
import json as _json, subprocess as _sp
def parse_all(texts, per=60):
    """what the parser of /repo says to each text: 'ok', 'err ..', 'panic', 'crash', 'hang'"""
    b = os.path.join(common.cargo_build('px', pkgs=('askama_parser',)), 'px')
    def go(part):
        res = []
        while len(res) < len(part):
            inp = '\n'.join(_json.dumps(t) for t in part[len(res):]) + '\n'
            try: p = _sp.run([b], input=inp, capture_output=True, text=True, timeout=per, errors='replace'); out = p.stdout; hang = False
            except _sp.TimeoutExpired as e: out = (e.stdout or b'').decode('utf-8', 'replace'); hang = True
            ls = out.split('\n'); k = 0
            started = sum(l == 'S' for l in ls); done = [l for l in ls if l and l != 'S']
            res += done[:started]
            if len(res) < len(part):
                if hang and started == len(done): continue      # slow, not stuck: go on with the rest
                res.append('hang' if hang else 'crash')
        return res
    from concurrent.futures import ThreadPoolExecutor
    n = max(1, (len(texts) + 7) // 8); parts = [texts[i:i+n] for i in range(0, len(texts), n)]
    with ThreadPoolExecutor(8) as ex: return [x for r in ex.map(go, parts) for x in r]

TOK = ('{{ }} {% %} {# #} {{- -}} {%- -%} {%+ ~%} {#~ if endif else elif let for in endfor match when endmatch block endblock macro endmacro call filter endfilter include extends import as raw endraw break continue set super with or '
    'a b self loop true false Some None _ _x é :: . .. ..= , ( ) [ ] { } | || & && ! == != < > <= >= << >> + - * / % ^ ? = ; : @ " \' "s" \'c\' 1 0x1f 0b1 1.5 1e3 1u8 1_ \\ \\n \\x41 \\u{e9} ~ # 🦀 \u00a0 \t \n \r').split(' ') + [' ', '\n', '  ']
NEST = {   # name: (before, opening, middle, closing, after)
    'parentheses': ('{{ ', '(', 'a', ')', ' }}'), 'tuples': ('{{ ', '(a, ', 'a', ')', ' }}'), 'arrays': ('{{ ', '[', 'a', ']', ' }}'), 'calls': ('{{ ', 'f(', 'a', ')', ' }}'), 'methods': ('{{ ', 'a.f(', 'a', ')', ' }}'),
    'indices': ('{{ ', 'a[', 'a', ']', ' }}'), 'negations': ('{{ ', '!', 'a', '', ' }}'), 'minus': ('{{ ', '-', 'a', '', ' }}'), 'filter arguments': ('{{ ', 'a|f(', 'a', ')', ' }}'), 'conditions': ('', '{% if a %}', 'a', '{% endif %}', ''), 'else': ('', '{% if a %}{% else %}', 'a', '{% endif %}', ''), 'if let': ('', '{% if let Some(x) = a %}', 'a', '{% endif %}', ''),
    'loops': ('', '{% for a in b %}', 'a', '{% endfor %}', ''), 'loop else': ('', '{% for a in b %}{% else %}', 'a', '{% endfor %}', ''), 'matches': ('', '{% match a %}{% when b %}', 'a', '{% endmatch %}', ''), 'blocks': ('', '{% block a %}', 'a', '{% endblock %}', ''), 'filter blocks': ('', '{% filter f %}', 'a', '{% endfilter %}', ''),
    'tuple targets': ('{% let ', '(a, ', 'a', ')', ' = b %}'), 'target parentheses': ('{% let ', '(', 'a', ')', ' = b %}'), 'struct targets': ('{% if let ', 'A { a: ', 'a', '}', ' = b %}{% endif %}'), 'tuple struct targets': ('{% if let ', 'A(', 'a', ')', ' = b %}{% endif %}'), 'with targets': ('{% match a %}{% when ', 'A with (', 'a', ')', ' %}{% endmatch %}'),
    'mixed': ('{{ ', '[f(!', 'a', ')]', ' }}'), 'arguments of call': ('{% call m(', '(', 'a', ')', ') %}'), 'condition of loop': ('{% for a in b if ', '(', 'a', ')', ' %}{% endfor %}'), 'match expression': ('{% match ', '(', 'a', ')', ' %}{% when b %}{% endmatch %}')}
SEQ = {   # name: (before, piece, after)
    'expressions': ('', '{{ a }}', ''), 'bracketed expressions': ('', '{{ ((a)) }}', ''), 'calls': ('', '{{ a.b(c)[d]?|e(f) }}', ''), 'conditions': ('', '{% if a %}b{% endif %}', ''), 'loops': ('', '{% for a in b %}{% else %}{% endfor %}', ''), 'loops with continue': ('', '{% for a in b %}{% continue %}{% break %}{% endfor %}', ''), 'matches': ('', '{% match a %}{% when b %}{% endmatch %}', ''),
    'comments': ('', '{# a #}', ''), 'nested comments': ('', '{# {# #} #}', ''), 'raw': ('', '{% raw %}{{ {% {% endraw %}', ''), 'lets': ('', '{% let a = b %}', ''), 'tuple lets': ('', '{% let (a, (b, c)) = b %}', ''), 'declarations': ('', '{% let a %}', ''), 'includes': ('', '{% include "a" %}', ''), 'macros': ('', '{% macro a(b, c) %}{% endmacro %}', ''), 'macro calls': ('', '{% call a(b, c) %}', ''), 'imports': ('', '{% import "a" as b %}', ''),
    'filter blocks': ('', '{% filter a|b %}{% endfilter %}', ''), 'arms': ('{% match a %}', '{% when A(b) %}c', '{% endmatch %}'), 'alternatives': ('{% match a %}{% when a', ' or B(c)', ' %}{% endmatch %}'), 'else ifs': ('{% if a %}', '{% else if a %}b', '{% endif %}'), 'else if lets': ('{% if a %}', '{% else if let A(a, (b, c)) = c %}b', '{% endif %}'), 'arguments': ('{{ f(a', ', (b)', ') }}'), 'items': ('{{ [a', ', [b]', '] }}'), 'targets': ('{% let (a', ', (b)', ') = c %}'), 'fields': ('{% if let A { a', ', b: (c)', ' } = d %}{% endif %}'),
    'tuple struct fields': ('{% if let A(a', ', B(c)', ') = d %}{% endif %}'), 'sums': ('{{ a', ' + b', ' }}'), 'mixed operators': ('{{ a', ' * (b) + -c', ' }}'), 'or': ('{{ a', ' || !b', ' }}'), 'suffixes': ('{{ a', '.b', ' }}'), 'suffix calls': ('{{ a', '.b(c)', ' }}'), 'index suffixes': ('{{ a', '[0]', ' }}'), 'tries': ('{{ a', '?', ' }}'), 'filters': ('{{ a', '|f', ' }}'), 'block filters': ('{% filter a', '|f', ' %}{% endfilter %}'), 'paths': ('{{ a', '::b', ' }}'),
    'text': ('', 'a {', ' '), 'white space': ('{{', '  \n', 'a }}'), 'blocks': ('', '{% block a %}{{ b }}{% endblock %}', ''), 'macro arguments': ('{% macro m(a', ', b', ') %}{% endmacro %}'), 'string content': ('{{ "', 'a\\n}} {{', '" }}'), 'supers': ('{% block a %}', '{% call super() %}', '{% endblock %}'), 'set': ('', '{% set a = (b) %}', ''), 'minus markers': ('', '{{- (a) -}}', ''), 'condition with let': ('', '{% if let Some((a, b)) = c %}{% endif %}', '')}
# attempts which fail and are given up: they must not use up the budget either
BACK = ['{{ a|b }}', '{{ a.0.b }}', '{{ (a, ) }}', '{{ [a, ] }}', '{{ "a"|b(c, d) }}', '{% call m(a, b = c) %}', '{% let a = (b)..(c) %}', '{% match a %}  {# c #}  {% when Some with (b) %}{% else %}{% endmatch %}', '{% for (a, b) in c if (d) %}{% endfor %}', '{% match a %}{% when 1 or 2 %}{% endmatch %}', '{% let A { b } = c %}', '{% match a %}{% when "b" or \'c\' %}{% else %}{% endmatch %}', '{% let _ = a %}']
def nested(nm, n): b, o, mid, c, a = NEST[nm]; return [b, [o, n], mid, [c, n], a]
def c15(tier):
    fails = []; cov = {}
    def show(t): return t if isinstance(t, str) else {'pieces': t}
    def need(texts, allowed, key, what):
        for t, g in zip(texts, parse_all(texts)):
            if not any(g.startswith(a) for a in allowed): fails.append(dict(key=key(t) if callable(key) else key, input=show(t), expected=what, got=g))
    # 1. any text ends in a tree or an error
    texts = []
    for i in range(count(tier, 60000)):
        r = common.rng(f'c15:{i}'); k = r.random()
        if k < .45: t = r.choice(['', ' ']).join(r.choice(TOK) for _ in range(r.randint(1, 40)))
        elif k < .6: t = '{{ ' + r.choice(['', ' ']).join(r.choice(TOK[30:]) for _ in range(r.randint(1, 14))) + ' }}'
        elif k < .75: t = '{% ' + r.choice('if let for match call macro filter block include extends import raw set when else'.split()) + ' ' + ' '.join(r.choice(TOK[30:]) for _ in range(r.randint(1, 12))) + ' %}' + r.choice(['', '{% endif %}', '{% endfor %}', '{% endmatch %}', '{% endmacro %}'])
        else:
            nm = r.choice(list(SEQ)); b, p, a = SEQ[nm]; t = b + p * r.randint(0, 3) + a
            if r.random() < .5: b, o, mid, c, a = NEST[r.choice(list(NEST))]; j = r.randint(0, 4); t += b + o * j + mid + c * j + a
            for _ in range(r.randint(0, 3)):
                q = r.randrange(len(t) + 1); x = r.random()
                if x < .4: t = t[:q] + t[q + r.randint(1, 4):]
                elif x < .7: t = t[:q] + r.choice(TOK) + t[q:]
                else: u = r.randrange(len(t) + 1); t = t[:q] + t[min(q, u):max(q, u)] + t[q:]
        texts.append(t)
    need(texts, ('ok', 'err'), 'not-total', 'a syntax tree or an error'); cov['random texts'] = len(texts)
    # 2. deep nesting is refused, with whatever inside, and whether or not it is closed
    deep = []
    for nm in NEST:
        b, o, mid, c, a = NEST[nm]
        for n in (129, 300, 5000, 60000):
            deep.append(nested(nm, n)); deep.append([b, [o, n]])
    need(deep, ('err',), 'deep-accepted', 'refused'); cov['deeply nested texts'] = len(deep)
    # 3. sequences are accepted
    seq = [[b, [p, n], a] for b, p, a in SEQ.values() for n in (200, 9000)] + [[[p, n]] for p in BACK for n in (200, 5000)]
    need(seq, ('ok',), 'sequence-refused', 'accepted'); cov['long sequences'] = len(seq)
    # 4. what was parsed before does not change how deep one may nest
    lim = {}
    tx = [(nm, n) for nm in NEST for n in range(1, 130)]
    for (nm, n), g in zip(tx, parse_all([nested(nm, n) for nm, n in tx])):
        if g == 'ok': lim[nm] = max(lim.get(nm, 0), n)
        elif not g.startswith('err'): fails.append(dict(key='not-total', input={'pieces': nested(nm, n)}, expected='a syntax tree or an error', got=g))
    for nm in NEST:
        if lim.get(nm, 0) < 2: fails.append(dict(key='shallow-refused', input=nm, expected='two levels are accepted', got=lim.get(nm)))
    before = [[[p, 300]] for b, p, a in SEQ.values() if not b and not a] + [[b, [p, 300], a] for b, p, a in SEQ.values() if b] + [[[p, 300]] for p in BACK]
    chk = [(nm, n, pre, pre + nested(nm, n)) for pre in before for nm in NEST if lim.get(nm, 0) >= 2 for n in (lim[nm], lim[nm] + 1)]
    r = common.rng('c15d'); chk = [c for i, c in enumerate(chk) if r.random() < (.4 if tier == 'quick' else 1)]
    for (nm, n, pre, t), g in zip(chk, parse_all([c[3] for c in chk])):
        e = 'ok' if n == lim[nm] else 'err'
        if not g.startswith(e): fails.append(dict(key='budget', input={'pieces': t}, expected=f'{e}: {n} levels of {nm} as without the text before', got=g))
    cov['nesting after sequences'] = len(chk); cov['limits'] = lim
    # the recorded finding: the tree of a very long chain cannot be dropped
    for nm in ('suffixes', 'index suffixes', 'tries', 'sums', 'filters', 'block filters'):
        b, p, a = SEQ[nm]; t = [b, [p, 200000], a]; g = parse_all([t])[0]
        if g != 'ok': fails.append(dict(key='drop-' + nm.replace(' ', '-'), input=show(t), expected='accepted', got=g))
    return {'failures': fails, 'coverage': cov, 'errors': []}

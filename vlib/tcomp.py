"""Campaigns of template cases: compiled with the derive macro of /repo, run, compared with the expected results."""
import os, shutil
from . import batch, common, tmpl
from .batch import rust_str

class Case:
    """expected: list of ('ok', text) | ('err', None) | ('panic', None), or None: the template must be refused
    (then `says` may name words of which one message must contain each)"""
    def __init__(self, rust, expected, shown, key='mismatch', says=()):
        self.rust = rust; self.expected = expected; self.shown = shown; self.key = key; self.says = says; self.id = None; self.optional = False     # optional: it may be refused as well

def template(src, vals, escape_ext, expected, attrs='', path=None, decl=tmpl.DECL, shown=None, head='', run=None, key='mismatch'):
    """a case with one template struct T, rendered with each of vals"""
    where = f'path = {rust_str(path)}' if path else f'source = {rust_str(src)}, ext = "{escape_ext}"'
    r = f'{head}#[derive(Template)] #[template({where}{", " + attrs if attrs else ""})]\n{decl}\npub fn run() -> Vec<Result<String, String>> {{ vec![' + ', '.join((run or (lambda v: f'r({tmpl.rust_struct(v)})'))(v) for v in vals) + '] }'
    return Case(r, expected, shown or {'source': src, 'attributes': where if path else attrs, 'values': vals}, key)

def manifest(pid, files=(), config=None):
    """a fresh directory that stands for the package: files below templates/ and configuration files"""
    d = os.path.join(common.OUT, 'pkg', pid); shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.join(d, 'templates'))
    put(d, files)
    if config is not None: open(os.path.join(d, 'askama.toml'), 'w', encoding='utf-8').write(config)
    return d
def put(d, files, sub='templates'):
    for p, t in dict(files).items():
        f = os.path.join(d, sub, p) if sub else os.path.join(d, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        open(f, 'w', encoding='utf-8', newline='').write(t)

def campaign(pid, cases, mdir=None, compile_only=False, tag='', timeout=240, statuses=False):
    """-> (failures, numbers)"""
    for i, c in enumerate(cases): c.id = f'c{i}'
    got = batch.run(pid, [{'id': c.id, 'rust': c.rust} for c in cases], manifest_dir=mdir, compile_only=compile_only, tag=tag, timeout=timeout)
    fails = []; renders = refused = 0
    for c in cases:
        g = got[c.id]; st = g['status']
        if c.expected is None:
            if st == 'refused':
                ms = ' '.join(g['msgs']).lower()
                if all(any(w in ms for w in (ws if isinstance(ws, tuple) else (ws,))) for ws in c.says): continue
                fails.append(dict(key=c.key, input=c.shown, expected='refused with an error that says ' + str(c.says), got=g['msgs'][:2])); continue
            fails.append(dict(key=c.key, input=c.shown, expected='refused when it is compiled', got=st + ' ' + str(g.get('out', ''))[:600])); continue
        if compile_only and st == 'compiled': continue
        if c.optional and st == 'refused': refused += 1; continue
        if st != 'ran':
            fails.append(dict(key=c.key, input=c.shown, expected='it compiles' + ('' if compile_only else f' and yields {c.expected}'), got=f'{st}: {g.get("msgs", [])[:2]}'[:1500])); continue
        out = [(k, t if k == 'ok' else None) for k, t in g['out']]; renders += len(out)
        if out != [(k, t if k == 'ok' else None) for k, t in c.expected]:
            fails.append(dict(key=c.key, input=c.shown, expected=c.expected, got=g['out']))
    fails.sort(key=lambda f: len(str(f['input'])))
    return (fails, {'templates': len(cases), 'renderings': renders, **({'optional_refused': refused} if refused else {})}) + ((got,) if statuses else ())

def random_cases(tag, n, weights, texts, ws=('',), depth=3, size=(1, 5), default='+', esc=None, macros=(0, 0, 1, 2), includes=(0, 0, 1), per=2, tweak=None, mdir=None, top=None, vals=None, attrs='', final=None, run=None, delims=None):
    """random templates with the expected results of the reference semantics"""
    cs = []
    for i in range(n):
        r = common.rng(f'{tag}:{i}')
        g = tmpl.Gen(r, weights, texts, ws, depth)
        D = delims(r, i) if delims else (None, None)      # (delimiters, attributes)
        if D[0]: g.delims = D[0]
        if tweak: tweak(g, r)
        d = default(r) if callable(default) else default
        ms = [g.macro(f'm{k}') for k in range(r.choice(macros))] if 'call' in weights['nodes'] else []
        g.macros = [(m, None) for m in ms]
        incs = []
        if 'include' in weights['nodes']:
            for k in range(r.choice(includes)): incs.append((f'{tag}_{i}_{k}.html', tmpl.splitlit(g.include_file())))
        g.includes = incs
        nodes = ms + (top(g, r) if top else g.nodes(depth, r.randint(*size)))
        tmpl.splitlit(nodes)
        e = r.random() < .7 if esc is None else esc
        src = tmpl.source(nodes, d, D[0], file=False)
        files = {p: tmpl.source(x, d, D[0], file=True) for p, x in incs}
        vs = []; exp = []
        for _ in range(per):
            v = (vals or tmpl.values)(r)
            try: exp.append(('ok', tmpl.render(nodes, v, e))); vs.append(v)
            except tmpl.Discard: pass
        if not vs: continue
        # the file may not be there yet when rustc runs: the caller passes the package directory
        put(mdir, files)
        a = [x for x in (attrs, D[1]) if x]
        if d != '+': a.append('whitespace = ' + rust_str({'-': 'suppress', '~': 'minimize', 'p': 'preserve'}[d]))
        cs.append(template(src, vs, 'html' if e else 'txt', exp, ', '.join(a), run=run, shown={'source': src, 'files': files, 'attributes': ', '.join(a), 'ext': 'html' if e else 'txt', 'values': vs}))
    return cs

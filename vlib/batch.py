"""Compiles batches of templates with the derive macro of /repo and runs them.

A case is {'id', 'rust'}: a module body that defines `pub fn run() -> Vec<Result<String, String>>`
(or nothing to run if `compile_only`). Results: {'status': 'ran', 'out': [(kind, text)..]},
{'status': 'refused', 'msgs': [..]} (the macro or the compiler reported an error inside of the case),
{'status': 'hang'|'crash'}."""
import os, json, subprocess, re, shutil
from concurrent.futures import ThreadPoolExecutor
from . import common

class Infra(Exception): pass

def rust_str(s):
    out = []
    for c in s:
        o = ord(c)
        if c in '"\\': out.append('\\' + c)
        elif 32 <= o < 127: out.append(c)
        else: out.append('\\u{%x}' % o)
    return '"' + ''.join(out) + '"'

_art = {}
def artifacts(crate='rtd'):
    """paths of the compiled harness library and its dependencies"""
    if crate in _art: return _art[crate]
    common.cargo_build(crate)
    d = os.path.join(common.VERIF, 'harness', crate)
    p = subprocess.run(['cargo', 'build', '--offline', '--message-format=json'], cwd=d, env=common.env(), capture_output=True, text=True, timeout=800)
    res = {}
    for l in p.stdout.splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        if j.get('reason') == 'compiler-artifact':
            for f in j['filenames']:
                if f.endswith('.rlib') or f.endswith('.so'): res[j['target']['name']] = f
    if crate not in res: raise Infra(f'no artifact of {crate}: {p.stderr[-2000:]}')
    _art[crate] = res
    return res

PRE = '#![allow(warnings)]\n'
def _source(cases, compile_only):
    lines = [PRE.rstrip('\n')]; spans = {}
    for c in cases:
        a = len(lines) + 1
        lines += [f'pub mod {c["id"]} {{ #[allow(unused_imports)] use rtd::*; #[allow(unused_imports)] use askama::Template;'] + c['rust'].split('\n') + ['}']
        spans[c['id']] = (a, len(lines))
    if not compile_only:
        lines.append('fn main() { std::panic::set_hook(Box::new(|_| {})); ')
        for c in cases: lines.append(f'rtd::reset(); rtd::report("{c["id"]}", || {c["id"]}::run());')
        lines.append('}')
    return '\n'.join(lines) + '\n', spans

def _outer(span):
    """span of the outermost expansion"""
    while span.get('expansion'): span = span['expansion']['span']
    return span

def _compile(src, out, compile_only, manifest_dir, timeout):
    art = artifacts()
    deps = os.path.dirname(art['rtd'])
    cmd = ['rustc', '--edition', '2021', '--error-format=json', '-C', 'debuginfo=0', '-C', 'opt-level=0', '-L', 'dependency=' + os.path.join(common.OUT, 'target', 'debug', 'deps'),
           '--extern', 'rtd=' + art['rtd'], '--extern', 'askama=' + art['askama'], '-C', 'overflow-checks=on', '-C', 'debug-assertions=on', '-C', 'incremental=']
    if compile_only: cmd += ['--crate-type', 'lib', '--emit=metadata', '-o', out + '.rmeta']
    else: cmd += ['-o', out]
    cmd = [x for x in cmd if x not in ('incremental=',)]
    cmd = [x for i, x in enumerate(cmd) if not (x == '-C' and (i + 1 == len(cmd) or cmd[i+1].startswith('-')))]
    e = common.env(); e['CARGO_MANIFEST_DIR'] = manifest_dir
    try: p = subprocess.run(cmd + [src], capture_output=True, text=True, timeout=timeout, errors='replace', env=e, cwd=manifest_dir)
    except subprocess.TimeoutExpired: return None, 'timeout', ''
    errs = []
    for l in p.stderr.splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        if j.get('level') not in ('error', 'error: internal compiler error'): continue
        ls = [_outer(s)['line_start'] for s in j.get('spans', []) if s.get('is_primary')] or [_outer(s)['line_start'] for s in j.get('spans', [])]
        own = [s for s in ls if True]
        errs.append((j.get('message', ''), own, j.get('code') and j['code'].get('code'), [c.get('message', '') for c in j.get('children', [])]))
    return p.returncode, errs, p.stderr[-3000:]

def _chunk(args):
    n, cases, work, compile_only, manifest_dir, timeout = args
    res = {}; cur = list(cases)
    for attempt in range(12):
        if not cur: return res
        src = os.path.join(work, f'b{n}.rs'); out = os.path.join(work, f'b{n}')
        text, spans = _source(cur, compile_only); open(src, 'w', encoding='utf-8').write(text)
        rc, errs, raw = _compile(src, out, compile_only, manifest_dir, timeout)
        if rc == 0: break
        if rc is None or rc < 0 or rc in (134, 139):
            st = 'hang' if rc is None else 'crash'
            if len(cur) == 1: res[cur[0]['id']] = {'status': st, 'msgs': [raw[-600:]]}; return res
            h = len(cur) // 2
            for part in (cur[:h], cur[h:]): res.update(_chunk((f'{n}_{attempt}{"ab"[part is not cur[:h]]}{len(part)}', part, work, compile_only, manifest_dir, timeout)))
            return res
        bad = {}
        for msg, ls, code, kids in errs:
            for l in ls:
                for i, (a, b) in spans.items():
                    if a <= l <= b: bad.setdefault(i, []).append(msg + (' // ' + ' // '.join(kids) if kids and 'panicked' in msg else ''))
        if not bad:
            if len(cur) == 1:
                res[cur[0]['id']] = {'status': 'refused', 'msgs': [e[0] for e in errs] or [raw[-1500:]], 'unmapped': True}; return res
            h = len(cur) // 2
            for k, part in enumerate((cur[:h], cur[h:])): res.update(_chunk((f'{n}_{attempt}{"ab"[k]}', part, work, compile_only, manifest_dir, timeout)))
            return res
        for i, m in bad.items(): res[i] = {'status': 'refused', 'msgs': m}
        cur = [c for c in cur if c['id'] not in bad]
    else:
        if len(cur) == 1: res[cur[0]['id']] = {'status': 'refused', 'msgs': [e[0] for e in errs]}; return res
        h = len(cur) // 2
        for k, part in enumerate((cur[:h], cur[h:])): res.update(_chunk((f'{n}_x{"ab"[k]}', part, work, compile_only, manifest_dir, timeout)))
        return res
    if compile_only:
        for c in cur: res[c['id']] = {'status': 'compiled'}
        return res
    try: p = subprocess.run([out], capture_output=True, text=True, timeout=timeout, errors='replace', cwd=work)
    except subprocess.TimeoutExpired as ex:
        p = None; stdout = (ex.stdout or b'').decode('utf-8', 'replace') if isinstance(ex.stdout, (bytes, type(None))) else ex.stdout
    else: stdout = p.stdout
    got = {}
    for l in stdout.split('\n'):
        if l.startswith('@@\t'):
            f = l.split('\t')
            if len(f) == 5:
                try: got.setdefault(f[1], []).append((f[3], json.loads(f[4])))
                except ValueError: pass
    for c in cur:
        if c['id'] in got: res[c['id']] = {'status': 'ran', 'out': got[c['id']]}
        else: res[c['id']] = {'status': 'hang' if p is None else 'crash', 'msgs': [(p.stderr[-600:] if p else '')]}
    try: os.remove(out)
    except OSError: pass
    return res

def run(pid, cases, compile_only=False, manifest_dir=None, timeout=240, jobs=8, chunk=None, tag=''):
    """id -> result"""
    if not cases: return {}
    artifacts()
    work = os.path.join(common.OUT, 'batch', pid + tag); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    if manifest_dir is None:
        manifest_dir = work
        os.makedirs(os.path.join(work, 'templates'), exist_ok=True)
    chunk = chunk or max(1, (len(cases) + jobs - 1) // jobs)
    parts = [cases[i:i+chunk] for i in range(0, len(cases), chunk)]
    res = {}
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(_chunk, [(i, p, work, compile_only, manifest_dir, timeout) for i, p in enumerate(parts)]): res.update(r)
    return res

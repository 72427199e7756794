"""Builds Verus units from extracted code, runs the verifier and classifies what it says."""
import re, os, json, subprocess, time
from .rsx import Lost

VERIFICATION = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied',
    'assertion failed', 'possible arithmetic underflow/overflow', 'possible division by zero',
    'decreases not satisfied', 'could not prove termination', 'index out of bounds', 'unable to prove',
    'possible bit shift', 'assertion not satisfied', 'loop invariant', 'termination', 'constructed value may fail',
    'possible', 'may fail to meet', 'cannot prove', 'recommendation not met', 'requires not satisfied', 'ensures not satisfied')
LIMIT = ('rlimit', 'resource limit', 'timed out', 'timeout', 'canceled')

class Unit:
    def __init__(self, name):
        self.name = name; self.parts = []; self.funcs = []; self.drops = []; self.trusted = []; self.lemmas = []
        self.uses = ''
    def use(self, text): self.uses += text + '\n'
    def raw(self, text, lemmas=()):
        self.parts.append(('raw', text)); self.lemmas += list(lemmas)
    def drop(self, text): self.drops.append(text)
    def trust(self, text): self.trusted.append(text)
    def fn(self, name, item, sig, body, requires=(), ensures=(), decreases=None, before='', after='', where=None, attrs='', no_vacuity=False, own=None):
        """a function under contract. sig: `fn f<T>(x: T) -> (r: U) where ..` ; body: text between the braces."""
        loc = where or f'{item.src.rel}:{item.lines()[0]}-{item.lines()[1]}'
        self.funcs.append({'name': name, 'where': loc, 'requires': list(requires), 'ensures': list(ensures), **({'decides': sorted(own)} if own else {})})
        self.parts.append(('fn', dict(name=name, sig=sig, body=body, req=list(requires), ens=list(ensures),
                                      dec=decreases, before=before, after=after, attrs=attrs, nv=no_vacuity)))
    def text(self, vacuity=False):
        out = ['#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_unsafe, dead_code, non_snake_case, non_camel_case_types, unused_braces, unreachable_code, unused_assignments, unused_must_use, non_upper_case_globals, non_shorthand_field_patterns, redundant_semicolons, path_statements, unused_comparisons, unused_labels, irrefutable_let_patterns)]',
               'use vstd::prelude::*;', self.uses, 'verus! {']
        for k, p in self.parts:
            if k == 'raw': out.append(p); continue
            out.append(p['before'])
            out.append(f'//@@begin {p["name"]}')
            s = p['attrs'] + '\n' + p['sig']
            if p['req']: s += '\n    requires\n' + ''.join(f'        {r},\n' for r in p['req'])
            ens = p['ens']
            if ens: s += '\n    ensures\n' + ''.join(f'        {r},\n' for r in ens)
            if p['dec']: s += f'\n    decreases {p["dec"]}\n'
            b = p['body']
            # the exit must be reachable: the assertion has to fail
            if vacuity and not p['nv']: b = ' let result__ = {' + b + '}; assert(false); result__ '
            out.append(s + '\n{' + b + '}')
            out.append(f'//@@end {p["name"]}')
            out.append(p['after'])
        out.append('} // verus!\nfn main() {}')
        return '\n'.join(out)

def _run(path, rlimit, seed=None, timeout=300, threads=None):
    cmd = ['verus', path, '--output-json', '--time', '--rlimit', str(rlimit), '--multiple-errors', '10']
    if threads: cmd += ['--num-threads', str(threads)]
    if seed: cmd += ['--smt-option', f'smt.random_seed={seed}']
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path), errors='replace')
    except subprocess.TimeoutExpired:
        return {'status': 'limit', 'errors': [{'msg': 'verifier timed out', 'line': 0}], 'wall': time.time() - t, 'out': '', 'verified': 0, 'smt_ms': 0, 'cmd': ' '.join(cmd)}
    except OSError as e:
        return {'status': 'lost', 'errors': [{'msg': str(e), 'line': 0}], 'wall': 0, 'out': '', 'verified': 0, 'smt_ms': 0, 'cmd': ' '.join(cmd)}
    wall = time.time() - t
    try: j = json.loads(p.stdout)
    except ValueError: j = {}
    vr = j.get('verification-results') or {}
    errs = []
    for m in re.finditer(r'^error(\[E\d+\])?: (.*?)\n(?:\s*-->\s*(\S+?):(\d+):(\d+))?', p.stderr, re.M):
        msg = m.group(2)
        if msg.startswith('aborting due to') or msg.startswith('could not compile'): continue
        seg = p.stderr[m.start():]
        k = re.search(r'\n(?=error|warning|note: )', seg); seg = seg[:k.start()] if k else seg
        # all lines that the message points at: the failing function is where the body is
        lines = [int(x) for x in re.findall(r'^\s*(\d+)\s*\|', seg, re.M)]
        errs.append({'msg': msg, 'code': m.group(1), 'line': int(m.group(4) or 0), 'lines': lines, 'text': seg[:1500]})
    smt = 0
    try: smt = j['times-ms']['smt']['total']
    except (KeyError, TypeError): pass
    if vr.get('success') and not errs: status = 'verified'
    elif any(e['code'] for e in errs) or not vr or vr.get('encountered-vir-error'): status = 'lost'
    else:
        def kind(e):
            if any(x in e['msg'] for x in LIMIT): return 'limit'
            if any(x in e['msg'] for x in VERIFICATION): return 'rejected'
            return 'lost'
        ks = {kind(e) for e in errs}
        status = 'lost' if 'lost' in ks or not errs else ('rejected' if 'rejected' in ks else 'limit')
    return {'status': status, 'errors': errs, 'wall': wall, 'out': p.stderr[-20000:], 'verified': vr.get('verified', 0), 'nerr': vr.get('errors', 0), 'smt_ms': smt, 'cmd': ' '.join(cmd)}

def functions_at(text, errs):
    """names of contract functions (or items) that the error lines are in"""
    lines = text.split('\n'); res = []
    spans = []; cur = None
    for n, l in enumerate(lines, 1):
        if l.startswith('//@@begin '): cur = (l[10:].strip(), n)
        elif l.startswith('//@@end ') and cur: spans.append((cur[0], cur[1], n)); cur = None
    for e in errs:
        nm = None
        for name, a, b in spans:
            if any(a <= x <= b for x in [e['line']] + e.get('lines', [])): nm = name; break
        e['function'] = nm
        src = lines[e['line']-1].strip() if 0 < e['line'] <= len(lines) else ''
        e['clause'] = src
    return errs

def decide(unit, workdir, quick=True):
    """-> dict(status verified/rejected/lost, ...)"""
    os.makedirs(workdir, exist_ok=True)
    text = unit.text(); path = os.path.join(workdir, unit.name + '.rs')
    open(path, 'w').write(text)
    # nothing that the verifier is told to believe may hide in extracted code
    end = time.time() + 330
    r = _run(path, 30, timeout=240)
    if r['status'] in ('rejected', 'limit'):
        for rl, seed in ((90, 7), (120, 23)):
            if time.time() > end - 60: break
            r2 = _run(path, rl, seed, timeout=end - time.time())
            if r2['status'] == 'verified': r = r2; break
            if r['status'] == 'limit': r = r2
    functions_at(text, r['errors'])
    r['unit'] = path
    if r['status'] == 'verified':
        if r['verified'] == 0: r['status'] = 'lost'; r['errors'] = [{'msg': 'no obligations', 'line': 0}]
        vt = unit.text(vacuity=True); vp = os.path.join(workdir, unit.name + '_vacuity.rs')
        open(vp, 'w').write(vt)
        v = _run(vp, 30)
        functions_at(vt, v['errors'])
        failed = {e.get('function') for e in v['errors']}
        want = {p['name'] for k, p in unit.parts if k == 'fn' and not p['nv'] and p['ens']}
        vac = sorted(want - failed) if v['status'] in ('rejected', 'limit') else (sorted(want) if v['status'] == 'verified' else [])
        r['vacuity_checked'] = sorted(want & failed); r['vacuous'] = vac
        r['wall'] += v['wall']
        if v['status'] == 'lost': r['vacuity_note'] = 'vacuity variant not accepted by the front end'
        # on the unchanged tree this never happens; a contract that became vacuous proves nothing
        if vac: r['status'] = 'lost'; r['errors'] = [{'msg': 'vacuous contract: ' + ', '.join(vac), 'line': 0}]
    return r

def trusted_scan(text):
    """assumptions that the unit itself contains, for the evidence"""
    n = {k: len(re.findall(k, text)) for k in (r'external_body', r'\bassume\(', r'\badmit\(', r'assume_specification', r'axiom fn', r'external_type_specification')}
    return {k.replace('\\b', '').replace('\\(', '').replace(' ', '_'): v for k, v in n.items()}

"""Expands nom's combinators (nom 7, `complete` versions) in place, by their definitions, so that a parser written with
them becomes first-order code. `COMB(..)(i)` is replaced by what COMB does with the input i; nothing else is changed."""
import re
from .rsx import *
from .rw import *

SEQ = {'pair', 'tuple', 'preceded', 'terminated', 'delimited', 'separated_pair'}
COMB = SEQ | {'alt', 'map', 'map_res', 'opt', 'cut', 'ws', 'many0', 'many1', 'separated_list0', 'separated_list1', 'fold_many0', 'value', 'recognize', 'consumed', 'not', 'peek', 'tag', 'char', 'keyword', 'complete', 'take_till', 'skip_till', 'one_of', 'is_not', 'satisfy', 'anychar', 'success'}

def split_c(t):
    """split_args, where the parameters of a closure stay together"""
    out = []
    for a in split_args(t):
        if out and re.match(r'^(move\s*)?\|[^|]*$', mask(out[-1])): out[-1] += ', ' + a
        else: out.append(a)
    return out
class Nom:
    """hooks: what to emit for the elementary parsers; inv: the annotations of the repetitions, in order of their expansion"""
    def __init__(self, what, invs=(), after=None, prims=None, local=None):
        self.what = what; self.invs = list(invs); self.n = 0; self.used = 0; self.env = [{}]; self.prims = prims or {}; self.local = local or {}
    def fresh(self, p='z'): self.n += 1; return f'{p}{self.n}_'
    def lost(self, m): raise Lost(f'{self.what}: {m}')
    # -- the parser expressions
    def split(self, p):
        """(name, [args]) of NAME(args), or None"""
        g = re.match(r'^([A-Za-z_]\w*)\s*\(', p)
        if not g: return None
        m = mask(p); c = match_close(m, g.end() - 1)
        return (g.group(1), split_c(p[g.end():c])) if c == len(p.rstrip()) - 1 else None
    def members(self, a):
        """of a tuple (a, b, ..)"""
        a = a.strip()
        if not a.startswith('(') or match_close(mask(a), 0) != len(a) - 1: self.lost('no tuple: ' + a[:40])
        return split_c(a[1:-1])
    def comp(self, p, i):
        """the result of applying the parser p to the input i (a variable)"""
        p = p.strip()
        if re.match(r'^(move\s*)?\|', p): return self.call(p, [i])
        if p.startswith('(') and match_close(mask(p), 0) == len(p) - 1 and len(split_args(p[1:-1])) == 1: return self.comp(p[1:-1], i)
        g = re.match(r'^&mut\s+(\w+)$', p)
        if g: p = g.group(1)
        if re.match(r'^\w+$', p):
            d = self.look(p)
            if d is not None: return self.comp(d, i) if isinstance(d, str) else self.inline(d, [i])
        if p in self.prims: return self.prims[p].replace('@', i)
        if re.match(r"^[\w:#<>']+$", p): return f'{p}({i})'
        s = self.split(p)
        if s is None or s[0] not in COMB: self.lost('parser ' + re.sub(r'\s+', ' ', p)[:60])
        f, a = s; E = 'nom::Err::Error'
        key = re.sub(r'\s', '', p)
        if key in self.prims: return self.prims[key].replace('@', i)
        if f in ('pair', 'tuple', 'preceded', 'terminated', 'delimited', 'separated_pair'):
            ps = self.members(a[0]) if f == 'tuple' else a
            keep = {'pair': [0, 1], 'preceded': [1], 'terminated': [0], 'delimited': [1], 'separated_pair': [0, 2]}.get(f, list(range(len(ps))))
            return self.seq(ps, i, keep)
        if f == 'alt': return self.alts(self.members(a[0]), i)
        if f == 'cut': x = self.fresh(); return f'(match {self.comp(a[0], i)} {{ Err({E}({x})) => Err(nom::Err::Failure({x})), {x} => {x} }})'
        if f == 'complete': x = self.fresh(); return f'(match {self.comp(a[0], i)} {{ Err(nom::Err::Incomplete) => Err({E}(ec())), {x} => {x} }})'
        if f == 'ws': j, k, v, e = (self.fresh() for _ in range(4)); return f'({{ let {j} = skip_ws({i}); match {self.comp(a[0], j)} {{ Ok(({k}, {v})) => Ok((skip_ws({k}), {v})), Err({e}) => Err({e}) }} }})'
        if f == 'opt': j, v, e = (self.fresh() for _ in range(3)); return f'(match {self.comp(a[0], i)} {{ Ok(({j}, {v})) => Ok(({j}, Some({v}))), Err({E}(_)) => Ok(({i}, None)), Err({e}) => Err({e}) }})'
        if f == 'not': j, v, e = (self.fresh() for _ in range(3)); return f'(match {self.comp(a[0], i)} {{ Ok(_) => Err({E}(ec())), Err({E}(_)) => Ok(({i}, ())), Err({e}) => Err({e}) }})'
        if f == 'peek': v, e = self.fresh(), self.fresh(); return f'(match {self.comp(a[0], i)} {{ Ok((_, {v})) => Ok(({i}, {v})), Err({e}) => Err({e}) }})'
        if f == 'recognize': j, e = self.fresh(), self.fresh(); return f'(match {self.comp(a[0], i)} {{ Ok(({j}, _)) => Ok(({j}, between({i}, {j}))), Err({e}) => Err({e}) }})'
        if f == 'consumed': j, v, e = (self.fresh() for _ in range(3)); return f'(match {self.comp(a[0], i)} {{ Ok(({j}, {v})) => Ok(({j}, (between({i}, {j}), {v}))), Err({e}) => Err({e}) }})'
        if f == 'value': j, e = self.fresh(), self.fresh(); return f'(match {self.comp(a[1], i)} {{ Ok(({j}, _)) => Ok(({j}, {self.code(a[0])})), Err({e}) => Err({e}) }})'
        if f == 'map': j, v, e = (self.fresh() for _ in range(3)); return f'(match {self.comp(a[0], i)} {{ Ok(({j}, {v})) => Ok(({j}, {self.call(a[1], [v])})), Err({e}) => Err({e}) }})'
        if f == 'map_res': j, v, e, w = (self.fresh() for _ in range(4)); return f'(match {self.comp(a[0], i)} {{ Ok(({j}, {v})) => match {self.call(a[1], [v])} {{ Ok({w}) => Ok(({j}, {w})), Err(_) => Err({E}(ec())) }}, Err({e}) => Err({e}) }})'
        if f == 'tag': return f'tag_({a[0]}, {i})'
        if f == 'char': return f'char_({a[0]}, {i})'
        if f == 'keyword': return f'keyword({a[0]}, {i})'
        if f == 'success': return f'Ok(({i}, {a[0]}))'
        if f == 'satisfy': c, j = self.fresh(), self.fresh(); return f'(match first_({i}) {{ Some(({c}, {j})) => if {self.call(a[0], [c])} {{ Ok(({j}, {c})) }} else {{ Err({E}(ec())) }}, None => Err({E}(ec())) }})'
        if f == 'many0': return self.loop('many0', a[0], None, i)
        if f == 'many1': return self.loop('many1', a[0], None, i)
        if f == 'separated_list0': return self.loop('sep0', a[1], a[0], i)
        if f == 'separated_list1': return self.loop('sep1', a[1], a[0], i)
        if f == 'fold_many0': return self.fold(a, i)
        if f == 'skip_till': return self.skip(a[0], i)
        self.lost('combinator ' + f)
    def seq(self, ps, i, keep):
        js = [self.fresh('j') for _ in ps]; vs = [self.fresh('v') for _ in ps]
        r = ', '.join(vs[k] for k in keep); r = r if len(keep) == 1 else f'({r})'
        # expand in order of places
        parts = [self.comp(p, i if k == 0 else js[k-1]) for k, p in enumerate(ps)]
        out = f'Ok(({js[-1]}, {r}))'
        for k in range(len(ps) - 1, -1, -1):
            e = f'e{self.n}_{k}_'
            out = f'match {parts[k]} {{ Ok(({js[k]}, {vs[k]})) => {out}, Err({e}) => Err({e}) }}'
        return f'({out})'
    def alts(self, ps, i):
        parts = [self.comp(p, i) for p in ps]; out = parts[-1]
        for p in reversed(parts[:-1]): x = self.fresh(); out = f'(match {p} {{ Err(nom::Err::Error(_)) => {out}, {x} => {x} }})'
        return out
    def inv(self, beg, cur, acc, res, go):
        if self.used >= len(self.invs): self.lost('a repetition without annotation')
        t = self.invs[self.used]; self.used += 1
        pre = ''
        if isinstance(t, tuple): pre, t = t
        s = lambda x: x.replace('BEG', beg).replace('CUR', cur).replace('ACC', acc).replace('RES', res).replace('GO', go)
        return s(pre), s(t)
    def loop(self, kind, p, sep, i):
        n = self.fresh('').rstrip('_'); beg, cur, acc, res, go, nx, x, e = (f'{w}{n}_' for w in ('beg', 'cur', 'acc', 'res', 'go', 'nx', 'x', 'e'))
        pre, inv = self.inv(beg, cur, acc, res, go)
        one = lambda frm, then, stop: f'match {self.comp(p, frm)} {{ Err(nom::Err::Error(_)) => {{ {stop} }} Err({e}) => {{ {res} = Some({e}); {go} = false; }} Ok(({nx}, {x})) => {{ {then} }} }}'
        bad = f'{res} = Some(nom::Err::Error(ec())); {go} = false;'
        take = f'{acc}.push({x}); {cur} = {nx};'
        head = f'let {beg} = {i}; let mut {acc} = Vec::new(); let mut {cur} = {beg}; let mut {res}: Option<nom::Err> = None; let mut {go} = true; '
        used = self.used
        def again(f):
            # the body is expanded once more for the first element: the annotations inside are the same
            self.used = used; return f()
        if kind == 'many0': body = f'if same_place({nx}, {cur}) {{ {bad} }} else {{ {take} }}'; l = one(cur, body, f'{go} = false;'); first = ''
        elif kind == 'many1':
            l = one(cur, f'if same_place({nx}, {cur}) {{ {bad} }} else {{ {take} }}', f'{go} = false;')
            first = again(lambda: one(cur, take, bad))
        else:
            s, y, e2 = f's{n}_', f'y{n}_', f'f{n}_'
            sp = self.comp(sep, cur); used = self.used
            l = f'match {sp} {{ Err(nom::Err::Error(_)) => {{ {go} = false; }} Err({e2}) => {{ {res} = Some({e2}); {go} = false; }} Ok(({s}, {y})) => {{ if same_place({s}, {cur}) {{ {bad} }} else {{ {one(s, take, f"{go} = false;")} }} }} }}'
            first = again(lambda: one(cur, take, f'{go} = false;' if kind == 'sep0' else bad))
        return f'({{ {head}{pre} {first} while {go} invariant {inv} {{ {l} }} match {res} {{ Some({e}) => Err({e}), None => Ok(({cur}, {acc})) }} }})'
    def fold(self, a, i):
        n = self.fresh('').rstrip('_'); beg, cur, acc, res, go, nx, x, e = (f'{w}{n}_' for w in ('beg', 'cur', 'acc', 'res', 'go', 'nx', 'x', 'e'))
        pre, inv = self.inv(beg, cur, acc, res, go)
        bad = f'{res} = Some(nom::Err::Error(ec())); {go} = false;'
        init = closure(a[1])[1]
        return (f'({{ let {beg} = {i}; let mut {acc} = {init}; let mut {cur} = {beg}; let mut {res}: Option<nom::Err> = None; let mut {go} = true; {pre} while {go} invariant {inv} '
                f'{{ match {self.comp(a[0], cur)} {{ Err(nom::Err::Error(_)) => {{ {go} = false; }} Err({e}) => {{ {res} = Some({e}); {go} = false; }} Ok(({nx}, {x})) => {{ if same_place({nx}, {cur}) {{ {bad} }} else {{ {acc} = {self.call(a[2], [acc, x])}; {cur} = {nx}; }} }} }} }} '
                f'match {res} {{ Some({e}) => Err({e}), None => Ok(({cur}, {acc})) }} }})')
    def skip(self, p, i):
        """askama's skip_till: the first place where p succeeds (proved for C22)"""
        n = self.fresh('').rstrip('_'); beg, cur, got, res, go, nx, x, e = (f'{w}{n}_' for w in ('beg', 'cur', 'got', 'res', 'go', 'nx', 'x', 'e'))
        pre, inv = self.inv(beg, cur, got, res, go)
        return (f'({{ let {beg} = {i}; let mut {cur} = {beg}; let mut {res}: Option<nom::Err> = None; let mut {got} = None; let mut {go} = true; {pre} while {go} invariant {inv} '
                f'{{ match {self.comp(p, cur)} {{ Err(nom::Err::Error(_)) => {{ match anychar({cur}) {{ Ok(({nx}, _)) => {{ {cur} = {nx}; }} Err({e}) => {{ {res} = Some({e}); {go} = false; }} }} }} Err({e}) => {{ {res} = Some({e}); {go} = false; }} Ok(({nx}, {x})) => {{ {got} = Some(({nx}, {x})); {go} = false; }} }} }} '
                f'match {got} {{ Some({x}) => Ok(({cur}, {x})), None => match {res} {{ Some({e}) => Err({e}), None => Err(nom::Err::Error(ec())) }} }} }})')
    # -- functions and closures
    def look(self, n):
        for e in reversed(self.env):
            if n in e: return e[n]
        return None
    def call(self, f, args):
        f = f.strip()
        if re.match(r'^(move\s*)?\|', f):
            p, b = closure(f); ps = split_args(p)
            return self.inline((ps, b), args)
        if re.match(r'^\w+$', f):
            d = self.look(f)
            if d is not None and not isinstance(d, str): return self.inline(d, args)
            if d is not None: return self.call(d, args)
        return f'{f}({", ".join(args)})'
    def inline(self, d, args):
        ps, b = d
        if len(ps) != len(args): self.lost('arguments of a closure')
        b = b.strip()
        if b.startswith('{') and match_close(mask(b), 0) == len(b) - 1: b = b[1:-1]
        lets = ''.join(f'let {p} = {a}; ' for p, a in zip((re.sub(r':\s*.*$', '', p.strip(), flags=re.S) for p in ps), args) if p != a and p not in ('_',))
        if re.search(r'\breturn\b', mask(b)): self.lost('return in a closure')
        self.env.append({})
        # a parameter hides a parser of the same name
        for p in ps: self.env[-1].pop(p.strip(), None)
        r = f'({{ {lets}{self.noq(self.code(b))} }})'
        self.env.pop()
        return r
    def noq(self, b):
        """`let P = E?; R` -> match, at the level of statements"""
        m = mask(b); d = 0; st = 0; k = 0
        while k < len(m):
            c = m[k]
            if c in PAIR: k = match_close(m, k)
            elif c == ';':
                s = b[st:k]
                if mask(s).rstrip().endswith('?'):
                    g = re.match(r'^\s*let\s+(.*?)\s*=\s*(?=\S)', s, re.S)
                    pat, e = (g.group(1), s[g.end():]) if g else ('_', s)
                    e = e.rstrip()[:-1]; x = self.fresh('q')
                    return b[:st] + f' match {e} {{ Err({x}) => Err({x}), Ok({x}) => {{ let {pat} = {x}; {self.noq(b[k+1:])} }} }}'
                st = k + 1
            k += 1
        if '?' in re.sub(r"'\?'", '', m[st:]): self.lost('? in a closure: ' + b[st:st+60])
        return b
    # -- code
    def code(self, b):
        """replaces all applied parsers in b, and drops the definitions of local parsers"""
        b = self.defs(b); start = 0
        while True:
            m = mask(b); best = None
            names = set(COMB)
            for e in self.env: names |= set(e)
            for g in re.finditer(r'(?<![\w.:])([A-Za-z_]\w*)\s*\(', m[start:]):
                if g.group(1) not in names: continue
                a = start + g.start(); o = start + g.end() - 1; c = match_close(m, o); n = g.group(1)
                d = self.look(n)
                if d is not None:
                    args = split_args(b[o+1:c])
                    if isinstance(d, str):
                        if len(args) != 1: self.lost('arguments of ' + n)
                        x = self.fresh('i'); r = f'({{ let {x} = {args[0]}; {self.comp(d, x)} }})'
                    else: r = self.inline(d, args)
                    best = (a, c + 1, r); break
                t = re.match(r'\s*\(', m[c+1:])
                if not t: continue
                o2 = c + t.end(); c2 = match_close(m, o2); arg = b[o2+1:c2]
                x = self.fresh('i'); best = (a, c2 + 1, f'({{ let {x} = {arg}; {self.comp(b[a:c+1], x)} }})'); break
            if not best: return b
            a, z, r = best; b = b[:a] + r + b[z:]; start = a + len(r)
    def defs(self, b):
        """let-bound parsers and nested functions"""
        while True:
            m = mask(b); d = None
            for g in re.finditer(r'(?:#\[[^\]]*\]\s*)?\bfn\s+(\w+)\s*(?:<[^>]*>)?\s*\(', m):
                if self.depth(m, g.start()): continue
                o = g.end() - 1; c = match_close(m, o); k = m.index('{', c); z = match_close(m, k)
                n = g.group(1); ps = [re.sub(r':.*$', '', p, flags=re.S).strip() for p in split_args(b[o+1:c])]
                if n not in self.local: self.env[-1][n] = ([re.sub(r'^mut\s+', '', p) if False else p for p in ps], b[k+1:z])
                d = (g.start(), z + 1); break
            if not d:
                for g in re.finditer(r'\blet\s+(?:mut\s+)?(\w+)\s*=\s*(?=(?:move\s*)?\||(?:' + '|'.join(sorted(COMB)) + r')\s*\()', m):
                    if self.depth(m, g.start()): continue
                    k = g.end()
                    while m[k] != ';':
                        if m[k] in PAIR: k = match_close(m, k)
                        k += 1
                    e = b[g.end():k].strip()
                    if e.startswith('|') or e.startswith('move'): p, x = closure(e); v = (split_args(p), x)
                    else:
                        s = self.split(e)
                        if not s: continue
                        v = e
                    # a parser that names an earlier one of the same name keeps its meaning
                    self.env[-1][g.group(1)] = v; d = (g.start(), k + 1); break
            if not d: return b
            b = b[:d[0]] + b[d[1]:]
    def depth(self, m, i):
        d = 0
        for c in m[:i]:
            if c in PAIR: d += 1
            elif c in ')]}': d -= 1
        return d

"""Rewrites of extracted code into the subset that the verifier takes. Each is a fixed, local transformation."""
import re
from .rsx import *

OPEN = {')': '(', ']': '[', '}': '{'}
def match_open(m, i):
    """i: index of a closing bracket in masked text"""
    d = []
    k = i
    while k >= 0:
        c = m[k]
        if c in OPEN: d.append(OPEN[c])
        elif d and c == d[-1]:
            d.pop()
            if not d: return k
        k -= 1
    raise Lost('unbalanced bracket')

def receiver(m, j):
    """start of the postfix expression that ends before index j (where a `.` stands)"""
    k = j
    while k > 0:
        while k > 0 and m[k-1].isspace(): k -= 1
        c = m[k-1]
        if c in ')]':
            k = match_open(m, k - 1)
            if k > 0 and (m[k-1].isalnum() or m[k-1] in '_!'): continue
            if k > 0 and m[k-1] in ')]?': continue
            # a parenthesized expression of its own, or a turbofish call
            if m[:k].endswith('>') and '::<' in m[:k]:
                k = m.rindex('::<', 0, k)
                continue
            return k
        if c == '}':
            raise Lost('receiver is a block')
        if c == '?': k -= 1; continue
        if c == '"':
            k = m.rindex('"', 0, k - 1); return k
        if c.isalnum() or c == '_' or c == '!':
            while k > 0 and (m[k-1].isalnum() or m[k-1] in '_!'): k -= 1
            p = m[:k].rstrip()
            if p.endswith('.') and not p.endswith('..'): k = len(p) - 1; continue
            if p.endswith('::'):
                k = len(p) - 2
                continue
            return k
        return k
    return 0

def closure(arg):
    """`|p| body` -> (p, body)"""
    g = re.match(r'^\s*(?:move\s*)?\|', mask(arg))
    if not g: raise Lost(f'no closure: {arg[:40]}')
    m = mask(arg); a = g.end(); d = 0; k = a
    while True:
        if m[k] in '([{': k = match_close(m, k)
        elif m[k] == '|': break
        k += 1
    return arg[a:k].strip(), arg[k+1:].strip()

def method_calls(body, name, conv, limit=200):
    """rewrites each E.name(args) as conv(E, [args]) from the left; conv returns None to leave it"""
    start = 0
    for _ in range(limit):
        m = mask(body); mm = re.compile(rf'\.\s*{name}\s*\(').search(m, start)
        if not mm: return body
        c = match_close(m, mm.end() - 1); a = split_args(body[mm.end():c]); k = receiver(m, mm.start())
        r = conv(body[k:mm.start()].strip(), a)
        if r is None: start = mm.end(); continue
        body = body[:k] + r + body[c+1:]; start = k
    raise Lost(f'too many .{name}(')

def opt_map(body):
    """E.map(|p| B) on an Option -> match"""
    def f(e, a):
        p, b = closure(a[0]); return f'(match {e} {{ Some({p}) => Some({b}), None => None }})'
    return method_calls(body, 'map', f)
def res_map_err(body):
    """E.map_err(|p| B) -> match"""
    def f(e, a):
        p, b = closure(a[0]); return f'(match {e} {{ Ok(x__) => Ok(x__), Err({p}) => Err({b}) }})'
    return method_calls(body, 'map_err', f)

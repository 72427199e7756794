"""Extraction of the filters of the shape `fn f(s: impl ToString, ..) { fn f(s: String, ..) -> .. { .. } f(s.to_string(), ..) }`."""
import re
from .rsx import *

F = 'askama/src/filters/mod.rs'

def inner_outer(src, name):
    outer = src.find(rf'pub\s+fn\s+{name}\b'); inner = outer.sub(rf'fn\s+{name}\b')
    tail = strip_comments(src.text[inner.end:outer.end - 1]).strip()
    pre = strip_comments(src.text[outer.head_end + 1:inner.start]).strip()
    if pre and not re.match(r'^(#\[[^\]]*\]\s*)*$', pre): raise Lost(f'{name}: statements before the inner function')
    return outer, inner, tail

def params(head):
    """[(name, type)] of a function header"""
    m = mask(head); i = m.index('(', re.search(r'fn\s+\w+', m).end())
    # skip generics
    g = re.search(r'fn\s+\w+\s*<', m)
    if g:
        d = 0; k = g.end() - 1
        while True:
            if m[k] == '<': d += 1
            elif m[k] == '>' and m[k-1] != '-':
                d -= 1
                if d == 0: break
            k += 1
        i = m.index('(', k)
    c = match_close(m, i); res = []
    for a in split_args(head[i+1:c]):
        n, _, t = a.partition(':'); res.append((n.strip(), re.sub(r'\s+', ' ', t.strip())))
    return res

def while_range(body):
    """`for _ in 0..E {` -> counting while loop; returns (body, [bound])"""
    n = 0; bounds = []
    while True:
        m = mask(body); mm = re.search(r'for\s+_\w*\s+in\s+0\s*\.\.\s*(\w+)\s*\{', m)
        if not mm: return body, bounds
        n += 1; v = f'rep{n}_'
        body = body[:mm.start()] + f'let mut {v}: usize = 0; while {v} < {mm.group(1)} {{ {v} += 1;' + body[mm.end():]
        bounds.append(mm.group(1))

def format_to(body, conv):
    """rewrites format!/format_args!/write! with inline arguments through conv(kind, dest, pieces)"""
    while True:
        m = mask(body); mm = re.search(r'\b(format|format_args|write)!\s*\(', m)
        if not mm: return body
        c = match_close(m, mm.end() - 1); a = split_args(body[mm.end():c]); kind = mm.group(1); dest = None
        if kind == 'write': dest = a.pop(0)
        lit = a.pop(0)
        g = re.match(r'^"(.*)"$', lit, re.S)
        if not g: raise Lost(f'{kind}! with {lit}')
        s = g.group(1); pieces = []; cur = ''; i = 0
        while i < len(s):
            if s.startswith('{{', i) or s.startswith('}}', i): cur += s[i]; i += 2
            elif s[i] == '{':
                j = s.index('}', i); n = s[i+1:j]
                if cur: pieces.append(('lit', cur)); cur = ''
                if n == '':
                    if not a: raise Lost(f'{kind}!: arguments')
                    pieces.append(('arg', a.pop(0)))
                elif re.match(r'^\w+$', n) and not n.isdigit(): pieces.append(('arg', n))
                else: raise Lost(f'{kind}! with {{{n}}}')
                i = j + 1
            elif s[i] == '\\': cur += s[i:i+2]; i += 2
            else: cur += s[i]; i += 1
        if cur: pieces.append(('lit', cur))
        if a: raise Lost(f'{kind}!: arguments')
        body = body[:mm.start()] + conv(kind, dest, pieces) + body[c+1:]

"""Mechanical extraction of items from Rust sources (no parsing library is available offline).

A `Src` masks comments, strings and character literals (same length), so that brackets can be
matched and items found by their headers. Everything that this module takes from a file is the
text of that file; the rewrites applied afterwards are listed by the units that request them."""
import re, os

class Lost(Exception):
    """An anchor in /repo was not found: the code was restructured, the proof cannot be redone."""

def mask(t):
    out = list(t); i = 0; n = len(t)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n': out[k] = ' '
    while i < n:
        c = t[i]
        if t.startswith('//', i):
            j = t.find('\n', i); j = n if j < 0 else j
            blank(i, j); i = j
        elif t.startswith('/*', i):
            d = 1; j = i + 2
            while j < n and d:
                if t.startswith('/*', j): d += 1; j += 2
                elif t.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            blank(i, j); i = j
        elif re.match(r'b?r#*"', t[i:i+12]) and (i == 0 or not (t[i-1].isalnum() or t[i-1] == '_')):
            m = re.match(r'b?r(#*)"', t[i:]); h = m.group(1)
            j = t.find('"' + h, i + m.end()); j = n if j < 0 else j + 1 + len(h)
            blank(i + m.end(), j - 1 - len(h)); i = j
        elif c == '"':
            j = i + 1
            while j < n and t[j] != '"': j += 2 if t[j] == '\\' else 1
            blank(i + 1, j); i = j + 1
        elif c == "'":
            m = re.match(r"'(\\u\{[^}]*\}|\\x..|\\.|[^\\'])'", t[i:i+14], re.S)
            if m: blank(i + 1, i + m.end() - 1); i += m.end()
            else: i += 1
        else: i += 1
    return ''.join(out)

PAIR = {'(': ')', '[': ']', '{': '}'}
def match_close(m, i):
    """m: masked text, i: index of an opening bracket; returns the index of its closing bracket."""
    d = []
    for k in range(i, len(m)):
        c = m[k]
        if c in PAIR: d.append(PAIR[c])
        elif d and c == d[-1]:
            d.pop()
            if not d: return k
    raise Lost('unbalanced bracket')

def strip_comments(t):
    m = mask(t); out = []; i = 0; n = len(t)
    while i < n:
        if m[i] == ' ' and t.startswith('//', i):
            j = t.find('\n', i); j = n if j < 0 else j; i = j
        elif m[i] == ' ' and t.startswith('/*', i):
            d = 1; j = i + 2
            while j < n and d:
                if t.startswith('/*', j): d += 1; j += 2
                elif t.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j
        else: out.append(t[i]); i += 1
    return ''.join(out)

class Item:
    def __init__(self, src, start, head_end, end, attrs=''):
        self.src = src; self.start = start; self.head_end = head_end; self.end = end; self.attrs = attrs
    @property
    def text(self): return self.src.text[self.start:self.end]
    @property
    def head(self): return self.src.text[self.start:self.head_end].strip()
    @property
    def body(self):
        """text between the braces"""
        return self.src.text[self.head_end + 1:self.end - 1]
    def lines(self):
        t = self.src.text
        return (t.count('\n', 0, self.start) + 1, t.count('\n', 0, self.end) + 1)
    def sub(self, regex):
        return self.src.find(regex, self.head_end + 1, self.end - 1)
    def subs(self, regex):
        return list(self.src.iter(regex, self.head_end + 1, self.end - 1))

class Src:
    def __init__(self, repo, rel):
        self.rel = rel; self.path = os.path.join(repo, rel)
        try: self.text = open(self.path, encoding='utf-8').read()
        except OSError: raise Lost(f'{rel}: no such file')
        self.m = mask(self.text)
    def iter(self, regex, lo=0, hi=None):
        """items whose header (masked text from a token boundary up to `{` or `;`) matches regex"""
        hi = len(self.text) if hi is None else hi
        for mm in re.finditer(regex, self.m[lo:hi]):
            s = lo + mm.start(); k = lo + mm.end(); depth = 0
            if s > 0 and (self.m[s-1].isalnum() or self.m[s-1] == '_'): continue
            # header runs to the first `{` or `;` outside of parentheses/brackets
            j = s
            while j < hi:
                c = self.m[j]
                if c in '([': j = match_close(self.m, j)
                elif c == '{' or c == ';': break
                j += 1
            if j >= hi or j < k - 1: 
                if j >= hi: continue
            if self.m[j] == ';': yield Item(self, s, j, j + 1)
            else: yield Item(self, s, j, match_close(self.m, j) + 1)
    def find(self, regex, lo=0, hi=None):
        for it in self.iter(regex, lo, hi): return it
        raise Lost(f'{self.rel}: no item matches /{regex}/')

def find_block(text, regex, nth=0):
    """first `{...}` after the nth match of regex in text: (match start, open index, close index)"""
    m = mask(text)
    ms = list(re.finditer(regex, m))
    if len(ms) <= nth: raise Lost(f'no /{regex}/')
    mm = ms[nth]; j = mm.end() - 1 if m[mm.end()-1] == '{' else mm.end()
    while j < len(m) and m[j] != '{':
        if m[j] in '([': j = match_close(m, j)
        j += 1
    if j >= len(m): raise Lost(f'no block after /{regex}/')
    return mm.start(), j, match_close(m, j)

def rewrite(text, old, new, count=None, regex=True, optional=False):
    """rewrites code (not inside of comments or strings unless the pattern itself has them)"""
    if not regex: old = re.escape(old)
    res, n = re.subn(old, new, text, flags=re.S)
    if n == 0 and not optional: raise Lost(f'no /{old}/ to rewrite')
    if count is not None and n != count: raise Lost(f'/{old}/ occurs {n} times')
    return res

def split_args(t):
    m = mask(t); out = []; last = 0; i = 0
    while i < len(m):
        if m[i] in PAIR: i = match_close(m, i)
        elif m[i] == ',': out.append(t[last:i].strip()); last = i + 1
        i += 1
    if t[last:].strip(): out.append(t[last:].strip())
    return out

def slice_indexing(text):
    """`&E[a..b]` -> `str_range(E, a, b)`; `&E[a..]` -> `str_from(E, a)`; `&E[..b]` -> `str_to(E, b)`
    where E is a path expression."""
    while True:
        m = mask(text)
        mm = re.search(r'&\s*((?:self\.)?[A-Za-z_][A-Za-z0-9_.]*)\[', m)
        pos = 0; done = True
        for mm in re.finditer(r'&\s*((?:self\.)?[A-Za-z_][A-Za-z0-9_.]*)\[', m):
            o = mm.end() - 1; c = match_close(m, o); inner = text[o+1:c]; im = mask(inner)
            k = im.find('..')
            if k < 0 or im[k+2:k+3] == '=': continue
            a, b = inner[:k].strip(), inner[k+2:].strip(); e = mm.group(1)
            if a and b: r = f'str_range({e}, {a}, {b})'
            elif a: r = f'str_from({e}, {a})'
            elif b: r = f'str_to({e}, {b})'
            else: continue
            text = text[:mm.start()] + r + text[c+1:]; done = False; break
        if done: return text

def loop_positions(body):
    """(keyword, start, open brace) of each loop in order of occurrence"""
    m = mask(body); out = []
    for mm in re.finditer(r'\b(while|for|loop)\b', m):
        if mm.group(1) == 'for' and re.match(r'for\s*<', m[mm.start():]): continue
        j = mm.end()
        while j < len(m) and m[j] != '{':
            if m[j] in '([': j = match_close(m, j)
            j += 1
        out.append((mm.group(1), mm.start(), j))
    return out

def add_invariants(body, invs):
    """invs: list of texts, one per loop in order; inserted before the loop's brace"""
    loops = loop_positions(body)
    if len(loops) != len(invs): raise Lost(f'{len(loops)} loops where the annotations are for {len(invs)}')
    for (kw, s, o), inv in sorted(zip(loops, invs), reverse=True):
        body = body[:o] + '\n' + inv + '\n' + body[o:]
    return body

import re
from ..rsx import *
from ..verus import Unit
from .. import pre
from ..filt import *
from ..common import run_harness
NOTE = ('indent and its inner function are proved for all strings and widths: the result is exactly the input with the given number of spaces after each newline that is not the last byte, '
        'or the input above the limits; no overflow. Trusted: String and char_indices by contract.')
SPEC = r'''
pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| ' ') }
/// C06: the first k characters of t, with w spaces after each newline that is not the last character of t
pub open spec fn ind(t: Seq<char>, w: int, k: int) -> Seq<char> decreases k {
    if k <= 0 { Seq::empty() }
    else if t[k - 1] == '\n' && k < t.len() { ind(t, w, k - 1).push(t[k - 1]) + spaces(w) }
    else { ind(t, w, k - 1).push(t[k - 1]) }
}
pub open spec fn indented(t: Seq<char>, w: int) -> Seq<char> {
    if w >= 10000 || encode_utf8(t).len() >= 10000 { t } else { ind(t, w, t.len() as int) }
}
#[verifier::external_body]
pub fn char_indices(s: &String) -> (v: Vec<(usize, char)>)
    ensures v.len() == s@.len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).1 == s@[k] && v[k].0 == encode_utf8(s@.subrange(0, k)).len()
{ unimplemented!() }
/// the byte index of a newline tells whether it is the last character
proof fn lemma_last(t: Seq<char>, k: int)
    requires 0 <= k < t.len(), t[k] == '\n'
    ensures encode_utf8(t.subrange(0, k)).len() + 1 <= encode_utf8(t).len(),
        encode_utf8(t.subrange(0, k)).len() < encode_utf8(t).len() - 1 <==> k < t.len() - 1
{
    let a = t.subrange(0, k); let b = t.subrange(k + 1, t.len() as int);
    assert(t =~= a + seq!['\n'] + b);
    encode_utf8_concat(a, seq!['\n']); encode_utf8_concat(a + seq!['\n'], b);
    assert(encode_utf8(seq!['\n']).len() == 1) by { assert(seq!['\n'] =~= Seq::<char>::empty().push('\n')); reveal_with_fuel(encode_utf8, 3); assert(('\n' as u32) == 10) ; }
    if b.len() > 0 { lemma_nonempty(b); } else { assert(b =~= Seq::<char>::empty()); assert(encode_utf8(b).len() == 0) by { reveal_with_fuel(encode_utf8, 2); } }
}
proof fn lemma_nonempty(b: Seq<char>)
    requires b.len() > 0
    ensures encode_utf8(b).len() >= 1
{ reveal_with_fuel(encode_utf8, 2); }
'''
def unit(repo):
    u = Unit('c06'); s = Src(repo, F)
    u.use(pre.USES); u.raw(pre.STR + pre.TEXT + SPEC)
    u.trust(pre.STR_TRUST); u.trust(pre.TEXT_TRUST); u.trust('str::char_indices yields each character with the byte index it starts at, in order')
    outer, inner, tail = inner_outer(s, 'indent')
    c = s.find(r'const\s+MAX_LEN'); u.raw(strip_comments(c.text))
    (sn, st), (wn, wt) = params(inner.head)
    if st != 'String' or wt != 'usize': raise Lost('parameters of indent')
    body = strip_comments(inner.body)
    body = re.sub(rf'\b{sn}\.len\(\)', f'string_len(&{sn})', body)
    body, bounds = while_range(body)
    m = mask(body); mm = re.search(rf'for\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s*{sn}\.char_indices\(\)\s*\{{', m)
    if not mm or len(bounds) != 1: raise Lost('loops of indent')
    o = re.search(r'let\s+mut\s+(\w+)(?:\s*:\s*String)?\s*=\s*String::(?:new\(\)|with_capacity\([^;]*\))\s*;', m)
    if not o: raise Lost('no accumulator')
    body = re.sub(r'String::with_capacity\([^;]*\)', 'String::new()', body)
    m = mask(body); mm = re.search(rf'for\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s*{sn}\.char_indices\(\)\s*\{{', m)
    out = o.group(1)
    body = (body[:mm.start()] + f'let items_ = char_indices(&{sn}); let mut k_: usize = 0; while k_ < items_.len() {{ let ({mm.group(1)}, {mm.group(2)}) = items_[k_]; k_ += 1; '
            f'proof {{ if {sn}@[k_ - 1] == \'\\n\' {{ lemma_last({sn}@, k_ - 1); }} assert(spaces(0) =~= Seq::<char>::empty()); assert(ind({sn}@, {wn} as int, k_ - 1).push({sn}@[k_ - 1]) + spaces(0) =~= ind({sn}@, {wn} as int, k_ - 1).push({sn}@[k_ - 1])); }}' + body[mm.end():])
    ind = f'ind({sn}@, {wn} as int, k_ as int)'
    body = add_invariants(body, [f'invariant k_ <= items_.len(), {out}@ =~= ind({sn}@, {wn} as int, k_ as int)\n decreases items_.len() - k_',
        f'invariant rep1_ <= {wn}, {out}@ =~= ind({sn}@, {wn} as int, k_ - 1).push({sn}@[k_ - 1]) + spaces(rep1_ as int)\n decreases {wn} - rep1_'])
    # push of one more space
    body = re.sub(r'rep1_ \+= 1;', 'proof { assert(spaces(rep1_ as int).push(\' \') =~= spaces(rep1_ + 1)); } rep1_ += 1;', body)
    u.fn('indent (inner)', inner, f'fn indent_inner({sn}: String, {wn}: usize) -> (r: Result<String, Infallible>)', body,
         ensures=['r.is_ok()', f'r.unwrap()@ =~= indented({sn}@, {wn} as int)'], attrs='#[verifier::loop_isolation(false)]')
    (a, _), (b, bt) = params(outer.head)
    u.fn('indent', outer, f'pub fn indent<S_: ToText>({a}: S_, {b}: usize) -> (r: Result<String, Infallible>)', re.sub(r'\bindent\(', 'indent_inner(', tail),
         ensures=['r.is_ok()', f'r.unwrap()@ == indented({a}.chars_(), {b} as int)'])
    u.drop('inner function moved out; `for (i, c) in s.char_indices()` and `for _ in 0..w` -> counting while loops with the same bindings; s.len() -> string_len(&s); `impl ToString`/`impl Display` named')
    return u
UNITS = [('indent', unit)]
def companion(tier): return run_harness('rt', 'C06', tier)

import re
from ..rsx import *
from ..verus import Unit
from ..rw import *
from .. import det, liu, pre
G = 'askama_derive/src/generator.rs'
NOTE = ('normalize_identifier is proved for every text: each keyword of the Rust reference (except self, Self, super, loop, and the three that C17 exempts) becomes r#keyword, every other name stays as it is, no index is out of range and the unchecked conversion gets valid UTF-8. The parser of names takes the whole name, and only names (identifier, for every text). '
        'Trusted: the table is transcribed entry by entry; slice and array operations by contract.')
KW = ('as break const continue crate else enum extern false fn for if impl in let match mod move mut pub ref return static struct trait true type unsafe use where while async await dyn '
      'abstract become box do final macro override priv typeof unsized virtual yield try').split()
EXEMPT = ('crate', 'true', 'false')
def by(s): return 'seq![' + ', '.join(f'{b}u8' for b in s.encode()) + ']'
SPEC = r'''
#[verifier::opaque]
pub open spec fn KEYWORDS() -> Seq<Seq<u8>> { seq![%s] }
/// the keywords that C17 leaves open
pub open spec fn exempt(s: Seq<u8>) -> bool { s == %s || s == %s || s == %s }
pub open spec fn keyword(s: Seq<u8>) -> bool { KEYWORDS().contains(s) }
pub open spec fn raw_(s: Seq<u8>) -> Seq<u8> { seq![0x72u8, 0x23u8] + s }
pub open spec fn has(t: Seq<Seq<u8>>, w: Seq<u8>, j: nat) -> bool decreases t.len() - j { if j < t.len() { t[j as int] =~= w || has(t, w, j + 1) } else { false } }
proof fn has_law(t: Seq<Seq<u8>>, w: Seq<u8>, j: nat) requires has(t, w, j) ensures exists|k: int| 0 <= k < t.len() && t[k] == w decreases t.len() - j { if j < t.len() && !(t[j as int] =~= w) { has_law(t, w, j + 1); } }
/// an entry: r#, a name of n bytes, and padding
pub open spec fn padded(w: Seq<u8>) -> Seq<u8> { raw_(w) + Seq::new((8 - w.len()) as nat, |i: int| 0x5fu8) }
pub open spec fn entry_ok(n: nat, e: Seq<u8>, j: nat) -> bool { e.len() == 10 && e =~= padded(e.subrange(2, (2 + n) as int)) && has(KEYWORDS(), e.subrange(2, (2 + n) as int), 0) && ascii(e, 0) }
pub open spec fn ascii(e: Seq<u8>, j: nat) -> bool decreases e.len() - j { if j < e.len() { e[j as int] < 128 && ascii(e, j + 1) } else { true } }
proof fn ascii_law(e: Seq<u8>, j: nat, k: int) requires ascii(e, j), j <= k < e.len() ensures e[k] < 128 decreases e.len() - j { if j < k { ascii_law(e, j + 1, k); } }
pub open spec fn bucket_ok(n: nat, t: Seq<Seq<u8>>, j: nat) -> bool decreases t.len() - j { if j < t.len() { entry_ok(n, t[j as int], j) && bucket_ok(n, t, j + 1) } else { true } }
proof fn bucket_law(n: nat, t: Seq<Seq<u8>>, j: nat, k: int) requires bucket_ok(n, t, j), j <= k < t.len() ensures entry_ok(n, t[k], k as nat) decreases t.len() - j { if j < k { bucket_law(n, t, j + 1, k); } }
pub open spec fn table_ok(t: Seq<Seq<Seq<u8>>>, n: nat) -> bool decreases t.len() - n { if n < t.len() { bucket_ok(n, t[n as int], 0) && table_ok(t, n + 1) } else { true } }
proof fn table_law(t: Seq<Seq<Seq<u8>>>, n: nat, k: int) requires table_ok(t, n), n <= k < t.len() ensures bucket_ok(k as nat, t[k], 0) decreases t.len() - n { if n < k { table_law(t, n + 1, k); } }
/// every keyword is in the table
pub open spec fn all_in(ks: Seq<Seq<u8>>, t: Seq<Seq<Seq<u8>>>, j: nat) -> bool decreases ks.len() - j {
    if j < ks.len() { (ks[j as int].len() < t.len() && has(t[ks[j as int].len() as int], padded(ks[j as int]), 0)) && all_in(ks, t, j + 1) } else { true }
}
proof fn all_law(ks: Seq<Seq<u8>>, t: Seq<Seq<Seq<u8>>>, j: nat, k: int) requires all_in(ks, t, j), j <= k < ks.len() ensures ks[k].len() < t.len(), has(t[ks[k].len() as int], padded(ks[k]), 0) decreases ks.len() - j { if j < k { all_law(ks, t, j + 1, k); } }
#[verifier::external_body]
pub fn copy_prefix(a: &mut [u8; 8], n: usize, s: &str) requires n == s.spec_bytes().len(), n <= 8 ensures final(a)@ =~= s.spec_bytes() + old(a)@.skip(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn filled(b: u8) -> (r: [u8; 8]) ensures r@ =~= Seq::new(8, |i: int| b) { [b; 8] }
/// a == <[u8; 8]>::try_from(&probe[from..]).unwrap()
#[verifier::external_body]
pub fn eq_tail(a: &[u8; 8], probe: &[u8; 10], from: usize) -> (r: bool) requires from == 2 ensures r <==> a@ =~= probe@.skip(from as int) { unimplemented!() }
/// core::str::from_utf8_unchecked(&e[..n])
#[verifier::external_body]
pub fn unchecked_prefix(e: &'static [u8; 10], n: usize) -> (r: &'static str) requires n <= 10, valid_utf8(e@.subrange(0, n as int)) ensures r.spec_bytes() == e@.subrange(0, n as int) { unimplemented!() }
proof fn ascii_valid(s: Seq<u8>) requires forall|k: int| 0 <= k < s.len() ==> s[k] < 128 ensures valid_utf8(s) {
    let c = Seq::new(s.len(), |i: int| s[i] as char);
    is_ascii_chars_encode_utf8(c);
    encode_utf8_valid_utf8(c);
    assert(encode_utf8(c) =~= s);
}
''' % (', '.join(by(k) for k in KW), by('crate'), by('true'), by('false'))
def unit(repo):
    u = Unit('c17'); s = Src(repo, G)
    u.use(pre.USES); u.raw(pre.STR + SPEC); u.trust(pre.STR_TRUST)
    u.trust('the tables of keywords as sequences of their entries; [b; 8], copy_from_slice, try_from(&probe[2..]) and from_utf8_unchecked by contract')
    f = s.find(r'fn\s+normalize_identifier\b'); a = re.search(r'\((\w+): &str\)', f.head).group(1); b = strip_comments(f.body)
    # the tables
    tabs = {}
    for g in re.finditer(r'const\s+(KW\d)\s*:\s*&\[\[u8;\s*MAX_REPL_LEN\]\]\s*=\s*&\[(.*?)\];', b, re.S):
        es = re.findall(r'\*b"([^"\\]*)"', g.group(2))
        if re.sub(r'\*b"[^"\\]*"|[\s,]', '', g.group(2)): raise Lost(g.group(1))
        tabs[g.group(1)] = es
    b = re.sub(r'const\s+KW\d\s*:\s*&\[\[u8;\s*MAX_REPL_LEN\]\]\s*=\s*&\[(.*?)\];', '', b, flags=re.S)
    g = re.search(r'const\s+KWS\s*:\s*&\[&\[\[u8;\s*MAX_REPL_LEN\]\]\]\s*=\s*&\[([^\]]*)\];', b)
    if not g: raise Lost('KWS')
    order = [x.strip() for x in g.group(1).split(',') if x.strip()]
    b = b[:g.start()] + b[g.end():]
    for n, e in (('MAX_KW_LEN', r'8'), ('MAX_REPL_LEN', r'MAX_KW_LEN \+ 2')):
        b, k = re.subn(rf'const\s+{n}: usize = {e};', '', b)
        if k != 1: raise Lost(n)
    # checks at compile time of the crate have no effect later
    mm = re.search(r'const _: \(\) = \{', mask(b))
    if mm: c = match_close(mask(b), mm.end() - 1); e = b.index(';', c); b = b[:mm.start()] + b[e+1:]
    if any(len(e) != 10 for t in tabs.values() for e in t): raise Lost('entries')
    table = 'seq![' + ', '.join('seq![' + ', '.join(by(e) for e in tabs[o]) + ']' if tabs[o] else 'Seq::<Seq<u8>>::empty()' for o in order) + ']'
    u.raw(f'''#[verifier::opaque]
pub open spec fn TABLE() -> Seq<Seq<Seq<u8>>> {{ {table} }}
#[verifier::external_body]
pub fn bucket(n: usize) -> (r: Vec<&'static [u8; 10]>) requires n < TABLE().len() ensures r.len() == TABLE()[n as int].len(), forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j])@ == TABLE()[n as int][j] {{ unimplemented!() }}
/// the table holds exactly the keywords
proof fn lemma_table() ensures table_ok(TABLE(), 0), all_in(KEYWORDS(), TABLE(), 0), TABLE().len() == 9 {{
    assert(table_ok(TABLE(), 0)) by (compute);
    assert(all_in(KEYWORDS(), TABLE(), 0)) by (compute);
    assert(TABLE().len() == 9) by (compute);
}}
''')
    b = re.sub(r'\bMAX_KW_LEN\b', '8', b)
    b = re.sub(rf'\b{a}\.len\(\)', f'{a}.unicode_len_()', b)
    b = re.sub(r'KWS\[((?:[^\[\]])*)\]', r'bucket(\1)', b)
    b = re.sub(r"\[b'(.)'; 8\]", lambda m: f'filled({ord(m.group(1))}u8)', b)
    b, k = re.subn(rf'(\w+)\[\.\.{a}\.unicode_len_\(\)\]\.copy_from_slice\({a}\.as_bytes\(\)\)', rf'copy_prefix(&mut \1, {a}.unicode_len_(), {a})', b)
    if k != 1: raise Lost('copy_from_slice')
    b = b.replace('.unicode_len_()', '.len()')
    # search
    def find(e, args):
        p, c = closure(args[0]); g = re.match(r'^(\w+)\s*\.\s*iter\(\)$', e)
        if not g: raise Lost('find on ' + e)
        v = g.group(1)
        c = re.sub(rf'(\w+)\s*==\s*<\[u8; 8\]>::try_from\(&{p}\[(\d+)\.\.\]\)\s*\.unwrap\(\)', rf'eq_tail(&\1, {p}, \2)', c)
        return f'''{{ let mut k_: usize = 0; let mut f_: Option<&'static [u8; 10]> = None;
            while k_ < {v}.len() && f_.is_none()
                invariant k_ <= {v}.len(), {v}.len() == TABLE()[n_].len(), forall|j: int| 0 <= j < {v}.len() ==> (#[trigger] {v}[j])@ == TABLE()[n_][j],
                    f_ is None ==> forall|j: int| 0 <= j < k_ ==> pad_ != (#[trigger] TABLE()[n_][j]).skip(2),
                    f_ matches Some(x) ==> exists|j: int| 0 <= j < {v}.len() && x@ == TABLE()[n_][j] && pad_ == x@.skip(2)
                decreases {v}.len() - k_
            {{ let {p} = {v}[k_]; if {c} {{ f_ = Some({v}[k_]); }} k_ += 1; }} f_ }}'''
    b = method_calls(b, 'find', find)
    g = re.search(r'copy_prefix\(&mut (\w+)[^;]*;', b)
    b = b[:g.end()] + f'''
        let ghost n_ = {a}.spec_bytes().len() as int; let ghost pad_ = {g.group(1)}@;
        proof {{
            table_law(TABLE(), 0, n_); let id = {a}.spec_bytes();
            assert(pad_ =~= padded(id).skip(2));
            assert forall|j: int| 0 <= j < TABLE()[n_].len() && pad_ == (#[trigger] TABLE()[n_][j]).skip(2) implies ok_({a}, TABLE()[n_][j].subrange(0, n_ + 2)) && valid_utf8(TABLE()[n_][j].subrange(0, n_ + 2)) by {{
                let e = TABLE()[n_][j]; bucket_law(n_ as nat, TABLE()[n_], 0, j); let w = e.subrange(2, 2 + n_); has_law(KEYWORDS(), w, 0);
                assert(w =~= id) by {{ assert forall|k: int| 0 <= k < n_ implies w[k] == id[k] by {{ assert(e.skip(2)[k] == pad_[k]); assert(padded(id).skip(2)[k] == id[k]); }} }}
                assert(e.subrange(0, n_ + 2) =~= raw_(id)) by {{ assert(e == padded(w)); }}
                assert forall|k: int| 0 <= k < n_ + 2 implies (#[trigger] e.subrange(0, n_ + 2)[k]) < 128 by {{ ascii_law(e, 0, k); }}
                ascii_valid(e.subrange(0, n_ + 2));
            }}
            assert(keyword(id) ==> exists|j: int| 0 <= j < TABLE()[n_].len() && pad_ == (#[trigger] TABLE()[n_][j]).skip(2)) by {{
                if keyword(id) {{ let k = choose|k: int| 0 <= k < KEYWORDS().len() && KEYWORDS()[k] == id; all_law(KEYWORDS(), TABLE(), 0, k); has_law(TABLE()[n_], padded(id), 0);
                    let j = choose|j: int| 0 <= j < TABLE()[n_].len() && TABLE()[n_][j] == padded(id); assert(TABLE()[n_][j].skip(2) =~= pad_); }}
            }}
        }}''' + b[g.end():]
    b = re.sub(rf'unsafe\s*\{{\s*(?:std|core)::str::from_utf8_unchecked\(&(\w+)\[\.\.([^\]]*)\]\)\s*\}}', r'unchecked_prefix(\1, \2)', b)
    b = f' proof {{ lemma_table(); if keyword({a}.spec_bytes()) {{ let k = choose|k: int| 0 <= k < KEYWORDS().len() && KEYWORDS()[k] == {a}.spec_bytes(); all_law(KEYWORDS(), TABLE(), 0, k); }} }}' + b
    u.raw('/// what C17 demands of the name that stands for s\npub open spec fn ok_(s: &str, r: Seq<u8>) -> bool { (keyword(s.spec_bytes()) && !exempt(s.spec_bytes()) ==> r == raw_(s.spec_bytes())) && (!keyword(s.spec_bytes()) ==> r == s.spec_bytes()) }')
    u.fn('normalize_identifier', f, f"fn normalize_identifier<'x>({a}: &'x str) -> (r: &'x str)", b, ensures=[f'ok_({a}, r.spec_bytes())'], attrs='#[verifier::loop_isolation(false)]')
    u.drop('tables -> spec sequences, their buckets -> vectors; `.iter().find(|p| c)` -> while loop; array operations -> functions with contracts; assertions at compile time of the crate left out')
    return u
UNITS = [('normalize_identifier', unit), ('names', lambda repo: liu.unit(repo, 'C17', ('identifier',)))]
def companion(tier): return det.c17(tier)

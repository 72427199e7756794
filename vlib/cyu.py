"""The search for the templates that a template uses (C21) under contract."""
import re
from .rsx import *
from .rw import *
from . import gen
from .verus import Unit
I = 'askama_derive/src/input.rs'; N = 'askama_parser/src/node.rs'
SIZES = r'''pub open spec fn size<'a>(n: Vec<Node<'a>>) -> nat decreases n, n@.len() + 1 { size_to(n, n@.len()) }
pub open spec fn size_to<'a>(n: Vec<Node<'a>>, k: nat) -> nat decreases n, k { if k == 0 || k > n@.len() { 1 } else { size_to(n, (k - 1) as nat) + size_in(n@[k - 1]) } }
pub open spec fn size_of_branches<'a>(n: Vec<Cond<'a>>, k: nat) -> nat decreases n, k { if k == 0 || k > n@.len() { 0 } else { size_of_branches(n, (k - 1) as nat) + size(n@[k - 1].nodes) } }
pub open spec fn size_of_arms<'a>(n: Vec<When<'a>>, k: nat) -> nat decreases n, k { if k == 0 || k > n@.len() { 0 } else { size_of_arms(n, (k - 1) as nat) + size(n@[k - 1].nodes) } }
pub open spec fn size_in<'a>(x: Node<'a>) -> nat decreases x, 0nat {
    match x {
        Node::FilterBlock(f) => size(f.nodes), Node::BlockDef(b) => size(b.nodes), Node::Macro(m) => size(m.nodes),
        Node::If(i) => size_of_branches(i.branches, i.branches@.len()), Node::Match(m) => size_of_arms(m.arms, m.arms@.len()),
        Node::Loop(l) => size(l.body) + size(l.else_nodes),
        _ => 0,
    }
}
pub open spec fn tot<'a>(n: Seq<&Vec<Node<'a>>>) -> nat decreases n.len() { if n.len() == 0 { 0 } else { tot(n.drop_last()) + size(*n.last()) } }
'''
SPEC = r'''
/// the path of a template
#[verifier::external_body]
pub struct Key { x: u8 }
impl Key {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Key) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn same(a: &Key, b: &Key) -> (r: bool) ensures r <==> *a == *b { unimplemented!() }
pub struct CompileError { pub cyclic: Ghost<bool> }
#[verifier::external_body]
pub fn cyclic_graph_error(g: &Vec<(Key, Key)>) -> (r: Result<(), CompileError>) ensures r is Err, (r->Err_0).cyclic@ { unimplemented!() }
#[verifier::external_body]
pub fn contains_edge(g: &Vec<(Key, Key)>, e: &(Key, Key)) -> (r: bool) ensures r == g@.contains(*e) { unimplemented!() }
/// the file that a name refers to in the template at a path, if there is one (C23)
pub uninterp spec fn look(name: Seq<char>, from: Key) -> Option<Key>;
pub struct Config { pub x: u8 }
impl Config {
    #[verifier::external_body]
    pub fn find_template(&self, name: &str, from: Option<&Key>) -> (r: Result<Key, CompileError>) ensures r matches Ok(k) ==> from matches Some(f) && look(name@, *f) == Some(k), r is Err ==> !(r->Err_0).cyclic@ { unimplemented!() }
}
pub uninterp spec fn contents(p: Key) -> Seq<char>;
/// the files there are (Set: finitely many)
pub uninterp spec fn files() -> Set<Key>;
#[verifier::external_body]
pub fn get_template_source(p: &Key) -> (r: Result<String, CompileError>) ensures r matches Ok(s) ==> s@ == contents(*p) && files().contains(*p), r is Err ==> !(r->Err_0).cyclic@ { unimplemented!() }
pub enum Source { Path(String), Source(String) }
#[verifier::external_body]
pub fn to_owned_(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub struct Syntax { x: u8 }
pub struct Parsed<'a> { pub nodes: Vec<Node<'a>> }
pub uninterp spec fn tree<'a>(s: Seq<char>) -> Vec<Node<'a>>;
pub open spec fn parse<'a>(s: Seq<char>) -> Seq<Node<'a>> { tree(s)@ }
impl<'a> Parsed<'a> {
    #[verifier::external_body]
    pub fn new(s: String, path: Option<Key>, y: &Syntax) -> (r: Result<Self, CompileError>) ensures r matches Ok(p) ==> p.nodes == tree(s@), r is Err ==> !(r->Err_0).cyclic@ { unimplemented!() }
    pub fn nodes(&self) -> (r: &Vec<Node<'a>>) ensures *r == self.nodes { &self.nodes }
    #[verifier::external_body]
    pub fn default() -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
pub struct Templates<'a> { x: &'a u8 }
impl<'a> Templates<'a> {
    pub uninterp spec fn m(&self) -> Map<Key, Vec<Node<'a>>>;
    pub open spec fn dom(&self) -> Set<Key> { self.m().dom() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Key) -> (r: bool) ensures r == self.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Key, p: Parsed<'a>) ensures final(self).m() == old(self).m().insert(k, p.nodes) { unimplemented!() }
}
pub struct TemplateInput<'a> { pub source: &'a Source, pub path: Key, pub syntax: &'a Syntax, pub config: &'a Config }
/// the text of the template that is compiled
pub open spec fn text_of(t: &TemplateInput) -> Seq<char> { match *t.source { Source::Source(s) => s@, Source::Path(_) => contents(t.path) } }
pub open spec fn source_ok(t: &TemplateInput, p: Key, s: Seq<char>) -> bool { (p == t.path && s == text_of(t)) || s == contents(p) }
pub open spec fn nodes_ok(t: &TemplateInput, p: Key, n: Seq<Node>) -> bool { (p == t.path && n == parse(text_of(t))) || n == parse(contents(p)) }
// ---- the graph: edges from a template to the one it extends
pub open spec fn first(g: Seq<(Key, Key)>, x: Key) -> Option<Key> decreases g.len() {
    if g.len() == 0 { None } else { match first(g.drop_last(), x) { Some(y) => Some(y), None => if g.last().0 == x { Some(g.last().1) } else { None } } }
}
/// the n-th ancestor
pub open spec fn walk(g: Seq<(Key, Key)>, x: Key, n: nat) -> Option<Key> decreases n { if n == 0 { Some(x) } else { match first(g, x) { None => None, Some(y) => walk(g, y, (n - 1) as nat) } } }
pub open spec fn ends(g: Seq<(Key, Key)>, x: Key) -> bool { exists|n: nat| #[trigger] walk(g, x, n) is None }
/// every chain of ancestors is finite
pub open spec fn acyclic(g: Seq<(Key, Key)>) -> bool { forall|x: Key| #[trigger] ends(g, x) }
/// the template n extends, at its top level, the one at e
pub open spec fn extends_at<'a>(n: Seq<Node<'a>>, k: int, p: Key, e: Key) -> bool { 0 <= k < n.len() && (n[k] matches Node::Extends(x) && look(x.path@, p) == Some(e)) }
pub open spec fn true_edge(t: &TemplateInput, c: Key, e: Key) -> bool { exists|n: Seq<Node>, k: int| #[trigger] extends_at(n, k, c, e) && nodes_ok(t, c, n) }
pub open spec fn true_edges(t: &TemplateInput, g: Seq<(Key, Key)>) -> bool { forall|i: int| 0 <= i < g.len() ==> true_edge(t, (#[trigger] g[i]).0, g[i].1) }
/// each extends of the template at p is in the graph
pub open spec fn covered<'a>(g: Seq<(Key, Key)>, n: Seq<Node<'a>>, m: int, p: Key) -> bool { forall|k: int, e: Key| k < m && #[trigger] extends_at(n, k, p, e) ==> g.contains((p, e)) }
pub open spec fn resolved<'a>(n: Seq<Node<'a>>, m: int, p: Key) -> bool { forall|k: int| 0 <= k < m ==> ((#[trigger] n[k]) matches Node::Extends(x) ==> look(x.path@, p) is Some) }
pub open spec fn done(t: &TemplateInput, g: Seq<(Key, Key)>, p: Key) -> bool { exists|n: Seq<Node>| nodes_ok(t, p, n) && #[trigger] covered(g, n, n.len() as int, p) }
pub open spec fn waiting(c: Seq<(Key, String, Option<Key>)>, p: Key) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0 == p }
/// the walk up from e leads to p, by edges that are there
pub open spec fn cyclic_by(t: &TemplateInput, g: Seq<(Key, Key)>, p: Key, e: Key) -> bool {
    true_edges(t, g) && true_edge(t, p, e) && (p == e || g.contains((p, e)) || exists|k: nat| #[trigger] walk(g, e, k) == Some(p))
}
// ---- the search ends: what is left to do
@SIZES@/// files that were not met yet
pub open spec fn unmet(d: Set<Key>) -> nat { files().difference(d).len() }
proof fn meet(d: Set<Key>, p: Key) ensures unmet(d.insert(p)) <= unmet(d), files().contains(p) && !d.contains(p) ==> unmet(d.insert(p)) + 1 == unmet(d)
{
    if files().contains(p) && !d.contains(p) { assert(files().difference(d.insert(p)) =~= files().difference(d).remove(p)); } else { assert(files().difference(d.insert(p)) =~= files().difference(d)); }
}
// ---- what a template uses: whatever it includes anywhere, and what it imports or extends at its top level
pub open spec fn uses<'a>(n: Vec<Node<'a>>, p: Key, e: Key) -> bool decreases n { exists|k: int| 0 <= k < n@.len() && uses_in(#[trigger] n@[k], p, e) }
pub open spec fn uses_in<'a>(x: Node<'a>, p: Key, e: Key) -> bool decreases x {
    match x {
        Node::Include(i) => look(i.path@, p) == Some(e),
        Node::FilterBlock(f) => uses(f.nodes, p, e),
        Node::BlockDef(b) => uses(b.nodes, p, e),
        Node::If(i) => exists|j: int| 0 <= j < i.branches@.len() && uses((#[trigger] i.branches@[j]).nodes, p, e),
        Node::Loop(l) => uses(l.body, p, e) || uses(l.else_nodes, p, e),
        Node::Match(m) => exists|j: int| 0 <= j < m.arms@.len() && uses((#[trigger] m.arms@[j]).nodes, p, e),
        _ => false,
    }
}
pub open spec fn used<'a>(x: Node<'a>, top: bool, p: Key, e: Key) -> bool {
    uses_in(x, p, e) || top && (match x { Node::Macro(m) => uses(m.nodes, p, e), Node::Import(i) => look(i.path@, p) == Some(e) && e != p, Node::Extends(i) => look(i.path@, p) == Some(e), _ => false })
}
/// the part of the list that has not been read yet uses e
pub open spec fn left<'a>(n: Seq<Node<'a>>, i: int, top: bool, p: Key, e: Key) -> bool { exists|k: int| i <= k < n.len() && used(#[trigger] n[k], top, p, e) }
/// one of the lists that wait uses e
pub open spec fn pend<'a>(n: Seq<&Vec<Node<'a>>>, p: Key, e: Key) -> bool { exists|j: int| 0 <= j < n.len() && uses(*#[trigger] n[j], p, e) }
/// the template at p is loaded, and so is what it uses
pub open spec fn fin<'a>(t: &TemplateInput, m: Map<Key, Vec<Node<'a>>>, p: Key) -> bool { m.contains_key(p) && nodes_ok(t, p, m[p]@) && forall|e: Key| #[trigger] left(m[p]@, 0, true, p, e) ==> m.contains_key(e) }
pub open spec fn seen<'a>(t: &TemplateInput, m: Map<Key, Vec<Node<'a>>>, c: Seq<(Key, String, Option<Key>)>, cur: Option<Key>) -> bool { forall|p: Key| #[trigger] m.contains_key(p) || p == t.path ==> fin(t, m, p) || waiting(c, p) || cur == Some(p) }
/// whatever the template that is being read uses is known, or comes later
pub open spec fn reads<'a>(m: Map<Key, Vec<Node<'a>>>, w: Seq<&Vec<Node<'a>>>, l: Seq<Node<'a>>, i: int, top: bool, all: Seq<Node<'a>>, p: Key) -> bool { forall|e: Key| #[trigger] left(all, 0, true, p, e) ==> m.contains_key(e) || pend(w, p, e) || left(l, i, top, p, e) }
/// nothing that is used is missing
pub open spec fn closed<'a>(t: &TemplateInput, m: Map<Key, Vec<Node<'a>>>) -> bool { forall|p: Key| #[trigger] m.contains_key(p) || p == t.path ==> fin(t, m, p) }
// ---- lemmas
proof fn pend_push<'a>(n: Seq<&Vec<Node<'a>>>, x: &Vec<Node<'a>>, p: Key) ensures tot(n.push(x)) == tot(n) + size(*x), forall|e: Key| #[trigger] pend(n.push(x), p, e) <==> pend(n, p, e) || uses(*x, p, e)
{
    assert(n.push(x).drop_last() =~= n);
    assert forall|e: Key| #[trigger] pend(n.push(x), p, e) <==> pend(n, p, e) || uses(*x, p, e) by {
        if pend(n, p, e) { let j = choose|j: int| 0 <= j < n.len() && uses(*#[trigger] n[j], p, e); assert(n.push(x)[j] == n[j]); }
        if uses(*x, p, e) { assert(n.push(x)[n.len() as int] == x); }
        if pend(n.push(x), p, e) { let j = choose|j: int| 0 <= j < n.push(x).len() && uses(*#[trigger] n.push(x)[j], p, e); if j < n.len() { assert(n[j] == n.push(x)[j]); } }
    }
}
/// the list of a macro, a branch .. read on its own
proof fn reads_pop<'a>(m: Map<Key, Vec<Node<'a>>>, w: Seq<&Vec<Node<'a>>>, x: &Vec<Node<'a>>, all: Seq<Node<'a>>, p: Key) requires forall|e: Key| #[trigger] left(all, 0, true, p, e) ==> m.contains_key(e) || pend(w.push(x), p, e) ensures reads(m, w, x@, 0, false, all, p)
{ pend_push(w, x, p); assert forall|e: Key| #[trigger] left(all, 0, true, p, e) implies m.contains_key(e) || pend(w, p, e) || left(x@, 0, false, p, e) by { if uses(*x, p, e) { let k = choose|k: int| 0 <= k < x@.len() && uses_in(#[trigger] x@[k], p, e); assert(used(x@[k], false, p, e)); } } }
/// one more node was read
proof fn reads_next<'a>(m0: Map<Key, Vec<Node<'a>>>, w0: Seq<&Vec<Node<'a>>>, m1: Map<Key, Vec<Node<'a>>>, w1: Seq<&Vec<Node<'a>>>, l: Seq<Node<'a>>, i: int, top: bool, all: Seq<Node<'a>>, p: Key)
    requires 0 <= i < l.len(), reads(m0, w0, l, i, top, all, p), forall|e: Key| m0.contains_key(e) ==> #[trigger] m1.contains_key(e), forall|e: Key| pend(w0, p, e) ==> #[trigger] pend(w1, p, e), forall|e: Key| #[trigger] used(l[i], top, p, e) ==> m1.contains_key(e) || pend(w1, p, e)
    ensures reads(m1, w1, l, i + 1, top, all, p)
{
    assert forall|e: Key| #[trigger] left(all, 0, true, p, e) implies m1.contains_key(e) || pend(w1, p, e) || left(l, i + 1, top, p, e) by {
        if left(l, i, top, p, e) { let k = choose|k: int| i <= k < l.len() && used(#[trigger] l[k], top, p, e); if k > i { assert(used(l[k], top, p, e)); } else { assert(used(l[i], top, p, e)); } }
        if m0.contains_key(e) { assert(m1.contains_key(e)); } if pend(w0, p, e) { assert(pend(w1, p, e)); }
    }
}
proof fn seen_more<'a>(t: &TemplateInput, m0: Map<Key, Vec<Node<'a>>>, m1: Map<Key, Vec<Node<'a>>>, c0: Seq<(Key, String, Option<Key>)>, c1: Seq<(Key, String, Option<Key>)>, a: Key, cur: Option<Key>)
    requires seen(t, m0, c0, cur), m1.dom() == m0.dom().insert(a), forall|k: Key| m0.contains_key(k) ==> #[trigger] m1[k] == m0[k], forall|q: Key| waiting(c0, q) ==> #[trigger] waiting(c1, q), !m0.contains_key(a) ==> waiting(c1, a)
    ensures seen(t, m1, c1, cur)
{
    assert forall|p: Key| #[trigger] m1.contains_key(p) || p == t.path implies fin(t, m1, p) || waiting(c1, p) || cur == Some(p) by {
        if p == a && !m0.contains_key(a) {} else {
            assert(m0.contains_key(p) || p == t.path);
            if fin(t, m0, p) { assert(m1[p] == m0[p]); assert forall|e: Key| #[trigger] left(m1[p]@, 0, true, p, e) implies m1.contains_key(e) by { assert(m0.contains_key(e)); } } else if waiting(c0, p) { assert(waiting(c1, p)); }
        }
    }
}
proof fn seen_done<'a>(t: &TemplateInput, m0: Map<Key, Vec<Node<'a>>>, c: Seq<(Key, String, Option<Key>)>, p: Key, n: Vec<Node<'a>>)
    requires seen(t, m0, c, Some(p)), nodes_ok(t, p, n@), forall|e: Key| #[trigger] left(n@, 0, true, p, e) ==> m0.contains_key(e) ensures seen(t, m0.insert(p, n), c, None)
{
    let m1 = m0.insert(p, n);
    assert forall|q: Key| #[trigger] m1.contains_key(q) || q == t.path implies fin(t, m1, q) || waiting(c, q) by {
        if q == p { assert(m1[q] == n); assert forall|e: Key| #[trigger] left(m1[q]@, 0, true, q, e) implies m1.contains_key(e) by { assert(m0.contains_key(e)); } }
        else { assert(m0.contains_key(q) || q == t.path); if fin(t, m0, q) { assert(m1[q] == m0[q]); assert forall|e: Key| #[trigger] left(m1[q]@, 0, true, q, e) implies m1.contains_key(e) by { assert(m0.contains_key(e)); } } }
    }
}
proof fn walk_none(g: Seq<(Key, Key)>, x: Key, n: nat, m: nat) requires walk(g, x, n) is None, n <= m ensures walk(g, x, m) is None decreases n
{ if n > 0 { match first(g, x) { Some(y) => walk_none(g, y, (n - 1) as nat, (m - 1) as nat), None => {} } } }
proof fn walk_next(g: Seq<(Key, Key)>, x: Key, n: nat) requires walk(g, x, n) is Some ensures walk(g, x, n + 1) == first(g, walk(g, x, n)->0) decreases n
{ if n > 0 { match first(g, x) { Some(y) => { walk_next(g, y, (n - 1) as nat); } None => {} } } else { match first(g, x) { Some(y) => { assert(walk(g, y, 0) == Some(y)); } None => {} } } }
proof fn first_push(g: Seq<(Key, Key)>, p: Key, e: Key, x: Key) ensures first(g.push((p, e)), x) == (match first(g, x) { Some(y) => Some(y), None => if x == p { Some(e) } else { None } })
{ assert(g.push((p, e)).drop_last() =~= g); }
proof fn ends_from(g: Seq<(Key, Key)>, x: Key, y: Key) requires first(g, x) == Some(y), ends(g, y) ensures ends(g, x)
{ let n = choose|n: nat| #[trigger] walk(g, y, n) is None; assert(walk(g, x, (n + 1) as nat) is None); }
proof fn ends_none(g: Seq<(Key, Key)>, x: Key) requires first(g, x) is None ensures ends(g, x) { assert(walk(g, x, 1) is None); }
/// e never meets p before the edge, so it does not after it
proof fn clear_of(g: Seq<(Key, Key)>, p: Key, e: Key, x: Key, n: nat) requires walk(g, x, n) is None, forall|k: nat| #[trigger] walk(g, x, k) != Some(p), first(g, p) is None ensures ends(g.push((p, e)), x) decreases n
{
    let h = g.push((p, e)); first_push(g, p, e, x); assert(walk(g, x, 0) == Some(x));
    match first(g, x) { None => { ends_none(h, x); } Some(y) => {
        assert forall|k: nat| #[trigger] walk(g, y, k) != Some(p) by { assert(walk(g, x, (k + 1) as nat) == walk(g, y, k)); }
        clear_of(g, p, e, y, (n - 1) as nat); ends_from(h, x, y); } }
}
proof fn still_ends(g: Seq<(Key, Key)>, p: Key, e: Key, x: Key, n: nat) requires walk(g, x, n) is None, first(g, p) is None, ends(g.push((p, e)), e) ensures ends(g.push((p, e)), x) decreases n
{
    let h = g.push((p, e)); first_push(g, p, e, x);
    if x == p { ends_from(h, x, e); } else { match first(g, x) { None => { ends_none(h, x); } Some(y) => { still_ends(g, p, e, y, (n - 1) as nat); ends_from(h, x, y); } } }
}
proof fn same_walk(g: Seq<(Key, Key)>, p: Key, e: Key, x: Key, n: nat) requires walk(g, x, n) is None, first(g, p) is Some ensures walk(g.push((p, e)), x, n) is None decreases n
{ first_push(g, p, e, x); if n > 0 { match first(g, x) { Some(y) => same_walk(g, p, e, y, (n - 1) as nat), None => {} } } }
/// an edge whose parent does not lead back to its child closes no cycle
pub proof fn stays_acyclic(g: Seq<(Key, Key)>, p: Key, e: Key) requires acyclic(g), forall|k: nat| #[trigger] walk(g, e, k) != Some(p) ensures acyclic(g.push((p, e)))
{
    let h = g.push((p, e));
    assert forall|x: Key| #[trigger] ends(h, x) by {
        assert(ends(g, x) && ends(g, e)); let n = choose|n: nat| #[trigger] walk(g, x, n) is None; let m = choose|n: nat| #[trigger] walk(g, e, n) is None;
        if first(g, p) is Some { same_walk(g, p, e, x, n); } else { clear_of(g, p, e, e, m); still_ends(g, p, e, x, n); }
    }
}
proof fn covered_push<'a>(g: Seq<(Key, Key)>, x: (Key, Key), n: Seq<Node<'a>>, m: int, p: Key) requires covered(g, n, m, p) ensures covered(g.push(x), n, m, p)
{ assert forall|k: int, e: Key| k < m && #[trigger] extends_at(n, k, p, e) implies g.push(x).contains((p, e)) by { let i = choose|i: int| 0 <= i < g.len() && g[i] == (p, e); assert(g.push(x)[i] == (p, e)); } }
proof fn done_push(t: &TemplateInput, g: Seq<(Key, Key)>, x: (Key, Key)) ensures forall|p: Key| #[trigger] done(t, g, p) ==> done(t, g.push(x), p)
{ assert forall|p: Key| #[trigger] done(t, g, p) implies done(t, g.push(x), p) by { let n = choose|n: Seq<Node>| nodes_ok(t, p, n) && #[trigger] covered(g, n, n.len() as int, p); covered_push(g, x, n, n.len() as int, p); } }
proof fn waiting_push(c: Seq<(Key, String, Option<Key>)>, x: (Key, String, Option<Key>)) ensures forall|p: Key| #[trigger] waiting(c.push(x), p) <==> waiting(c, p) || p == x.0
{
    assert forall|p: Key| #[trigger] waiting(c.push(x), p) <==> waiting(c, p) || p == x.0 by {
        if waiting(c, p) { let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0 == p; assert(c.push(x)[i].0 == p); }
        if p == x.0 { assert(c.push(x)[c.len() as int].0 == p); }
        if waiting(c.push(x), p) { let i = choose|i: int| 0 <= i < c.push(x).len() && (#[trigger] c.push(x)[i]).0 == p; if i < c.len() { assert(c[i].0 == p); } }
    }
}
/// what has been found out so far; cur: the template that is being looked at
pub open spec fn state(t: &TemplateInput, g: Seq<(Key, Key)>, c: Seq<(Key, String, Option<Key>)>, m: Set<Key>, cur: Option<Key>) -> bool {
    &&& acyclic(g) && true_edges(t, g)
    &&& forall|p: Key| #[trigger] m.contains(p) ==> done(t, g, p) || waiting(c, p) || cur == Some(p)
    &&& done(t, g, t.path) || waiting(c, t.path) || cur == Some(t.path)
    &&& forall|i: int| 0 <= i < g.len() ==> m.contains((#[trigger] g[i]).1) || cur == Some(g[i].0) && pending(g, i)
    &&& forall|i: int| 0 <= i < c.len() ==> source_ok(t, (#[trigger] c[i]).0, c[i].1@)
}
/// the newest edge, whose parent is about to be listed
pub open spec fn pending(g: Seq<(Key, Key)>, i: int) -> bool { i == g.len() - 1 }
pub open spec fn listed(g: Seq<(Key, Key)>, m: Set<Key>) -> bool { forall|i: int| 0 <= i < g.len() ==> m.contains((#[trigger] g[i]).1) }
'''
NODES = {'Lit': 1, 'Comment': 1, 'Expr': 2, 'Call': 1, 'Let': 1, 'If': 1, 'Match': 1, 'Loop': 1, 'Extends': 1, 'BlockDef': 1, 'Include': 1, 'Import': 1, 'Macro': 1, 'Raw': 1, 'Break': 1, 'Continue': 1, 'FilterBlock': 1}
def node_types(repo, u):
    s = Src(repo, N); e = s.find(r"pub\s+enum\s+Node<"); got = {}
    for v in split_args(strip_comments(e.body)):
        g = re.match(r'^(\w+)\((.*)\)$', re.sub(r'\s+', ' ', v), re.S)
        if not g: raise Lost('Node: ' + v)
        got[g.group(1)] = len(split_args(g.group(2)))
    if got != NODES: raise Lost('the variants of Node')
    need = {'If': 'branches: Vec<Cond', 'Cond': "nodes: Vec<Node", 'Match': 'arms: Vec<When', 'When': 'nodes: Vec<Node', 'Loop': 'body: Vec<Node', 'Extends': "path: &'a str", 'BlockDef': 'nodes: Vec<Node', 'Include': "path: &'a str", 'Import': "path: &'a str", 'Macro': 'nodes: Vec<Node', 'FilterBlock': 'nodes: Vec<Node'}
    for k, x in list(need.items()) + [('Import', "scope: &'a str"), ('BlockDef', "name: &'a str"), ('Macro', "name: &'a str")]:
        if x not in re.sub(r'\s+', ' ', strip_comments(s.find(rf'pub\s+struct\s+{k}\b').text)).replace('pub(crate) ', ''): raise Lost(f'{k}: {x}')
    V = "Vec<Node<'a>>"
    P = {'If': "If<'a>", 'Match': "Match<'a>", 'Loop': "Box<Loop<'a>>", 'Extends': "Extends<'a>", 'BlockDef': "BlockDef<'a>", 'Include': "Include<'a>", 'Import': "Import<'a>", 'Macro': "Macro<'a>", 'FilterBlock': "FilterBlock<'a>"}
    if 'Loop(Box<Loop' not in strip_comments(e.body): P['Loop'] = "Loop<'a>"
    u.raw("pub enum Node<'a> { " + ', '.join(f'{k}({", ".join([P.get(k, "u8")] * n)})' for k, n in NODES.items()) + ' }\n'
          + f"pub struct If<'a> {{ pub branches: Vec<Cond<'a>> }} pub struct Cond<'a> {{ pub nodes: {V} }} pub struct Match<'a> {{ pub arms: Vec<When<'a>> }} pub struct When<'a> {{ pub nodes: {V} }} pub struct Loop<'a> {{ pub body: {V}, pub else_nodes: {V} }}\n"
          + f"pub struct Extends<'a> {{ pub path: &'a str }} pub struct Include<'a> {{ pub path: &'a str }} pub struct Import<'a> {{ pub path: &'a str, pub scope: &'a str }} pub struct BlockDef<'a> {{ pub name: &'a str, pub nodes: {V} }} pub struct Macro<'a> {{ pub name: &'a str, pub nodes: {V} }} pub struct FilterBlock<'a> {{ pub nodes: {V} }}")
def unit(repo):
    u = Unit('c21_cycles'); s = Src(repo, I); u.use('use vstd::string::*;'); node_types(repo, u); u.raw(SPEC.replace('@SIZES@', SIZES))
    u.trust('HashMap, Rc<Path> by contract; find_template gives one answer per name and place (C23); parsing as a function of the text (C15); there are finitely many files, which do not change while a template is compiled')
    u.drop('the closure add_to_check -> a function of the map and the list; for loops -> while loops; find_map -> loop; parts of nodes that are not read here; the map of templates is empty at first (build_template)')
    f = s.find(r"impl\s+TemplateInput<'_>").sub(r'fn\s+find_used_templates\b'); b = strip_comments(f.body)
    g = re.search(r'let\s+mut\s+add_to_check\s*=\s*\|(\w+): Rc<Path>\|\s*->\s*Result<\(\), CompileError>\s*\{', b)
    if not g: raise Lost('add_to_check')
    o = g.end() - 1; c = match_close(mask(b), o); P = g.group(1); ab = b[o+1:c]; e = b.index(';', c)
    b = b[:g.start()] + b[e+1:]
    def common(b):
        b = re.sub(r'Rc::clone\(&((?:self\.)?\w+)\)', r'\1.clone()', b); b = re.sub(r'Parsed::default\(\)', 'Parsed::default()', b); return b
    ab = common(ab); ab = f'proof {{ meet(map.dom(), {P}); assert(map.dom().contains({P}) ==> map.dom().insert({P}) =~= map.dom()); }} ' + ab
    ab = re.sub(r'check\.push\(([^;]*)\);', lambda q: f'let ghost c0_ = check@; check.push({q.group(1)}); proof {{ waiting_push(c0_, check@.last()); assert(check@ =~= c0_.push(check@.last())); }}', ab)
    u.fn('find_used_templates: add_to_check', f, f"pub fn add_to_check<'a>(map: &mut Templates<'a>, check: &mut Vec<(Key, String, Option<Key>)>, {P}: Key) -> (r: Result<(), CompileError>)", ab,
         ensures=['r is Err ==> !(r->Err_0).cyclic@', '2 * unmet(final(map).dom()) + final(check)@.len() <= 2 * unmet(old(map).dom()) + old(check)@.len()', f'r is Ok ==> final(map).dom() == old(map).dom().insert({P})', f'r is Ok ==> forall|k: Key| old(map).dom().contains(k) ==> #[trigger] final(map).m()[k] == old(map).m()[k]', f'r is Ok && old(map).dom().contains({P}) ==> final(check)@ == old(check)@',
                  f'r is Ok && !old(map).dom().contains({P}) ==> final(check)@.len() == old(check)@.len() + 1 && final(check)@.drop_last() == old(check)@ && final(check)@.last().0 == {P} && final(check)@.last().1@ == contents({P}) && forall|p: Key| #[trigger] waiting(final(check)@, p) <==> waiting(old(check)@, p) || p == {P}'])
    b = common(b)
    b = re.sub(r'\badd_to_check\((\w+)\)\?', lambda q: f'{{ let ghost q0_ = map.m(); let ghost m0_ = map.dom(); let ghost c0_ = check@; let ghost a_ = {q.group(1)}; add_to_check(map, &mut check, {q.group(1)})?; proof {{ listed_more(self, G@, c0_, check@, m0_, map.dom(), a_, path); if q0_.contains_key(a_) {{ assert(map.dom() =~= m0_); assert(q0_ =~= map.m()); }} seen_more(self, q0_, map.m(), c0_, check@, a_, Some(path)); }} }}', b)
    # source of the compiled template
    g = re.search(r'let\s+\((\w+),\s*(\w+)\)\s*=\s*match\s+&self\.source\s*\{', b)
    if not g: raise Lost('find_used_templates: source')
    b = b.replace('match &self.source', 'match self.source', 1); b = re.sub(r'Source::Source\((\w+)\)\s*=>\s*\(\1\.into\(\),', r'Source::Source(\1) => (to_owned_(\1),', b)
    g = re.search(r'let\s+mut\s+(\w+)\s*=\s*Vec::new\(\);\s*let\s+mut\s+check\s*=\s*vec!\[(.*?)\];', b, re.S)
    if not g: raise Lost('find_used_templates: lists')
    G = g.group(1)
    b = b[:g.start()] + f"let mut {G}: Vec<(Key, Key)> = Vec::new(); let mut check: Vec<(Key, String, Option<Key>)> = Vec::new(); check.push({g.group(2)}); proof {{ assert(check@[0].0 == self.path); assert(waiting(check@, self.path)); assert forall|x: Key| #[trigger] ends({G}@, x) by {{ ends_none({G}@, x); }} assert(state(self, {G}@, check@, map.dom(), None)); assert forall|p: Key| #[trigger] map.m().contains_key(p) || p == self.path implies waiting(check@, p) by {{ assert(!map.dom().contains(p)); }} }}" + b[g.end():]
    b = b.replace('G@', f'{G}@')
    # the loops
    g = re.search(r'while\s+let\s+Some\(\((\w+),\s*(\w+),\s*(\w+)\)\)\s*=\s*check\.pop\(\)\s*\{', b)
    if not g: raise Lost('find_used_templates: while'); 
    X = g.group(1)
    o = g.end() - 1; c = match_close(mask(b), o); body = b[o+1:c]
    h = re.search(r'for\s+(\w+)\s+in\s+(\w+)\s*\{', mask(body)); w = re.search(r'while\s+let\s+Some\((\w+)\)\s*=\s*nested\.pop\(\)\s*\{', mask(body))
    nn = re.search(r'let\s+mut\s+nested\s*=\s*vec!\[([^\]]*)\];', body)
    if not h or not w or not nn or w.group(1) != h.group(2): raise Lost('find_used_templates: nested')
    L = w.group(1); n = h.group(1)
    ho = h.end() - 1; hc = match_close(mask(body), ho); inner = body[ho+1:hc]
    # for cond in &i.branches { .. }
    k = 0
    while True:
        q = re.search(r'for\s+(\w+)\s+in\s+&(\w+(?:\.\w+)*)\s*\{', mask(inner))
        if not q: break
        k += 1; qo = q.end() - 1; qc = match_close(mask(inner), qo)
        inner = inner[:q.start()] + f'let mut j{k}_: usize = 0; while j{k}_ < {q.group(2)}.len() invariant j{k}_ <= {q.group(2)}.len(), forall|e: Key| pend(w0_, {X}, e) ==> #[trigger] pend(nested@, {X}, e), forall|j: int, e: Key| 0 <= j < j{k}_ && uses((#[trigger] {q.group(2)}@[j]).nodes, {X}, e) ==> #[trigger] pend(nested@, {X}, e), tot(nested@) <= tot(w0_) + size_of_{q.group(2).split('.')[-1]}({q.group(2)}, j{k}_ as nat) decreases {q.group(2)}.len() - j{k}_ {{ let {q.group(1)} = &{q.group(2)}[j{k}_]; j{k}_ += 1; {inner[qo+1:qc]} }}' + inner[qc+1:]
    inner = re.sub(r'nested\.push\(([^;]*)\);', lambda q: f'{{ let ghost n0_ = nested@; nested.push({q.group(1)}); proof {{ pend_push(n0_, nested@.last(), {X}); assert(nested@ == n0_.push(nested@.last())); }} }}', inner)
    # comparison of paths, the graph
    inner = re.sub(rf'\bif\s+{X}\s*==\s*(\w+)\s*\{{', rf'if same(&{X}, &\1) {{', inner); inner = re.sub(rf'\bif\s+(\w+)\s*!=\s*{X}\s*\{{', rf'if !same(&\1, &{X}) {{', inner)
    inner = re.sub(r'\bif\s+\*(\w+)\s*==\s*((?:self\.)?\w+)\s*\{', r'if same(\1, &\2) {', inner)
    inner = re.sub(rf'{G}\.contains\(&(\w+)\)', rf'contains_edge(&{G}, &\1)', inner)
    ext = re.search(r'let\s+(\w+)\s*=\s*self\.config\.find_template\((\w+)\.path', inner)
    dp = re.search(rf'let\s+(\w+)\s*=\s*\({X}\.clone\(\),\s*(\w+)\.clone\(\)\);', inner)
    if not ext or not dp: raise Lost('find_used_templates: extends')
    D, EX = dp.groups()
    e0 = inner.index(';', ext.start())
    # errors about cycles: the walk so far is the reason
    inner = re.sub(rf'({G}\.push\({D}\);\s*)?return\s+cyclic_graph_error\(&{G}\);', lambda q: f'proof {{ assert(cyclic_by(self, {G}@, {X}, {EX})); }} {q.group(0)}', inner)
    # the walk over ancestors
    q = re.search(r'let\s+mut\s+(\w+)\s*=\s*Some\(&' + EX + r'\);\s*while\s+let\s+Some\((\w+)\)\s*=\s*\1\s*\{', inner)
    if not q: raise Lost('find_used_templates: ancestors')
    A, F = q.groups(); qo = q.end() - 1; qc = match_close(mask(inner), qo); wb = inner[qo+1:qc]
    fm = []
    def find_map(r, a):
        p, x = closure(a[0]); z = re.match(r'^\((.*?)\)\s*\.then_some\((\w+)\)$', x.strip(), re.S); pp = re.match(r'^\((\w+),\s*(\w+)\)$', p)
        if not z or not pp or re.sub(r'\s', '', r) != f'{G}.iter()': raise Lost('find_map')
        fm.append(1); cond = re.sub(r'^\s*(\w+)\s*==\s*(\w+)\s*$', r'same(\1, \2)', z.group(1))
        return (f'{{ let mut r_: Option<&Key> = None; let mut k_: usize = 0; assert({G}@.take(0) =~= Seq::empty()); while k_ < {G}.len() && r_.is_none() invariant k_ <= {G}.len(), first({G}@.take(k_ as int), *{F}) == val(r_) decreases {G}.len() - k_ '
                f'{{ let {pp.group(1)} = &{G}[k_].0; let {pp.group(2)} = &{G}[k_].1; proof {{ assert({G}@.take(k_ + 1).drop_last() =~= {G}@.take(k_ as int)); }} k_ += 1; r_ = if {cond} {{ Some({z.group(2)}) }} else {{ None }}; }} proof {{ assert({G}@.take({G}@.len() as int) =~= {G}@); if r_ is Some {{ first_stays({G}@, k_ as int, *{F}); }} }} r_ }}')
    u.raw('''pub open spec fn val(o: Option<&Key>) -> Option<Key> { match o { Some(k) => Some(*k), None => None } }
proof fn first_stays(g: Seq<(Key, Key)>, n: int, x: Key) requires 0 <= n <= g.len(), first(g.take(n), x) is Some ensures first(g, x) == first(g.take(n), x) decreases g.len() - n { if n < g.len() { assert(g.take(n + 1).drop_last() =~= g.take(n)); first_stays(g, n + 1, x); } else { assert(g.take(n) =~= g); } }
proof fn listed_more(t: &TemplateInput, g: Seq<(Key, Key)>, c0: Seq<(Key, String, Option<Key>)>, c1: Seq<(Key, String, Option<Key>)>, m0: Set<Key>, m1: Set<Key>, a: Key, p: Key)
    requires state(t, g, c0, m0, Some(p)), m1 == m0.insert(a), m0.contains(a) ==> c1 == c0, !m0.contains(a) ==> c1.len() == c0.len() + 1 && c1.drop_last() == c0 && c1.last().0 == a && c1.last().1@ == contents(a) && forall|q: Key| #[trigger] waiting(c1, q) <==> waiting(c0, q) || q == a
    ensures state(t, g, c1, m1, Some(p)), (g.len() > 0 && g.last().1 == a) || listed(g, m0) ==> listed(g, m1)
{
    if m0.contains(a) { assert(m1 =~= m0); } else { assert forall|i: int| 0 <= i < c1.len() implies source_ok(t, (#[trigger] c1[i]).0, c1[i].1@) by { if i < c0.len() { assert(c1[i] == c0[i]); } } }
}''')
    wb = method_calls(wb, 'find_map', find_map)
    if len(fm) != 1: raise Lost('find_map')
    WI = f'invariant {G}@ == gw_, val({A}) == walk({G}@, {EX}, m_), forall|k: nat| k < m_ ==> #[trigger] walk({G}@, {EX}, k) != Some({X})\n decreases e_ - m_ + (if {A} is Some {{ 1int }} else {{ 0 }})'
    inner = (inner[:q.start()] + f'let ghost gw_ = {G}@; let ghost mut m_: nat = 0; let ghost e_: nat = choose|n: nat| #[trigger] walk({G}@, {EX}, n) is None; proof {{ assert(ends({G}@, {EX})); assert(walk({G}@, {EX}, 0) == Some({EX})); }} let mut {A} = Some(&{EX}); while let Some({F}) = {A}\n{WI}\n{{ proof {{ if m_ >= e_ {{ walk_none({G}@, {EX}, e_, m_); }} walk_next({G}@, {EX}, m_); }} {wb} proof {{ m_ = m_ + 1; }} }}'
             + f' proof {{ assert forall|k: nat| #[trigger] walk({G}@, {EX}, k) != Some({X}) by {{ if k >= m_ {{ walk_none({G}@, {EX}, m_, k); }} }} stays_acyclic({G}@, {X}, {EX}); done_push(self, {G}@, ({X}, {EX})); covered_push({G}@, ({X}, {EX}), {L}@, i_ - 1, {X}); }} let ghost g0_ = {G}@;' + inner[qc+1:])
    # the edge itself, after the walk
    q = list(re.finditer(rf'{G}\.push\({D}\);', inner))
    q = q[-1] if q and 'let ghost g0_' in inner[:q[-1].start()] else None
    if q: inner = inner[:q.end()] + f' proof {{ assert({G}@ == g0_.push(({X}, {EX}))); assert({G}@.last() == ({X}, {EX})); assert({G}@.contains(({X}, {EX}))); assert forall|i: int| 0 <= i < {G}@.len() implies true_edge(self, (#[trigger] {G}@[i]).0, {G}@[i].1) by {{ if i < g0_.len() {{ assert({G}@[i] == g0_[i]); }} }} assert forall|i: int| 0 <= i < {G}@.len() implies map.dom().contains((#[trigger] {G}@[i]).1) || pending({G}@, i) by {{ if i < g0_.len() {{ assert({G}@[i] == g0_[i]); }} }} assert(covered({G}@, {L}@, i_ as int, {X})); }}' + inner[q.end():]
    # true_edge of the new edge
    inner = inner[:dp.end()+0] + inner[dp.end():]
    dp2 = re.search(rf'let\s+{D}\s*=\s*\({X}\.clone\(\),\s*{EX}\.clone\(\)\);', inner)
    inner = inner[:dp2.end()] + f' proof {{ assert(extends_at({L}@, i_ - 1, {X}, {EX})); assert(true_edge(self, {X}, {EX})); }}' + inner[dp2.end():]
    LI = f'invariant i_ <= {L}.len(), 2 * unmet(map.dom()) + check@.len() <= m2_, tot(nested@) + 1 <= t0_ + size_to(*{L}, i_ as nat), seen(self, map.m(), check@, Some({X})), reads(map.m(), nested@, {L}@, i_ as int, top, top_, {X}), state(self, {G}@, check@, map.dom(), Some({X})), listed({G}@, map.dom()), top ==> {L}@ == top_ && covered({G}@, {L}@, i_ as int, {X}), !top ==> covered({G}@, top_, top_.len() as int, {X})\n decreases {L}.len() - i_'
    body = body[:h.start()] + f'let ghost t0_ = tot(nested@); let mut i_: usize = 0; while i_ < {L}.len()\n{LI}\n{{ let {n} = &{L}[i_]; let ghost w0_ = nested@; let ghost u0_ = map.m(); i_ += 1; {inner} proof {{ assert(*{n} == {L}@[i_ - 1]); assert(size_to(*{L}, i_ as nat) == size_to(*{L}, (i_ - 1) as nat) + size_in(*{n})); assert(tot(nested@) <= tot(w0_) + size_in(*{n})); reads_next(u0_, w0_, map.m(), nested@, {L}@, i_ - 1, top, top_, {X}); }} }}' + body[hc+1:]
    w = re.search(r'while\s+let\s+Some\(\w+\)\s*=\s*nested\.pop\(\)\s*\{', body); WN = f'invariant 2 * unmet(map.dom()) + check@.len() <= m2_, seen(self, map.m(), check@, Some({X})), !top ==> forall|e: Key| #[trigger] left(top_, 0, true, {X}, e) ==> map.m().contains_key(e) || pend(nested@, {X}, e), n1_ == nested@, state(self, {G}@, check@, map.dom(), Some({X})), listed({G}@, map.dom()), top ==> nested@.len() == 1 && (*nested@[0])@ == top_, !top ==> covered({G}@, top_, top_.len() as int, {X})\n decreases tot(nested@)'
    wc = match_close(mask(body), w.end() - 1)
    tail = f' proof {{ assert forall|e: Key| #[trigger] left(top_, 0, true, {X}, e) implies map.m().contains_key(e) || pend(nested@, {X}, e) by {{ assert(!left({L}@, {L}@.len() as int, top, {X}, e)); assert(!left({L}@, {L}@.len() as int, true, {X}, e)); }} n1_ = nested@; }} '
    body = body[:w.start()] + ' let ghost mut n1_ = nested@; ' + body[w.start():w.end()-1] + '\n' + WN + f'\n{{ proof {{ assert(n1_ =~= nested@.push({L})); pend_push(nested@, {L}, {X}); if !top {{ reads_pop(map.m(), nested@, {L}, top_, {X}); }} }}' + body[w.end():wc] + tail + body[wc:]
    nn = re.search(r'let\s+mut\s+nested\s*=\s*vec!\[([^\]]*)\];', body)
    body = body[:nn.start()] + f'let ghost top_ = parsed.nodes@; let mut nested: Vec<&Vec<Node>> = Vec::new(); nested.push({nn.group(1)}); assert(nodes_ok(self, {X}, top_));' + body[nn.end():]
    q = re.search(r'map\.insert\(' + X + r',\s*parsed\);', body)
    if not q: raise Lost('find_used_templates: map.insert')
    body = body[:q.start()] + f' let ghost m1_ = map.dom(); proof {{ assert(covered({G}@, top_, top_.len() as int, {X})); assert(done(self, {G}@, {X})); assert forall|e: Key| #[trigger] left(top_, 0, true, {X}, e) implies map.m().contains_key(e) by {{ assert(!pend(nested@, {X}, e)); }} seen_done(self, map.m(), check@, {X}, parsed.nodes); meet(map.dom(), {X}); }} ' + body[q.start():]
    pre = f' proof {{ assert(c_ =~= check@.push(({X}, {g.group(2)}, {g.group(3)}))); waiting_push(check@, ({X}, {g.group(2)}, {g.group(3)})); assert(source_ok(self, c_[c_.len() - 1].0, c_[c_.len() - 1].1@)); assert forall|i: int| 0 <= i < check@.len() implies source_ok(self, (#[trigger] check@[i]).0, check@[i].1@) by {{ assert(c_[i] == check@[i]); }} assert(state(self, {G}@, check@, map.dom(), Some({X}))); assert(seen(self, map.m(), check@, Some({X}))) by {{ assert forall|p: Key| #[trigger] map.m().contains_key(p) || p == self.path implies fin(self, map.m(), p) || waiting(check@, p) || p == {X} by {{ if waiting(c_, p) {{ assert(c_ == check@.push(({X}, {g.group(2)}, {g.group(3)}))); }} }} }} }}'
    b = b[:g.start()] + f'let ghost mut c_ = check@; while let Some(({X}, {g.group(2)}, {g.group(3)})) = check.pop()\ninvariant seen(self, map.m(), check@, None), state(self, {G}@, check@, map.dom(), None), listed({G}@, map.dom()), c_ == check@\n decreases 2 * unmet(map.dom()) + check@.len()\n{{ {pre} let ghost m2_ = 2 * unmet(map.dom()) + check@.len(); {body} proof {{ c_ = check@; }} }}' + f' proof {{ assert forall|p: Key| !#[trigger] waiting(check@, p) by {{}} assert(all_known(self, {G}@)); assert(closed(self, map.m())); }} ' + b[c+1:]
    u.raw('''/// the compiled template and all templates that others extend have been looked at: their own extends are in the graph, which has no cycle
pub open spec fn all_known(t: &TemplateInput, g: Seq<(Key, Key)>) -> bool { acyclic(g) && done(t, g, t.path) && forall|i: int| 0 <= i < g.len() ==> done(t, g, (#[trigger] g[i]).1) }''')
    u.fn('TemplateInput::find_used_templates', f, "pub fn find_used_templates<'a>(&self, map: &mut Templates<'a>) -> (r: Result<(), CompileError>)", b, before="impl<'b> TemplateInput<'b> {", after='}', attrs='#[verifier::loop_isolation(false)]',
         requires=['forall|p: Key| !#[trigger] old(map).dom().contains(p)'],
         ensures=['r is Ok ==> closed(self, final(map).m())', 'r is Ok ==> exists|g: Seq<(Key, Key)>| #[trigger] all_known(self, g)', 'r is Err && (r->Err_0).cyclic@ ==> exists|g: Seq<(Key, Key)>, p: Key, e: Key| #[trigger] cyclic_by(self, g, p, e)'])
    return u

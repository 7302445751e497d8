// ---- nodes are handles; what can change of a node lives in the heap
#[verifier::external_body] struct Uid { x: u8 }
/// the parent field of a node: a cell of its own
#[verifier::external_body] struct Link { x: u8 }
struct RcNode { uid: Uid, node_type: NodeType, name: String, value: String, parent: Option<Link> }
#[verifier::external_body] struct Weak { x: u8 }
uninterp spec fn wt(w: Weak) -> Option<RcNode>;
struct Cell<T> { v: T }
impl<T> Cell<T> { fn new(v: T) -> (r: Cell<T>) ensures r.v == v { Cell { v } } }
struct RefCell<T> { v: T }
impl<T> RefCell<T> { fn new(v: T) -> (r: RefCell<T>) ensures r.v == v { RefCell { v } } }

pub struct NV { pub kids: Seq<RcNode>, pub attrs: Seq<RcNode>, pub link: Option<RcNode>, pub order: i64 }
type HV = Map<RcNode, NV>;
#[verifier::external_body] struct Heap { x: u8 }
impl Heap { uninterp spec fn v(self) -> HV; }

spec fn alive(h: HV, n: RcNode) -> bool { h.dom().contains(n) }
spec fn kids(h: HV, n: RcNode) -> Seq<RcNode> { h[n].kids }
spec fn atts(h: HV, n: RcNode) -> Seq<RcNode> { h[n].attrs }
spec fn set_kids(h: HV, n: RcNode, s: Seq<RcNode>) -> HV { h.insert(n, NV { kids: s, ..h[n] }) }
spec fn set_atts(h: HV, n: RcNode, s: Seq<RcNode>) -> HV { h.insert(n, NV { attrs: s, ..h[n] }) }
spec fn set_link(h: HV, n: RcNode, p: Option<RcNode>) -> HV { h.insert(n, NV { link: p, ..h[n] }) }
spec fn set_order(h: HV, n: RcNode, o: i64) -> HV { h.insert(n, NV { order: o, ..h[n] }) }
/// no node refers to n
spec fn fresh(h: HV, n: RcNode) -> bool { !alive(h, n) && forall|m: RcNode| #[trigger] alive(h, m) ==> h[m].link != Some(n) && !kids(h, m).contains(n) && !atts(h, m).contains(n) }

// ---- std::rc and std::cell (trusted)
struct Rc { x: u8 }
impl Rc {
    #[verifier::external_body] fn clone(a: &RcNode) -> (r: RcNode) ensures r == *a { unimplemented!() }
    #[verifier::external_body] fn ptr_eq(a: &RcNode, b: &RcNode) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
    #[verifier::external_body] fn downgrade(a: &RcNode) -> (r: Weak) ensures wt(r) == Some(*a) { unimplemented!() }
    #[verifier::external_body] fn hnew(h: &mut Heap, node: Node) -> (r: RcNode)
        ensures fresh(old(h).v(), r), r.node_type == node.node_type, r.name@ == node.name@, r.value@ == node.value@, (r.parent is Some) == (node.parent is Some),
            final(h).v() == old(h).v().insert(r, NV { kids: node.children.v@, attrs: node.attributes.v@, link: match node.parent { Some(c) => wt(c.v), None => None }, order: node.order.v }) { unimplemented!() }
}
impl Weak {
    #[verifier::external_body] fn new() -> (r: Weak) ensures wt(r) is None { unimplemented!() }
    #[verifier::external_body] fn upgrade(&self, h: &Heap) -> (r: Option<RcNode>) ensures r == (match wt(*self) { Some(t) => if alive(h.v(), t) { Some(t) } else { None }, None => None }) { unimplemented!() }
}
impl Link {
    #[verifier::external_body] fn hb(&self, h: &Heap) -> (r: Weak) ensures forall|n: RcNode| #[trigger] alive(h.v(), n) && n.parent == Some(*self) ==> wt(r) == h.v()[n].link { unimplemented!() }
    #[verifier::external_body] fn hm(&self, h: &mut Heap, w: Weak) ensures forall|n: RcNode| #[trigger] alive(old(h).v(), n) && n.parent == Some(*self) ==> final(h).v() == set_link(old(h).v(), n, wt(w)) { unimplemented!() }
}
impl RcNode {
    #[verifier::external_body] fn hb_children(&self, h: &Heap) -> (r: Vec<RcNode>) requires alive(h.v(), *self) ensures r@ == kids(h.v(), *self) { unimplemented!() }
    #[verifier::external_body] fn hb_attributes(&self, h: &Heap) -> (r: Vec<RcNode>) requires alive(h.v(), *self) ensures r@ == atts(h.v(), *self) { unimplemented!() }
    #[verifier::external_body] fn hm_children_push(&self, h: &mut Heap, x: RcNode) requires alive(old(h).v(), *self) ensures final(h).v() == set_kids(old(h).v(), *self, kids(old(h).v(), *self).push(x)) { unimplemented!() }
    #[verifier::external_body] fn hm_attributes_push(&self, h: &mut Heap, x: RcNode) requires alive(old(h).v(), *self) ensures final(h).v() == set_atts(old(h).v(), *self, atts(old(h).v(), *self).push(x)) { unimplemented!() }
    #[verifier::external_body] fn hm_children_insert(&self, h: &mut Heap, i: usize, x: RcNode) requires alive(old(h).v(), *self), i <= kids(old(h).v(), *self).len() ensures final(h).v() == set_kids(old(h).v(), *self, kids(old(h).v(), *self).insert(i as int, x)) { unimplemented!() }
    #[verifier::external_body] fn hm_attributes_insert(&self, h: &mut Heap, i: usize, x: RcNode) requires alive(old(h).v(), *self), i <= atts(old(h).v(), *self).len() ensures final(h).v() == set_atts(old(h).v(), *self, atts(old(h).v(), *self).insert(i as int, x)) { unimplemented!() }
    #[verifier::external_body] fn hm_children_remove(&self, h: &mut Heap, i: usize) -> (r: RcNode) requires alive(old(h).v(), *self), i < kids(old(h).v(), *self).len() ensures r == kids(old(h).v(), *self)[i as int], final(h).v() == set_kids(old(h).v(), *self, kids(old(h).v(), *self).remove(i as int)) { unimplemented!() }
    #[verifier::external_body] fn hm_attributes_remove(&self, h: &mut Heap, i: usize) -> (r: RcNode) requires alive(old(h).v(), *self), i < atts(old(h).v(), *self).len() ensures r == atts(old(h).v(), *self)[i as int], final(h).v() == set_atts(old(h).v(), *self, atts(old(h).v(), *self).remove(i as int)) { unimplemented!() }
    #[verifier::external_body] fn hm_children_len(&self, h: &mut Heap) -> (r: usize) requires alive(old(h).v(), *self) ensures r == kids(old(h).v(), *self).len(), final(h).v() == old(h).v() { unimplemented!() }
    #[verifier::external_body] fn hget_order(&self, h: &Heap) -> (r: i64) requires alive(h.v(), *self) ensures r == h.v()[*self].order { unimplemented!() }
    #[verifier::external_body] fn hset_order(&self, h: &mut Heap, o: i64) requires alive(old(h).v(), *self) ensures final(h).v() == set_order(old(h).v(), *self, o) { unimplemented!() }
}
impl Clone for NodeType { #[verifier::external_body] fn clone(&self) -> (r: NodeType) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for NodeType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &NodeType) -> bool { *self == *o } }
impl PartialEq for NodeType { #[verifier::external_body] fn eq(&self, o: &NodeType) -> (r: bool) { unimplemented!() } }
impl Clone for NodePtr { #[verifier::external_body] fn clone(&self) -> (r: NodePtr) ensures r == *self { unimplemented!() } }

// ---- the tree
spec fn par(h: HV, n: RcNode) -> Option<RcNode> { if !alive(h, n) { None } else { match h[n].link { Some(p) => if alive(h, p) { Some(p) } else { None }, None => None } } }
/// the k-th ancestor
spec fn up(h: HV, n: RcNode, k: nat) -> Option<RcNode> decreases k { if k == 0 { Some(n) } else { match par(h, n) { Some(p) => up(h, p, (k - 1) as nat), None => None } } }
/// m is n or an ancestor of n
spec fn anc(h: HV, n: RcNode, m: RcNode) -> bool { exists|k: nat| #[trigger] up(h, n, k) == Some(m) }
spec fn nodup(s: Seq<RcNode>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
/// lists of a node: every entry is alive, reports the node as its parent and stands there once
spec fn node_ok(h: HV, n: RcNode) -> bool {
    &&& n.parent is None ==> h[n].link is None && n.node_type is DocumentRoot
    &&& forall|i: int| 0 <= i < kids(h, n).len() ==> alive(h, #[trigger] kids(h, n)[i]) && h[kids(h, n)[i]].link == Some(n)
    &&& forall|i: int| 0 <= i < atts(h, n).len() ==> alive(h, #[trigger] atts(h, n)[i]) && h[atts(h, n)[i]].link == Some(n) && atts(h, n)[i].node_type is Attribute
    &&& nodup(kids(h, n))
    &&& nodup(atts(h, n))
    &&& forall|i: int, j: int| 0 <= i < kids(h, n).len() && 0 <= j < atts(h, n).len() ==> kids(h, n)[i] != atts(h, n)[j]
    &&& n.node_type is Attribute ==> kids(h, n).len() == 0 && atts(h, n).len() == 0
    &&& h[n].order >= 0
}
/// ranks that grow from a parent to its child: there is no cycle
spec fn ranked(h: HV, f: spec_fn(RcNode) -> nat, b: nat) -> bool { forall|n: RcNode| #[trigger] alive(h, n) ==> f(n) <= b && match par(h, n) { Some(p) => f(p) < f(n), None => true } }
spec fn acyclic(h: HV) -> bool { exists|f: spec_fn(RcNode) -> nat, b: nat| ranked(h, f, b) }
spec fn listed(h: HV, n: RcNode) -> bool { match par(h, n) { Some(p) => kids(h, p).contains(n) || atts(h, p).contains(n), None => true } }
spec fn base(h: HV) -> bool { acyclic(h) && forall|n: RcNode| #[trigger] alive(h, n) ==> node_ok(h, n) }
/// C06: the links of parents and children agree, nothing stands twice, no node is its own ancestor
spec fn wf(h: HV) -> bool { base(h) && forall|n: RcNode| #[trigger] alive(h, n) ==> listed(h, n) }

/// the nodes of a subtree in document order, down to depth k: the node, its attributes, its children's subtrees
spec fn pre(h: HV, n: RcNode, k: nat) -> Seq<RcNode> decreases k, 0nat, 0nat { seq![n] + atts(h, n) + if k == 0 { Seq::empty() } else { pre_list(h, kids(h, n), kids(h, n).len(), (k - 1) as nat) } }
spec fn pre_list(h: HV, s: Seq<RcNode>, j: nat, k: nat) -> Seq<RcNode> decreases k, 1nat, j { if j == 0 || j > s.len() { Seq::empty() } else { pre_list(h, s, (j - 1) as nat, k) + pre(h, s[j - 1], k) } }
spec fn rising(h: HV, s: Seq<RcNode>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> h[#[trigger] s[i]].order < h[#[trigger] s[j]].order }
/// C09: a node that carries a number heads a subtree that is numbered in document order
spec fn ord_inv(h: HV) -> bool { forall|n: RcNode| #[trigger] alive(h, n) && h[n].order != 0 ==> rising(h, whole(h, n)) }
/// the whole subtree in document order
spec fn whole(h: HV, n: RcNode) -> Seq<RcNode> { pre(h, n, height(h, n)) }
spec fn wholes(h: HV, s: Seq<RcNode>, j: nat) -> Seq<RcNode> decreases j { if j == 0 || j > s.len() { Seq::empty() } else { wholes(h, s, (j - 1) as nat) + whole(h, s[j - 1]) } }

/// what a copy has in common with its source, down to depth k
pub ghost enum Content { Cut, Node { ty: NodeType, name: Seq<char>, value: Seq<char>, attrs: Seq<Content>, kids: Seq<Content> } }
spec fn content(h: HV, n: RcNode, k: nat) -> Content decreases k, 0nat {
    if k == 0 { Content::Cut } else { Content::Node { ty: n.node_type, name: n.name@, value: n.value@, attrs: contents(h, atts(h, n), (k - 1) as nat), kids: contents(h, kids(h, n), (k - 1) as nat) } } }
spec fn contents(h: HV, s: Seq<RcNode>, k: nat) -> Seq<Content> decreases k, 1nat { Seq::new(s.len(), |i: int| content(h, s[i], k)) }

spec fn rcs(s: Seq<NodePtr>) -> Seq<RcNode> { s.map_values(|x: NodePtr| x.rc_node) }
spec fn anc_to(h: HV, n: RcNode, m: RcNode, k: nat) -> bool { exists|j: nat| j < k && #[trigger] up(h, n, j) == Some(m) }
#[verifier::external_body]
proof fn ax_len<T>(v: &Vec<T>) ensures v@.len() <= 0x7fff_ffff_ffff_ffff {}
// ---- the changes the operations make
spec fn index(s: Seq<RcNode>, c: RcNode) -> int { choose|i: int| 0 <= i < s.len() && s[i] == c }
/// the order numbers of a node and its ancestors withdrawn
spec fn zeroed(h: HV, n: RcNode) -> HV { Map::new(h.dom(), |m: RcNode| NV { order: if anc(h, n, m) { 0 } else { h[m].order }, ..h[m] }) }
spec fn detached(h: HV, p: RcNode, c: RcNode) -> HV { if kids(h, p).contains(c) { set_link(set_kids(h, p, kids(h, p).remove(index(kids(h, p), c))), c, None) } else { h } }
spec fn attached(h: HV, p: RcNode, c: RcNode) -> HV { let h1 = set_link(h, c, Some(p)); set_kids(h1, p, kids(h1, p).push(c)) }
spec fn withdrawn(h: HV, c: RcNode) -> HV { match par(h, c) { Some(p) => zeroed(detached(h, p, c), p), None => h } }
/// what append_child does
spec fn refused(h: HV, p: RcNode, c: RcNode) -> bool { anc(h, p, c) || c.node_type is DocumentRoot || c.node_type is Attribute || p.node_type is Attribute }
spec fn appended(h: HV, p: RcNode, c: RcNode) -> HV { if refused(h, p, c) { h } else { zeroed(attached(withdrawn(h, c), p, c), p) } }
/// h2 is h1 with more nodes
spec fn ext(h1: HV, h2: HV) -> bool { forall|n: RcNode| #[trigger] alive(h1, n) ==> alive(h2, n) && h2[n] == h1[n] && par(h2, n) == par(h1, n) }
/// only order numbers differ
spec fn same_tree(h1: HV, h2: HV) -> bool { h1.dom() == h2.dom() && forall|n: RcNode| #[trigger] alive(h1, n) ==> h2[n] == (NV { order: h2[n].order, ..h1[n] }) }

/// the entries of new nodes are new nodes
spec fn new_closed(h0: HV, h: HV) -> bool { forall|m: RcNode| #[trigger] alive(h, m) && !alive(h0, m) ==> (forall|i: int| 0 <= i < kids(h, m).len() ==> !alive(h0, #[trigger] kids(h, m)[i])) && (forall|i: int| 0 <= i < atts(h, m).len() ==> !alive(h0, #[trigger] atts(h, m)[i])) }
/// r is a copy of the subtree of src, made of new nodes, with p as its parent but not yet in a list of it
spec fn copied(h0: HV, h: HV, src: RcNode, r: RcNode, p: RcNode) -> bool {
    &&& ext(h0, h) && base(h) && new_closed(h0, h)
    &&& alive(h, r) && !alive(h0, r) && h[r].link == Some(p) && r.node_type == src.node_type && r.parent is Some
    &&& forall|m: RcNode| #[trigger] alive(h, m) && !alive(h0, m) ==> h[m].order == 0 && (m != r ==> listed(h, m))
    &&& forall|k: nat| #[trigger] content(h, r, k) == content(h0, src, k)
}
/// the copy after a children and b attributes
spec fn copying(h0: HV, h: HV, src: RcNode, t: RcNode, p: RcNode, a: nat, b: nat) -> bool {
    &&& ext(h0, h) && base(h) && new_closed(h0, h)
    &&& alive(h, t) && !alive(h0, t) && h[t].link == Some(p) && t.node_type == src.node_type && t.name@ == src.name@ && t.value@ == src.value@ && t.parent is Some
    &&& forall|m: RcNode| #[trigger] alive(h, m) && !alive(h0, m) ==> h[m].order == 0 && (m != t ==> listed(h, m))
    &&& kids(h, t).len() == a <= kids(h0, src).len() && atts(h, t).len() == b <= atts(h0, src).len()
    &&& forall|i: int, k: nat| 0 <= i < a ==> #[trigger] content(h, kids(h, t)[i], k) == content(h0, kids(h0, src)[i], k)
    &&& forall|i: int, k: nat| 0 <= i < b ==> #[trigger] content(h, atts(h, t)[i], k) == content(h0, atts(h0, src)[i], k)
}
/// what insert_as_previous_sibling and insert_as_next_sibling do to the tree: a copy r of src stands at place i of p, nothing else changes
spec fn inserted(h0: HV, h1: HV, p: RcNode, i: int, r: RcNode, src: RcNode) -> bool {
    &&& alive(h1, r) && !alive(h0, r) && h1[r].link == Some(p)
    &&& kids(h1, p) == kids(h0, p).insert(i, r)
    &&& forall|n: RcNode| #[trigger] alive(h0, n) ==> alive(h1, n) && atts(h1, n) == atts(h0, n) && h1[n].link == h0[n].link && (n != p ==> kids(h1, n) == kids(h0, n))
    &&& forall|k: nat| #[trigger] content(h1, r, k) == content(h0, src, k)
}
spec fn replaced(h0: HV, h1: HV, p: RcNode, i: int, r: RcNode, src: RcNode, c: RcNode) -> bool {
    &&& alive(h1, r) && !alive(h0, r) && h1[r].link == Some(p)
    &&& kids(h1, p) == kids(h0, p).update(i, r)
    &&& h1[c].link is None
    &&& forall|n: RcNode| #[trigger] alive(h0, n) ==> alive(h1, n) && atts(h1, n) == atts(h0, n) && (n != c ==> h1[n].link == h0[n].link) && (n != p ==> kids(h1, n) == kids(h0, n))
    &&& forall|k: nat| #[trigger] content(h1, r, k) == content(h0, src, k)
}
/// the place of the first attribute of a name
spec fn attr_at(s: Seq<RcNode>, name: Seq<char>) -> Option<int> decreases s.len() { if s.len() == 0 { None } else if s[0].name@ == name { Some(0) } else { match attr_at(s.drop_first(), name) { Some(i) => Some(i + 1), None => None } } }
spec fn attr_value(s: Seq<RcNode>, name: Seq<char>) -> Option<Seq<char>> { match attr_at(s, name) { Some(i) => Some(s[i].value@), None => None } }
/// what set_attribute does: a new attribute a in the place of the old one of that name, or last
spec fn with_attr(h: HV, n: RcNode, a: RcNode, name: Seq<char>) -> HV {
    match attr_at(atts(h, n), name) { Some(i) => set_atts(set_link(h, atts(h, n)[i], None), n, atts(h, n).update(i, a)), None => set_atts(h, n, atts(h, n).push(a)) } }
spec fn attr_set(h0: HV, h1: HV, n: RcNode, name: Seq<char>, value: Seq<char>, a: RcNode) -> bool {
    &&& alive(h1, a) && !alive(h0, a) && a.name@ == name && a.value@ == value && a.node_type is Attribute && h1[a].link == Some(n)
    &&& atts(h1, n) == (match attr_at(atts(h0, n), name) { Some(i) => atts(h0, n).update(i, a), None => atts(h0, n).push(a) })
    &&& forall|m: RcNode| #[trigger] alive(h0, m) ==> alive(h1, m) && kids(h1, m) == kids(h0, m) && (m != n ==> atts(h1, m) == atts(h0, m)) && (match attr_at(atts(h0, n), name) { Some(i) => if m == atts(h0, n)[i] { h1[m].link is None } else { h1[m].link == h0[m].link }, None => h1[m].link == h0[m].link })
}
spec fn without_attr(h: HV, n: RcNode, name: Seq<char>) -> HV {
    match attr_at(atts(h, n), name) { Some(i) => set_link(set_atts(h, n, atts(h, n).remove(i)), atts(h, n)[i], None), None => h } }
#[verifier::external_body]
proof fn ax_len_s(s: Seq<RcNode>) ensures s.len() <= 0x7fff_ffff_ffff_ffff {}
// ---- lemmas: ancestors
proof fn lemma_up_alive(h: HV, n: RcNode, k: nat) requires alive(h, n) ensures match up(h, n, k) { Some(m) => alive(h, m), None => true } decreases k
{ if k > 0 { if let Some(p) = par(h, n) { lemma_up_alive(h, p, (k - 1) as nat); } } }
proof fn lemma_up_step(h: HV, n: RcNode, k: nat) ensures up(h, n, k + 1) == (match up(h, n, k) { Some(m) => par(h, m), None => None }) decreases k
{ if k > 0 { if let Some(p) = par(h, n) { lemma_up_step(h, p, (k - 1) as nat); } } else { reveal_with_fuel(up, 3); } }
proof fn lemma_up_none(h: HV, n: RcNode, k: nat, j: nat) requires up(h, n, k) is None, j >= k ensures up(h, n, j) is None decreases j
{ if j > k { lemma_up_none(h, n, k, (j - 1) as nat); lemma_up_step(h, n, (j - 1) as nat); } }
proof fn lemma_anc_self(h: HV, n: RcNode) ensures anc(h, n, n) { assert(up(h, n, 0) == Some(n)); }
/// the ancestors of a child other than itself are those of its parent
proof fn lemma_anc_par(h: HV, n: RcNode, m: RcNode) ensures anc(h, n, m) <==> (n == m || match par(h, n) { Some(p) => anc(h, p, m), None => false })
{
    if anc(h, n, m) { let k = choose|k: nat| #[trigger] up(h, n, k) == Some(m); if k > 0 { assert(up(h, par(h, n)->Some_0, (k - 1) as nat) == Some(m)); } }
    if n == m { lemma_anc_self(h, n); }
    if let Some(p) = par(h, n) { if anc(h, p, m) { let k = choose|k: nat| #[trigger] up(h, p, k) == Some(m); assert(up(h, n, k + 1) == Some(m)); } }
}
proof fn lemma_anc_alive(h: HV, n: RcNode, m: RcNode) requires alive(h, n), anc(h, n, m) ensures alive(h, m)
{ let k = choose|k: nat| #[trigger] up(h, n, k) == Some(m); lemma_up_alive(h, n, k); }
proof fn lemma_up_trans(h: HV, n: RcNode, i: nat, j: nat) ensures up(h, n, i + j) == (match up(h, n, i) { Some(m) => up(h, m, j), None => None }) decreases i
{ if i > 0 { if let Some(p) = par(h, n) { lemma_up_trans(h, p, (i - 1) as nat, j); } } }
proof fn lemma_anc_trans(h: HV, a: RcNode, b: RcNode, c: RcNode) requires anc(h, a, b), anc(h, b, c) ensures anc(h, a, c)
{ let i = choose|k: nat| #[trigger] up(h, a, k) == Some(b); let j = choose|k: nat| #[trigger] up(h, b, k) == Some(c); lemma_up_trans(h, a, i, j); assert(up(h, a, i + j) == Some(c)); }
/// ancestors of the same links are the same
proof fn lemma_up_same(h1: HV, h2: HV, n: RcNode, k: nat) requires alive(h1, n), forall|m: RcNode| #[trigger] alive(h1, m) ==> par(h1, m) == par(h2, m) ensures up(h1, n, k) == up(h2, n, k) decreases k
{ if k > 0 { if let Some(p) = par(h1, n) { lemma_up_same(h1, h2, p, (k - 1) as nat); } } }
proof fn lemma_anc_same(h1: HV, h2: HV, n: RcNode, m: RcNode) requires alive(h1, n), forall|x: RcNode| #[trigger] alive(h1, x) ==> par(h1, x) == par(h2, x) ensures anc(h1, n, m) == anc(h2, n, m)
{
    if anc(h1, n, m) { let k = choose|k: nat| #[trigger] up(h1, n, k) == Some(m); lemma_up_same(h1, h2, n, k); assert(up(h2, n, k) == Some(m)); }
    if anc(h2, n, m) { let k = choose|k: nat| #[trigger] up(h2, n, k) == Some(m); lemma_up_same(h1, h2, n, k); assert(up(h1, n, k) == Some(m)); }
}
/// fewer links: no new ancestors
proof fn lemma_up_fewer(h1: HV, h2: HV, n: RcNode, k: nat) requires forall|m: RcNode| par(h2, m) is Some ==> #[trigger] par(h2, m) == par(h1, m) ensures up(h2, n, k) is Some ==> up(h2, n, k) == up(h1, n, k) decreases k
{ if k > 0 { if let Some(p) = par(h2, n) { assert(par(h2, n) == par(h1, n)); lemma_up_fewer(h1, h2, p, (k - 1) as nat); } } }
proof fn lemma_anc_fewer(h1: HV, h2: HV, n: RcNode, m: RcNode) requires anc(h2, n, m), forall|x: RcNode| par(h2, x) is Some ==> #[trigger] par(h2, x) == par(h1, x) ensures anc(h1, n, m)
{ let k = choose|k: nat| #[trigger] up(h2, n, k) == Some(m); lemma_up_fewer(h1, h2, n, k); assert(up(h1, n, k) == Some(m)); }
/// no node is its own ancestor
proof fn lemma_no_cycle(h: HV, n: RcNode, p: RcNode) requires base(h), alive(h, n), par(h, n) == Some(p) ensures !anc(h, p, n), p != n
{
    let (f, b) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(h, f, b);
    if anc(h, p, n) { let k = choose|k: nat| #[trigger] up(h, p, k) == Some(n); lemma_up_rank(h, p, k, f, b); }
}
proof fn lemma_up_rank(h: HV, n: RcNode, k: nat, f: spec_fn(RcNode) -> nat, b: nat) requires alive(h, n), ranked(h, f, b) ensures match up(h, n, k) { Some(m) => f(m) <= f(n), None => true } decreases k
{ if k > 0 { if let Some(p) = par(h, n) { lemma_up_rank(h, p, (k - 1) as nat, f, b); } } }

// ---- lemmas: heights
spec fn tall(h: HV, n: RcNode, k: nat) -> bool decreases k { forall|i: int| 0 <= i < kids(h, n).len() + atts(h, n).len() ==> k > 0 && tall(h, #[trigger] entry(h, n, i), (k - 1) as nat) }
/// the children, then the attributes
spec fn entry(h: HV, n: RcNode, i: int) -> RcNode { if i < kids(h, n).len() { kids(h, n)[i] } else { atts(h, n)[i - kids(h, n).len()] } }
spec fn height(h: HV, n: RcNode) -> nat { choose|k: nat| tall(h, n, k) && forall|j: nat| j < k ==> !tall(h, n, j) }
proof fn lemma_min(h: HV, n: RcNode, k: nat) requires tall(h, n, k) ensures tall(h, n, height(h, n)), height(h, n) <= k decreases k
{
    if exists|j: nat| j < k && tall(h, n, j) { let j = choose|j: nat| j < k && tall(h, n, j); lemma_min(h, n, j); }
    else { assert(tall(h, n, k) && forall|j: nat| j < k ==> !tall(h, n, j)); let m = height(h, n); assert(tall(h, n, m) && forall|j: nat| j < m ==> !tall(h, n, j)); if m > k { assert(!tall(h, n, k)); } }
}
proof fn lemma_tall_rank(h: HV, n: RcNode, f: spec_fn(RcNode) -> nat, b: nat) requires alive(h, n), ranked(h, f, b), forall|m: RcNode| #[trigger] alive(h, m) ==> node_ok(h, m) ensures tall(h, n, (b - f(n)) as nat) decreases b - f(n)
{
    assert forall|i: int| 0 <= i < kids(h, n).len() + atts(h, n).len() implies b - f(n) > 0 && tall(h, #[trigger] entry(h, n, i), (b - f(n) - 1) as nat) by {
        let c = entry(h, n, i);
        assert(node_ok(h, n));
        assert(alive(h, c) && par(h, c) == Some(n));
        lemma_tall_rank(h, c, f, b);
        lemma_tall_more(h, c, (b - f(c)) as nat, (b - f(n) - 1) as nat);
    }
}
proof fn lemma_tall_more(h: HV, n: RcNode, j: nat, k: nat) requires tall(h, n, j), j <= k ensures tall(h, n, k) decreases j
{
    assert forall|i: int| 0 <= i < kids(h, n).len() + atts(h, n).len() implies k > 0 && tall(h, #[trigger] entry(h, n, i), (k - 1) as nat) by { assert(tall(h, entry(h, n, i), (j - 1) as nat)); lemma_tall_more(h, entry(h, n, i), (j - 1) as nat, (k - 1) as nat); }
}
proof fn lemma_height(h: HV, n: RcNode) requires base(h), alive(h, n) ensures tall(h, n, height(h, n))
{ let (f, b) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(h, f, b); lemma_tall_rank(h, n, f, b); lemma_min(h, n, (b - f(n)) as nat); }
proof fn lemma_height_sub(h: HV, n: RcNode, i: int) requires base(h), alive(h, n), 0 <= i < kids(h, n).len() + atts(h, n).len() ensures height(h, entry(h, n, i)) < height(h, n), alive(h, entry(h, n, i))
{ lemma_height(h, n); assert(tall(h, entry(h, n, i), (height(h, n) - 1) as nat)); lemma_min(h, entry(h, n, i), (height(h, n) - 1) as nat); assert(node_ok(h, n)); }
proof fn lemma_height_kids(h: HV, n: RcNode) requires base(h), alive(h, n)
    ensures forall|i: int| 0 <= i < kids(h, n).len() ==> height(h, #[trigger] kids(h, n)[i]) < height(h, n), forall|i: int| 0 <= i < atts(h, n).len() ==> height(h, #[trigger] atts(h, n)[i]) < height(h, n)
{
    assert forall|i: int| 0 <= i < kids(h, n).len() implies height(h, #[trigger] kids(h, n)[i]) < height(h, n) by { lemma_height_sub(h, n, i); }
    assert forall|i: int| 0 <= i < atts(h, n).len() implies height(h, #[trigger] atts(h, n)[i]) < height(h, n) by { lemma_height_sub(h, n, i + kids(h, n).len()); }
}

// ---- lemmas: what a subtree looks like depends on its own nodes only
/// the lists of the nodes of a closed set are the same in both heaps
spec fn agree(h1: HV, h2: HV, s: spec_fn(RcNode) -> bool) -> bool {
    forall|m: RcNode| #[trigger] s(m) ==> kids(h1, m) == kids(h2, m) && atts(h1, m) == atts(h2, m)
        && (forall|i: int| 0 <= i < kids(h1, m).len() ==> s(#[trigger] kids(h1, m)[i])) && (forall|i: int| 0 <= i < atts(h1, m).len() ==> s(#[trigger] atts(h1, m)[i]))
}
proof fn lemma_content_frame(h1: HV, h2: HV, s: spec_fn(RcNode) -> bool, n: RcNode, k: nat) requires s(n), agree(h1, h2, s) ensures content(h1, n, k) == content(h2, n, k) decreases k, 0nat
{ if k > 0 { lemma_contents_frame(h1, h2, s, kids(h1, n), (k - 1) as nat); lemma_contents_frame(h1, h2, s, atts(h1, n), (k - 1) as nat); } }
proof fn lemma_contents_frame(h1: HV, h2: HV, s: spec_fn(RcNode) -> bool, l: Seq<RcNode>, k: nat) requires agree(h1, h2, s), forall|i: int| 0 <= i < l.len() ==> s(#[trigger] l[i]) ensures contents(h1, l, k) == contents(h2, l, k) decreases k, 1nat
{
    assert forall|i: int| 0 <= i < l.len() implies content(h1, #[trigger] l[i], k) == content(h2, l[i], k) by { lemma_content_frame(h1, h2, s, l[i], k); }
    assert(contents(h1, l, k) =~= contents(h2, l, k));
}
proof fn lemma_tall_frame(h1: HV, h2: HV, s: spec_fn(RcNode) -> bool, n: RcNode, k: nat) requires s(n), agree(h1, h2, s) ensures tall(h1, n, k) == tall(h2, n, k) decreases k
{
    assert forall|i: int| 0 <= i < kids(h1, n).len() + atts(h1, n).len() && k > 0 implies tall(h1, #[trigger] entry(h1, n, i), (k - 1) as nat) == tall(h2, entry(h2, n, i), (k - 1) as nat) && entry(h1, n, i) == entry(h2, n, i) by { lemma_tall_frame(h1, h2, s, entry(h1, n, i), (k - 1) as nat); }
    if tall(h1, n, k) { assert forall|i: int| 0 <= i < kids(h2, n).len() + atts(h2, n).len() implies k > 0 && tall(h2, #[trigger] entry(h2, n, i), (k - 1) as nat) by { assert(tall(h1, entry(h1, n, i), (k - 1) as nat)); } }
    if tall(h2, n, k) { assert forall|i: int| 0 <= i < kids(h1, n).len() + atts(h1, n).len() implies k > 0 && tall(h1, #[trigger] entry(h1, n, i), (k - 1) as nat) by { assert(tall(h2, entry(h2, n, i), (k - 1) as nat)); } }
}
proof fn lemma_height_frame(h1: HV, h2: HV, s: spec_fn(RcNode) -> bool, n: RcNode) requires s(n), agree(h1, h2, s), base(h1), alive(h1, n) ensures height(h1, n) == height(h2, n)
{
    assert forall|k: nat| tall(h1, n, k) == tall(h2, n, k) by { lemma_tall_frame(h1, h2, s, n, k); }
    lemma_height(h1, n);
    lemma_min(h2, n, height(h1, n)); lemma_min(h1, n, height(h2, n));
}
proof fn lemma_pre_frame(h1: HV, h2: HV, s: spec_fn(RcNode) -> bool, n: RcNode, k: nat) requires s(n), agree(h1, h2, s) ensures pre(h1, n, k) == pre(h2, n, k), forall|i: int| 0 <= i < pre(h1, n, k).len() ==> s(#[trigger] pre(h1, n, k)[i]) decreases k, 0nat, 0nat
{ if k > 0 { lemma_pre_list_frame(h1, h2, s, kids(h1, n), kids(h1, n).len(), (k - 1) as nat); } }
proof fn lemma_pre_list_frame(h1: HV, h2: HV, s: spec_fn(RcNode) -> bool, l: Seq<RcNode>, j: nat, k: nat) requires agree(h1, h2, s), j <= l.len(), forall|i: int| 0 <= i < l.len() ==> s(#[trigger] l[i])
    ensures pre_list(h1, l, j, k) == pre_list(h2, l, j, k), forall|i: int| 0 <= i < pre_list(h1, l, j, k).len() ==> s(#[trigger] pre_list(h1, l, j, k)[i]) decreases k, 1nat, j
{ if j > 0 { lemma_pre_list_frame(h1, h2, s, l, (j - 1) as nat, k); assert(s(l[j - 1])); lemma_pre_frame(h1, h2, s, l[j - 1], k); } }
proof fn lemma_same_tree(h1: HV, h2: HV) requires same_tree(h1, h2), base(h1), forall|n: RcNode| #[trigger] alive(h1, n) ==> h2[n].order >= 0 ensures base(h2), wf(h1) ==> wf(h2)
{
    let (f, b) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(h1, f, b);
    assert(ranked(h2, f, b)) by { assert forall|n: RcNode| #[trigger] alive(h2, n) implies f(n) <= b && match par(h2, n) { Some(p) => f(p) < f(n), None => true } by { assert(alive(h1, n)); assert(par(h1, n) == par(h2, n)); } }
    assert forall|n: RcNode| #[trigger] alive(h2, n) implies node_ok(h2, n) by {
        assert(alive(h1, n)); assert(node_ok(h1, n));
        assert forall|i: int| 0 <= i < kids(h2, n).len() implies alive(h2, #[trigger] kids(h2, n)[i]) && h2[kids(h2, n)[i]].link == Some(n) by { assert(alive(h1, kids(h1, n)[i])); }
        assert forall|i: int| 0 <= i < atts(h2, n).len() implies alive(h2, #[trigger] atts(h2, n)[i]) && h2[atts(h2, n)[i]].link == Some(n) && atts(h2, n)[i].node_type is Attribute by { assert(alive(h1, atts(h1, n)[i])); }
    }
    if wf(h1) { assert forall|n: RcNode| #[trigger] alive(h2, n) implies listed(h2, n) by { assert(alive(h1, n)); assert(listed(h1, n)); assert(par(h1, n) == par(h2, n)); if let Some(p) = par(h1, n) { assert(alive(h1, p)); } } }
}
proof fn lemma_zeroed(h: HV, n: RcNode) requires base(h) ensures same_tree(h, zeroed(h, n)), base(zeroed(h, n)), wf(h) ==> wf(zeroed(h, n))
{ let z = zeroed(h, n); assert forall|m: RcNode| #[trigger] alive(h, m) implies z[m].order >= 0 by { assert(node_ok(h, m)); } assert(z.dom() =~= h.dom()); lemma_same_tree(h, z); }
/// a chain that does not pass c is the same in heaps that differ in the link of c
proof fn lemma_up_avoid(h1: HV, h2: HV, n: RcNode, c: RcNode, k: nat) requires alive(h1, n), !anc(h1, n, c), forall|m: RcNode| #[trigger] alive(h1, m) && m != c ==> par(h2, m) == par(h1, m) ensures up(h1, n, k) == up(h2, n, k) decreases k
{ lemma_anc_self(h1, n); if k > 0 { if let Some(p) = par(h1, n) { lemma_anc_par(h1, n, c); lemma_up_avoid(h1, h2, p, c, (k - 1) as nat); } } }
proof fn lemma_anc_avoid(h1: HV, h2: HV, n: RcNode, c: RcNode) requires alive(h1, n), !anc(h1, n, c), forall|m: RcNode| #[trigger] alive(h1, m) && m != c ==> par(h2, m) == par(h1, m) ensures forall|m: RcNode| #[trigger] anc(h1, n, m) == anc(h2, n, m)
{
    assert forall|m: RcNode| #[trigger] anc(h1, n, m) == anc(h2, n, m) by {
        if anc(h1, n, m) { let k = choose|k: nat| #[trigger] up(h1, n, k) == Some(m); lemma_up_avoid(h1, h2, n, c, k); assert(up(h2, n, k) == Some(m)); }
        if anc(h2, n, m) { let k = choose|k: nat| #[trigger] up(h2, n, k) == Some(m); lemma_up_avoid(h1, h2, n, c, k); assert(up(h1, n, k) == Some(m)); }
    }
}
/// a node that still carries a number heads a subtree in which nothing changed
proof fn lemma_ord_step(h1: HV, h2: HV)
    requires base(h1), ord_inv(h1), forall|n: RcNode| #[trigger] alive(h2, n) && h2[n].order != 0 ==> alive(h1, n),
        forall|n: RcNode, m: RcNode| alive(h1, n) && alive(h1, m) && h2[n].order != 0 && #[trigger] anc(h1, m, n) ==> kids(h2, m) == kids(h1, m) && atts(h2, m) == atts(h1, m) && h2[m].order == h1[m].order
    ensures ord_inv(h2)
{
    assert forall|n: RcNode| #[trigger] alive(h2, n) && h2[n].order != 0 implies rising(h2, whole(h2, n)) by {
        let k = height(h1, n);
        lemma_anc_self(h1, n);
        let s = |m: RcNode| alive(h1, m) && anc(h1, m, n);
        assert forall|m: RcNode| #[trigger] s(m) implies kids(h1, m) == kids(h2, m) && atts(h1, m) == atts(h2, m)
            && (forall|i: int| 0 <= i < kids(h1, m).len() ==> s(#[trigger] kids(h1, m)[i])) && (forall|i: int| 0 <= i < atts(h1, m).len() ==> s(#[trigger] atts(h1, m)[i])) by {
            assert(node_ok(h1, m));
            assert forall|i: int| 0 <= i < kids(h1, m).len() implies s(#[trigger] kids(h1, m)[i]) by { lemma_anc_par(h1, kids(h1, m)[i], n); }
            assert forall|i: int| 0 <= i < atts(h1, m).len() implies s(#[trigger] atts(h1, m)[i]) by { lemma_anc_par(h1, atts(h1, m)[i], n); }
        }
        assert(alive(h1, n)); lemma_height_frame(h1, h2, s, n); lemma_pre_frame(h1, h2, s, n, k);
        assert(rising(h1, whole(h1, n)));
        let q = pre(h1, n, k);
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies h2[#[trigger] q[i]].order < h2[#[trigger] q[j]].order by { assert(s(q[i])); assert(s(q[j])); }
    }
}
/// taking a child out keeps the invariants
proof fn lemma_detached(h: HV, p: RcNode, c: RcNode) requires wf(h), alive(h, p)
    ensures wf(zeroed(detached(h, p, c), p)), wf(detached(h, p, c)), ord_inv(h) ==> ord_inv(zeroed(detached(h, p, c), p)), kids(h, p).contains(c) ==> par(detached(h, p, c), c) is None && c != p, detached(h, p, c).dom() == h.dom(),
        forall|x: RcNode| par(detached(h, p, c), x) is Some ==> #[trigger] par(detached(h, p, c), x) == par(h, x)
{
    let d = detached(h, p, c);
    let z = zeroed(d, p);
    assert(node_ok(h, p));
    let (f, b) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(h, f, b);
    if kids(h, p).contains(c) {
        let i0 = index(kids(h, p), c);
        assert(0 <= i0 < kids(h, p).len() && kids(h, p)[i0] == c);
        lemma_no_cycle(h, c, p);
        assert(d.dom() =~= h.dom());
        assert forall|n: RcNode| #[trigger] alive(d, n) implies node_ok(d, n) && listed(d, n) && f(n) <= b && match par(d, n) { Some(q) => f(q) < f(n), None => true } by {
            assert(alive(h, n)); assert(node_ok(h, n)); assert(listed(h, n));
            if n == p {
                assert forall|i: int| 0 <= i < kids(d, p).len() implies alive(d, #[trigger] kids(d, p)[i]) && d[kids(d, p)[i]].link == Some(p) by { let j = if i < i0 { i } else { i + 1 }; assert(kids(d, p)[i] == kids(h, p)[j]); assert(kids(h, p)[j] != c); }
                assert forall|i: int, j: int| 0 <= i < kids(d, n).len() && 0 <= j < atts(d, n).len() implies kids(d, n)[i] != atts(d, n)[j] by { let q = if i < i0 { i } else { i + 1 }; assert(kids(d, p)[i] == kids(h, p)[q]); }
                assert(atts(d, p) == atts(h, p));
                assert forall|i: int| 0 <= i < atts(d, n).len() implies alive(d, #[trigger] atts(d, n)[i]) && d[atts(d, n)[i]].link == Some(n) by { assert(atts(h, n)[i] != c); }
            } else {
                assert(kids(d, n) == kids(h, n));
                assert forall|i: int| 0 <= i < kids(d, n).len() implies alive(d, #[trigger] kids(d, n)[i]) && d[kids(d, n)[i]].link == Some(n) by { assert(kids(h, n)[i] != c); }
                assert forall|i: int| 0 <= i < atts(d, n).len() implies alive(d, #[trigger] atts(d, n)[i]) && d[atts(d, n)[i]].link == Some(n) by { assert(atts(h, n)[i] != c); }
            }
            if n != c { if let Some(q) = par(h, n) { if q == p && kids(h, p).contains(n) {
                let j = choose|j: int| 0 <= j < kids(h, p).len() && kids(h, p)[j] == n;
                assert(kids(d, p)[if j < i0 { j } else { j - 1 }] == n);
            } } }
        }
        assert(ranked(d, f, b));
    }
    lemma_zeroed(d, p);
    if ord_inv(h) {
        assert forall|n: RcNode, m: RcNode| alive(h, n) && alive(h, m) && z[n].order != 0 && #[trigger] anc(h, m, n) implies kids(z, m) == kids(h, m) && atts(z, m) == atts(h, m) && z[m].order == h[m].order by {
            if kids(h, p).contains(c) {
                assert forall|x: RcNode| #[trigger] alive(h, x) && x != c implies par(d, x) == par(h, x) by { }
                lemma_anc_avoid(h, d, p, c);
            }
            assert(anc(h, p, n) == anc(d, p, n));
            if m == p { }
            if anc(h, p, m) { lemma_anc_trans(h, p, m, n); }
            assert(anc(h, p, m) == anc(d, p, m));
        }
        lemma_ord_step(h, z);
    }
}

proof fn lemma_attach_rank(d: HV, p: RcNode, c: RcNode) requires wf(d), alive(d, p), alive(d, c), par(d, c) is None, !anc(d, p, c), p != c ensures acyclic(attached(d, p, c))
{
    let a = attached(d, p, c);
    let (f, b) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(d, f, b);
    let g = |n: RcNode| -> nat { if anc(d, n, c) { f(n) + f(p) + 1 } else { f(n) } };
    assert(a.dom() =~= d.dom());
    assert forall|n: RcNode| #[trigger] alive(a, n) implies g(n) <= 2 * b + 1 && match par(a, n) { Some(q) => g(q) < g(n), None => true } by {
        assert(alive(d, n)); assert(alive(d, p)); lemma_anc_par(d, n, c); lemma_anc_self(d, n);
        assert(f(n) <= b && f(p) <= b);
        if n == c { assert(par(a, n) == Some(p)); assert(anc(d, c, c)); assert(g(p) == f(p)); assert(g(c) == f(c) + f(p) + 1); }
        else { assert(par(a, n) == par(d, n)); if let Some(q) = par(d, n) { assert(anc(d, n, c) == anc(d, q, c)); } }
    }
    assert(ranked(a, g, (2 * b + 1) as nat));
}
proof fn lemma_attach(d: HV, p: RcNode, c: RcNode) requires wf(d), alive(d, p), alive(d, c), par(d, c) is None, !anc(d, p, c), c.parent is Some, !(p.node_type is Attribute), !(c.node_type is Attribute)
    ensures wf(zeroed(attached(d, p, c), p)), ord_inv(d) ==> ord_inv(zeroed(attached(d, p, c), p)), base(attached(d, p, c))
{
    let a = attached(d, p, c);
    lemma_anc_self(d, p);
    assert(node_ok(d, p) && node_ok(d, c));
    lemma_attach_rank(d, p, c);
    assert(a.dom() =~= d.dom());
    assert forall|n: RcNode| #[trigger] alive(a, n) implies node_ok(a, n) && listed(a, n) by {
        assert(alive(d, n)); assert(node_ok(d, n)); assert(listed(d, n));
        assert forall|i: int| 0 <= i < kids(d, n).len() implies #[trigger] kids(d, n)[i] != c by { assert(par(d, kids(d, n)[i]) == Some(n)); }
        assert forall|i: int| 0 <= i < atts(d, n).len() implies #[trigger] atts(d, n)[i] != c by { assert(par(d, atts(d, n)[i]) == Some(n)); }
        if n == p {
            assert forall|i: int| 0 <= i < kids(a, n).len() implies alive(a, #[trigger] kids(a, n)[i]) && a[kids(a, n)[i]].link == Some(n) by { if i < kids(d, n).len() { assert(kids(a, n)[i] == kids(d, n)[i]); } }
        } else if n == c { assert(kids(a, p)[kids(d, p).len() as int] == c); } else { assert(kids(a, n) == kids(d, n)); }
        if n != c { if let Some(q) = par(d, n) {
            if kids(d, q).contains(n) { let j = choose|j: int| 0 <= j < kids(d, q).len() && kids(d, q)[j] == n; assert(kids(a, q)[j] == n); }
        } }
    }
    lemma_zeroed(a, p);
    if ord_inv(d) {
        let z = zeroed(a, p);
        assert forall|x: RcNode| #[trigger] alive(d, x) && x != c implies par(a, x) == par(d, x) by { }
        lemma_anc_avoid(d, a, p, c);
        assert forall|n: RcNode, m: RcNode| alive(d, n) && alive(d, m) && z[n].order != 0 && #[trigger] anc(d, m, n) implies kids(z, m) == kids(d, m) && atts(z, m) == atts(d, m) && z[m].order == d[m].order by {
            assert(anc(d, p, n) == anc(a, p, n)); assert(anc(d, p, m) == anc(a, p, m));
            if anc(d, p, m) { lemma_anc_trans(d, p, m, n); }
        }
        lemma_ord_step(d, z);
    }
}
proof fn lemma_append(h: HV, p: RcNode, c: RcNode) requires wf(h), alive(h, p), alive(h, c), !refused(h, p, c), c.parent is Some
    ensures wf(appended(h, p, c)), ord_inv(h) ==> ord_inv(appended(h, p, c)), base(attached(withdrawn(h, c), p, c))
{
    let d = withdrawn(h, c);
    if let Some(q) = par(h, c) {
        lemma_detached(h, q, c); assert(listed(h, c)); assert(node_ok(h, q));
        if atts(h, q).contains(c) { }
        assert(kids(h, q).contains(c));
        let dd = detached(h, q, c);
        assert(d.dom() =~= h.dom());
        assert(node_ok(dd, p)); lemma_zeroed(dd, q);
        assert forall|x: RcNode| par(d, x) is Some implies #[trigger] par(d, x) == par(h, x) by { assert(par(dd, x) is Some); }
        assert(kids(dd, q).len() < kids(h, q).len());
    }
    assert(wf(d) && par(d, c) is None && (ord_inv(h) ==> ord_inv(d)));
    if anc(d, p, c) { lemma_anc_fewer(h, d, p, c); }
    assert(!anc(d, p, c)) ;
    lemma_attach(d, p, c);
}

/// an old subtree is unchanged
proof fn lemma_copy_old(h0: HV, h1: HV, n: RcNode, k: nat) requires base(h0), ext(h0, h1), alive(h0, n) ensures content(h0, n, k) == content(h1, n, k)
{
    let s0 = |m: RcNode| alive(h0, m);
    assert(agree(h0, h1, s0)) by { assert forall|m: RcNode| #[trigger] s0(m) implies kids(h0, m) == kids(h1, m) && atts(h0, m) == atts(h1, m)
        && (forall|i: int| 0 <= i < kids(h0, m).len() ==> s0(#[trigger] kids(h0, m)[i])) && (forall|i: int| 0 <= i < atts(h0, m).len() ==> s0(#[trigger] atts(h0, m)[i])) by { assert(node_ok(h0, m)); } }
    lemma_content_frame(h0, h1, s0, n, k);
}
proof fn lemma_copy_height(h0: HV, h1: HV, n: RcNode) requires base(h0), copying_any(h0, h1), alive(h0, n) ensures height(h1, n) == height(h0, n)
{
    let s0 = |m: RcNode| alive(h0, m);
    assert(agree(h0, h1, s0)) by { assert forall|m: RcNode| #[trigger] s0(m) implies kids(h0, m) == kids(h1, m) && atts(h0, m) == atts(h1, m)
        && (forall|i: int| 0 <= i < kids(h0, m).len() ==> s0(#[trigger] kids(h0, m)[i])) && (forall|i: int| 0 <= i < atts(h0, m).len() ==> s0(#[trigger] atts(h0, m)[i])) by { assert(node_ok(h0, m)); } }
    lemma_height_frame(h0, h1, s0, n);
}
spec fn copying_any(h0: HV, h1: HV) -> bool { ext(h0, h1) }
proof fn lemma_copy_start(h0: HV, h1: HV, src: RcNode, t: RcNode, p: RcNode) requires base(h0), alive(h0, src), alive(h0, p), fresh(h0, t), t.node_type == src.node_type, t.name@ == src.name@, t.value@ == src.value@, t.parent is Some,
        h1 == h0.insert(t, NV { kids: Seq::empty(), attrs: Seq::empty(), link: Some(p), order: 0 })
    ensures copying(h0, h1, src, t, p, 0, 0)
{
    lemma_new_node(h0, h1, t, p);
}
/// a new node without entries
proof fn lemma_new_node(h0: HV, h1: HV, t: RcNode, p: RcNode) requires base(h0), alive(h0, p), fresh(h0, t), t.parent is Some, h1 == h0.insert(t, NV { kids: Seq::empty(), attrs: Seq::empty(), link: Some(p), order: 0 })
    ensures base(h1), ext(h0, h1), new_closed(h0, h1), forall|n: RcNode| #[trigger] alive(h0, n) ==> par(h1, n) == par(h0, n)
{
    let (f, b) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(h0, f, b);
    let g = |n: RcNode| -> nat { if n == t { f(p) + 1 } else { f(n) } };
    assert forall|n: RcNode| #[trigger] alive(h1, n) implies g(n) <= b + 1 && match par(h1, n) { Some(q) => g(q) < g(n), None => true } by {
        assert(alive(h0, p)); if n != t { assert(alive(h0, n)); assert(par(h1, n) == par(h0, n)); } }
    assert(ranked(h1, g, (b + 1) as nat));
    assert forall|n: RcNode| #[trigger] alive(h1, n) implies node_ok(h1, n) by { if n != t { assert(alive(h0, n)); assert(node_ok(h0, n));
        assert forall|i: int| 0 <= i < kids(h1, n).len() implies alive(h1, #[trigger] kids(h1, n)[i]) && h1[kids(h1, n)[i]].link == Some(n) by { assert(kids(h0, n).contains(kids(h0, n)[i])); }
        assert forall|i: int| 0 <= i < atts(h1, n).len() implies alive(h1, #[trigger] atts(h1, n)[i]) && h1[atts(h1, n)[i]].link == Some(n) by { assert(atts(h0, n).contains(atts(h0, n)[i])); }
    } }
}

proof fn lemma_copy_kid(h0: HV, h1: HV, h2: HV, h3: HV, src: RcNode, t: RcNode, p: RcNode, a: nat, dup: RcNode)
    requires base(h0), alive(h0, src), alive(h0, p), copying(h0, h1, src, t, p, a, 0), a < kids(h0, src).len(), copied(h1, h2, kids(h0, src)[a as int], dup, t), h3 == set_kids(h2, t, kids(h2, t).push(dup))
    ensures copying(h0, h3, src, t, p, a + 1, 0)
{
    let ch = kids(h0, src)[a as int];
    assert(h2[t] == h1[t]);
    assert(alive(h1, src) && h1[src] == h0[src] && node_ok(h0, src) && alive(h0, ch));
    assert(h3.dom() =~= h2.dom());
    assert(ext(h0, h3)) by { assert forall|n: RcNode| #[trigger] alive(h0, n) implies alive(h3, n) && h3[n] == h0[n] && par(h3, n) == par(h0, n) by { assert(alive(h1, n)); assert(alive(h2, n)); } }
    assert(node_ok(h1, t) && node_ok(h2, t) && node_ok(h2, dup));
    let (f, bb) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(h2, f, b);
    assert(ranked(h3, f, bb)) by { assert forall|n: RcNode| #[trigger] alive(h3, n) implies f(n) <= bb && match par(h3, n) { Some(q) => f(q) < f(n), None => true } by { assert(alive(h2, n)); assert(par(h3, n) == par(h2, n)); } }
    assert forall|n: RcNode| #[trigger] alive(h3, n) implies node_ok(h3, n) by {
        assert(alive(h2, n)); assert(node_ok(h2, n));
        assert forall|i: int| 0 <= i < kids(h3, n).len() implies alive(h3, #[trigger] kids(h3, n)[i]) && h3[kids(h3, n)[i]].link == Some(n) by { if n == t { if i < kids(h2, t).len() { assert(kids(h3, n)[i] == kids(h2, n)[i]); } } else { assert(kids(h3, n)[i] == kids(h2, n)[i]); } }
        assert forall|i: int| 0 <= i < atts(h3, n).len() implies alive(h3, #[trigger] atts(h3, n)[i]) && h3[atts(h3, n)[i]].link == Some(n) && atts(h3, n)[i].node_type is Attribute by { if n == t { if i < atts(h2, t).len() { assert(atts(h3, n)[i] == atts(h2, n)[i]); } } else { assert(atts(h3, n)[i] == atts(h2, n)[i]); } }
        if n == t {
            assert forall|i: int| 0 <= i < kids(h1, t).len() implies alive(h1, #[trigger] kids(h1, t)[i]) && kids(h1, t)[i] != dup by { }
            assert forall|i: int| 0 <= i < atts(h1, t).len() implies alive(h1, #[trigger] atts(h1, t)[i]) && atts(h1, t)[i] != dup by { }
        }
    }
    // no entry of another node is t
    assert forall|m: RcNode| #[trigger] alive(h1, m) && m != t implies (forall|i: int| 0 <= i < kids(h1, m).len() ==> #[trigger] kids(h1, m)[i] != t) && (forall|i: int| 0 <= i < atts(h1, m).len() ==> #[trigger] atts(h1, m)[i] != t) by {
        assert(node_ok(h1, m));
        if m == p { assert(h1[p] == h0[p]); assert(node_ok(h0, p)); }
        assert forall|i: int| 0 <= i < kids(h1, m).len() implies #[trigger] kids(h1, m)[i] != t by { assert(h1[kids(h1, m)[i]].link == Some(m)); if m == p { assert(alive(h0, kids(h0, p)[i])); } }
        assert forall|i: int| 0 <= i < atts(h1, m).len() implies #[trigger] atts(h1, m)[i] != t by { assert(h1[atts(h1, m)[i]].link == Some(m)); if m == p { assert(alive(h0, atts(h0, p)[i])); } }
    }
    let s1 = |m: RcNode| alive(h1, m) && m != t;
    assert(agree(h1, h3, s1)) by { assert forall|m: RcNode| #[trigger] s1(m) implies kids(h1, m) == kids(h3, m) && atts(h1, m) == atts(h3, m)
        && (forall|i: int| 0 <= i < kids(h1, m).len() ==> s1(#[trigger] kids(h1, m)[i])) && (forall|i: int| 0 <= i < atts(h1, m).len() ==> s1(#[trigger] atts(h1, m)[i])) by { assert(alive(h1, m)); assert(node_ok(h1, m)); assert(h2[m] == h1[m]); } }
    let s2 = |m: RcNode| alive(h2, m) && !alive(h1, m);
    assert(agree(h2, h3, s2)) by { assert forall|m: RcNode| #[trigger] s2(m) implies kids(h2, m) == kids(h3, m) && atts(h2, m) == atts(h3, m)
        && (forall|i: int| 0 <= i < kids(h2, m).len() ==> s2(#[trigger] kids(h2, m)[i])) && (forall|i: int| 0 <= i < atts(h2, m).len() ==> s2(#[trigger] atts(h2, m)[i])) by { assert(alive(h2, m)); assert(node_ok(h2, m)); } }
    assert forall|i: int, k: nat| 0 <= i < kids(h3, t).len() implies #[trigger] content(h3, kids(h3, t)[i], k) == content(h0, kids(h0, src)[i], k) by {
        if i < kids(h1, t).len() { assert(kids(h3, t)[i] == kids(h1, t)[i]); assert(content(h1, kids(h1, t)[i], k) == content(h0, kids(h0, src)[i], k)); assert(alive(h1, kids(h1, t)[i])); assert(kids(h1, t)[i] != t) by { lemma_no_cycle(h1, kids(h1, t)[i], t); } assert(s1(kids(h1, t)[i])); lemma_content_frame(h1, h3, s1, kids(h1, t)[i], k); }
        else { assert(s2(dup)); lemma_content_frame(h2, h3, s2, dup, k); lemma_copy_old(h0, h1, ch, k); assert(content(h2, dup, k) == content(h1, ch, k)); }
    }
    assert forall|i: int, k: nat| 0 <= i < atts(h3, t).len() implies #[trigger] content(h3, atts(h3, t)[i], k) == content(h0, atts(h0, src)[i], k) by {
        if i < atts(h1, t).len() { assert(atts(h3, t)[i] == atts(h1, t)[i]); assert(content(h1, atts(h1, t)[i], k) == content(h0, atts(h0, src)[i], k)); assert(alive(h1, atts(h1, t)[i])); assert(atts(h1, t)[i] != t) by { lemma_no_cycle(h1, atts(h1, t)[i], t); } assert(s1(atts(h1, t)[i])); lemma_content_frame(h1, h3, s1, atts(h1, t)[i], k); }
        else { assert(s2(dup)); lemma_content_frame(h2, h3, s2, dup, k); lemma_copy_old(h0, h1, ch, k); assert(content(h2, dup, k) == content(h1, ch, k)); }
    }
    assert forall|m: RcNode| #[trigger] alive(h3, m) && !alive(h0, m) implies h3[m].order == 0 && (m != t ==> listed(h3, m)) by {
        assert(alive(h2, m));
        if m == t { } else if m == dup { assert(par(h3, dup) == Some(t)); assert(kids(h3, t)[kids(h2, t).len() as int] == dup); }
        else {
            if alive(h1, m) { assert(h2[m] == h1[m]); assert(listed(h1, m)); assert(par(h2, m) == par(h1, m)); }
            assert(listed(h2, m)) by { if alive(h1, m) { if let Some(q) = par(h1, m) { assert(alive(h1, q)); assert(h2[q] == h1[q]); } } }
            if let Some(q) = par(h2, m) { if q == t {
                if kids(h2, t).contains(m) { let j = choose|j: int| 0 <= j < kids(h2, t).len() && kids(h2, t)[j] == m; assert(kids(h3, t)[j] == m); }
            } }
        }
    }
    assert(new_closed(h0, h3)) by { assert forall|m: RcNode| #[trigger] alive(h3, m) && !alive(h0, m) implies (forall|i: int| 0 <= i < kids(h3, m).len() ==> !alive(h0, #[trigger] kids(h3, m)[i])) && (forall|i: int| 0 <= i < atts(h3, m).len() ==> !alive(h0, #[trigger] atts(h3, m)[i])) by {
        assert(alive(h2, m));
        if alive(h1, m) { assert(h2[m] == h1[m]); }
        assert forall|i: int| 0 <= i < kids(h3, m).len() implies !alive(h0, #[trigger] kids(h3, m)[i]) by { if m != t || i < kids(h2, m).len() { assert(kids(h3, m)[i] == kids(h2, m)[i]); } }
        assert forall|i: int| 0 <= i < atts(h3, m).len() implies !alive(h0, #[trigger] atts(h3, m)[i]) by { if m != t || i < atts(h2, m).len() { assert(atts(h3, m)[i] == atts(h2, m)[i]); } }
    } }
}

proof fn lemma_copy_att(h0: HV, h1: HV, h2: HV, h3: HV, src: RcNode, t: RcNode, p: RcNode, a: nat, b: nat, dup: RcNode)
    requires base(h0), alive(h0, src), alive(h0, p), copying(h0, h1, src, t, p, a, b), b < atts(h0, src).len(), copied(h1, h2, atts(h0, src)[b as int], dup, t), h3 == set_atts(h2, t, atts(h2, t).push(dup))
    ensures copying(h0, h3, src, t, p, a, b + 1)
{
    let ch = atts(h0, src)[b as int];
    assert(h2[t] == h1[t]);
    assert(alive(h1, src) && h1[src] == h0[src] && node_ok(h0, src) && alive(h0, ch));
    assert(h3.dom() =~= h2.dom());
    assert(ext(h0, h3)) by { assert forall|n: RcNode| #[trigger] alive(h0, n) implies alive(h3, n) && h3[n] == h0[n] && par(h3, n) == par(h0, n) by { assert(alive(h1, n)); assert(alive(h2, n)); } }
    assert(node_ok(h1, t) && node_ok(h2, t) && node_ok(h2, dup));
    let (f, bb) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(h2, f, b);
    assert(ranked(h3, f, bb)) by { assert forall|n: RcNode| #[trigger] alive(h3, n) implies f(n) <= bb && match par(h3, n) { Some(q) => f(q) < f(n), None => true } by { assert(alive(h2, n)); assert(par(h3, n) == par(h2, n)); } }
    assert forall|n: RcNode| #[trigger] alive(h3, n) implies node_ok(h3, n) by {
        assert(alive(h2, n)); assert(node_ok(h2, n));
        assert forall|i: int| 0 <= i < kids(h3, n).len() implies alive(h3, #[trigger] kids(h3, n)[i]) && h3[kids(h3, n)[i]].link == Some(n) by { if n == t { if i < kids(h2, t).len() { assert(kids(h3, n)[i] == kids(h2, n)[i]); } } else { assert(kids(h3, n)[i] == kids(h2, n)[i]); } }
        assert forall|i: int| 0 <= i < atts(h3, n).len() implies alive(h3, #[trigger] atts(h3, n)[i]) && h3[atts(h3, n)[i]].link == Some(n) && atts(h3, n)[i].node_type is Attribute by { if n == t { if i < atts(h2, t).len() { assert(atts(h3, n)[i] == atts(h2, n)[i]); } } else { assert(atts(h3, n)[i] == atts(h2, n)[i]); } }
        if n == t {
            assert forall|i: int| 0 <= i < atts(h1, t).len() implies alive(h1, #[trigger] atts(h1, t)[i]) && atts(h1, t)[i] != dup by { }
            assert forall|i: int| 0 <= i < kids(h1, t).len() implies alive(h1, #[trigger] kids(h1, t)[i]) && kids(h1, t)[i] != dup by { }
        }
    }
    // no entry of another node is t
    assert forall|m: RcNode| #[trigger] alive(h1, m) && m != t implies (forall|i: int| 0 <= i < kids(h1, m).len() ==> #[trigger] kids(h1, m)[i] != t) && (forall|i: int| 0 <= i < atts(h1, m).len() ==> #[trigger] atts(h1, m)[i] != t) by {
        assert(node_ok(h1, m));
        if m == p { assert(h1[p] == h0[p]); assert(node_ok(h0, p)); }
        assert forall|i: int| 0 <= i < kids(h1, m).len() implies #[trigger] kids(h1, m)[i] != t by { assert(h1[kids(h1, m)[i]].link == Some(m)); if m == p { assert(alive(h0, kids(h0, p)[i])); } }
        assert forall|i: int| 0 <= i < atts(h1, m).len() implies #[trigger] atts(h1, m)[i] != t by { assert(h1[atts(h1, m)[i]].link == Some(m)); if m == p { assert(alive(h0, atts(h0, p)[i])); } }
    }
    let s1 = |m: RcNode| alive(h1, m) && m != t;
    assert(agree(h1, h3, s1)) by { assert forall|m: RcNode| #[trigger] s1(m) implies kids(h1, m) == kids(h3, m) && atts(h1, m) == atts(h3, m)
        && (forall|i: int| 0 <= i < kids(h1, m).len() ==> s1(#[trigger] kids(h1, m)[i])) && (forall|i: int| 0 <= i < atts(h1, m).len() ==> s1(#[trigger] atts(h1, m)[i])) by { assert(alive(h1, m)); assert(node_ok(h1, m)); assert(h2[m] == h1[m]); } }
    let s2 = |m: RcNode| alive(h2, m) && !alive(h1, m);
    assert(agree(h2, h3, s2)) by { assert forall|m: RcNode| #[trigger] s2(m) implies kids(h2, m) == kids(h3, m) && atts(h2, m) == atts(h3, m)
        && (forall|i: int| 0 <= i < kids(h2, m).len() ==> s2(#[trigger] kids(h2, m)[i])) && (forall|i: int| 0 <= i < atts(h2, m).len() ==> s2(#[trigger] atts(h2, m)[i])) by { assert(alive(h2, m)); assert(node_ok(h2, m)); } }
    assert forall|i: int, k: nat| 0 <= i < kids(h3, t).len() implies #[trigger] content(h3, kids(h3, t)[i], k) == content(h0, kids(h0, src)[i], k) by {
        if i < kids(h1, t).len() { assert(kids(h3, t)[i] == kids(h1, t)[i]); assert(content(h1, kids(h1, t)[i], k) == content(h0, kids(h0, src)[i], k)); assert(alive(h1, kids(h1, t)[i])); assert(kids(h1, t)[i] != t) by { lemma_no_cycle(h1, kids(h1, t)[i], t); } assert(s1(kids(h1, t)[i])); lemma_content_frame(h1, h3, s1, kids(h1, t)[i], k); }
        else { assert(s2(dup)); lemma_content_frame(h2, h3, s2, dup, k); lemma_copy_old(h0, h1, ch, k); assert(content(h2, dup, k) == content(h1, ch, k)); }
    }
    assert forall|i: int, k: nat| 0 <= i < atts(h3, t).len() implies #[trigger] content(h3, atts(h3, t)[i], k) == content(h0, atts(h0, src)[i], k) by {
        if i < atts(h1, t).len() { assert(atts(h3, t)[i] == atts(h1, t)[i]); assert(content(h1, atts(h1, t)[i], k) == content(h0, atts(h0, src)[i], k)); assert(alive(h1, atts(h1, t)[i])); assert(atts(h1, t)[i] != t) by { lemma_no_cycle(h1, atts(h1, t)[i], t); } assert(s1(atts(h1, t)[i])); lemma_content_frame(h1, h3, s1, atts(h1, t)[i], k); }
        else { assert(s2(dup)); lemma_content_frame(h2, h3, s2, dup, k); lemma_copy_old(h0, h1, ch, k); assert(content(h2, dup, k) == content(h1, ch, k)); }
    }
    assert forall|m: RcNode| #[trigger] alive(h3, m) && !alive(h0, m) implies h3[m].order == 0 && (m != t ==> listed(h3, m)) by {
        assert(alive(h2, m));
        if m == t { } else if m == dup { assert(par(h3, dup) == Some(t)); assert(atts(h3, t)[atts(h2, t).len() as int] == dup); }
        else {
            if alive(h1, m) { assert(h2[m] == h1[m]); assert(listed(h1, m)); assert(par(h2, m) == par(h1, m)); }
            assert(listed(h2, m)) by { if alive(h1, m) { if let Some(q) = par(h1, m) { assert(alive(h1, q)); assert(h2[q] == h1[q]); } } }
            if let Some(q) = par(h2, m) { if q == t {
                if atts(h2, t).contains(m) { let j = choose|j: int| 0 <= j < atts(h2, t).len() && atts(h2, t)[j] == m; assert(atts(h3, t)[j] == m); }
            } }
        }
    }
    assert(new_closed(h0, h3)) by { assert forall|m: RcNode| #[trigger] alive(h3, m) && !alive(h0, m) implies (forall|i: int| 0 <= i < kids(h3, m).len() ==> !alive(h0, #[trigger] kids(h3, m)[i])) && (forall|i: int| 0 <= i < atts(h3, m).len() ==> !alive(h0, #[trigger] atts(h3, m)[i])) by {
        assert(alive(h2, m));
        if alive(h1, m) { assert(h2[m] == h1[m]); }
        assert forall|i: int| 0 <= i < kids(h3, m).len() implies !alive(h0, #[trigger] kids(h3, m)[i]) by { if m != t || i < kids(h2, m).len() { assert(kids(h3, m)[i] == kids(h2, m)[i]); } }
        assert forall|i: int| 0 <= i < atts(h3, m).len() implies !alive(h0, #[trigger] atts(h3, m)[i]) by { if m != t || i < atts(h2, m).len() { assert(atts(h3, m)[i] == atts(h2, m)[i]); } }
    } }
}

proof fn lemma_copy_end(h0: HV, h: HV, src: RcNode, t: RcNode, p: RcNode) requires base(h0), alive(h0, src), copying(h0, h, src, t, p, kids(h0, src).len(), atts(h0, src).len()) ensures copied(h0, h, src, t, p)
{
    assert forall|k: nat| #[trigger] content(h, t, k) == content(h0, src, k) by { if k > 0 {
        assert forall|i: int| 0 <= i < kids(h, t).len() implies content(h, #[trigger] kids(h, t)[i], (k - 1) as nat) == content(h0, kids(h0, src)[i], (k - 1) as nat) by { }
        assert forall|i: int| 0 <= i < atts(h, t).len() implies content(h, #[trigger] atts(h, t)[i], (k - 1) as nat) == content(h0, atts(h0, src)[i], (k - 1) as nat) by { }
        assert(contents(h, kids(h, t), (k - 1) as nat) =~= contents(h0, kids(h0, src), (k - 1) as nat));
        assert(contents(h, atts(h, t), (k - 1) as nat) =~= contents(h0, atts(h0, src), (k - 1) as nat));
    } }
}

/// withdrawing numbers along an unbroken chain of ancestors keeps the order invariant
proof fn lemma_zeroed_ord2(h: HV, n: RcNode) requires base(h), ord_inv(h) ensures ord_inv(zeroed(h, n))
{
    let z = zeroed(h, n);
    assert forall|a: RcNode, m: RcNode| alive(h, a) && alive(h, m) && z[a].order != 0 && #[trigger] anc(h, m, a) implies kids(z, m) == kids(h, m) && atts(z, m) == atts(h, m) && z[m].order == h[m].order by { if anc(h, n, m) { lemma_anc_trans(h, n, m, a); } }
    lemma_ord_step(h, z);
}
proof fn lemma_zeroed_ord(h: HV, n: RcNode) requires base(h) ensures ord_inv(h) ==> ord_inv(zeroed(h, n))
{ if ord_inv(h) { lemma_zeroed_ord2(h, n); } }
proof fn lemma_insert(h0: HV, hc: HV, p: RcNode, i: int, r: RcNode, src: RcNode, s: RcNode)
    requires wf(h0), alive(h0, s), alive(h0, src), par(h0, s) == Some(p), kids(h0, p).contains(s), 0 <= i <= kids(h0, p).len(), copied(h0, hc, src, r, p)
    ensures base(set_kids(hc, p, kids(hc, p).insert(i, r))), wf(zeroed(set_kids(hc, p, kids(hc, p).insert(i, r)), s)), ord_inv(h0) ==> ord_inv(zeroed(set_kids(hc, p, kids(hc, p).insert(i, r)), s)), inserted(h0, zeroed(set_kids(hc, p, kids(hc, p).insert(i, r)), s), p, i, r, src)
{
    let a = set_kids(hc, p, kids(hc, p).insert(i, r));
    let z = zeroed(a, s);
    assert(alive(h0, p) && node_ok(h0, p) && hc[p] == h0[p] && node_ok(hc, p));
    assert(a.dom() =~= hc.dom());
    let (f, bb) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(hc, f, b);
    assert(ranked(a, f, bb)) by { assert forall|n: RcNode| #[trigger] alive(a, n) implies f(n) <= bb && match par(a, n) { Some(q) => f(q) < f(n), None => true } by { assert(alive(hc, n)); assert(par(a, n) == par(hc, n)); } }
    let s0 = kids(hc, p);
    assert forall|n: RcNode| #[trigger] alive(a, n) implies node_ok(a, n) && listed(a, n) by {
        assert(alive(hc, n)); assert(node_ok(hc, n));
        assert(kids(a, n).len() == kids(hc, n).len() + if n == p { 1int } else { 0 });
        assert forall|j: int| 0 <= j < kids(a, n).len() implies alive(a, #[trigger] kids(a, n)[j]) && a[kids(a, n)[j]].link == Some(n) by { if n == p { if j == i { } else { let q = if j < i { j } else { j - 1 }; assert(kids(a, p)[j] == s0[q]); } } else { assert(alive(hc, kids(hc, n)[j])); } }
        assert forall|j: int| 0 <= j < atts(a, n).len() implies alive(a, #[trigger] atts(a, n)[j]) && a[atts(a, n)[j]].link == Some(n) by { assert(alive(hc, atts(hc, n)[j])); }
        if n == p {
            assert forall|j: int| 0 <= j < s0.len() implies #[trigger] s0[j] != r by { assert(alive(h0, kids(h0, p)[j])); }
            assert forall|j: int| 0 <= j < atts(hc, p).len() implies #[trigger] atts(hc, p)[j] != r by { assert(alive(h0, atts(h0, p)[j])); }
            assert forall|j: int, q: int| 0 <= j < q < kids(a, p).len() implies kids(a, p)[j] != kids(a, p)[q] by {
                if j != i { assert(kids(a, p)[j] == s0[if j < i { j } else { j - 1 }]); }
                if q != i { assert(kids(a, p)[q] == s0[if q < i { q } else { q - 1 }]); }
            }
            assert forall|j: int, q: int| 0 <= j < kids(a, p).len() && 0 <= q < atts(a, p).len() implies kids(a, p)[j] != atts(a, p)[q] by { if j != i { assert(kids(a, p)[j] == s0[if j < i { j } else { j - 1 }]); } }
        }
        assert(par(a, n) == par(hc, n));
        if n == r { assert(kids(a, p)[i] == r); } else {
            assert(listed(hc, n)) by { if alive(h0, n) { assert(listed(h0, n)); assert(par(hc, n) == par(h0, n)); if let Some(q) = par(h0, n) { assert(alive(h0, q)); assert(hc[q] == h0[q]); } } }
            if par(hc, n) == Some(p) { if s0.contains(n) { let j = choose|j: int| 0 <= j < s0.len() && s0[j] == n; assert(kids(a, p)[if j < i { j } else { j + 1 }] == n); } }
        }
    }
    lemma_zeroed(a, s);
    // the copy is not touched
    let sn = |m: RcNode| alive(hc, m) && !alive(h0, m);
    assert(agree(hc, z, sn)) by { assert forall|m: RcNode| #[trigger] sn(m) implies kids(hc, m) == kids(z, m) && atts(hc, m) == atts(z, m)
        && (forall|j: int| 0 <= j < kids(hc, m).len() ==> sn(#[trigger] kids(hc, m)[j])) && (forall|j: int| 0 <= j < atts(hc, m).len() ==> sn(#[trigger] atts(hc, m)[j])) by { assert(alive(hc, m)); assert(node_ok(hc, m)); } }
    assert forall|k: nat| #[trigger] content(z, r, k) == content(h0, src, k) by { lemma_content_frame(hc, z, sn, r, k); assert(content(hc, r, k) == content(h0, src, k)); }
    assert(inserted(h0, z, p, i, r, src)) by {
        assert forall|n: RcNode| #[trigger] alive(h0, n) implies alive(z, n) && atts(z, n) == atts(h0, n) && z[n].link == h0[n].link && (n != p ==> kids(z, n) == kids(h0, n)) by { assert(alive(hc, n)); assert(alive(a, n)); } }
    if ord_inv(h0) {
        assert forall|x: RcNode| #[trigger] alive(h0, x) implies par(h0, x) == par(a, x) by { assert(par(hc, x) == par(h0, x)); assert(par(a, x) == par(hc, x)); }
        assert forall|n: RcNode| #[trigger] alive(z, n) && z[n].order != 0 implies alive(h0, n) by { assert(alive(hc, n)); }
        assert forall|n: RcNode, m: RcNode| alive(h0, n) && alive(h0, m) && z[n].order != 0 && #[trigger] anc(h0, m, n) implies kids(z, m) == kids(h0, m) && atts(z, m) == atts(h0, m) && z[m].order == h0[m].order by {
            assert(alive(hc, n) && alive(hc, m) && alive(a, m) && alive(a, n));
            lemma_anc_same(h0, a, s, n); lemma_anc_same(h0, a, s, m);
            lemma_anc_par(h0, s, p); lemma_anc_self(h0, p);
            if m == p { lemma_anc_trans(h0, s, p, n); }
            if anc(h0, s, m) { lemma_anc_trans(h0, s, m, n); }
        }
        lemma_ord_step(h0, z);
    }
}
proof fn lemma_replace(h0: HV, h1: HV, h2: HV, h3: HV, p: RcNode, i: int, r: RcNode, src: RcNode, c: RcNode)
    requires wf(h0), alive(h0, p), wf(h1), inserted(h0, h1, p, i, r, src), 0 <= i < kids(h0, p).len(), kids(h0, p)[i] == c, h2 == zeroed(detached(h1, p, c), p), h3 == zeroed(h2, c), base(h2)
    ensures replaced(h0, h3, p, i, r, src, c)
{
    assert(alive(h1, p) && node_ok(h1, p) && node_ok(h0, p));
    assert(kids(h1, p)[i + 1] == c && kids(h1, p)[i] == r);
    assert(kids(h1, p).contains(c));
    let d = detached(h1, p, c);
    lemma_detached(h1, p, c);
    assert(index(kids(h1, p), c) == i + 1);
    assert(kids(d, p) =~= kids(h0, p).update(i, r));
    lemma_zeroed(d, p); lemma_zeroed(h2, c);
    assert(alive(d, c) && alive(h2, c) && alive(d, p) && alive(h2, p));
    assert forall|n: RcNode| #[trigger] alive(h0, n) implies alive(h3, n) && atts(h3, n) == atts(h0, n) && (n != c ==> h3[n].link == h0[n].link) && (n != p ==> kids(h3, n) == kids(h0, n)) by { assert(alive(h1, n)); assert(alive(d, n)); assert(alive(h2, n)); }
    // the copy's own subtree contains neither p nor anything taken out
    let s = |m: RcNode| alive(h1, m) && m != p && anc(h1, m, r);
    lemma_no_cycle(h1, r, p);
    assert(agree(h1, h3, s)) by { assert forall|m: RcNode| #[trigger] s(m) implies kids(h1, m) == kids(h3, m) && atts(h1, m) == atts(h3, m)
        && (forall|j: int| 0 <= j < kids(h1, m).len() ==> s(#[trigger] kids(h1, m)[j])) && (forall|j: int| 0 <= j < atts(h1, m).len() ==> s(#[trigger] atts(h1, m)[j])) by {
        assert(alive(h1, m)); assert(node_ok(h1, m)); assert(alive(d, m)); assert(alive(h2, m));
        assert forall|j: int| 0 <= j < kids(h1, m).len() implies s(#[trigger] kids(h1, m)[j]) by { let x = kids(h1, m)[j]; assert(par(h1, x) == Some(m)); lemma_anc_par(h1, x, r); }
        assert forall|j: int| 0 <= j < atts(h1, m).len() implies s(#[trigger] atts(h1, m)[j]) by { let x = atts(h1, m)[j]; assert(par(h1, x) == Some(m)); lemma_anc_par(h1, x, r); }
    } }
    lemma_anc_self(h1, r);
    assert(r != p);
    assert forall|k: nat| #[trigger] content(h3, r, k) == content(h0, src, k) by { lemma_content_frame(h1, h3, s, r, k); assert(content(h1, r, k) == content(h0, src, k)); }
    assert(alive(d, r) && alive(h2, r));
    assert(r != c);
}

proof fn lemma_attr_in(s: Seq<RcNode>, name: Seq<char>) ensures match attr_at(s, name) { Some(i) => 0 <= i < s.len() && s[i].name@ == name && forall|j: int| 0 <= j < i ==> #[trigger] s[j].name@ != name, None => forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j].name@ != name } decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first(); lemma_attr_in(t, name);
        assert forall|j: int| 1 <= j < s.len() implies #[trigger] s[j] == t[j - 1] by { }
        match attr_at(s, name) { Some(i) => { assert forall|j: int| 0 <= j < i implies #[trigger] s[j].name@ != name by { if j > 0 { assert(s[j] == t[j - 1]); } } }, None => { assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j].name@ != name by { if j > 0 { assert(s[j] == t[j - 1]); } } } }
    }
}
proof fn lemma_attr_at(s: Seq<RcNode>, name: Seq<char>, i: int) requires 0 <= i < s.len(), s[i].name@ == name, forall|j: int| 0 <= j < i ==> #[trigger] s[j].name@ != name ensures attr_at(s, name) == Some(i)
{ lemma_attr_in(s, name); }
proof fn lemma_attr_none(s: Seq<RcNode>, name: Seq<char>) requires forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j].name@ != name ensures attr_at(s, name) is None
{ lemma_attr_in(s, name); }
/// the map view (C08): a set name reads back, other names read as before
proof fn lemma_attr_map(h0: HV, h1: HV, n: RcNode, name: Seq<char>, value: Seq<char>, a: RcNode, other: Seq<char>) requires attr_set(h0, h1, n, name, value, a)
    ensures attr_value(atts(h1, n), name) == Some(value), other != name ==> attr_value(atts(h1, n), other) == attr_value(atts(h0, n), other) && attr_at(atts(h1, n), other) == attr_at(atts(h0, n), other)
{ lemma_attr_in(atts(h0, n), name); lemma_attr_in(atts(h1, n), name); lemma_attr_in(atts(h0, n), other); lemma_attr_in(atts(h1, n), other);
  let s = atts(h0, n); let z = atts(h1, n);
  match attr_at(s, name) { Some(i) => { lemma_attr_at(z, name, i); }, None => { lemma_attr_at(z, name, s.len() as int); } }
  if other != name { match attr_at(s, other) { Some(i) => { lemma_attr_at(z, other, i); }, None => { lemma_attr_none(z, other); } } } }
/// a deleted name reads as absent (names stand once), other names read as before
proof fn lemma_attr_unmap(s: Seq<RcNode>, name: Seq<char>, other: Seq<char>) requires attr_at(s, name) is Some, other != name
    ensures attr_value(s.remove(attr_at(s, name)->Some_0), other) == attr_value(s, other), (forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].name@ != s[j].name@) ==> attr_value(s.remove(attr_at(s, name)->Some_0), name) is None
{
    let i0 = attr_at(s, name)->Some_0; let z = s.remove(i0);
    lemma_attr_in(s, name); lemma_attr_in(s, other); lemma_attr_in(z, other); lemma_attr_in(z, name);
    assert forall|j: int| 0 <= j < z.len() implies #[trigger] z[j] == s[if j < i0 { j } else { j + 1 }] by { }
    match attr_at(s, other) { Some(i) => { let k = if i < i0 { i } else { i - 1 }; assert(z[k] == s[i]); lemma_attr_at(z, other, k); }, None => { lemma_attr_none(z, other); } }
    if forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].name@ != s[j].name@ { assert forall|j: int| 0 <= j < z.len() implies #[trigger] z[j].name@ != name by { let q = if j < i0 { j } else { j + 1 }; assert(z[j] == s[q]); } lemma_attr_none(z, name); }
}
proof fn lemma_with_attr(h0: HV, h1: HV, n: RcNode, a: RcNode, name: Seq<char>, value: Seq<char>)
    requires wf(h0), alive(h0, n), !(n.node_type is Attribute), fresh(h0, a), a.parent is Some, a.node_type is Attribute, a.name@ == name, a.value@ == value, h1 == h0.insert(a, NV { kids: Seq::empty(), attrs: Seq::empty(), link: Some(n), order: 0 })
    ensures base(with_attr(h1, n, a, name)), wf(zeroed(with_attr(h1, n, a, name), n)), ord_inv(h0) ==> ord_inv(zeroed(with_attr(h1, n, a, name), n)), attr_set(h0, zeroed(with_attr(h1, n, a, name), n), n, name, value, a)
{
    lemma_new_node(h0, h1, a, n);
    let w = with_attr(h1, n, a, name); let z = zeroed(w, n);
    let s0 = atts(h0, n);
    assert(atts(h1, n) == s0 && kids(h1, n) == kids(h0, n));
    lemma_attr_in(s0, name);
    assert(node_ok(h0, n) && node_ok(h1, n));
    let at = attr_at(s0, name);
    if at is Some { assert(alive(h0, s0[at->Some_0])); assert(alive(h1, s0[at->Some_0])); lemma_no_cycle(h0, s0[at->Some_0], n); }
    assert(w.dom() =~= h1.dom());
    let (f, bb) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(h1, f, b);
    assert(ranked(w, f, bb)) by { assert forall|m: RcNode| #[trigger] alive(w, m) implies f(m) <= bb && match par(w, m) { Some(q) => f(q) < f(m), None => true } by { assert(alive(h1, m)); } }
    assert forall|m: RcNode| #[trigger] alive(w, m) implies node_ok(w, m) && listed(w, m) by {
        assert(alive(h1, m)); assert(node_ok(h1, m));
        assert(kids(w, m) == kids(h1, m));
        assert forall|j: int| 0 <= j < kids(w, m).len() implies alive(w, #[trigger] kids(w, m)[j]) && w[kids(w, m)[j]].link == Some(m) by { let c = kids(h1, m)[j]; assert(alive(h1, c)); if at is Some { if c == s0[at->Some_0] { assert(h1[c].link == Some(n)); } } }
        assert forall|j: int| 0 <= j < s0.len() implies #[trigger] s0[j] != a by { assert(alive(h0, s0[j])); }
        assert forall|j: int| 0 <= j < kids(h0, n).len() implies #[trigger] kids(h0, n)[j] != a by { assert(alive(h0, kids(h0, n)[j])); }
        if m == n {
            match at { Some(i) => { assert forall|j: int| 0 <= j < atts(w, m).len() implies alive(w, #[trigger] atts(w, m)[j]) && w[atts(w, m)[j]].link == Some(m) && atts(w, m)[j].node_type is Attribute by { if j != i { assert(atts(w, m)[j] == s0[j]); assert(s0[j] != s0[i]); assert(alive(h1, atts(h1, n)[j])); } } },
                None => { assert forall|j: int| 0 <= j < atts(w, m).len() implies alive(w, #[trigger] atts(w, m)[j]) && w[atts(w, m)[j]].link == Some(m) && atts(w, m)[j].node_type is Attribute by { if j < s0.len() { assert(atts(w, m)[j] == s0[j]); assert(alive(h1, atts(h1, n)[j])); } } } }
        } else {
            assert(atts(w, m) == atts(h1, m));
            assert forall|j: int| 0 <= j < atts(w, m).len() implies alive(w, #[trigger] atts(w, m)[j]) && w[atts(w, m)[j]].link == Some(m) by { let c = atts(h1, m)[j]; assert(alive(h1, c)); if at is Some { if c == s0[at->Some_0] { assert(h1[c].link == Some(n)); } } }
        }
        if m == a { match at { Some(i) => { assert(atts(w, n)[i] == a); }, None => { assert(atts(w, n)[s0.len() as int] == a); } } }
        else { assert(alive(h0, m)); assert(listed(h0, m)); assert(par(h1, m) == par(h0, m));
            if let Some(q) = par(w, m) { assert(par(h1, m) == Some(q)); assert(alive(h0, q)); 
                if q == n && s0.contains(m) { let j = choose|j: int| 0 <= j < s0.len() && s0[j] == m; if at is Some { assert(j != at->Some_0); } assert(atts(w, n)[j] == m); } } }
    }
    lemma_zeroed(w, n);
    assert(attr_set(h0, z, n, name, value, a)) by { assert forall|m: RcNode| #[trigger] alive(h0, m) implies alive(z, m) && kids(z, m) == kids(h0, m) && (m != n ==> atts(z, m) == atts(h0, m)) && (match attr_at(atts(h0, n), name) { Some(i) => if m == atts(h0, n)[i] { z[m].link is None } else { z[m].link == h0[m].link }, None => z[m].link == h0[m].link }) by { assert(alive(h1, m)); assert(alive(w, m)); } assert(alive(w, a)); }
    if ord_inv(h0) {
        lemma_ord_cut(h0, w, n, if at is Some { s0[at->Some_0] } else { a });
        assert forall|x: RcNode| #[trigger] alive(z, x) && z[x].order != 0 implies alive(h0, x) by { assert(alive(w, x)); }
        lemma_ord_zero(h0, w, n);
    }
}
/// the chain of ancestors of n is the same when only the link of a child c of n (or of a new node) went away
proof fn lemma_ord_cut(h0: HV, w: HV, n: RcNode, c: RcNode) requires base(h0), alive(h0, n), par(h0, c) == Some(n) || !alive(h0, c), forall|x: RcNode| #[trigger] alive(h0, x) && x != c ==> par(w, x) == par(h0, x) ensures forall|m: RcNode| #[trigger] anc(h0, n, m) == anc(w, n, m)
{
    if alive(h0, c) { lemma_no_cycle(h0, c, n); } else { if anc(h0, n, c) { lemma_anc_alive(h0, n, c); } }
    lemma_anc_avoid(h0, w, n, c);
}
proof fn lemma_ord_zero(h0: HV, w: HV, n: RcNode) requires base(h0), ord_inv(h0), alive(h0, n), forall|m: RcNode| #[trigger] anc(h0, n, m) == anc(w, n, m), forall|x: RcNode| #[trigger] alive(h0, x) ==> alive(w, x) && (x != n ==> kids(w, x) == kids(h0, x) && atts(w, x) == atts(h0, x)) && w[x].order == h0[x].order,
        forall|x: RcNode| #[trigger] alive(w, x) && !alive(h0, x) ==> w[x].order == 0
    ensures ord_inv(zeroed(w, n))
{
    let z = zeroed(w, n);
    lemma_anc_self(h0, n);
    assert forall|x: RcNode| #[trigger] alive(z, x) && z[x].order != 0 implies alive(h0, x) by { assert(alive(w, x)); }
    assert forall|x: RcNode, m: RcNode| alive(h0, x) && alive(h0, m) && z[x].order != 0 && #[trigger] anc(h0, m, x) implies kids(z, m) == kids(h0, m) && atts(z, m) == atts(h0, m) && z[m].order == h0[m].order by {
        assert(alive(w, x) && alive(w, m));
        assert(anc(h0, n, x) == anc(w, n, x)); assert(anc(h0, n, m) == anc(w, n, m));
        if anc(h0, n, m) { lemma_anc_trans(h0, n, m, x); }
    }
    lemma_ord_step(h0, z);
}
proof fn lemma_without_attr(h: HV, n: RcNode, name: Seq<char>) requires wf(h), alive(h, n) ensures base(without_attr(h, n, name)), wf(zeroed(without_attr(h, n, name), n)), ord_inv(h) ==> ord_inv(zeroed(without_attr(h, n, name), n))
{
    let w = without_attr(h, n, name); let s0 = atts(h, n);
    lemma_attr_in(s0, name);
    assert(node_ok(h, n));
    match attr_at(s0, name) { None => { lemma_zeroed(h, n); lemma_zeroed_ord(h, n); }, Some(i0) => {
        let c = s0[i0];
        lemma_no_cycle(h, c, n);
        assert(w.dom() =~= h.dom());
        let (f, bb) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(h, f, b);
        assert(ranked(w, f, bb)) by { assert forall|m: RcNode| #[trigger] alive(w, m) implies f(m) <= bb && match par(w, m) { Some(q) => f(q) < f(m), None => true } by { assert(alive(h, m)); } }
        assert forall|m: RcNode| #[trigger] alive(w, m) implies node_ok(w, m) && listed(w, m) by {
            assert(alive(h, m)); assert(node_ok(h, m)); assert(listed(h, m));
            assert(kids(w, m) == kids(h, m));
            assert forall|j: int| 0 <= j < kids(w, m).len() implies alive(w, #[trigger] kids(w, m)[j]) && w[kids(w, m)[j]].link == Some(m) by { let x = kids(h, m)[j]; assert(alive(h, x)); if x == c { assert(h[x].link == Some(n)); } }
            if m == n {
                assert forall|j: int| 0 <= j < atts(w, m).len() implies alive(w, #[trigger] atts(w, m)[j]) && w[atts(w, m)[j]].link == Some(m) && atts(w, m)[j].node_type is Attribute && atts(w, m)[j] == s0[if j < i0 { j } else { j + 1 }] by { assert(alive(h, s0[if j < i0 { j } else { j + 1 }])); }
            } else {
                assert(atts(w, m) == atts(h, m));
                assert forall|j: int| 0 <= j < atts(w, m).len() implies alive(w, #[trigger] atts(w, m)[j]) && w[atts(w, m)[j]].link == Some(m) by { let x = atts(h, m)[j]; assert(alive(h, x)); if x == c { assert(h[x].link == Some(n)); } }
            }
            if m != c { if let Some(q) = par(h, m) { if q == n && s0.contains(m) { let j = choose|j: int| 0 <= j < s0.len() && s0[j] == m; assert(atts(w, n)[if j < i0 { j } else { j - 1 }] == m); } } }
        }
        lemma_zeroed(w, n);
        if ord_inv(h) { lemma_ord_cut(h, w, n, c); lemma_ord_zero(h, w, n); }
    } }
}

// ---- numbering
proof fn lemma_pre_tall(h: HV, n: RcNode, j: nat, k: nat) requires tall(h, n, j), j <= k ensures pre(h, n, j) == pre(h, n, k) decreases j, 0nat, 0nat
{
    if k > 0 {
        if j == 0 { if kids(h, n).len() > 0 { let c = entry(h, n, 0); } assert(kids(h, n).len() == 0); }
        else { assert forall|i: int| 0 <= i < kids(h, n).len() implies tall(h, #[trigger] kids(h, n)[i], (j - 1) as nat) by { let c = entry(h, n, i); assert(tall(h, c, (j - 1) as nat)); } lemma_pre_list_tall(h, kids(h, n), kids(h, n).len(), (j - 1) as nat, (k - 1) as nat); }
    }
}
proof fn lemma_pre_list_tall(h: HV, s: Seq<RcNode>, q: nat, j: nat, k: nat) requires q <= s.len(), j <= k, forall|i: int| 0 <= i < s.len() ==> tall(h, #[trigger] s[i], j) ensures pre_list(h, s, q, j) == pre_list(h, s, q, k) decreases j, 1nat, q
{ if q > 0 { lemma_pre_list_tall(h, s, (q - 1) as nat, j, k); lemma_pre_tall(h, s[q - 1], j, k); } }
proof fn lemma_whole(h: HV, n: RcNode) requires base(h), alive(h, n) ensures whole(h, n) == seq![n] + atts(h, n) + wholes(h, kids(h, n), kids(h, n).len())
{
    lemma_height(h, n); lemma_height_kids(h, n); assert(node_ok(h, n));
    let k = height(h, n);
    if k == 0 { if kids(h, n).len() > 0 { assert(height(h, kids(h, n)[0]) < 0); } assert(whole(h, n) =~= seq![n] + atts(h, n) + wholes(h, kids(h, n), kids(h, n).len())); }
    else { lemma_wholes(h, kids(h, n), kids(h, n).len(), (k - 1) as nat); }
}
proof fn lemma_wholes(h: HV, s: Seq<RcNode>, q: nat, k: nat) requires base(h), q <= s.len(), forall|i: int| 0 <= i < s.len() ==> alive(h, #[trigger] s[i]) && height(h, s[i]) <= k ensures pre_list(h, s, q, k) == wholes(h, s, q) decreases q
{ if q > 0 { lemma_wholes(h, s, (q - 1) as nat, k); let c = s[q - 1]; assert(alive(h, c)); lemma_height(h, c); lemma_pre_tall(h, c, height(h, c), k); } }
proof fn lemma_whole_anc(h: HV, n: RcNode) requires base(h), alive(h, n) ensures forall|i: int| 0 <= i < whole(h, n).len() ==> alive(h, #[trigger] whole(h, n)[i]) && anc(h, whole(h, n)[i], n) decreases height(h, n), 1nat, 0nat
{
    lemma_whole(h, n); lemma_height_kids(h, n); assert(node_ok(h, n)); lemma_anc_self(h, n);
    lemma_wholes_anc(h, kids(h, n), kids(h, n).len(), n);
    let w = wholes(h, kids(h, n), kids(h, n).len());
    assert forall|i: int| 0 <= i < whole(h, n).len() implies alive(h, #[trigger] whole(h, n)[i]) && anc(h, whole(h, n)[i], n) by {
        if i == 0 { assert(whole(h, n)[i] == n); } else if i <= atts(h, n).len() { let x = atts(h, n)[i - 1]; assert(whole(h, n)[i] == x); assert(par(h, x) == Some(n)); lemma_anc_par(h, x, n); }
        else { assert(whole(h, n)[i] == w[i - 1 - atts(h, n).len()]); }
    }
}
proof fn lemma_wholes_anc(h: HV, s: Seq<RcNode>, q: nat, n: RcNode) requires base(h), alive(h, n), q <= s.len(), forall|i: int| 0 <= i < s.len() ==> alive(h, #[trigger] s[i]) && par(h, s[i]) == Some(n) && height(h, s[i]) < height(h, n)
    ensures forall|i: int| 0 <= i < wholes(h, s, q).len() ==> alive(h, #[trigger] wholes(h, s, q)[i]) && anc(h, wholes(h, s, q)[i], n) && exists|j: int| 0 <= j < q && #[trigger] anc(h, wholes(h, s, q)[i], s[j]) decreases height(h, n), 0nat, q
{
    if q > 0 {
        let c = s[q - 1]; assert(alive(h, c)); lemma_wholes_anc(h, s, (q - 1) as nat, n); lemma_whole_anc(h, c); lemma_anc_par(h, c, n); lemma_anc_self(h, n);
        let a = wholes(h, s, (q - 1) as nat); let w = wholes(h, s, q);
        assert forall|i: int| 0 <= i < w.len() implies alive(h, #[trigger] w[i]) && anc(h, w[i], n) && exists|j: int| 0 <= j < q && #[trigger] anc(h, w[i], s[j]) by {
            if i < a.len() { assert(w[i] == a[i]); let j = choose|j: int| 0 <= j < q - 1 && #[trigger] anc(h, a[i], s[j]); assert(anc(h, w[i], s[j])); } else { let x = whole(h, c)[i - a.len()]; assert(w[i] == x); lemma_anc_trans(h, x, c, n); assert(anc(h, w[i], s[q - 1])); }
        }
    }
}
/// the ancestors of a node form a chain
proof fn lemma_chain(h: HV, m: RcNode, a: RcNode, b: RcNode) requires anc(h, m, a), anc(h, m, b) ensures anc(h, a, b) || anc(h, b, a)
{
    let i = choose|k: nat| #[trigger] up(h, m, k) == Some(a); let j = choose|k: nat| #[trigger] up(h, m, k) == Some(b);
    if i <= j { lemma_up_trans(h, m, i, (j - i) as nat); assert(up(h, a, (j - i) as nat) == Some(b)); } else { lemma_up_trans(h, m, j, (i - j) as nat); assert(up(h, b, (i - j) as nat) == Some(a)); }
}
/// subtrees of two entries of a node have nothing in common
proof fn lemma_apart(h: HV, n: RcNode, a: RcNode, b: RcNode, m: RcNode) requires base(h), alive(h, a), alive(h, b), par(h, a) == Some(n), par(h, b) == Some(n), a != b ensures !(anc(h, m, a) && anc(h, m, b))
{
    if anc(h, m, a) && anc(h, m, b) {
        lemma_chain(h, m, a, b);
        if anc(h, a, b) { lemma_anc_par(h, a, b); lemma_no_cycle(h, b, n); } else { lemma_anc_par(h, b, a); lemma_no_cycle(h, a, n); }
    }
}
/// fewer than 2^61 nodes exist (assumption)
#[verifier::external_body]
proof fn ax_nodes(h: HV, n: RcNode) requires base(h), alive(h, n) ensures whole(h, n).len() < 0x2000_0000_0000_0000 {}
proof fn lemma_wholes_len(h: HV, s: Seq<RcNode>, j: nat, k: nat) requires j <= k <= s.len() ensures wholes(h, s, j).len() <= wholes(h, s, k).len(), forall|i: int| 0 <= i < wholes(h, s, j).len() ==> wholes(h, s, j)[i] == wholes(h, s, k)[i] decreases k
{ if j < k { lemma_wholes_len(h, s, j, (k - 1) as nat); } }
/// same lists: same listing
proof fn lemma_same_whole(h1: HV, h2: HV, n: RcNode) requires base(h1), alive(h1, n), same_tree(h1, h2) ensures whole(h2, n) == whole(h1, n)
{
    let s = |m: RcNode| alive(h1, m);
    assert(agree(h1, h2, s)) by { assert forall|m: RcNode| #[trigger] s(m) implies kids(h1, m) == kids(h2, m) && atts(h1, m) == atts(h2, m)
        && (forall|i: int| 0 <= i < kids(h1, m).len() ==> s(#[trigger] kids(h1, m)[i])) && (forall|i: int| 0 <= i < atts(h1, m).len() ==> s(#[trigger] atts(h1, m)[i])) by { assert(alive(h1, m)); assert(node_ok(h1, m)); } }
    lemma_height_frame(h1, h2, s, n); lemma_pre_frame(h1, h2, s, n, height(h1, n));
}
spec fn within(h: HV, s: Seq<RcNode>, lo: int, hi: int) -> bool { forall|i: int| 0 <= i < s.len() ==> lo <= h[#[trigger] s[i]].order < hi }
/// a subtree numbered from lo on, below hi; the rest of the heap as before
spec fn numbered(h0: HV, h: HV, n: RcNode, lo: int, hi: int) -> bool {
    &&& same_tree(h0, h) && wf(h)
    &&& within(h, whole(h0, n), lo, hi) && rising(h, whole(h0, n))
    &&& forall|m: RcNode| #[trigger] alive(h0, m) && !anc(h0, m, n) ==> h[m].order == h0[m].order
    &&& forall|m: RcNode| #[trigger] alive(h0, m) && anc(h0, m, n) ==> rising(h, whole(h0, m))
}
/// what is numbered of n before its j-th child is
spec fn part(h0: HV, n: RcNode, a: int, j: nat) -> Seq<RcNode> { seq![n] + atts(h0, n).take(a) + wholes(h0, kids(h0, n), j) }
spec fn numbering(h0: HV, h: HV, n: RcNode, a: int, j: nat, lo: int, hi: int) -> bool {
    &&& same_tree(h0, h) && wf(h)
    &&& within(h, part(h0, n, a, j), lo, hi) && rising(h, part(h0, n, a, j))
    &&& forall|m: RcNode| #[trigger] alive(h0, m) && !anc(h0, m, n) ==> h[m].order == h0[m].order
    &&& forall|m: RcNode, q: int| 0 <= q < j && #[trigger] anc(h0, m, kids(h0, n)[q]) && alive(h0, m) ==> rising(h, whole(h0, m))
}
/// the order of one node of the subtree changed
proof fn lemma_order_set(h0: HV, h: HV, h1: HV, m: RcNode, o: i64) requires wf(h0), same_tree(h0, h), wf(h), alive(h0, m), o >= 0, h1 == set_order(h, m, o) ensures same_tree(h0, h1), wf(h1)
{
    assert forall|x: RcNode| #[trigger] alive(h0, x) implies h1[x] == (NV { order: h1[x].order, ..h0[x] }) by { assert(alive(h, x)); }
    assert(h1.dom() =~= h0.dom());
    assert forall|x: RcNode| #[trigger] alive(h0, x) implies h1[x].order >= 0 by { assert(alive(h, x)); assert(node_ok(h, x)); }
    lemma_same_tree(h0, h1);
}
proof fn lemma_number_head(h0: HV, h1: HV, n: RcNode, lo: i64) requires wf(h0), alive(h0, n), lo >= 1, h1 == set_order(h0, n, lo) ensures numbering(h0, h1, n, 0, 0, lo as int, lo + 1)
{
    lemma_order_set(h0, h0, h1, n, lo); lemma_anc_self(h0, n);
    assert(part(h0, n, 0, 0) =~= seq![n]);
}
proof fn lemma_number_att(h0: HV, h: HV, h1: HV, n: RcNode, a: int, lo: i64, o: i64) requires wf(h0), alive(h0, n), lo >= 1, 0 <= a < atts(h0, n).len(), numbering(h0, h, n, a, 0, lo as int, o as int), o >= lo, h1 == set_order(h, atts(h0, n)[a], o), o < i64::MAX
    ensures numbering(h0, h1, n, a + 1, 0, lo as int, o + 1)
{
    let m = atts(h0, n)[a]; assert(node_ok(h0, n)); assert(alive(h0, m)); assert(par(h0, m) == Some(n));
    lemma_order_set(h0, h, h1, m, o); lemma_anc_self(h0, n); lemma_anc_par(h0, m, n); lemma_no_cycle(h0, m, n);
    let s = part(h0, n, a, 0); let t = part(h0, n, a + 1, 0);
    assert(t =~= s.push(m));
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != m && alive(h0, s[i]) by { if i > 0 { assert(s[i] == atts(h0, n)[i - 1]); } }
    assert forall|i: int| 0 <= i < t.len() implies lo <= h1[#[trigger] t[i]].order < o + 1 by { if i < s.len() { assert(t[i] == s[i]); assert(h1[s[i]].order == h[s[i]].order); } }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies h1[#[trigger] t[i]].order < h1[#[trigger] t[j]].order by { assert(t[i] == s[i]); assert(h1[s[i]].order == h[s[i]].order); if j < s.len() { assert(t[j] == s[j]); assert(h1[s[j]].order == h[s[j]].order); } }
}
/// a child of an attribute does not exist
proof fn lemma_att_leaf(h: HV, a: RcNode, m: RcNode) requires wf(h), alive(h, a), a.node_type is Attribute, alive(h, m), anc(h, m, a) ensures m == a, whole(h, a) == seq![a]
{
    assert(node_ok(h, a)); lemma_whole(h, a); assert(whole(h, a) =~= seq![a]);
    let k = choose|k: nat| #[trigger] up(h, m, k) == Some(a);
    if k > 0 { lemma_up_step(h, m, (k - 1) as nat); lemma_up_alive(h, m, (k - 1) as nat); let x = up(h, m, (k - 1) as nat)->Some_0; assert(par(h, x) == Some(a)); assert(listed(h, x)); }
}
proof fn lemma_whole_same(h1: HV, h2: HV) requires base(h1), same_tree(h1, h2) ensures forall|m: RcNode| #[trigger] alive(h1, m) ==> whole(h2, m) == whole(h1, m)
{ assert forall|m: RcNode| #[trigger] alive(h1, m) implies whole(h2, m) == whole(h1, m) by { lemma_same_whole(h1, h2, m); } }
proof fn lemma_anc_tree(h1: HV, h2: HV) requires same_tree(h1, h2) ensures forall|n: RcNode, m: RcNode| alive(h1, n) ==> #[trigger] anc(h2, n, m) == anc(h1, n, m)
{ assert forall|n: RcNode, m: RcNode| alive(h1, n) implies #[trigger] anc(h2, n, m) == anc(h1, n, m) by { assert forall|x: RcNode| #[trigger] alive(h1, x) implies par(h1, x) == par(h2, x) by { assert(h2[x].link == h1[x].link); } lemma_anc_same(h1, h2, n, m); } }
/// what stands before the j-th child in the listing of n is not below that child
proof fn lemma_part_apart(h0: HV, n: RcNode, j: int)
    requires wf(h0), alive(h0, n), 0 <= j < kids(h0, n).len()
    ensures forall|i: int| 0 <= i < part(h0, n, atts(h0, n).len() as int, j as nat).len() ==> alive(h0, #[trigger] part(h0, n, atts(h0, n).len() as int, j as nat)[i]) && !anc(h0, part(h0, n, atts(h0, n).len() as int, j as nat)[i], kids(h0, n)[j])
{
    let c = kids(h0, n)[j]; assert(node_ok(h0, n)); assert(alive(h0, c)); assert(par(h0, c) == Some(n));
    lemma_no_cycle(h0, c, n);
    let al = atts(h0, n).len() as int;
    let s = part(h0, n, al, j as nat); let ws = wholes(h0, kids(h0, n), j as nat);
    lemma_height_kids(h0, n);
    assert forall|i: int| 0 <= i < kids(h0, n).len() implies alive(h0, #[trigger] kids(h0, n)[i]) && par(h0, kids(h0, n)[i]) == Some(n) by {}
    lemma_wholes_anc(h0, kids(h0, n), j as nat, n);
    assert forall|i: int| 0 <= i < s.len() implies alive(h0, #[trigger] s[i]) && !anc(h0, s[i], c) by {
        if i == 0 { assert(s[i] == n); } else if i <= al { let a = atts(h0, n)[i - 1]; assert(s[i] == a); assert(alive(h0, a)); assert(par(h0, a) == Some(n)); lemma_anc_self(h0, a); assert(kids(h0, n)[j] != atts(h0, n)[i - 1]); lemma_apart(h0, n, a, c, a); }
        else { let x = ws[i - 1 - al]; assert(s[i] == x); let q = choose|q: int| 0 <= q < j && #[trigger] anc(h0, x, kids(h0, n)[q]); let b = kids(h0, n)[q]; assert(alive(h0, b)); assert(b != c); lemma_apart(h0, n, b, c, x); }
    }
}
proof fn lemma_number_kid(h0: HV, h: HV, h1: HV, n: RcNode, j: int, lo: int, o: int, r: int)
    requires wf(h0), alive(h0, n), 0 <= j < kids(h0, n).len(), lo >= 1, numbering(h0, h, n, atts(h0, n).len() as int, j as nat, lo, o), numbered(h, h1, kids(h0, n)[j], o + 1, r), r > o, o >= lo
    ensures numbering(h0, h1, n, atts(h0, n).len() as int, (j + 1) as nat, lo, r)
{
    let c = kids(h0, n)[j]; assert(node_ok(h0, n)); assert(alive(h0, c)); assert(par(h0, c) == Some(n));
    lemma_whole_same(h0, h); lemma_anc_tree(h0, h); lemma_anc_self(h0, n); lemma_anc_par(h0, c, n); lemma_no_cycle(h0, c, n);
    let al = atts(h0, n).len() as int;
    let s = part(h0, n, al, j as nat); let t = part(h0, n, al, (j + 1) as nat); let w = whole(h0, c);
    let ws = wholes(h0, kids(h0, n), j as nat);
    assert(t =~= s + w);
    lemma_height_kids(h0, n);
    lemma_wholes_anc(h0, kids(h0, n), j as nat, n); lemma_whole_anc(h0, c);
    assert(same_tree(h0, h1)) by { assert forall|x: RcNode| #[trigger] alive(h0, x) implies h1[x] == (NV { order: h1[x].order, ..h0[x] }) by { assert(alive(h, x)); } }
    lemma_part_apart(h0, n, j);
    assert forall|i: int| 0 <= i < s.len() implies alive(h0, #[trigger] s[i]) && h1[s[i]].order == h[s[i]].order by { assert(alive(h, s[i])); }
    assert forall|i: int| 0 <= i < t.len() implies lo <= h1[#[trigger] t[i]].order < r by { if i < s.len() { assert(t[i] == s[i]); } else { assert(t[i] == w[i - s.len()]); } }
    assert forall|i: int, k: int| 0 <= i < k < t.len() implies h1[#[trigger] t[i]].order < h1[#[trigger] t[k]].order by {
        if i < s.len() { assert(t[i] == s[i]); } else { assert(t[i] == w[i - s.len()]); }
        if k < s.len() { assert(t[k] == s[k]); } else { assert(t[k] == w[k - s.len()]); }
    }
    assert forall|m: RcNode| #[trigger] alive(h0, m) && !anc(h0, m, n) implies h1[m].order == h0[m].order by { if anc(h0, m, c) { lemma_anc_trans(h0, m, c, n); } assert(alive(h, m)); }
    assert forall|m: RcNode, q: int| 0 <= q < j + 1 && #[trigger] anc(h0, m, kids(h0, n)[q]) && alive(h0, m) implies rising(h1, whole(h0, m)) by {
        assert(alive(h, m));
        if q < j {
            let b = kids(h0, n)[q]; assert(alive(h0, b));
            assert(rising(h, whole(h0, m))); lemma_whole_anc(h0, m);
            let v = whole(h0, m);
            assert forall|i: int| 0 <= i < v.len() implies h1[#[trigger] v[i]].order == h[v[i]].order by { assert(alive(h0, v[i])); lemma_anc_trans(h0, v[i], m, b); lemma_apart(h0, n, b, c, v[i]); assert(alive(h, v[i])); }
        }
    }
}
proof fn lemma_number_end(h0: HV, h: HV, n: RcNode, lo: int, hi: int) requires wf(h0), alive(h0, n), numbering(h0, h, n, atts(h0, n).len() as int, kids(h0, n).len(), lo, hi) ensures numbered(h0, h, n, lo, hi)
{
    lemma_whole(h0, n); assert(node_ok(h0, n));
    assert(part(h0, n, atts(h0, n).len() as int, kids(h0, n).len()) =~= whole(h0, n));
    assert forall|m: RcNode| #[trigger] alive(h0, m) && anc(h0, m, n) implies rising(h, whole(h0, m)) by {
        if m != n { let e = lemma_entry(h0, m, n); if kids(h0, n).contains(e) { let q = index(kids(h0, n), e); assert(kids(h0, n)[q] == e && 0 <= q < kids(h0, n).len()); assert(anc(h0, m, kids(h0, n)[q])); } else { let q = index(atts(h0, n), e); assert(atts(h0, n)[q] == e); lemma_att_leaf(h0, e, m); } }
    }
}
/// the entry of n above which m stands
proof fn lemma_entry(h: HV, m: RcNode, n: RcNode) -> (e: RcNode) requires wf(h), alive(h, m), anc(h, m, n), m != n ensures alive(h, e), anc(h, m, e), par(h, e) == Some(n), kids(h, n).contains(e) || atts(h, n).contains(e)
{
    let k = choose|k: nat| #[trigger] up(h, m, k) == Some(n);
    lemma_up_step(h, m, (k - 1) as nat); lemma_up_alive(h, m, (k - 1) as nat);
    let e = up(h, m, (k - 1) as nat)->Some_0; assert(listed(h, e)); e
}
proof fn lemma_in_wholes(h: HV, s: Seq<RcNode>, q: int, j: nat, m: RcNode) requires 0 <= q < j <= s.len(), whole(h, s[q]).contains(m) ensures wholes(h, s, j).contains(m) decreases j
{
    let a = wholes(h, s, (j - 1) as nat); let b = whole(h, s[j - 1]);
    if q < j - 1 { lemma_in_wholes(h, s, q, (j - 1) as nat, m); let i = index(a, m); assert(a[i] == m); assert((a + b)[i] == m); } else { let i = index(b, m); assert(b[i] == m); assert((a + b)[a.len() + i] == m); }
}
/// C06, C09: the listing of a tree has every node below n, and only those
proof fn lemma_listing(h: HV, n: RcNode, m: RcNode) requires wf(h), alive(h, n), alive(h, m) ensures whole(h, n).contains(m) == anc(h, m, n) decreases height(h, n)
{
    lemma_whole_anc(h, n); lemma_whole(h, n); assert(node_ok(h, n)); lemma_height_kids(h, n);
    let w = whole(h, n);
    if anc(h, m, n) {
        if m == n { assert(w[0] == m); }
        else {
            let e = lemma_entry(h, m, n);
            if kids(h, n).contains(e) { let q = index(kids(h, n), e); assert(kids(h, n)[q] == e && 0 <= q < kids(h, n).len()); lemma_listing(h, e, m); lemma_in_wholes(h, kids(h, n), q, kids(h, n).len(), m); let x = wholes(h, kids(h, n), kids(h, n).len()); let i = index(x, m); assert(x[i] == m); assert(w[1 + atts(h, n).len() + i] == m); }
            else { let q = index(atts(h, n), e); assert(atts(h, n)[q] == e && 0 <= q); lemma_att_leaf(h, e, m); assert(w[1 + q] == m); }
        }
    } else { if w.contains(m) { let i = index(w, m); assert(w[i] == m); } }
}
/// C09: what document_order leaves behind: the tree of r is numbered in document order, without a repetition
spec fn ordered(h: HV, r: RcNode) -> bool { rising(h, whole(h, r)) && forall|m: RcNode| alive(h, m) ==> (#[trigger] whole(h, r).contains(m) == anc(h, m, r)) }
proof fn lemma_ordered(h0: HV, h: HV, r: RcNode, hi: int) requires wf(h0), ord_inv(h0), alive(h0, r), par(h0, r) is None, numbered(h0, h, r, 1, hi) ensures ord_inv(h), ordered(h, r)
{
    lemma_whole_same(h0, h); lemma_anc_tree(h0, h); lemma_anc_self(h0, r);
    assert forall|m: RcNode| alive(h, m) implies #[trigger] whole(h, r).contains(m) == anc(h, m, r) by { lemma_listing(h, r, m); }
    assert forall|m: RcNode| #[trigger] alive(h, m) && h[m].order != 0 implies rising(h, whole(h, m)) by {
        assert(alive(h0, m));
        if !anc(h0, m, r) {
            assert(rising(h0, whole(h0, m))); lemma_whole_anc(h0, m); let v = whole(h0, m);
            assert forall|i: int| 0 <= i < v.len() implies h[#[trigger] v[i]].order == h0[v[i]].order by { assert(alive(h0, v[i])); if anc(h0, v[i], r) { lemma_chain(h0, v[i], m, r); if anc(h0, r, m) { lemma_anc_par(h0, r, m); } } }
        }
    }
}
/// comparing the numbers of two nodes of a tree compares their places in the document
proof fn lemma_order_total(h: HV, r: RcNode, i: int, j: int) requires ordered(h, r), 0 <= i < whole(h, r).len(), 0 <= j < whole(h, r).len() ensures (h[whole(h, r)[i]].order < h[whole(h, r)[j]].order) == (i < j), (h[whole(h, r)[i]].order == h[whole(h, r)[j]].order) == (i == j)
{ let w = whole(h, r); if i < j { assert(h[w[i]].order < h[w[j]].order); } else if j < i { assert(h[w[j]].order < h[w[i]].order); } }
proof fn lemma_ordered_old(h: HV, r: RcNode) requires wf(h), ord_inv(h), alive(h, r), h[r].order != 0 ensures ordered(h, r)
{ assert forall|m: RcNode| alive(h, m) implies #[trigger] whole(h, r).contains(m) == anc(h, m, r) by { lemma_listing(h, r, m); } }
proof fn lemma_same_height(h1: HV, h2: HV, n: RcNode) requires base(h1), alive(h1, n), same_tree(h1, h2) ensures height(h2, n) == height(h1, n)
{
    let s = |m: RcNode| alive(h1, m);
    assert(agree(h1, h2, s)) by { assert forall|m: RcNode| #[trigger] s(m) implies kids(h1, m) == kids(h2, m) && atts(h1, m) == atts(h2, m)
        && (forall|i: int| 0 <= i < kids(h1, m).len() ==> s(#[trigger] kids(h1, m)[i])) && (forall|i: int| 0 <= i < atts(h1, m).len() ==> s(#[trigger] atts(h1, m)[i])) by { assert(alive(h1, m)); assert(node_ok(h1, m)); } }
    lemma_height_frame(h1, h2, s, n);
}

// ---- names (C10)
spec fn colon_at(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i] == ':' && forall|j: int| 0 <= j < i ==> s[j] != ':' }
/// a text cut at its first colon (trusted: str::splitn(2, ":"))
#[verifier::external_body]
fn vcut_colon<'a>(s: &'a str) -> (r: Vec<&'a str>)
    ensures r@.len() == 1 || r@.len() == 2, r@.len() == 1 ==> r@[0]@ == s@ && forall|i: int| !#[trigger] colon_at(s@, i),
        r@.len() == 2 ==> colon_at(s@, r@[0]@.len() as int) && r@[0]@ == s@.subrange(0, r@[0]@.len() as int) && r@[1]@ == s@.subrange((r@[0]@.len() + 1) as int, s@.len() as int)
{ unimplemented!() }
spec fn first_colon(s: Seq<char>) -> int { choose|i: int| colon_at(s, i) }
spec fn has_colon(s: Seq<char>) -> bool { exists|i: int| #[trigger] colon_at(s, i) }
spec fn prefix_part(s: Seq<char>) -> Seq<char> { if has_colon(s) { s.subrange(0, first_colon(s)) } else { Seq::empty() } }
spec fn local_part(s: Seq<char>) -> Seq<char> { if has_colon(s) { s.subrange(first_colon(s) + 1, s.len() as int) } else { s } }
/// C10: joining prefix, colon and local part gives the name back
proof fn lemma_cut(s: Seq<char>) ensures has_colon(s) ==> s == prefix_part(s) + seq![':'] + local_part(s) && forall|j: int| 0 <= j < prefix_part(s).len() ==> prefix_part(s)[j] != ':', !has_colon(s) ==> prefix_part(s).len() == 0 && local_part(s) == s && (forall|j: int| 0 <= j < s.len() ==> s[j] != ':'),
    forall|i: int| #[trigger] colon_at(s, i) ==> i == first_colon(s)
{
    if has_colon(s) { let i = first_colon(s); assert(colon_at(s, i)); assert(s =~= prefix_part(s) + seq![':'] + local_part(s)); }
    else { assert forall|j: int| 0 <= j < s.len() implies s[j] != ':' by { lemma_some_colon(s, j); } }
}
proof fn lemma_some_colon(s: Seq<char>, j: int) requires 0 <= j < s.len() ensures s[j] == ':' ==> has_colon(s) decreases j
{ if s[j] == ':' { if exists|i: int| 0 <= i < j && s[i] == ':' { let i = choose|i: int| 0 <= i < j && s[i] == ':'; lemma_some_colon(s, i); } else { assert(colon_at(s, j)); } } }
spec fn decl_name(p: Seq<char>) -> Seq<char> { if p.len() == 0 { seq!['x', 'm', 'l', 'n', 's'] } else { seq!['x', 'm', 'l', 'n', 's', ':'] + p } }
/// the search for a declaration goes past a node
spec fn passed(h: HV, m: Option<RcNode>, key: Seq<char>) -> bool { match m { Some(m) => !(m.node_type is DocumentRoot) && attr_value(atts(h, m), key) is None, None => false } }
spec fn found(h: HV, m: Option<RcNode>, key: Seq<char>, v: Seq<char>) -> bool { match m { Some(m) => !(m.node_type is DocumentRoot) && attr_value(atts(h, m), key) == Some(v), None => false } }
spec fn ends(h: HV, m: Option<RcNode>) -> bool { match m { Some(m) => m.node_type is DocumentRoot, None => true } }
/// C10: the value of the nearest declaration above n, empty when there is none
spec fn is_ns(h: HV, n: RcNode, key: Seq<char>, v: Seq<char>) -> bool {
    exists|k: nat| (forall|j: nat| j < k ==> passed(h, #[trigger] up(h, n, j), key)) && (found(h, #[trigger] up(h, n, k), key, v) || ends(h, up(h, n, k)) && v.len() == 0) }
spec fn root_elem(h: HV, t: RcNode, r: RcNode) -> bool {
    (exists|i: int| 0 <= i < kids(h, t).len() && #[trigger] kids(h, t)[i] == r && r.node_type is Element && forall|j: int| 0 <= j < i ==> !(#[trigger] kids(h, t)[j].node_type is Element))
    || r == t && forall|j: int| 0 <= j < kids(h, t).len() ==> !(#[trigger] kids(h, t)[j].node_type is Element) }
// ---- building (C05, C06)
spec fn new_kid(h0: HV, p: RcNode, r: RcNode, i: int) -> HV { let h1 = h0.insert(r, NV { kids: Seq::empty(), attrs: Seq::empty(), link: Some(p), order: 0 }); set_kids(h1, p, if i <= kids(h0, p).len() { kids(h0, p).insert(i, r) } else { kids(h0, p).push(r) }) }
proof fn lemma_new_kid(h0: HV, h1: HV, p: RcNode, t: RcNode, i: int)
    requires wf(h0), alive(h0, p), fresh(h0, t), t.parent is Some, h1 == h0.insert(t, NV { kids: Seq::empty(), attrs: Seq::empty(), link: Some(p), order: 0 }), i >= 0, !(p.node_type is Attribute)
    ensures wf(new_kid(h0, p, t, i)), kids(h1, p) == kids(h0, p), alive(h1, p)
{
    lemma_new_node(h0, h1, t, p);
    let w = new_kid(h0, p, t, i); let s0 = kids(h0, p); let i = if i <= s0.len() { i } else { s0.len() as int };
    assert(s0.push(t) =~= s0.insert(s0.len() as int, t));
    assert(w.dom() =~= h1.dom()); assert(node_ok(h0, p)); assert(node_ok(h1, p)); 
    let (f, bb) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(h1, f, b);
    assert(ranked(w, f, bb)) by { assert forall|m: RcNode| #[trigger] alive(w, m) implies f(m) <= bb && match par(w, m) { Some(q) => f(q) < f(m), None => true } by { assert(alive(h1, m)); } }
    assert forall|j: int| 0 <= j < s0.len() implies #[trigger] s0[j] != t by { assert(alive(h0, s0[j])); }
    assert forall|j: int| 0 <= j < atts(h0, p).len() implies #[trigger] atts(h0, p)[j] != t by { assert(alive(h0, atts(h0, p)[j])); }
    assert forall|m: RcNode| #[trigger] alive(w, m) implies node_ok(w, m) && listed(w, m) by {
        assert(alive(h1, m)); assert(node_ok(h1, m)); assert(atts(w, m) == atts(h1, m));
        assert forall|j: int| 0 <= j < atts(w, m).len() implies alive(w, #[trigger] atts(w, m)[j]) && w[atts(w, m)[j]].link == Some(m) by { assert(alive(h1, atts(h1, m)[j])); }
        if m == p {
            assert forall|j: int| 0 <= j < kids(w, m).len() implies alive(w, #[trigger] kids(w, m)[j]) && w[kids(w, m)[j]].link == Some(m) && kids(w, m)[j] == (if j < i { s0[j] } else if j == i { t } else { s0[j - 1] }) by { if j < i { assert(alive(h1, kids(h1, m)[j])); } else if j > i { assert(alive(h1, kids(h1, m)[j - 1])); } }
        } else { assert(kids(w, m) == kids(h1, m)); assert forall|j: int| 0 <= j < kids(w, m).len() implies alive(w, #[trigger] kids(w, m)[j]) && w[kids(w, m)[j]].link == Some(m) by { assert(alive(h1, kids(h1, m)[j])); } }
        if m == t { assert(kids(w, p)[i] == t); }
        else { assert(alive(h0, m)); assert(listed(h0, m)); assert(par(h1, m) == par(h0, m)); if par(w, m) == Some(p) && s0.contains(m) { let j = index(s0, m); assert(s0[j] == m && 0 <= j < s0.len()); assert(kids(w, p)[if j < i { j } else { j + 1 }] == m); } }
    }
}
// ---- deaths: between two operations the nodes nobody refers to any more vanish
spec fn without(h: HV, d: spec_fn(RcNode) -> bool) -> HV { Map::new(h.dom().filter(|n: RcNode| !d(n)), |n: RcNode| h[n]) }
/// what is left does not list what vanishes (a list holds its nodes)
spec fn may_die(h: HV, d: spec_fn(RcNode) -> bool) -> bool { forall|n: RcNode| #[trigger] alive(h, n) && !d(n) ==> (forall|i: int| 0 <= i < kids(h, n).len() ==> !d(#[trigger] kids(h, n)[i])) && (forall|i: int| 0 <= i < atts(h, n).len() ==> !d(#[trigger] atts(h, n)[i])) }
/// C06, C09: the invariants survive it
proof fn lemma_deaths(h: HV, d: spec_fn(RcNode) -> bool) requires wf(h), may_die(h, d) ensures wf(without(h, d)), ord_inv(h) ==> ord_inv(without(h, d))
{
    let w = without(h, d);
    assert forall|n: RcNode| #[trigger] alive(w, n) == (alive(h, n) && !d(n)) by {}
    let (f, b) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(h, f, b);
    assert(ranked(w, f, b)) by { assert forall|m: RcNode| #[trigger] alive(w, m) implies f(m) <= b && match par(w, m) { Some(q) => f(q) < f(m), None => true } by { assert(alive(h, m)); } }
    assert forall|m: RcNode| #[trigger] alive(w, m) implies node_ok(w, m) && listed(w, m) by {
        assert(alive(h, m)); assert(node_ok(h, m)); assert(listed(h, m)); assert(kids(w, m) == kids(h, m)); assert(atts(w, m) == atts(h, m));
        assert forall|j: int| 0 <= j < kids(w, m).len() implies alive(w, #[trigger] kids(w, m)[j]) && w[kids(w, m)[j]].link == Some(m) by { assert(alive(h, kids(h, m)[j])); }
        assert forall|j: int| 0 <= j < atts(w, m).len() implies alive(w, #[trigger] atts(w, m)[j]) && w[atts(w, m)[j]].link == Some(m) && atts(w, m)[j].node_type is Attribute by { assert(alive(h, atts(h, m)[j])); }
        if let Some(p) = par(w, m) { assert(par(h, m) == Some(p)); }
    }
    if ord_inv(h) {
        let s = |m: RcNode| alive(w, m);
        assert(agree(h, w, s)) by { assert forall|m: RcNode| #[trigger] s(m) implies kids(h, m) == kids(w, m) && atts(h, m) == atts(w, m)
            && (forall|i: int| 0 <= i < kids(h, m).len() ==> s(#[trigger] kids(h, m)[i])) && (forall|i: int| 0 <= i < atts(h, m).len() ==> s(#[trigger] atts(h, m)[i])) by { assert(alive(w, m)); assert(node_ok(w, m)); } }
        assert forall|n: RcNode| #[trigger] alive(w, n) && w[n].order != 0 implies rising(w, whole(w, n)) by {
            assert(alive(h, n)); lemma_height_frame(h, w, s, n); lemma_pre_frame(h, w, s, n, height(h, n)); assert(rising(h, whole(h, n)));
        }
    }
}

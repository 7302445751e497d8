impl Clone for XNodeType { #[verifier::external_body] fn clone(&self) -> (r: XNodeType) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for XNodeType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &XNodeType) -> bool { *self == *o } }
impl PartialEq for XNodeType { #[verifier::external_body] fn eq(&self, o: &XNodeType) -> (r: bool) { unimplemented!() } }
impl Clone for XNodePtr { #[verifier::external_body] fn clone(&self) -> (r: XNodePtr) ensures r == *self { unimplemented!() } }
impl XNodePtr { spec fn id(&self) -> int { self.xnode_ptr as int } }
spec fn id(p: XNodePtr) -> int { p.xnode_ptr as int }

// ---- the nodes of syntax trees: a node is shared through Rc<RefCell<XNode>>, so it is a place in a list of nodes that only grows
pub struct Heap { nodes: Vec<XNode> }
type C = Seq<XNode>;
impl Heap { spec fn c(&self) -> C { self.nodes@ } }
/// setl, setr: the tree with its left, right subtree put in
pub open spec fn setl(t: T, x: T) -> T { match t { T::Nil => T::Nil, T::N { ty, nm, l, r } => if x is Nil { t } else { nd(ty, nm, x, *r) } } }
pub open spec fn setr(t: T, x: T) -> T { match t { T::Nil => T::Nil, T::N { ty, nm, l, r } => if x is Nil { t } else { nd(ty, nm, *l, x) } } }
pub open spec fn tl(t: T) -> T { match t { T::Nil => T::Nil, T::N { ty, nm, l, r } => *l } }
pub open spec fn tr(t: T) -> T { match t { T::Nil => T::Nil, T::N { ty, nm, l, r } => *r } }

/// the tree at place p is t, all of its nodes have places in [lo, hi); the names of path operators do not matter
#[verifier::opaque]
spec fn rep(c: C, p: int, t: T, lo: int, hi: int) -> bool decreases t {
    0 <= lo <= p < hi <= c.len() && match t {
        T::Nil => c[p].n_type == XNodeType::Nil,
        T::N { ty, nm, l, r } => ty != XNodeType::Nil && c[p].n_type == ty && (if ty == XNodeType::OperatorPath { nm == ""@ } else { c[p].name@ == nm })
            && (match c[p].left { None => *l is Nil, Some(x) => !(*l is Nil) && rep(c, id(x), *l, lo, hi) })
            && (match c[p].right { None => *r is Nil, Some(x) => !(*r is Nil) && rep(c, id(x), *r, lo, hi) }) }
}
/// nothing that was there has changed
spec fn ext(c0: C, c1: C) -> bool { c0.len() <= c1.len() && forall|i: int| 0 <= i < c0.len() ==> #[trigger] c1[i] == c0[i] }
/// at most the node at q has changed
spec fn upd(c0: C, c1: C, q: int) -> bool { c0.len() == c1.len() && 0 <= q < c0.len() && forall|i: int| 0 <= i < c0.len() && i != q ==> #[trigger] c1[i] == c0[i] }
proof fn rep_frame(c0: C, c1: C, p: int, t: T, lo: int, hi: int)
    requires rep(c0, p, t, lo, hi), hi <= c1.len(), forall|i: int| lo <= i < hi ==> #[trigger] c1[i] == c0[i] ensures rep(c1, p, t, lo, hi) decreases t
{
    reveal_with_fuel(rep, 1); reveal(rep);
    if let T::N { ty, nm, l, r } = t {
        if let Some(x) = c0[p].left { rep_frame(c0, c1, id(x), *l, lo, hi); }
        if let Some(x) = c0[p].right { rep_frame(c0, c1, id(x), *r, lo, hi); } }
}
broadcast proof fn rep_ext(c0: C, c1: C, p: int, t: T, lo: int, hi: int)
    requires #[trigger] rep(c0, p, t, lo, hi), #[trigger] ext(c0, c1) ensures rep(c1, p, t, lo, hi)
{ reveal(rep); rep_frame(c0, c1, p, t, lo, hi); }
broadcast proof fn rep_wide(c: C, p: int, t: T, lo: int, hi: int, lo2: int, hi2: int)
    requires #[trigger] rep(c, p, t, lo, hi), 0 <= lo2 <= lo, hi <= hi2 <= c.len() ensures #[trigger] rep(c, p, t, lo2, hi2) decreases t
{
    reveal(rep);
    if let T::N { ty, nm, l, r } = t {
        if let Some(x) = c[p].left { rep_wide(c, id(x), *l, lo, hi, lo2, hi2); }
        if let Some(x) = c[p].right { rep_wide(c, id(x), *r, lo, hi, lo2, hi2); } }
}
spec fn size(t: T) -> nat decreases t { match t { T::Nil => 1, T::N { ty, nm, l, r } => 1 + size(*l) + size(*r) } }
proof fn rep_unique(c: C, p: int, t: T, lo: int, hi: int, u: T, lo2: int, hi2: int)
    requires rep(c, p, t, lo, hi), rep(c, p, u, lo2, hi2) ensures t == u decreases t
{
    reveal(rep);
    if let T::N { ty, nm, l, r } = t { if let T::N { ty: ty2, nm: nm2, l: l2, r: r2 } = u {
        if let Some(x) = c[p].left { rep_unique(c, id(x), *l, lo, hi, *l2, lo2, hi2); }
        if let Some(x) = c[p].right { rep_unique(c, id(x), *r, lo, hi, *r2, lo2, hi2); }
        assert(*l == *l2 && *r == *r2); assert(nm == nm2); } }
}
/// a tree smaller than the tree at q does not hold q
proof fn rep_small(c0: C, c1: C, q: int, t: T, lo: int, hi: int, p: int, u: T, lo2: int, hi2: int)
    requires rep(c0, q, t, lo, hi), rep(c0, p, u, lo2, hi2), size(u) < size(t), upd(c0, c1, q) ensures rep(c1, p, u, lo2, hi2), p != q decreases u
{
    reveal(rep);
    if p == q { rep_unique(c0, p, t, lo, hi, u, lo2, hi2); }
    if let T::N { ty, nm, l, r } = u {
        if let Some(x) = c0[p].left { rep_small(c0, c1, q, t, lo, hi, id(x), *l, lo2, hi2); }
        if let Some(x) = c0[p].right { rep_small(c0, c1, q, t, lo, hi, id(x), *r, lo2, hi2); } }
}
broadcast proof fn rep_upd(c0: C, c1: C, q: int, p: int, t: T, lo: int, hi: int)
    requires #[trigger] rep(c0, p, t, lo, hi), #[trigger] upd(c0, c1, q), !(lo <= q < hi) ensures rep(c1, p, t, lo, hi)
{ reveal(rep); rep_frame(c0, c1, p, t, lo, hi); }
spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
spec fn max(a: int, b: int) -> int { if a >= b { a } else { b } }
/// c1 is c0 with y as the left subtree of q
spec fn put_left(c0: C, c1: C, q: int, y: XNodePtr) -> bool { upd(c0, c1, q) && c1[q].n_type == c0[q].n_type && c1[q].name == c0[q].name && c1[q].right == c0[q].right && c1[q].left == (if c0[id(y)].n_type == XNodeType::Nil { c0[q].left } else { Some(y) }) }
spec fn put_right(c0: C, c1: C, q: int, y: XNodePtr) -> bool { upd(c0, c1, q) && c1[q].n_type == c0[q].n_type && c1[q].name == c0[q].name && c1[q].left == c0[q].left && c1[q].right == (if c0[id(y)].n_type == XNodeType::Nil { c0[q].right } else { Some(y) }) }
broadcast proof fn rep_left(c0: C, c1: C, q: int, y: XNodePtr, t: T, lo: int, hi: int, u: T, lo2: int, hi2: int)
    requires #[trigger] put_left(c0, c1, q, y), #[trigger] rep(c0, q, t, lo, hi), !(t is Nil), #[trigger] rep(c0, id(y), u, lo2, hi2), !(lo2 <= q < hi2)
    ensures rep(c1, q, setl(t, u), min(lo, lo2), max(hi, hi2))
{
    reveal(rep); let a = min(lo, lo2); let b = max(hi, hi2);
    if let T::N { ty, nm, l, r } = t {
        if let Some(x) = c0[q].left { rep_small(c0, c1, q, t, lo, hi, id(x), *l, lo, hi); rep_wide(c1, id(x), *l, lo, hi, a, b); }
        if let Some(x) = c0[q].right { rep_small(c0, c1, q, t, lo, hi, id(x), *r, lo, hi); rep_wide(c1, id(x), *r, lo, hi, a, b); }
        rep_frame(c0, c1, id(y), u, lo2, hi2); rep_wide(c1, id(y), u, lo2, hi2, a, b);
    }
}
broadcast proof fn rep_right(c0: C, c1: C, q: int, y: XNodePtr, t: T, lo: int, hi: int, u: T, lo2: int, hi2: int)
    requires #[trigger] put_right(c0, c1, q, y), #[trigger] rep(c0, q, t, lo, hi), !(t is Nil), #[trigger] rep(c0, id(y), u, lo2, hi2), !(lo2 <= q < hi2)
    ensures rep(c1, q, setr(t, u), min(lo, lo2), max(hi, hi2))
{
    reveal(rep); let a = min(lo, lo2); let b = max(hi, hi2);
    if let T::N { ty, nm, l, r } = t {
        if let Some(x) = c0[q].left { rep_small(c0, c1, q, t, lo, hi, id(x), *l, lo, hi); rep_wide(c1, id(x), *l, lo, hi, a, b); }
        if let Some(x) = c0[q].right { rep_small(c0, c1, q, t, lo, hi, id(x), *r, lo, hi); rep_wide(c1, id(x), *r, lo, hi, a, b); }
        rep_frame(c0, c1, id(y), u, lo2, hi2); rep_wide(c1, id(y), u, lo2, hi2, a, b);
    }
}
broadcast proof fn rep_in(c: C, p: int, t: T, lo: int, hi: int) requires #[trigger] rep(c, p, t, lo, hi) ensures 0 <= lo <= p < hi <= c.len(), (t is Nil) == (c[p].n_type == XNodeType::Nil) { reveal(rep); }
broadcast group heap_rules { rep_in, rep_ext, rep_wide, rep_upd, rep_left, rep_right }
/// a node from its parts
proof fn mk(c: C, p: int, t: T, lo: int, hi: int, lo1: int, hi1: int, lo2: int, hi2: int)
    requires 0 <= lo <= p < hi <= c.len(), !(t is Nil), match t { T::N { ty, nm, l, r } => ty != XNodeType::Nil && c[p].n_type == ty && (if ty == XNodeType::OperatorPath { nm == ""@ } else { c[p].name@ == nm })
            && (match c[p].left { None => *l is Nil, Some(x) => !(*l is Nil) && rep(c, id(x), *l, lo1, hi1) && lo <= lo1 && hi1 <= hi })
            && (match c[p].right { None => *r is Nil, Some(x) => !(*r is Nil) && rep(c, id(x), *r, lo2, hi2) && lo <= lo2 && hi2 <= hi }), T::Nil => false }
    ensures rep(c, p, t, lo, hi)
{
    reveal(rep);
    if let T::N { ty, nm, l, r } = t {
        if let Some(x) = c[p].left { rep_wide(c, id(x), *l, lo1, hi1, lo, hi); }
        if let Some(x) = c[p].right { rep_wide(c, id(x), *r, lo2, hi2, lo, hi); } }
}

// ---- chains along the right: app puts x at the end of the right spine of t
pub open spec fn app(t: T, x: T) -> T decreases t { match t { T::Nil => x, T::N { ty, nm, l, r } => nd(ty, nm, *l, app(*r, x)) } }
proof fn app_assoc(a: T, b: T, x: T) ensures app(app(a, b), x) == app(a, app(b, x)) decreases a { if let T::N { ty, nm, l, r } = a { app_assoc(*r, b, x); } }
proof fn app_nil(a: T) ensures app(a, T::Nil) == a decreases a { if let T::N { ty, nm, l, r } = a { app_nil(*r); } }
/// t, followed by what r reads
pub open spec fn addl(t: T, r: R, j: int, n: nat) -> R { if !ok(r, j, n) { None } else { Some((app(t, (r->0).0), (r->0).1)) } }
/// from p along the right to q lie the nodes of t; all of them and their left subtrees are at places of [lo, hi) other than q
spec fn seg(c: C, p: int, q: int, t: T, lo: int, hi: int) -> bool decreases t {
    0 <= lo && hi <= c.len() && match t {
        T::Nil => p == q,
        T::N { ty, nm, l, r } => lo <= p < hi && p != q && ty != XNodeType::Nil && c[p].n_type == ty && (if ty == XNodeType::OperatorPath { nm == ""@ } else { c[p].name@ == nm })
            && (match c[p].left { None => *l is Nil, Some(x) => !(*l is Nil) && exists|a: int, b: int| lo <= a && b <= hi && !(a <= q < b) && #[trigger] rep(c, id(x), *l, a, b) })
            && c[p].right is Some && seg(c, id(c[p].right->0), q, *r, lo, hi) }
}
proof fn seg_ext(c0: C, c1: C, p: int, q: int, t: T, lo: int, hi: int) requires seg(c0, p, q, t, lo, hi), ext(c0, c1) ensures seg(c1, p, q, t, lo, hi) decreases t
{
    if let T::N { ty, nm, l, r } = t {
        if let Some(x) = c0[p].left { let (a, b) = choose|a: int, b: int| lo <= a && b <= hi && !(a <= q < b) && #[trigger] rep(c0, id(x), *l, a, b); rep_ext(c0, c1, id(x), *l, a, b); }
        seg_ext(c0, c1, id(c0[p].right->0), q, *r, lo, hi); }
}
proof fn seg_wide(c: C, p: int, q: int, t: T, lo: int, hi: int, lo2: int, hi2: int) requires seg(c, p, q, t, lo, hi), 0 <= lo2 <= lo, hi <= hi2 <= c.len() ensures seg(c, p, q, t, lo2, hi2) decreases t
{
    if let T::N { ty, nm, l, r } = t {
        if let Some(x) = c[p].left { let (a, b) = choose|a: int, b: int| lo <= a && b <= hi && !(a <= q < b) && #[trigger] rep(c, id(x), *l, a, b); assert(lo2 <= a && b <= hi2); }
        seg_wide(c, id(c[p].right->0), q, *r, lo, hi, lo2, hi2); }
}
proof fn seg_upd(c0: C, c1: C, p: int, q: int, t: T, lo: int, hi: int) requires seg(c0, p, q, t, lo, hi), upd(c0, c1, q) ensures seg(c1, p, q, t, lo, hi) decreases t
{
    if let T::N { ty, nm, l, r } = t {
        if let Some(x) = c0[p].left { let (a, b) = choose|a: int, b: int| lo <= a && b <= hi && !(a <= q < b) && #[trigger] rep(c0, id(x), *l, a, b); rep_upd(c0, c1, q, id(x), *l, a, b); }
        seg_upd(c0, c1, id(c0[p].right->0), q, *r, lo, hi); }
}
/// the chain is one longer: q is now a member, its right neighbour x the end
proof fn seg_add(c: C, p: int, q: int, t: T, lo: int, hi: int, x: int, u: T, a: int, b: int)
    requires seg(c, p, q, t, lo, hi), lo <= q < hi, x >= hi, match u { T::Nil => false, T::N { ty, nm, l, r } => *r is Nil && ty != XNodeType::Nil && c[q].n_type == ty && (if ty == XNodeType::OperatorPath { nm == ""@ } else { c[q].name@ == nm })
        && (match c[q].left { None => *l is Nil, Some(y) => !(*l is Nil) && lo <= a && b <= hi && rep(c, id(y), *l, a, b) }) }, c[q].right is Some, id(c[q].right->0) == x
    ensures seg(c, p, x, app(t, u), lo, hi) decreases t
{
    match t {
        T::Nil => { assert(app(t, u) == u); if let T::N { ty, nm, l, r } = u { assert(seg(c, x, x, T::Nil, lo, hi)); } }
        T::N { ty, nm, l, r } => {
            if let Some(y) = c[p].left { let (a, b) = choose|a: int, b: int| lo <= a && b <= hi && !(a <= q < b) && #[trigger] rep(c, id(y), *l, a, b); assert(!(a <= x < b)); }
            seg_add(c, id(c[p].right->0), q, *r, lo, hi, x, u, a, b); } }
}
proof fn seg_close(c: C, p: int, q: int, t: T, lo: int, hi: int, u: T, lo2: int, hi2: int)
    requires seg(c, p, q, t, lo, hi), rep(c, q, u, lo2, hi2), !(u is Nil), 0 <= lo2 <= lo, hi <= hi2 <= c.len() ensures rep(c, p, app(t, u), lo2, hi2), !(app(t, u) is Nil) decreases t
{
    if let T::N { ty, nm, l, r } = t {
        if let Some(x) = c[p].left { let (a, b) = choose|a: int, b: int| lo <= a && b <= hi && !(a <= q < b) && #[trigger] rep(c, id(x), *l, a, b); rep_wide(c, id(x), *l, a, b, lo2, hi2); }
        seg_close(c, id(c[p].right->0), q, *r, lo, hi, u, lo2, hi2);
        reveal(rep); }
}
/// one round of a loop that builds a chain: the node y, the tree at which is u, becomes the right neighbour of q, at which the chain ends with the node of v
proof fn seg_round(c0: C, c1: C, p: int, q: int, t: T, lo: int, hi: int, v: T, y: XNodePtr)
    requires seg(c0, p, q, t, lo, hi), rep(c0, q, v, lo, hi), !(v is Nil), tr(v) is Nil, put_right(c0, c1, q, y), hi <= id(y) < c0.len(), c0[id(y)].n_type != XNodeType::Nil
    ensures seg(c1, p, id(y), app(t, v), lo, hi)
{
    seg_upd(c0, c1, p, q, t, lo, hi); reveal(rep);
    if let T::N { ty, nm, l, r } = v { if let Some(x) = c0[q].left { rep_small(c0, c1, q, v, lo, hi, id(x), *l, lo, hi); } }
    seg_add(c1, p, q, t, lo, hi, id(y), v, lo, hi);
}

// ---- what a parsing function does: it reads what s says from the tokens and builds its tree from new nodes
spec fn dn(l0: Lexer, l1: Lexer, c0: C, c1: C, r: Result<XNodePtr, VErr>, s: R) -> bool {
    l1.wf() && l1.ts() == l0.ts() && ext(c0, c1) && (r is Ok) == (s is Some)
    && (r is Ok ==> ok(s, l0.index as int, l0.ts().len()) && l1.index == (s->0).1 && rep(c1, id(r->Ok_0), (s->0).0, c0.len() as int, c1.len() as int))
}
/// .. a name
spec fn ds(l0: Lexer, l1: Lexer, r: Result<String, VErr>, s: S) -> bool {
    l1.wf() && l1.ts() == l0.ts() && l1.mark_index == l0.mark_index && (r is Ok) == (s is Some)
    && (r is Ok ==> oks(s, l0.index as int, l0.ts().len()) && l1.index == (s->0).1 && r->Ok_0@ == (s->0).0)
}
/// the operators and the axes are node types of their own
proof fn op_kind(lev: int, t: TType) ensures op(lev, t) is Some ==> op(lev, t)->0 != XNodeType::Nil && op(lev, t)->0 != XNodeType::OperatorPath
{ assert forall|k: int| 0 <= k < tab(lev).len() implies (#[trigger] tab(lev)[k]).1 != XNodeType::Nil && tab(lev)[k].1 != XNodeType::OperatorPath by {} tlook_kind(tab(lev), t); }
proof fn tlook_kind(m: Seq<(TType, XNodeType)>, t: TType) requires forall|k: int| 0 <= k < m.len() ==> (#[trigger] m[k]).1 != XNodeType::Nil && m[k].1 != XNodeType::OperatorPath
    ensures tlook(m, t) is Some ==> tlook(m, t)->0 != XNodeType::Nil && tlook(m, t)->0 != XNodeType::OperatorPath decreases m.len()
{ if m.len() > 0 && m.last().0 != t { assert forall|k: int| 0 <= k < m.len() - 1 implies (#[trigger] m.drop_last()[k]).1 != XNodeType::Nil && m.drop_last()[k].1 != XNodeType::OperatorPath by { assert(m.drop_last()[k] == m[k]); } tlook_kind(m.drop_last(), t); } }
proof fn axis_kind(n: Seq<char>) ensures look(axes(), n) is Some ==> look(axes(), n)->0 != XNodeType::Nil && look(axes(), n)->0 != XNodeType::OperatorPath { reveal_with_fuel(look, 14); }

// ---- loops that build a chain: it starts at p and ends at q with the node of v; ctx are the nodes before q
spec fn chain(c: C, p: int, q: int, ctx: T, v: T, lo: int) -> bool { seg(c, p, q, ctx, lo, c.len() as int) && rep(c, q, v, lo, c.len() as int) && !(v is Nil) && tr(v) is Nil && lo <= p < c.len() }
/// the node y, the tree at which is w, becomes the right neighbour of q
proof fn chain_step(c0: C, c1: C, c2: C, p: int, q: int, ctx: T, v: T, lo: int, y: XNodePtr, w: T)
    requires chain(c0, p, q, ctx, v, lo), ext(c0, c1), rep(c1, id(y), w, c0.len() as int, c1.len() as int), !(w is Nil), put_right(c1, c2, q, y)
    ensures rep(c2, p, app(app(ctx, v), w), lo, c2.len() as int), tr(w) is Nil ==> chain(c2, p, id(y), app(ctx, v), w, lo), c2[q].right == Some(y), lo <= q < c0.len()
{
    broadcast use heap_rules;
    let n = c0.len() as int;
    seg_ext(c0, c1, p, q, ctx, lo, n);
    assert(rep(c1, q, v, lo, n));
    seg_round(c1, c2, p, q, ctx, lo, n, v, y);
    assert(rep(c2, id(y), w, n, c2.len() as int)); assert(rep(c2, id(y), w, lo, c2.len() as int));
    seg_close(c2, p, id(y), app(ctx, v), lo, n, w, lo, c2.len() as int);
    seg_wide(c2, p, id(y), app(ctx, v), lo, n, lo, c2.len() as int);
}
proof fn chain_ext(c0: C, c1: C, p: int, q: int, ctx: T, v: T, lo: int) requires chain(c0, p, q, ctx, v, lo), ext(c0, c1) ensures chain(c1, p, q, ctx, v, lo)
{ broadcast use heap_rules; seg_ext(c0, c1, p, q, ctx, lo, c0.len() as int); seg_wide(c1, p, q, ctx, lo, c0.len() as int, lo, c1.len() as int); assert(rep(c1, q, v, lo, c0.len() as int)); }
proof fn chain_tree(c: C, p: int, q: int, ctx: T, v: T, lo: int) requires chain(c, p, q, ctx, v, lo) ensures rep(c, p, app(ctx, v), lo, c.len() as int), !(app(ctx, v) is Nil), app(app(ctx, v), T::Nil) == app(ctx, v)
{ seg_close(c, p, q, ctx, lo, c.len() as int, v, lo, c.len() as int); app_nil(app(ctx, v)); }
proof fn chain_new(c: C, p: int, v: T, lo: int) requires rep(c, p, v, lo, c.len() as int), !(v is Nil), tr(v) is Nil ensures chain(c, p, p, T::Nil, v, lo), app(T::Nil, v) == v { broadcast use heap_rules; }
/// reading u and then what follows
proof fn addl_assoc(t: T, u: T, r: R, j: int, k: int, n: nat) requires j < k ensures addl(t, addl(u, r, k, n), j, n) == addl(app(t, u), r, k, n)
{ if ok(r, k, n) { app_assoc(t, u, (r->0).0); } }
spec fn onr(t: T, x: T) -> T { match t { T::Nil => x, T::N { ty, nm, l, r } => nd(ty, nm, *l, x) } }
broadcast proof fn app_one(t: T, x: T) requires tr(t) is Nil ensures #[trigger] app(t, x) == onr(t, x) { reveal_with_fuel(app, 2); }
// ---- a path of one step is that step
spec fn rel_of(r: R) -> R { if r is Some && !((r->0).0 is Nil) && tr((r->0).0) is Nil { Some((tl((r->0).0), (r->0).1)) } else { r } }
/// the two nodes of "//": u, then l, over the step at y
proof fn chain_step2(c0: C, c1: C, c2: C, c3: C, p: int, q: int, ctx: T, v: T, lo: int, u: XNodePtr, ds: T, l: XNodePtr, y: XNodePtr, s: T)
    requires chain(c0, p, q, ctx, v, lo), ext(c0, c1), c0.len() <= id(u) < id(l) < c1.len(), rep(c1, id(u), nd(XNodeType::OperatorPath, ""@, ds, T::Nil), id(u), id(l)), !(ds is Nil),
        rep(c1, id(y), s, c0.len() as int, id(u)), !(s is Nil), c1[id(l)].n_type == XNodeType::OperatorPath, c1[id(l)].left == Some(y), c1[id(l)].right is None,
        put_right(c1, c2, id(u), l), put_right(c2, c3, q, u)
    ensures chain(c3, p, id(l), app(app(ctx, v), nd(XNodeType::OperatorPath, ""@, ds, T::Nil)), nd(XNodeType::OperatorPath, ""@, s, T::Nil), lo), lo <= q < c0.len()
{
    broadcast use heap_rules;
    let n = c0.len() as int; let m = id(l); let ud = nd(XNodeType::OperatorPath, ""@, ds, T::Nil); let w = nd(XNodeType::OperatorPath, ""@, s, T::Nil);
    seg_ext(c0, c1, p, q, ctx, lo, n); assert(rep(c1, q, v, lo, n));
    assert(ext(c0, c2)); seg_ext(c0, c2, p, q, ctx, lo, n); assert(rep(c2, q, v, lo, n));
    seg_round(c2, c3, p, q, ctx, lo, n, v, u);
    seg_wide(c3, p, id(u), app(ctx, v), lo, n, lo, m);
    let x = c1[id(u)].left->0;
    assert(rep(c1, id(x), ds, id(u), m) && c1[id(u)].left is Some) by { reveal(rep); }
    rep_small(c1, c2, id(u), ud, id(u), m, id(x), ds, id(u), m);
    assert(rep(c3, id(x), ds, id(u), m));
    assert(c3[id(u)] == c2[id(u)]); 
    assert(c2[id(u)].n_type == XNodeType::OperatorPath) by { reveal(rep); }
    seg_add(c3, p, id(u), app(ctx, v), lo, m, id(l), ud, id(u), m);
    seg_wide(c3, p, id(l), app(app(ctx, v), ud), lo, m, lo, c3.len() as int);
    assert(rep(c2, id(y), s, n, id(u))); assert(rep(c3, id(y), s, n, id(u)));
    mk(c3, id(l), w, lo, c3.len() as int, n, id(u), n, id(u));
}
proof fn rep_parts(c: C, p: int, t: T, lo: int, hi: int) requires rep(c, p, t, lo, hi), !(t is Nil)
    ensures match c[p].left { None => tl(t) is Nil, Some(x) => !(tl(t) is Nil) && rep(c, id(x), tl(t), lo, hi) }, match c[p].right { None => tr(t) is Nil, Some(x) => !(tr(t) is Nil) && rep(c, id(x), tr(t), lo, hi) }
{ reveal(rep); }
// ---- lists of arguments
proof fn spine_app(a: T, b: T) ensures spine_len(app(a, b)) == spine_len(a) + spine_len(b) decreases a { if let T::N { ty, nm, l, r } = a { spine_app(*r, b); } }
/// every argument takes a token
proof fn args_spine(ts: Seq<Tok>, j: int) ensures p_args_rest(ts, j) is Some && j <= (p_args_rest(ts, j)->0).1 ==> spine_len((p_args_rest(ts, j)->0).0) <= (p_args_rest(ts, j)->0).1 - j decreases ts.len() - j
{
    eq_args_rest(ts, j);
    if 0 <= j < ts.len() && tk(ts, j) == TType::Comma {
        let a = p_arg(ts, j + 1); eq_arg(ts, j + 1);
        if got(a, j + 1, ts.len()) { args_spine(ts, (a->0).1); spine_app((a->0).0, (p_args_rest(ts, (a->0).1)->0).0); reveal_with_fuel(spine_len, 2); } }
}
proof fn args_count(ts: Seq<Tok>, i: int) ensures p_args(ts, i) is Some && i <= (p_args(ts, i)->0).1 ==> spine_len((p_args(ts, i)->0).0) <= (p_args(ts, i)->0).1 - i
{
    eq_args(ts, i); eq_arglist(ts, i + 1); eq_arg(ts, i + 1); reveal_with_fuel(spine_len, 2);
    if 0 <= i < ts.len() && tk(ts, i) == TType::LeftParen { let a = p_arg(ts, i + 1);
        if got(a, i + 1, ts.len()) { args_spine(ts, (a->0).1); spine_app((a->0).0, (p_args_rest(ts, (a->0).1)->0).0); } }
}
proof fn spine_nat(t: T) ensures spine_len(t) >= 0 decreases t { if let T::N { ty, nm, l, r } = t { spine_nat(*r); } }

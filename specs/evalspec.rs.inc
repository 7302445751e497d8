// ---- expression trees: opaque handles with a type, a name and two children; the parser builds them, nothing changes them afterwards
uninterp spec fn xt(x: XNodePtr) -> XNodeType;
uninterp spec fn xn(x: XNodePtr) -> Seq<char>;
uninterp spec fn xl(x: XNodePtr) -> XNodePtr;
uninterp spec fn xr(x: XNodePtr) -> XNodePtr;
uninterp spec fn xsize(x: XNodePtr) -> nat;
spec fn nil(x: XNodePtr) -> bool { xt(x) is Nil }
impl Clone for XNodeType { #[verifier::external_body] fn clone(&self) -> (r: XNodeType) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for XNodeType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &XNodeType) -> bool { *self == *o } }
impl PartialEq for XNodeType { #[verifier::external_body] fn eq(&self, o: &XNodeType) -> (r: bool) { unimplemented!() } }
/// an expression tree is finite
#[verifier::external_body]
proof fn ax_xsize(x: XNodePtr) ensures !nil(x) ==> xsize(xl(x)) < xsize(x) && xsize(xr(x)) < xsize(x), nil(x) ==> xsize(x) == 0 && nil(xl(x)) && nil(xr(x)) && xsize(xl(x)) == 0 && xsize(xr(x)) == 0 { }

// ---- the axes (C18)
spec fn anc(n: NodePtr) -> Seq<NodePtr> decreases depth(n) via anc_dec { match par(n) { Some(p) => anc(p).push(p), None => Seq::empty() } }
#[via_fn] proof fn anc_dec(n: NodePtr) { ax_up(n); }
spec fn anc_self(n: NodePtr) -> Seq<NodePtr> { anc(n).push(n) }
/// the nodes below the first i children of n
spec fn desc_to(n: NodePtr, i: nat) -> Seq<NodePtr> decreases height(n), i via desc_dec
{ if i == 0 || i > kids(n).len() { Seq::empty() } else { desc_to(n, (i - 1) as nat).push(kids(n)[i - 1]) + desc_to(kids(n)[i - 1], kids(kids(n)[i - 1]).len()) } }
#[via_fn] proof fn desc_dec(n: NodePtr, i: nat) { ax_down(n, i - 1); }
spec fn desc(n: NodePtr) -> Seq<NodePtr> { desc_to(n, kids(n).len()) }
spec fn desc_self(n: NodePtr) -> Seq<NodePtr> { seq![n] + desc(n) }
/// the members of l after (before) the first n that are not in ex, among the first k
spec fn after(l: Seq<NodePtr>, n: NodePtr, ex: Seq<NodePtr>, k: nat) -> Seq<NodePtr> decreases k
{ if k == 0 || k > l.len() { Seq::empty() } else if l.subrange(0, k - 1).contains(n) && !ex.contains(l[k - 1]) { after(l, n, ex, (k - 1) as nat).push(l[k - 1]) } else { after(l, n, ex, (k - 1) as nat) } }
spec fn before(l: Seq<NodePtr>, n: NodePtr, ex: Seq<NodePtr>, k: nat) -> Seq<NodePtr> decreases k
{ if k == 0 || k > l.len() { Seq::empty() } else if !l.subrange(0, k as int).contains(n) && !ex.contains(l[k - 1]) { before(l, n, ex, (k - 1) as nat).push(l[k - 1]) } else { before(l, n, ex, (k - 1) as nat) } }
spec fn foll(n: NodePtr) -> Seq<NodePtr> { if ntype(n) is Attribute { Seq::empty() } else { let l = desc_self(rootn(n)); after(l, n, desc_self(n), l.len()) } }
spec fn prec(n: NodePtr) -> Seq<NodePtr> { if ntype(n) is Attribute { Seq::empty() } else { let l = desc_self(rootn(n)); before(l, n, anc(n), l.len()) } }
spec fn foll_sib(n: NodePtr) -> Seq<NodePtr> { if ntype(n) is Attribute { Seq::empty() } else { match par(n) { Some(p) => after(kids(p), n, Seq::empty(), kids(p).len()), None => Seq::empty() } } }
spec fn prec_sib(n: NodePtr) -> Seq<NodePtr> { if ntype(n) is Attribute { Seq::empty() } else { match par(n) { Some(p) => before(kids(p), n, Seq::empty(), kids(p).len()), None => Seq::empty() } } }
spec fn axis(t: XNodeType, n: NodePtr) -> Seq<NodePtr> { match t {
    XNodeType::AxisAncestor => anc(n), XNodeType::AxisAncestorOrSelf => anc_self(n), XNodeType::AxisAttribute => attrs(n), XNodeType::AxisChild => kids(n),
    XNodeType::AxisDescendant => desc(n), XNodeType::AxisDescendantOrSelf => desc_self(n), XNodeType::AxisFollowing => foll(n), XNodeType::AxisFollowingSibling => foll_sib(n),
    XNodeType::AxisParent => match par(n) { Some(p) => seq![p], None => Seq::empty() }, XNodeType::AxisPreceding => prec(n), XNodeType::AxisPrecedingSibling => prec_sib(n),
    XNodeType::AxisSelf => seq![n], _ => Seq::empty() } }
spec fn is_axis(t: XNodeType) -> bool { match t { XNodeType::AxisAncestor | XNodeType::AxisAncestorOrSelf | XNodeType::AxisAttribute | XNodeType::AxisChild | XNodeType::AxisDescendant | XNodeType::AxisDescendantOrSelf |
    XNodeType::AxisFollowing | XNodeType::AxisFollowingSibling | XNodeType::AxisParent | XNodeType::AxisPreceding | XNodeType::AxisPrecedingSibling | XNodeType::AxisRoot | XNodeType::AxisSelf => true, _ => false } }

// ---- node tests (C28)
spec fn colon_at(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i] == ':' && forall|j: int| 0 <= j < i ==> s[j] != ':' }
spec fn name_test(n: NodePtr, x: XNodePtr) -> bool {
    let p = xn(x);
    p == "node()"@ || (ntype(n) == (if xt(x) is AxisAttribute { NodeType::Attribute } else { NodeType::Element }) && (p == nname(n) || p == "*"@ || name_wild(n, p))) }
spec fn name_wild(n: NodePtr, p: Seq<char>) -> bool { 
    exists|i: int| #[trigger] colon_at(p, i) && ((p.subrange(i + 1, p.len() as int) == "*"@ && nspace(n) == p.subrange(0, i)) || (p.subrange(0, i) == "*"@ && nlocal(n) == p.subrange(i + 1, p.len() as int))) }
spec fn kind_test(n: NodePtr, x: XNodePtr) -> bool decreases xsize(x) via kind_dec {
    let t = xl(x);
    if nil(x) { false } else { match xt(t) {
        // document-node(E): the only element child is as E asks
        XNodeType::DocumentTest => ntype(n) is DocumentRoot && (nil(xl(t)) || ((exists|i: int| 0 <= i < kids(n).len() && ntype(#[trigger] kids(n)[i]) is Element) && one_element(kids(n))
            && forall|i: int| 0 <= i < kids(n).len() && ntype(#[trigger] kids(n)[i]) is Element ==> kind_test(kids(n)[i], t))),
        XNodeType::ElementTest => ntype(n) is Element && (xn(t) == "*"@ || xn(t) == nname(n)) && derives("xs:untyped"@, no_mark(xn(xl(t)))) && (opt_mark(xn(xl(t))) || nattr(n, "xsi:nil"@) != Some("true"@)),
        XNodeType::AttributeTest => ntype(n) is Attribute && (xn(t) == "*"@ || xn(t) == nname(n)) && derives("xs:untypedAtomic"@, xn(xl(t))),
        XNodeType::PITest => ntype(n) is Instruction && (xn(t) == ""@ || xn(t) == nname(n)),
        XNodeType::CommentTest => ntype(n) is Comment, XNodeType::TextTest => ntype(n) is Text, XNodeType::AnyKindTest => true, _ => false } } }
#[via_fn] proof fn kind_dec(n: NodePtr, x: XNodePtr) { ax_xsize(x); }
spec fn one_element(l: Seq<NodePtr>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() && ntype(#[trigger] l[i]) is Element ==> !(ntype(#[trigger] l[j]) is Element) }
spec fn node_test(n: NodePtr, x: XNodePtr) -> bool { if nil(xl(x)) { name_test(n, x) } else { kind_test(n, xl(x)) } }
spec fn tested(l: Seq<NodePtr>, x: XNodePtr) -> Seq<NodePtr> { l.filter(|m: NodePtr| node_test(m, x)) }

// ---- derivation between atomic types (C27)
/// the type a type is derived from
spec fn base_of(t: Seq<char>) -> Option<Seq<char>> {
    if t == "xs:integer"@ { Some("xs:decimal"@) } else if t == "xs:decimal"@ || t == "xs:double"@ { Some("xs:numeric"@) }
    else if t == "xs:numeric"@ || t == "xs:string"@ || t == "xs:boolean"@ || t == "xs:untypedAtomic"@ { Some("xs:anyAtomicType"@) }
    else if t == "xs:anyURI"@ { Some("xs:string"@) } else if t == "xs:anyAtomicType"@ { Some("xs:anySimpleType"@) }
    else if t == "xs:anySimpleType"@ || t == "xs:untyped"@ { Some("xs:anyType"@) } else { None } }
spec fn type_rank(t: Seq<char>) -> nat {
    if t == "xs:integer"@ { 5 } else if t == "xs:decimal"@ || t == "xs:double"@ { 4 }
    else if t == "xs:numeric"@ || t == "xs:string"@ || t == "xs:boolean"@ || t == "xs:untypedAtomic"@ { 3 }
    else if t == "xs:anyURI"@ { 4 } else if t == "xs:anyAtomicType"@ { 2 }
    else if t == "xs:anySimpleType"@ || t == "xs:untyped"@ { 1 } else { 0 } }
spec fn derives(a: Seq<char>, b: Seq<char>) -> bool decreases type_rank(a) via derives_dec
{ a == b || match base_of(a) { Some(c) => derives(c, b), None => false } }
#[via_fn] proof fn derives_dec(a: Seq<char>, b: Seq<char>) { lemma_types(); }

/// the names of the types are different
proof fn lemma_types() ensures "xs:integer"@ != "xs:decimal"@, "xs:integer"@ != "xs:double"@, "xs:integer"@ != "xs:numeric"@, "xs:integer"@ != "xs:string"@, "xs:integer"@ != "xs:anyURI"@, "xs:integer"@ != "xs:boolean"@, "xs:integer"@ != "xs:untypedAtomic"@, "xs:integer"@ != "xs:anyAtomicType"@, "xs:integer"@ != "xs:anySimpleType"@, "xs:integer"@ != "xs:untyped"@, "xs:integer"@ != "xs:anyType"@, "xs:decimal"@ != "xs:double"@, "xs:decimal"@ != "xs:numeric"@, "xs:decimal"@ != "xs:string"@, "xs:decimal"@ != "xs:anyURI"@, "xs:decimal"@ != "xs:boolean"@, "xs:decimal"@ != "xs:untypedAtomic"@, "xs:decimal"@ != "xs:anyAtomicType"@, "xs:decimal"@ != "xs:anySimpleType"@, "xs:decimal"@ != "xs:untyped"@, "xs:decimal"@ != "xs:anyType"@, "xs:double"@ != "xs:numeric"@, "xs:double"@ != "xs:string"@, "xs:double"@ != "xs:anyURI"@, "xs:double"@ != "xs:boolean"@, "xs:double"@ != "xs:untypedAtomic"@, "xs:double"@ != "xs:anyAtomicType"@, "xs:double"@ != "xs:anySimpleType"@, "xs:double"@ != "xs:untyped"@, "xs:double"@ != "xs:anyType"@, "xs:numeric"@ != "xs:string"@, "xs:numeric"@ != "xs:anyURI"@, "xs:numeric"@ != "xs:boolean"@, "xs:numeric"@ != "xs:untypedAtomic"@, "xs:numeric"@ != "xs:anyAtomicType"@, "xs:numeric"@ != "xs:anySimpleType"@, "xs:numeric"@ != "xs:untyped"@, "xs:numeric"@ != "xs:anyType"@, "xs:string"@ != "xs:anyURI"@, "xs:string"@ != "xs:boolean"@, "xs:string"@ != "xs:untypedAtomic"@, "xs:string"@ != "xs:anyAtomicType"@, "xs:string"@ != "xs:anySimpleType"@, "xs:string"@ != "xs:untyped"@, "xs:string"@ != "xs:anyType"@, "xs:anyURI"@ != "xs:boolean"@, "xs:anyURI"@ != "xs:untypedAtomic"@, "xs:anyURI"@ != "xs:anyAtomicType"@, "xs:anyURI"@ != "xs:anySimpleType"@, "xs:anyURI"@ != "xs:untyped"@, "xs:anyURI"@ != "xs:anyType"@, "xs:boolean"@ != "xs:untypedAtomic"@, "xs:boolean"@ != "xs:anyAtomicType"@, "xs:boolean"@ != "xs:anySimpleType"@, "xs:boolean"@ != "xs:untyped"@, "xs:boolean"@ != "xs:anyType"@, "xs:untypedAtomic"@ != "xs:anyAtomicType"@, "xs:untypedAtomic"@ != "xs:anySimpleType"@, "xs:untypedAtomic"@ != "xs:untyped"@, "xs:untypedAtomic"@ != "xs:anyType"@, "xs:anyAtomicType"@ != "xs:anySimpleType"@, "xs:anyAtomicType"@ != "xs:untyped"@, "xs:anyAtomicType"@ != "xs:anyType"@, "xs:anySimpleType"@ != "xs:untyped"@, "xs:anySimpleType"@ != "xs:anyType"@, "xs:untyped"@ != "xs:anyType"@
{
    reveal_strlit("xs:integer");
    reveal_strlit("xs:decimal");
    reveal_strlit("xs:double");
    reveal_strlit("xs:numeric");
    reveal_strlit("xs:string");
    reveal_strlit("xs:anyURI");
    reveal_strlit("xs:boolean");
    reveal_strlit("xs:untypedAtomic");
    reveal_strlit("xs:anyAtomicType");
    reveal_strlit("xs:anySimpleType");
    reveal_strlit("xs:untyped");
    reveal_strlit("xs:anyType");
    assert("xs:integer"@.len() != "xs:double"@.len());
    assert("xs:integer"@.len() != "xs:string"@.len());
    assert("xs:integer"@.len() != "xs:anyURI"@.len());
    assert("xs:integer"@.len() != "xs:untypedAtomic"@.len());
    assert("xs:integer"@.len() != "xs:anyAtomicType"@.len());
    assert("xs:integer"@.len() != "xs:anySimpleType"@.len());
    assert("xs:decimal"@.len() != "xs:double"@.len());
    assert("xs:decimal"@.len() != "xs:string"@.len());
    assert("xs:decimal"@.len() != "xs:anyURI"@.len());
    assert("xs:decimal"@.len() != "xs:untypedAtomic"@.len());
    assert("xs:decimal"@.len() != "xs:anyAtomicType"@.len());
    assert("xs:decimal"@.len() != "xs:anySimpleType"@.len());
    assert("xs:double"@.len() != "xs:numeric"@.len());
    assert("xs:double"@.len() != "xs:boolean"@.len());
    assert("xs:double"@.len() != "xs:untypedAtomic"@.len());
    assert("xs:double"@.len() != "xs:anyAtomicType"@.len());
    assert("xs:double"@.len() != "xs:anySimpleType"@.len());
    assert("xs:double"@.len() != "xs:untyped"@.len());
    assert("xs:double"@.len() != "xs:anyType"@.len());
    assert("xs:numeric"@.len() != "xs:string"@.len());
    assert("xs:numeric"@.len() != "xs:anyURI"@.len());
    assert("xs:numeric"@.len() != "xs:untypedAtomic"@.len());
    assert("xs:numeric"@.len() != "xs:anyAtomicType"@.len());
    assert("xs:numeric"@.len() != "xs:anySimpleType"@.len());
    assert("xs:string"@.len() != "xs:boolean"@.len());
    assert("xs:string"@.len() != "xs:untypedAtomic"@.len());
    assert("xs:string"@.len() != "xs:anyAtomicType"@.len());
    assert("xs:string"@.len() != "xs:anySimpleType"@.len());
    assert("xs:string"@.len() != "xs:untyped"@.len());
    assert("xs:string"@.len() != "xs:anyType"@.len());
    assert("xs:anyURI"@.len() != "xs:boolean"@.len());
    assert("xs:anyURI"@.len() != "xs:untypedAtomic"@.len());
    assert("xs:anyURI"@.len() != "xs:anyAtomicType"@.len());
    assert("xs:anyURI"@.len() != "xs:anySimpleType"@.len());
    assert("xs:anyURI"@.len() != "xs:untyped"@.len());
    assert("xs:anyURI"@.len() != "xs:anyType"@.len());
    assert("xs:boolean"@.len() != "xs:untypedAtomic"@.len());
    assert("xs:boolean"@.len() != "xs:anyAtomicType"@.len());
    assert("xs:boolean"@.len() != "xs:anySimpleType"@.len());
    assert("xs:untypedAtomic"@.len() != "xs:untyped"@.len());
    assert("xs:untypedAtomic"@.len() != "xs:anyType"@.len());
    assert("xs:anyAtomicType"@.len() != "xs:untyped"@.len());
    assert("xs:anyAtomicType"@.len() != "xs:anyType"@.len());
    assert("xs:anySimpleType"@.len() != "xs:untyped"@.len());
    assert("xs:anySimpleType"@.len() != "xs:anyType"@.len());
    assert("xs:integer"@[3] != "xs:decimal"@[3]);
    assert("xs:integer"@[3] != "xs:numeric"@[3]);
    assert("xs:integer"@[3] != "xs:boolean"@[3]);
    assert("xs:integer"@[3] != "xs:untyped"@[3]);
    assert("xs:integer"@[3] != "xs:anyType"@[3]);
    assert("xs:decimal"@[3] != "xs:numeric"@[3]);
    assert("xs:decimal"@[3] != "xs:boolean"@[3]);
    assert("xs:decimal"@[3] != "xs:untyped"@[3]);
    assert("xs:decimal"@[3] != "xs:anyType"@[3]);
    assert("xs:double"@[3] != "xs:string"@[3]);
    assert("xs:double"@[3] != "xs:anyURI"@[3]);
    assert("xs:numeric"@[3] != "xs:boolean"@[3]);
    assert("xs:numeric"@[3] != "xs:untyped"@[3]);
    assert("xs:numeric"@[3] != "xs:anyType"@[3]);
    assert("xs:string"@[3] != "xs:anyURI"@[3]);
    assert("xs:boolean"@[3] != "xs:untyped"@[3]);
    assert("xs:boolean"@[3] != "xs:anyType"@[3]);
    assert("xs:untypedAtomic"@[3] != "xs:anyAtomicType"@[3]);
    assert("xs:untypedAtomic"@[3] != "xs:anySimpleType"@[3]);
    assert("xs:anyAtomicType"@[6] != "xs:anySimpleType"@[6]);
    assert("xs:untyped"@[3] != "xs:anyType"@[3]);
}
/// a table of pairs of texts collected into a map (trusted: HashMap::get; the keys of a table are all different)
#[verifier::external_body]
fn vlookup<'a, 'b>(t: &'b [(&'a str, &'a str)], k: &str) -> (r: Option<&'b &'a str>)
    ensures match r { Some(v) => exists|i: int| 0 <= i < t@.len() && #[trigger] pair_at(t@, i, k@) && t@[i].1@ == v@, None => forall|i: int| 0 <= i < t@.len() ==> !#[trigger] pair_at(t@, i, k@) }
{ unimplemented!() }
/// the table lists, for every type that has one, the type it is derived from
spec fn table_ok(t: Seq<(&str, &str)>) -> bool {
    (forall|k: Seq<char>, i: int| 0 <= i < t.len() && #[trigger] pair_at(t, i, k) ==> base_of(k) == Some(t[i].1@)) && (forall|k: Seq<char>| (exists|i: int| 0 <= i < t.len() && #[trigger] pair_at(t, i, k)) == (#[trigger] base_of(k) is Some)) }
spec fn pair_at(t: Seq<(&str, &str)>, i: int, k: Seq<char>) -> bool { t[i].0@ == k }
// ---- the environment (C20, C26)
struct Env { pos: int, last: int, vars: Seq<(Seq<char>, Seq<XItem>)> }
spec fn env_of(e: EvalEnv) -> Env { Env { pos: e.position as int, last: e.last as int, vars: e.var_vec@.map_values(|v: VarNameValue| (v.name@, v.value.value@)) } }
spec fn bind(e: Env, n: Seq<char>, v: Seq<XItem>) -> Env { Env { vars: seq![(n, v)] + e.vars, ..e } }
spec fn at_pos(e: Env, pos: int, last: int) -> Env { Env { pos, last, ..e } }
spec fn first_var(vars: Seq<(Seq<char>, Seq<XItem>)>, n: Seq<char>, i: int) -> bool { 0 <= i < vars.len() && vars[i].0 == n && forall|j: int| 0 <= j < i ==> (#[trigger] vars[j]).0 != n }
/// without the innermost binding of n
spec fn unbind(vars: Seq<(Seq<char>, Seq<XItem>)>, n: Seq<char>) -> Seq<(Seq<char>, Seq<XItem>)> decreases vars.len()
{ if vars.len() == 0 { vars } else if vars[0].0 == n { vars.subrange(1, vars.len() as int) } else { seq![vars[0]] + unbind(vars.subrange(1, vars.len() as int), n) } }
proof fn lemma_unbind(vars: Seq<(Seq<char>, Seq<XItem>)>, n: Seq<char>)
    ensures forall|i: int| #[trigger] first_var(vars, n, i) ==> unbind(vars, n) == vars.remove(i), (forall|i: int| 0 <= i < vars.len() ==> (#[trigger] vars[i]).0 != n) ==> unbind(vars, n) == vars
    decreases vars.len()
{
    if vars.len() > 0 {
        let w = vars.subrange(1, vars.len() as int); 
        if vars[0].0 != n { lemma_unbind(w, n); }
        assert forall|i: int| #[trigger] first_var(vars, n, i) implies unbind(vars, n) == vars.remove(i) by {
            if i == 0 { assert(vars.remove(0) =~= w); } else {
            assert(w[i - 1] == vars[i]);
            assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] w[j]).0 != n by { assert(w[j] == vars[j + 1]); }
            assert(first_var(w, n, i - 1));
            assert(vars.remove(i) =~= seq![vars[0]] + w.remove(i - 1)); }
        }
        if forall|i: int| 0 <= i < vars.len() ==> (#[trigger] vars[i]).0 != n {
            assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).0 != n by { assert(w[i] == vars[i + 1]); }
            assert(vars =~= seq![vars[0]] + w);
        }
    }
}
proof fn lemma_bind_unbind(e: Env, n: Seq<char>, v: Seq<XItem>) ensures unbind(bind(e, n, v).vars, n) == e.vars
{ let b = bind(e, n, v).vars; assert(b.subrange(1, b.len() as int) =~= e.vars); assert(b[0].0 == n); }
/// the value of the innermost binding
spec fn var_val(vars: Seq<(Seq<char>, Seq<XItem>)>, n: Seq<char>) -> Option<Seq<XItem>> decreases vars.len()
{ if vars.len() == 0 { None } else if vars[0].0 == n { Some(vars[0].1) } else { var_val(vars.subrange(1, vars.len() as int), n) } }
proof fn lemma_var(vars: Seq<(Seq<char>, Seq<XItem>)>, n: Seq<char>)
    ensures forall|i: int| #[trigger] first_var(vars, n, i) ==> var_val(vars, n) == Some(vars[i].1), (forall|i: int| 0 <= i < vars.len() ==> (#[trigger] vars[i]).0 != n) ==> var_val(vars, n) is None
    decreases vars.len()
{
    if vars.len() > 0 && vars[0].0 != n {
        let w = vars.subrange(1, vars.len() as int); lemma_var(w, n);
        assert forall|i: int| #[trigger] first_var(vars, n, i) implies var_val(vars, n) == Some(vars[i].1) by {
            assert(w[i - 1] == vars[i]);
            assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] w[j]).0 != n by { assert(w[j] == vars[j + 1]); }
            assert(first_var(w, n, i - 1));
        }
        if forall|i: int| 0 <= i < vars.len() ==> (#[trigger] vars[i]).0 != n {
            assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).0 != n by { assert(w[i] == vars[i + 1]); }
        }
    }
}

// ---- evaluation: ev(x, c, e) names the result the evaluator returns for the expression x on the context items c in the environment e
uninterp spec fn ev(x: XNodePtr, c: Seq<XItem>, e: Env) -> Option<Seq<XItem>>;

// ---- predicates (C20)
spec fn keep_val(v: Seq<XItem>, pos: int) -> Option<bool> {
    if v.len() == 1 { match v[0] { XItem::XIInteger { value } => Some(value == pos), XItem::XIDecimal { value } => Some(f_eq(value, f_of_int(pos))), XItem::XIDouble { value } => Some(f_eq(value, f_of_int(pos))), _ => ebv(v) } } else { ebv(v) } }
spec fn keep(s: Seq<XItem>, x: XNodePtr, rev: bool, e: Env, i: int) -> Option<bool> {
    let pos = if rev { s.len() - i } else { i + 1 };
    match ev(x, seq![s[i]], at_pos(e, pos, s.len() as int)) { Some(v) => keep_val(v, pos), None => None } }
/// the items among the first n for which the predicate holds
spec fn filt(s: Seq<XItem>, x: XNodePtr, rev: bool, e: Env, n: nat) -> Option<Seq<XItem>> decreases n
{ if n == 0 { Some(Seq::<XItem>::empty()) } else { match (filt(s, x, rev, e, (n - 1) as nat), keep(s, x, rev, e, n - 1)) { (Some(a), Some(b)) => Some(if b { a.push(s[n - 1]) } else { a }), _ => None } } }
spec fn pred1(s: Seq<XItem>, x: XNodePtr, rev: bool, e: Env) -> Option<Seq<XItem>> { if nil(x) { None } else { filt(s, x, rev, e, s.len()) } }
/// a chain of predicates: each sees what the ones before left
spec fn preds(s: Option<Seq<XItem>>, y: XNodePtr, e: Env) -> Option<Seq<XItem>> decreases xsize(y) via preds_dec
{ match s { None => None, Some(s) => if nil(y) { Some(s) } else { match xt(y) { XNodeType::PredicateTop => preds(pred1(s, xl(y), false, e), xr(y), e), XNodeType::PredicateRevTop => preds(pred1(s, xl(y), true, e), xr(y), e), _ => None } } } }
#[via_fn] proof fn preds_dec(s: Option<Seq<XItem>>, y: XNodePtr, e: Env) { ax_xsize(y); }
proof fn lemma_filt_none(s: Seq<XItem>, x: XNodePtr, rev: bool, e: Env, a: nat, b: nat) requires a <= b, filt(s, x, rev, e, a) is None ensures filt(s, x, rev, e, b) is None decreases b
{ if a < b { lemma_filt_none(s, x, rev, e, a, (b - 1) as nat); } }

// ---- location steps (C18, C28)
spec fn step_nodes(n: NodePtr, x: XNodePtr) -> Seq<NodePtr> { if xt(x) is AxisRoot { seq![rootn(n)] } else { tested(axis(xt(x), n), x) } }
spec fn loc1(n: NodePtr, x: XNodePtr, e: Env) -> Option<Seq<XItem>> { if !is_axis(xt(x)) { None } else { preds(Some(node_items(step_nodes(n, x))), xr(x), e) } }
/// a location step on the first k of some nodes
spec fn locs(s: Seq<NodePtr>, x: XNodePtr, e: Env, k: nat) -> Option<Seq<NodePtr>> decreases k
{ if k == 0 { Some(Seq::<NodePtr>::empty()) } else { match (locs(s, x, e, (k - 1) as nat), loc1(s[k - 1], x, e)) { (Some(a), Some(b)) => Some(a + nodes_of(b)), _ => None } } }
proof fn lemma_locs_none(s: Seq<NodePtr>, x: XNodePtr, e: Env, a: nat, b: nat) requires a <= b, locs(s, x, e, a) is None ensures locs(s, x, e, b) is None decreases b
{ if a < b { lemma_locs_none(s, x, e, a, (b - 1) as nat); } }
spec fn loc_spec(c: Seq<XItem>, x: XNodePtr, e: Env) -> Option<Seq<XItem>> { match locs(nodes_of(c), x, e, nodes_of(c).len()) { Some(l) => Some(node_items(l)), None => None } }
spec fn axis_is<F: Fn(&NodePtr) -> Vec<NodePtr>>(f: F, a: spec_fn(NodePtr) -> Seq<NodePtr>) -> bool { forall|n: &NodePtr, o: Vec<NodePtr>| #[trigger] f.ensures((n,), o) ==> o@ == a(*n) }
spec fn axis_fn(t: XNodeType) -> spec_fn(NodePtr) -> Seq<NodePtr> { |n: NodePtr| axis(t, n) }

// ---- paths (C19)
/// the value of the step for item i of the left side
spec fn step_val(s: Seq<XItem>, x: XNodePtr, e: Env, i: int) -> Option<Seq<XItem>> { ev(x, seq![s[i]], at_pos(e, i + 1, s.len() as int)) }
spec fn step_cat(s: Seq<XItem>, x: XNodePtr, e: Env, k: nat) -> Option<Seq<XItem>> decreases k
{ if k == 0 { Some(Seq::<XItem>::empty()) } else { match (step_cat(s, x, e, (k - 1) as nat), step_val(s, x, e, k - 1)) { (Some(a), Some(b)) => Some(a + b), _ => None } } }
proof fn lemma_stepcat_none(s: Seq<XItem>, x: XNodePtr, e: Env, a: nat, b: nat) requires a <= b, step_cat(s, x, e, a) is None ensures step_cat(s, x, e, b) is None decreases b
{ if a < b { lemma_stepcat_none(s, x, e, a, (b - 1) as nat); } }
spec fn some_node(v: Seq<XItem>) -> bool { nodes_of(v).len() > 0 }
proof fn lemma_some_node(v: Seq<XItem>) ensures some_node(v) == (exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is XINode) decreases v.len()
{ if v.len() > 0 { lemma_some_node(v.drop_last()); assert forall|i: int| 0 <= i < v.len() - 1 implies v.drop_last()[i] == v[i] by {} 
    if v.last() is XINode { assert(v[v.len() - 1] is XINode); } 
    if some_node(v.drop_last()) { let i = choose|i: int| 0 <= i < v.drop_last().len() && #[trigger] v.drop_last()[i] is XINode; assert(v[i] is XINode); }
    if exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is XINode { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] is XINode; if i < v.len() - 1 { assert(v.drop_last()[i] is XINode); } }
} }
/// one step of a path: the values for all items, in order; if there are nodes there must be nothing else, and each comes once, in document order
spec fn path_rel(s: Seq<XItem>, x: XNodePtr, e: Env, out: Option<Seq<XItem>>) -> bool {
    if !all_nodes(s) { out is None } else { match step_cat(s, x, e, s.len()) { None => out is None, 
        Some(all) => if some_node(all) && !all_nodes(all) { out is None } 
            else if some_node(all) { match out { Some(o) => all_nodes(o) && doc_set(nodes_of(o), nodes_of(all)), None => false } } else { out == Some(all) } } } }
proof fn lemma_next(l: Seq<NodePtr>, n: NodePtr, i: int) 
    ensures 0 <= i < l.len() ==> l.subrange(0, i + 1).contains(n) == (l.subrange(0, i).contains(n) || l[i] == n), !Seq::<NodePtr>::empty().contains(n), forall|m: NodePtr| !#[trigger] Seq::<NodePtr>::empty().contains(m)
{ if 0 <= i < l.len() { assert(l.subrange(0, i + 1) =~= l.subrange(0, i) + seq![l[i]]); lemma_concat_contains(l.subrange(0, i), seq![l[i]]); assert(seq![l[i]].contains(n) == (n == l[i])) by { assert(seq![l[i]][0] == l[i]); } } }
/// a text cut at its first colon (trusted: str::splitn(2, ":"))
#[verifier::external_body]
fn vcut_colon<'a>(s: &'a str) -> (r: Vec<&'a str>)
    ensures r@.len() == 1 || r@.len() == 2, r@.len() == 1 ==> r@[0]@ == s@ && forall|i: int| !#[trigger] colon_at(s@, i), 
        r@.len() == 2 ==> colon_at(s@, r@[0]@.len() as int) && r@[0]@ == s@.subrange(0, r@[0]@.len() as int) && r@[1]@ == s@.subrange((r@[0]@.len() + 1) as int, s@.len() as int) && forall|i: int| #[trigger] colon_at(s@, i) ==> i == r@[0]@.len()
{ unimplemented!() }

spec fn path_chain(s: Seq<XItem>, y: XNodePtr, e: Env, out: Option<Seq<XItem>>) -> bool decreases xsize(y) via chain_dec
{ if xt(y) is OperatorPath { exists|m: Option<Seq<XItem>>| #[trigger] path_rel(s, xl(y), e, m) && match m { None => out is None, Some(t) => path_chain(t, xr(y), e, out) } }
  else if nil(y) { out == Some(s) } else { path_rel(s, y, e, out) } }
#[via_fn] proof fn chain_dec(s: Seq<XItem>, y: XNodePtr, e: Env, out: Option<Seq<XItem>>) { ax_xsize(y); }

// ---- calls (C25, C26): fnv names the result of a function of the library
uninterp spec fn fnv(n: Seq<char>, args: Seq<Seq<XItem>>, c: Seq<XItem>, e: Env) -> Option<Seq<XItem>>;
spec fn vals(a: Seq<XSequence>) -> Seq<Seq<XItem>> { a.map_values(|s: XSequence| s.value@) }
spec fn add_arg(a: Option<Seq<Seq<XItem>>>, v: Option<Seq<XItem>>) -> Option<Seq<Seq<XItem>>> { match (a, v) { (Some(a), Some(v)) => Some(a.push(v)), _ => None } }
/// the values of a list of arguments
spec fn fargs(a: Option<Seq<Seq<XItem>>>, y: XNodePtr, c: Seq<XItem>, e: Env) -> Option<Seq<Seq<XItem>>> decreases xsize(y) via fargs_dec
{ if nil(y) || a is None { a } else if xt(y) is ArgumentTop { fargs(add_arg(a, ev(xl(y), c, e)), xr(y), c, e) } else { None } }
#[via_fn] proof fn fargs_dec(a: Option<Seq<Seq<XItem>>>, y: XNodePtr, c: Seq<XItem>, e: Env) { ax_xsize(y); }

// ---- binders (C26)
spec fn for_cat(s: Seq<XItem>, x: XNodePtr, c: Seq<XItem>, e: Env, k: nat) -> Option<Seq<XItem>> decreases k
{ if k == 0 { Some(Seq::<XItem>::empty()) } else { match (for_cat(s, x, c, e, (k - 1) as nat), ev(xr(x), c, bind(e, xn(x), seq![s[k - 1]]))) { (Some(a), Some(b)) => Some(a + b), _ => None } } }
proof fn lemma_for_none(s: Seq<XItem>, x: XNodePtr, c: Seq<XItem>, e: Env, a: nat, b: nat) requires a <= b, for_cat(s, x, c, e, a) is None ensures for_cat(s, x, c, e, b) is None decreases b
{ if a < b { lemma_for_none(s, x, c, e, a, (b - 1) as nat); } }
/// the first item from i on for which the body is (some: true, every: false) decides
spec fn quant(some: bool, s: Seq<XItem>, x: XNodePtr, c: Seq<XItem>, e: Env, i: int) -> Option<bool> decreases s.len() - i
{ if i < 0 || i >= s.len() { Some(!some) } else { match ev(xr(x), c, bind(e, xn(x), seq![s[i]])) { None => None, Some(v) => match ebv(v) { None => None, Some(b) => if b == some { Some(some) } else { quant(some, s, x, c, e, i + 1) } } } } }

// ---- maps and arrays (C25)
spec fn map_val(m: Seq<(XItem, XSequence)>, k: XItem) -> Option<Seq<XItem>> decreases m.len()
{ if m.len() == 0 { None } else if same_key(m[0].0, k) { Some(m[0].1.value@) } else { map_val(m.subrange(1, m.len() as int), k) } }
spec fn first_key(m: Seq<(XItem, XSequence)>, k: XItem, i: int) -> bool { 0 <= i < m.len() && same_key(m[i].0, k) && forall|j: int| 0 <= j < i ==> !same_key((#[trigger] m[j]).0, k) }
proof fn lemma_map_val(m: Seq<(XItem, XSequence)>, k: XItem)
    ensures forall|i: int| #[trigger] first_key(m, k, i) ==> map_val(m, k) == Some(m[i].1.value@), (forall|i: int| 0 <= i < m.len() ==> !same_key((#[trigger] m[i]).0, k)) ==> map_val(m, k) is None
    decreases m.len()
{
    if m.len() > 0 && !same_key(m[0].0, k) {
        let w = m.subrange(1, m.len() as int); lemma_map_val(w, k);
        assert forall|i: int| #[trigger] first_key(m, k, i) implies map_val(m, k) == Some(m[i].1.value@) by {
            assert(w[i - 1] == m[i]);
            assert forall|j: int| 0 <= j < i - 1 implies !same_key((#[trigger] w[j]).0, k) by { assert(w[j] == m[j + 1]); }
            assert(first_key(w, k, i - 1));
        }
        if forall|i: int| 0 <= i < m.len() ==> !same_key((#[trigger] m[i]).0, k) {
            assert forall|i: int| 0 <= i < w.len() implies !same_key((#[trigger] w[i]).0, k) by { assert(w[i] == m[i + 1]); }
        }
    }
}
spec fn arr_val(a: Seq<XSequence>, k: XItem) -> Option<Seq<XItem>> { match raw_int(k) { Some(n) => if 1 <= n <= a.len() { Some(a[n - 1].value@) } else { None }, None => None } }
/// the entry for a key of a single map or array; None: neither
spec fn entry_val(s: Seq<XItem>, k: XItem) -> Option<Option<Seq<XItem>>> { match one_map(s) { Some(m) => Some(map_val(m.v@, k)), None => match one_array(s) { Some(a) => Some(arr_val(a.v@, k)), None => None } } }
spec fn is_fn(s: Seq<XItem>) -> bool { one_map(s) is Some || one_array(s) is Some }
spec fn or_empty(v: Option<Seq<XItem>>) -> Seq<XItem> { match v { Some(v) => v, None => Seq::empty() } }
/// look-up of the first n of some keys: what is absent contributes nothing
spec fn look(s: Seq<XItem>, keys: Seq<XItem>, n: nat) -> Seq<XItem> decreases n
{ if n == 0 { Seq::empty() } else { look(s, keys, (n - 1) as nat) + match entry_val(s, keys[n - 1]) { Some(v) => or_empty(v), None => Seq::empty() } } }
spec fn all_keys(s: Seq<XItem>) -> Seq<XItem> { match one_map(s) { Some(m) => keys_of(m), None => match one_array(s) { Some(a) => Seq::new(a.v@.len(), |i: int| int_item(i + 1)), None => Seq::empty() } } }
/// a map constructor: the entries in order, no two with the same key
spec fn entries(a: Option<Seq<(XItem, Seq<XItem>)>>, y: XNodePtr, c: Seq<XItem>, e: Env) -> Option<Seq<(XItem, Seq<XItem>)>> decreases xsize(y) via entries_dec
{ if nil(y) || a is None { a } else if xt(y) is MapConstruct && xt(xl(y)) is MapEntry { entries(add_entry(a->0, ev(xl(xl(y)), c, e), ev(xr(xl(y)), c, e)), xr(y), c, e) } else { None } }
#[via_fn] proof fn entries_dec(a: Option<Seq<(XItem, Seq<XItem>)>>, y: XNodePtr, c: Seq<XItem>, e: Env) { ax_xsize(y); }
/// an item that can be the key of a map
spec fn atomic(x: XItem) -> bool { !(x is XItemXNodePtr || x is XIMap || x is XIArray) }
spec fn in_keys(a: Seq<(XItem, Seq<XItem>)>, k: XItem) -> bool { exists|i: int| 0 <= i < a.len() && same_key((#[trigger] a[i]).0, k) }
spec fn add_entry(a: Seq<(XItem, Seq<XItem>)>, k: Option<Seq<XItem>>, v: Option<Seq<XItem>>) -> Option<Seq<(XItem, Seq<XItem>)>> {
    match (k, v) { (Some(k), Some(v)) => if k.len() == 1 && atomic(k[0]) && !in_keys(a, k[0]) { Some(a.push((k[0], v))) } else { None }, _ => None } }
spec fn entry_vals(a: Seq<(XItem, XSequence)>) -> Seq<(XItem, Seq<XItem>)> { a.map_values(|p: (XItem, XSequence)| (p.0, p.1.value@)) }
spec fn members(a: Option<Seq<Seq<XItem>>>, y: XNodePtr, c: Seq<XItem>, e: Env) -> Option<Seq<Seq<XItem>>> decreases xsize(y) via members_dec
{ if nil(y) || a is None { a } else if xt(y) is ArrayEntry { members(add_arg(a, ev(xl(y), c, e)), xr(y), c, e) } else { None } }
#[via_fn] proof fn members_dec(a: Option<Seq<Seq<XItem>>>, y: XNodePtr, c: Seq<XItem>, e: Env) { ax_xsize(y); }
spec fn is_map(x: XItem, m: Seq<(XItem, Seq<XItem>)>) -> bool { match x { XItem::XIMap { value } => entry_vals(value.v@) == m, _ => false } }
spec fn is_array(x: XItem, a: Seq<Seq<XItem>>) -> bool { match x { XItem::XIArray { value } => vals(value.v@) == a, _ => false } }
spec fn made(x: XNodePtr, c: Seq<XItem>, e: Env, out: Option<XItem>) -> bool {
    match xt(x) {
        XNodeType::Map => match entries(Some(Seq::empty()), xl(x), c, e) { None => out is None, Some(m) => out is Some && is_map(out->0, m) },
        XNodeType::SquareArray => match members(Some(Seq::empty()), xl(x), c, e) { None => out is None, Some(m) => out is Some && is_array(out->0, m) },
        XNodeType::CurlyArray => if nil(xl(x)) { out is Some && is_array(out->0, Seq::empty()) } else { match ev(xl(x), c, e) { None => out is None, Some(v) => out is Some && is_array(out->0, Seq::new(v.len(), |i: int| seq![v[i]])) } },
        _ => out is None } }
proof fn lemma_mix(a: Seq<XItem>, b: Seq<XItem>) ensures some_node(a + b) == (some_node(a) || some_node(b)), all_nodes(a + b) == (all_nodes(a) && all_nodes(b)), some_node(b) == (nodes_of(b).len() > 0), all_nodes(b) && b.len() > 0 ==> some_node(b)
{ lemma_some_node(a); lemma_some_node(b); lemma_some_node(a + b); let c = a + b;
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == c[i] by {} assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == c[a.len() + i] by {} 
    if some_node(c) { let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i] is XINode; if i < a.len() { assert(a[i] is XINode); } else { assert(b[i - a.len()] is XINode); } }
    if some_node(a) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] is XINode; assert(c[i] is XINode); }
    if some_node(b) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] is XINode; assert(c[a.len() + i] is XINode); }
    if all_nodes(a) && all_nodes(b) { assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] is XINode by { if i < a.len() { assert(a[i] is XINode); } else { assert(b[i - a.len()] is XINode); } } }
    if all_nodes(c) { assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] is XINode by { assert(c[i] is XINode); } assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] is XINode by { assert(c[a.len() + i] is XINode); } }
    if all_nodes(b) && b.len() > 0 { assert(b[0] is XINode); }
}
/// a mixture stays one
proof fn lemma_stepcat_mix(s: Seq<XItem>, x: XNodePtr, e: Env, a: nat, b: nat) requires a <= b 
    ensures match (step_cat(s, x, e, a), step_cat(s, x, e, b)) { (Some(u), Some(v)) => (some_node(u) ==> some_node(v)) && (!all_nodes(u) ==> !all_nodes(v)), _ => true } decreases b
{ if a < b { lemma_stepcat_mix(s, x, e, a, (b - 1) as nat); match (step_cat(s, x, e, (b - 1) as nat), step_val(s, x, e, b - 1)) { (Some(u), Some(v)) => lemma_mix(u, v), _ => {} } } }
/// Iterator::any (trusted)
#[verifier::external_body]
fn vany<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall|x: &T| #[trigger] f.requires((x,))
    ensures r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&(#[trigger] v@[i]),), true), !r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&(#[trigger] v@[i]),), false)
{ v.iter().any(f) }

// ---- calls of functions as values (C25, C26)
/// whether a value matches a sequence type: see the contracts of match_sequence_type
uninterp spec fn mst(v: Seq<XItem>, t: XNodePtr) -> Option<bool>;
spec fn lmt(r: Result<bool, VErr>) -> Option<bool> { match r { Ok(b) => Some(b), Err(_) => None } }
/// the nodes of a list that goes to the right
spec fn chain(y: XNodePtr) -> Seq<XNodePtr> decreases xsize(y) via chain2_dec { if nil(y) { Seq::empty() } else { seq![y] + chain(xr(y)) } }
#[via_fn] proof fn chain2_dec(y: XNodePtr) { ax_xsize(y); }
/// the values of a list of arguments of a call
spec fn aargs(a: Option<Seq<Seq<XItem>>>, y: XNodePtr, c: Seq<XItem>, e: Env) -> Option<Seq<Seq<XItem>>> decreases xsize(y) via aargs_dec
{ if nil(y) || a is None { a } else { aargs(add_arg(a, ev(xl(y), c, e)), xr(y), c, e) } }
#[via_fn] proof fn aargs_dec(a: Option<Seq<Seq<XItem>>>, y: XNodePtr, c: Seq<XItem>, e: Env) { ax_xsize(y); }
/// the first n parameters bound to their arguments, each of the type asked for
spec fn bound(e: Env, ps: Seq<XNodePtr>, a: Seq<Seq<XItem>>, n: nat) -> Option<Env> decreases n
{ if n == 0 { Some(e) } else { match bound(e, ps, a, (n - 1) as nat) { None => None, Some(d) => if mst(a[n - 1], xl(ps[n - 1])) == Some(true) { Some(bind(d, xn(ps[n - 1]), a[n - 1])) } else { None } } } }
proof fn lemma_bound_none(e: Env, ps: Seq<XNodePtr>, a: Seq<Seq<XItem>>, n: nat, m: nat) requires n <= m, bound(e, ps, a, n) is None ensures bound(e, ps, a, m) is None decreases m
{ if n < m { lemma_bound_none(e, ps, a, n, (m - 1) as nat); } }
/// a call of an inline function: its body where the parameters are the arguments
spec fn inline(f: XNodePtr, a: Seq<Seq<XItem>>, c: Seq<XItem>, e: Env) -> Option<Seq<XItem>> {
    let ps = chain(xr(xr(f))); if ps.len() != a.len() { None } else { match bound(e, ps, a, a.len()) { None => None, Some(d) => ev(xl(f), c, d) } } }
/// the arguments of a partial application, its place-holders filled in from the i-th on
spec fn pargs(g: Option<Seq<Seq<XItem>>>, y: XNodePtr, a: Seq<Seq<XItem>>, i: int, c: Seq<XItem>, e: Env) -> Option<Seq<Seq<XItem>>> decreases xsize(y) via pargs_dec
{ if nil(y) || g is None { g } else { match xt(y) { XNodeType::ArgumentTop => pargs(add_arg(g, ev(xl(y), c, e)), xr(y), a, i, c, e),
    XNodeType::ArgumentPlaceholder => if 0 <= i < a.len() { pargs(Some(g->0.push(a[i])), xr(y), a, i + 1, c, e) } else { None }, _ => None } } }
#[via_fn] proof fn pargs_dec(g: Option<Seq<Seq<XItem>>>, y: XNodePtr, a: Seq<Seq<XItem>>, i: int, c: Seq<XItem>, e: Env) { ax_xsize(y); }
spec fn hash_at(n: Seq<char>, i: int) -> bool { 0 <= i < n.len() && n[i] == '#' }
spec fn has_hash(n: Seq<char>) -> bool { exists|i: int| #[trigger] hash_at(n, i) }
/// name#arity (a name with one '#')
spec fn named(n: Seq<char>, a: Seq<Seq<XItem>>, c: Seq<XItem>, e: Env, out: Option<Seq<XItem>>) -> bool {
    forall|i: int| #[trigger] hash_at(n, i) && (forall|j: int| #[trigger] hash_at(n, j) ==> j == i) ==> 
        out == if atoi_of(n.subrange(i + 1, n.len() as int)) as usize == a.len() { fnv(n.subrange(0, i), a, c, e) } else { None } }
/// a call of a function item
spec fn called(f: XNodePtr, a: Seq<Seq<XItem>>, c: Seq<XItem>, e: Env, out: Option<Seq<XItem>>) -> bool {
    match xt(f) { XNodeType::InlineFunction => out == inline(f, a, c, e), XNodeType::NamedFunctionRef => named(xn(f), a, c, e, out),
        XNodeType::PartialFunctionCall => out == match pargs(Some(Seq::empty()), xr(f), a, 0, c, e) { None => None, Some(g) => fnv(xn(f), g, c, e) }, _ => out is None } }
spec fn one_fn(s: Seq<XItem>) -> Option<XNodePtr> { if s.len() == 1 { match s[0] { XItem::XItemXNodePtr { value } => Some(value), _ => None } } else { None } }
/// a call E(args) of a value: an inline function, a map or an array
spec fn applied(f: Seq<XItem>, a: Option<Seq<Seq<XItem>>>, c: Seq<XItem>, e: Env) -> Option<Seq<XItem>> {
    match a { None => None, Some(a) => match one_fn(f) { Some(x) => if xt(x) is InlineFunction { inline(x, a, c, e) } else { None },
        None => if a.len() == 1 && a[0].len() == 1 { match entry_val(f, a[0][0]) { Some(Some(v)) => Some(v), _ => None } } else { None } } } }
proof fn lemma_map_get(m: Seq<(XItem, XSequence)>, k: XItem)
    ensures forall|i: int| 0 <= i < m.len() && same_key((#[trigger] m[i]).0, k) && (forall|j: int| 0 <= j < i ==> !same_key((#[trigger] m[j]).0, k)) ==> map_val(m, k) == Some(m[i].1.value@), (forall|i: int| 0 <= i < m.len() ==> !same_key((#[trigger] m[i]).0, k)) ==> map_val(m, k) is None
{ lemma_map_val(m, k); assert forall|i: int| 0 <= i < m.len() && same_key((#[trigger] m[i]).0, k) && (forall|j: int| 0 <= j < i ==> !same_key((#[trigger] m[j]).0, k)) implies map_val(m, k) == Some(m[i].1.value@) by { assert(first_key(m, k, i)); } }

// ---- one step of evaluation: what the value of an expression is in terms of the values of its parts
spec fn atomic_keys(s: Seq<XItem>) -> bool { forall|m: XSeqMap, i: int| #![trigger m.v@[i]] one_map(s) == Some(m) && 0 <= i < m.v@.len() ==> atomic(m.v@[i].0) }
spec fn both(a: Option<Seq<XItem>>, b: Option<Seq<XItem>>, f: spec_fn(Seq<XItem>, Seq<XItem>) -> Option<Seq<XItem>>) -> Option<Seq<XItem>> { match (a, b) { (Some(a), Some(b)) => f(a, b), _ => None } }
/// the value of an operator for two operands (the ones whose value is a function of those of the operands)
spec fn op2(t: XNodeType, a: Seq<XItem>, b: Seq<XItem>) -> Option<Seq<XItem>> {
    match t {
        XNodeType::OperatorConcatenate => Some(a + b),
        XNodeType::OperatorGeneralEQ => Some(seq![bool_item(gcomp(Rel::Eq, a, b))]), XNodeType::OperatorGeneralNE => Some(seq![bool_item(gcomp(Rel::Ne, a, b))]),
        XNodeType::OperatorGeneralLT => Some(seq![bool_item(gcomp(Rel::Lt, a, b))]), XNodeType::OperatorGeneralLE => Some(seq![bool_item(gcomp(Rel::Le, a, b))]),
        XNodeType::OperatorGeneralGT => Some(seq![bool_item(gcomp(Rel::Gt, a, b))]), XNodeType::OperatorGeneralGE => Some(seq![bool_item(gcomp(Rel::Ge, a, b))]),
        XNodeType::OperatorValueEQ => vcomp(Rel::Eq, a, b), XNodeType::OperatorValueNE => vcomp(Rel::Ne, a, b), XNodeType::OperatorValueLT => vcomp(Rel::Lt, a, b),
        XNodeType::OperatorValueLE => vcomp(Rel::Le, a, b), XNodeType::OperatorValueGT => vcomp(Rel::Gt, a, b), XNodeType::OperatorValueGE => vcomp(Rel::Ge, a, b),
        XNodeType::OperatorAdd => arith2(Op::Add, a, b), XNodeType::OperatorSubtract => arith2(Op::Sub, a, b), XNodeType::OperatorMultiply => arith2(Op::Mul, a, b),
        XNodeType::OperatorDiv => arith2(Op::Div, a, b), XNodeType::OperatorIDiv => arith2(Op::Idiv, a, b), XNodeType::OperatorMod => arith2(Op::Mod, a, b),
        XNodeType::OperatorTo => to_spec(a, b),
        XNodeType::OperatorIsSameNode => node_cmp(Ordering::Equal, a, b), XNodeType::OperatorNodeBefore => node_cmp(Ordering::Less, a, b), XNodeType::OperatorNodeAfter => node_cmp(Ordering::Greater, a, b),
        _ => None } }
spec fn is_op2(t: XNodeType) -> bool { t is OperatorConcatenate || t is OperatorGeneralEQ || t is OperatorGeneralNE || t is OperatorGeneralLT || t is OperatorGeneralLE || t is OperatorGeneralGT || t is OperatorGeneralGE
    || t is OperatorValueEQ || t is OperatorValueNE || t is OperatorValueLT || t is OperatorValueLE || t is OperatorValueGT || t is OperatorValueGE
    || t is OperatorAdd || t is OperatorSubtract || t is OperatorMultiply || t is OperatorDiv || t is OperatorIDiv || t is OperatorMod || t is OperatorTo || t is OperatorIsSameNode || t is OperatorNodeBefore || t is OperatorNodeAfter }
/// union, intersect, except: which nodes are in the result, and that they come in document order
spec fn set_op(t: XNodeType, a: Seq<XItem>, b: Seq<XItem>, out: Option<Seq<XItem>>) -> bool {
    match out { None => false, Some(s) => all_nodes(s) && match t {
        XNodeType::OperatorUnion => (forall|x: NodePtr| #[trigger] nodes_of(s).contains(x) == (nodes_of(a).contains(x) || nodes_of(b).contains(x))) && (inj(nodes_of(a) + nodes_of(b)) ==> ascending(nodes_of(s))),
        XNodeType::OperatorIntersect => (forall|x: NodePtr| #[trigger] nodes_of(s).contains(x) == (nodes_of(a).contains(x) && nodes_of(b).contains(x))) && (inj(nodes_of(a)) ==> ascending(nodes_of(s))),
        _ => (forall|x: NodePtr| #[trigger] nodes_of(s).contains(x) == (nodes_of(a).contains(x) && !nodes_of(b).contains(x))) && (inj(nodes_of(a)) ==> ascending(nodes_of(s))) } } }
spec fn truth_of(v: Option<Seq<XItem>>) -> Option<bool> { match v { Some(v) => ebv(v), None => None } }
spec fn cast_step(v: Seq<XItem>, t: Seq<char>, out: Option<Seq<XItem>>) -> bool {
    if v.len() == 0 { out == (if opt_mark(t) { Some(Seq::<XItem>::empty()) } else { None }) } else if v.len() > 1 { out is None }
    else { match out { None => cast_ok(at(v[0]), ty_of(no_mark(t)), None), Some(s) => s.len() == 1 && cast_ok(at(v[0]), ty_of(no_mark(t)), Some(s[0])) } } }
spec fn castable_step(v: Seq<XItem>, t: Seq<char>) -> bool { if v.len() == 0 { opt_mark(t) } else { v.len() == 1 && castable(v[0], ty_of(no_mark(t))) } }
spec fn text_out(out: Option<Seq<XItem>>, t: Option<Seq<char>>) -> bool { match (out, t) { (Some(s), Some(t)) => is_str(s, t), (None, None) => true, _ => false } }
spec fn lit(x: Option<XItem>) -> Option<Seq<XItem>> { lift(x) }
spec fn or_nil(x: XNodePtr, c: Seq<XItem>, e: Env) -> Option<Seq<XItem>> { if nil(x) { Some(Seq::empty()) } else { ev(x, c, e) } }
/// paths (C19), the simple map operator, steps, predicates (C18, C20)
spec fn step_path(x: XNodePtr, c: Seq<XItem>, e: Env, out: Option<Seq<XItem>>) -> bool {
    match xt(x) {
        XNodeType::OperatorPath => match or_nil(xl(x), c, e) { None => out is None, Some(s) => if nil(xr(x)) { out == Some(s) } else { path_chain(s, xr(x), e, out) } },
        XNodeType::OperatorMap => match or_nil(xl(x), c, e) { None => out is None, Some(s) => if nil(xr(x)) { out == Some(s) } else { out == step_cat(s, xr(x), e, s.len()) } },
        XNodeType::ApplyPredicate => match ev(xl(x), c, e) { None => out is None, Some(s) => out == pred1(s, xl(xr(x)), false, e) },
        XNodeType::ContextItem => out == Some(c),
        XNodeType::ParenthesizedExpr => out == or_nil(xl(x), c, e),
        _ => out == loc_spec(c, x, e) } }
spec fn is_path(t: XNodeType) -> bool { is_axis(t) || t is OperatorPath || t is OperatorMap || t is ApplyPredicate || t is ContextItem || t is ParenthesizedExpr }
/// truth values (C16)
spec fn step_logic(x: XNodePtr, c: Seq<XItem>, e: Env) -> Option<Seq<XItem>> {
    match xt(x) {
        XNodeType::OperatorOr => match truth_of(ev(xl(x), c, e)) { None => None, Some(true) => Some(seq![bool_item(true)]), Some(false) => liftb(truth_of(ev(xr(x), c, e))) },
        XNodeType::OperatorAnd => match truth_of(ev(xl(x), c, e)) { None => None, Some(false) => Some(seq![bool_item(false)]), Some(true) => liftb(truth_of(ev(xr(x), c, e))) },
        _ => if !(xt(xr(x)) is IfThenElse) { None } else { match truth_of(ev(xl(x), c, e)) { None => None, Some(true) => ev(xl(xr(x)), c, e), Some(false) => ev(xr(xr(x)), c, e) } } } }
/// for, let, some, every, variables, calls (C26)
spec fn step_bind(x: XNodePtr, c: Seq<XItem>, e: Env) -> Option<Seq<XItem>> {
    match xt(x) {
        XNodeType::ForVarBind => match ev(xl(x), c, e) { None => None, Some(s) => for_cat(s, x, c, e, s.len()) },
        XNodeType::LetVarBind => match ev(xl(x), c, e) { None => None, Some(s) => ev(xr(x), c, bind(e, xn(x), s)) },
        XNodeType::SomeVarBind => match ev(xl(x), c, e) { None => None, Some(s) => liftb(quant(true, s, x, c, e, 0)) },
        XNodeType::EveryVarBind => match ev(xl(x), c, e) { None => None, Some(s) => liftb(quant(false, s, x, c, e, 0)) },
        XNodeType::VarRef => Some(or_empty(var_val(e.vars, xn(x)))),
        XNodeType::FunctionCall => match fargs(Some(Seq::empty()), xr(x), c, e) { None => None, Some(a) => fnv(xn(x), a, c, e) },
        XNodeType::ApplyArgument => match ev(xl(x), c, e) { None => None, Some(s) => applied(s, aargs(Some(Seq::empty()), xl(xr(x)), c, e), c, e) },
        XNodeType::InlineFunction => Some(seq![XItem::XItemXNodePtr { value: x }]), XNodeType::NamedFunctionRef => Some(seq![XItem::XItemXNodePtr { value: x }]), XNodeType::PartialFunctionCall => Some(seq![XItem::XItemXNodePtr { value: x }]),
        _ => ev(xr(x), c, e) } }
spec fn is_bind(t: XNodeType) -> bool { t is ForVarBind || t is LetVarBind || t is SomeVarBind || t is EveryVarBind || t is VarRef || t is FunctionCall || t is ApplyArgument || t is InlineFunction || t is NamedFunctionRef || t is PartialFunctionCall
    || t is ForExpr || t is LetExpr || t is SomeExpr || t is EveryExpr }
/// maps and arrays (C25)
spec fn step_made(x: XNodePtr, c: Seq<XItem>, e: Env, out: Option<Seq<XItem>>) -> bool {
    match xt(x) {
        XNodeType::UnaryLookupByWildcard => out == (if is_fn(c) { Some(look(c, all_keys(c), all_keys(c).len())) } else { None }),
        XNodeType::UnaryLookupByExpr => out == (match ev(xl(x), c, e) { None => None, Some(k) => if is_fn(c) { Some(look(c, k, k.len())) } else { None } }),
        _ => match out { None => made(x, c, e, None), Some(s) => s.len() == 1 && made(x, c, e, Some(s[0])) } } }
spec fn is_made(t: XNodeType) -> bool { t is UnaryLookupByWildcard || t is UnaryLookupByExpr || t is Map || t is SquareArray || t is CurlyArray }
spec fn step(x: XNodePtr, c: Seq<XItem>, e: Env, out: Option<Seq<XItem>>) -> bool {
    let t = xt(x); let a = ev(xl(x), c, e); let b = ev(xr(x), c, e);
    if nil(x) { out is None }
    else if is_op2(t) { out == both(a, b, |u: Seq<XItem>, v: Seq<XItem>| op2(t, u, v)) }
    else if is_path(t) { step_path(x, c, e, out) }
    else if is_bind(t) { out == step_bind(x, c, e) }
    else if is_made(t) { step_made(x, c, e, out) }
    else { match t {
        XNodeType::OperatorOr => out == step_logic(x, c, e), XNodeType::OperatorAnd => out == step_logic(x, c, e), XNodeType::IfExpr => out == step_logic(x, c, e),
        XNodeType::OperatorUnaryPlus => out == (match b { Some(v) => if v.len() == 1 && is_num(v[0]) { Some(seq![v[0]]) } else { None }, None => None }),
        XNodeType::OperatorUnaryMinus => out == (match b { Some(v) => if v.len() == 1 { lift(neg_spec(v[0])) } else { None }, None => None }),
        XNodeType::OperatorConcat => text_out(out, match (a, b) { (Some(a), Some(b)) => opt_add(cat_one(a), cat_one(b)), _ => None }),
        XNodeType::OperatorUnion => (a is None || b is None ==> out is None) && (a is Some && b is Some ==> set_op(t, a->0, b->0, out)),
        XNodeType::OperatorIntersect => (a is None || b is None ==> out is None) && (a is Some && b is Some ==> set_op(t, a->0, b->0, out)),
        XNodeType::OperatorExcept => (a is None || b is None ==> out is None) && (a is Some && b is Some ==> set_op(t, a->0, b->0, out)),
        XNodeType::OperatorInstanceOf => out == (match a { Some(v) => liftb(mst(v, xr(x))), None => None }),
        XNodeType::OperatorCastableAs => out == (match a { Some(v) => Some(seq![bool_item(castable_step(v, xn(xl(xr(x)))))]), None => None }),
        XNodeType::OperatorCastAs => match a { Some(v) => cast_step(v, xn(xl(xr(x))), out), None => out is None },
        XNodeType::StringLiteral => out is Some && is_str(out->0, xn(x)),
        XNodeType::IntegerLiteral => out == (match i_parse(xn(x)) { Some(n) => Some(seq![int_item(n as int)]), None => None }),
        XNodeType::DecimalLiteral => out == Some(seq![XItem::XIDecimal { value: atof_of(xn(x)) }]),
        XNodeType::DoubleLiteral => out == Some(seq![XItem::XIDouble { value: atof_of(xn(x)) }]),
        _ => out is None } } }
proof fn lemma_two() ensures forall|s: Seq<&XSequence>| s.len() == 2 ==> #[trigger] cat(s) == opt_add(cat_one(s[0].value@), cat_one(s[1].value@))
{ assert forall|s: Seq<&XSequence>| s.len() == 2 implies #[trigger] cat(s) == opt_add(cat_one(s[0].value@), cat_one(s[1].value@)) by {
  let d = s.drop_last(); assert(d.drop_last() =~= Seq::<&XSequence>::empty()); assert(cat(d.drop_last()) == Some(Seq::<char>::empty())); assert(d.last() == s[0]);
  assert(cat(d) == opt_add(Some(Seq::<char>::empty()), cat_one(s[0].value@))); match cat_one(s[0].value@) { Some(t) => { assert(Seq::<char>::empty() + t =~= t); }, None => {} } } }
/// a float is equal to itself or no number (IEEE 754, trusted)
#[verifier::external_body] proof fn ax_feq(a: f64) ensures f_eq(a, a) || f_nan(a) { }
proof fn lemma_self_key(k: XItem) requires atomic(k) ensures same_key(k, k) { ax_feq(fl(at(k))); }
proof fn lemma_path_next(s: Seq<XItem>, y: XNodePtr, m: Option<Seq<XItem>>, e: Env, out: Option<Seq<XItem>>)
    requires xt(y) is OperatorPath, path_rel(s, xl(y), e, m), match m { None => out is None, Some(t) => path_chain(t, xr(y), e, out) } ensures path_chain(s, y, e, out) { }

// ---- sequence types (C27)
spec fn unparen(t: XNodePtr) -> XNodePtr decreases xsize(t) via unparen_dec { if xt(t) is ParenthesizedItemType { unparen(xl(t)) } else { t } }
#[via_fn] proof fn unparen_dec(t: XNodePtr) { ax_xsize(t); }
spec fn item_type(y: XNodePtr) -> XNodePtr { unparen(xl(y)) }
proof fn lemma_unparen(t: XNodePtr) ensures xsize(unparen(t)) <= xsize(t) decreases xsize(t) { ax_xsize(t); if xt(t) is ParenthesizedItemType { lemma_unparen(xl(t)); } }
proof fn lemma_item_type(y: XNodePtr) ensures xsize(item_type(y)) <= xsize(xl(y)), xsize(item_type(y)) <= xsize(y), !nil(y) ==> xsize(item_type(y)) < xsize(y) { ax_xsize(y); lemma_unparen(xl(y)); }
spec fn occ_fits(n: nat, m: Seq<char>) -> Option<bool> { if m == "?"@ { Some(n <= 1) } else if m == "*"@ { Some(true) } else if m == "+"@ { Some(1 <= n) } else if m == ""@ { Some(n == 1) } else { None } }
/// whether all of f(i) .. f(n - 1) are true: the first that is not decides
spec fn all_true(f: spec_fn(int) -> Option<bool>, i: int, n: int) -> Option<bool> decreases n - i { if i >= n { Some(true) } else { match f(i) { Some(true) => all_true(f, i + 1, n), r => r } } }
spec fn is_function(x: XItem) -> bool { x is XIMap || x is XIArray || match x { XItem::XItemXNodePtr { value } => xt(value) is InlineFunction || xt(value) is NamedFunctionRef || xt(value) is PartialFunctionCall, _ => false } }
spec fn array_of(a: XSeqArray, t: XNodePtr) -> Option<bool> { all_true(|i: int| mst(a.v@[i].value@, t), 0, a.v@.len() as int) }
spec fn entry_of(m: XSeqMap, k: Seq<char>, t: XNodePtr, i: int) -> Option<bool> { if !derives(type_name(m.v@[i].0), k) { Some(false) } else { match map_val(m.v@, m.v@[i].0) { Some(v) => mst(v, t), None => Some(false) } } }
spec fn map_of(m: XSeqMap, k: Seq<char>, t: XNodePtr) -> Option<bool> { all_true(|i: int| entry_of(m, k, t, i), 0, m.v@.len() as int) }
/// the types of a function: what it returns, then its parameters
spec fn types_of(f: XNodePtr) -> Seq<XNodePtr> { chain(xr(f)).map_values(|y: XNodePtr| xl(y)) }
uninterp spec fn sig_text(n: Seq<char>) -> Seq<char>;
uninterp spec fn sig_tree(s: Seq<char>) -> Option<XNodePtr>;
/// the function a function item is of type of; Some(None): it has no known type
spec fn fn_type(x: XNodePtr) -> Option<Option<XNodePtr>> {
    match xt(x) { XNodeType::NamedFunctionRef => if sig_text(xn(x)) == ""@ { Some(None) } else { match sig_tree(sig_text(xn(x))) { None => None, Some(t) => Some(Some(t)) } },
        XNodeType::InlineFunction => Some(Some(x)), XNodeType::PartialFunctionCall => Some(Some(x)), _ => Some(None) } }
spec fn sub_fn(p: Seq<XNodePtr>, q: Seq<XNodePtr>) -> bool { p.len() == q.len() && forall|i: int| 0 <= i < q.len() ==> #[trigger] var_ok(p, q, i) }
/// results covariant, parameters contravariant
spec fn var_ok(p: Seq<XNodePtr>, q: Seq<XNodePtr>, i: int) -> bool { if i == 0 { subty(p[0], q[0]) } else { subty(q[i], p[i]) } }
spec fn fn_item_of(x: XItem, q: Seq<XNodePtr>) -> Option<bool> {
    match x { XItem::XItemXNodePtr { value } => match fn_type(value) { None => None, Some(None) => Some(false), Some(Some(s)) => Some(sub_fn(types_of(s), q)) },
        XItem::XIMap { value } => if q.len() != 2 { Some(false) } else { map_of(value, xn(item_type(q[1])), q[0]) },
        XItem::XIArray { value } => if q.len() != 2 { Some(false) } else { match mst(seq![int_item(1)], q[1]) { Some(true) => array_of(value, q[0]), r => r } },
        _ => Some(false) } }
spec fn array_item_of(x: XItem, t: XNodePtr) -> Option<bool> { match x { XItem::XIArray { value } => array_of(value, t), _ => Some(false) } }
spec fn map_item_of(x: XItem, k: Seq<char>, t: XNodePtr) -> Option<bool> { match x { XItem::XIMap { value } => map_of(value, k, t), _ => Some(false) } }
spec fn kind_item(x: XItem, t: XNodePtr) -> bool { match x { XItem::XINode { value } => kind_test(value, t), _ => false } }
spec fn item_is(v: Seq<XItem>, t: XNodePtr) -> Option<bool> {
    let n = v.len() as int;
    match xt(t) {
        XNodeType::KindTest => Some(forall|i: int| 0 <= i < n ==> kind_item(#[trigger] v[i], t)), XNodeType::ItemTest => Some(true),
        XNodeType::AnyFunctionTest => Some(forall|i: int| 0 <= i < n ==> is_function(#[trigger] v[i])),
        XNodeType::TypedFunctionTest => all_true(|i: int| fn_item_of(v[i], types_of(t)), 0, n),
        XNodeType::ArrayTest => all_true(|i: int| array_item_of(v[i], xl(t)), 0, n),
        XNodeType::MapTest => all_true(|i: int| map_item_of(v[i], xn(xl(t)), xr(t)), 0, n),
        XNodeType::AtomicOrUnionType => Some(forall|i: int| 0 <= i < n ==> derives(own_type(#[trigger] v[i]), xn(t))),
        _ => None } }
/// what a match with a sequence type is in terms of the matches of the parts
spec fn mst_step(v: Seq<XItem>, y: XNodePtr) -> Option<bool> {
    let t = item_type(y);
    if !(xt(y) is SequenceType) { None } else if xt(t) is EmptySequenceTest { Some(v.len() == 0) }
    else { match occ_fits(v.len(), xn(y)) { Some(true) => item_is(v, t), r => r } } }

// ---- types compared with types (C27)
enum Occ { Empty, Q, Star, One, Plus, Error }
spec fn occ_class(y: XNodePtr) -> Occ {
    let t = item_type(y); let m = xn(y);
    if xt(t) is EmptySequenceTest { Occ::Empty } else if xt(t) is AtomicOrUnionType && xn(t) == "xs:error"@ { if m == "?"@ || m == "*"@ { Occ::Empty } else { Occ::Error } }
    else if m == "?"@ { Occ::Q } else if m == "*"@ { Occ::Star } else if m == "+"@ { Occ::Plus } else { Occ::One } }
/// whether the numbers of items the one admits are admitted by the other; Some: without regard to the items
spec fn occ_rel(a: Occ, b: Occ) -> Option<bool> {
    match a { Occ::Error => Some(true), Occ::Empty => Some(b is Empty || b is Q || b is Star),
        Occ::Q => if b is Q || b is Star { None } else { Some(false) }, Occ::Star => if b is Star { None } else { Some(false) },
        Occ::One => if b is Q || b is Star || b is One || b is Plus { None } else { Some(false) }, Occ::Plus => if b is Star || b is Plus { None } else { Some(false) } } }
spec fn occ_no(o: Occ) -> int { match o { Occ::Empty => 0, Occ::Q => 1, Occ::Star => 2, Occ::One => 3, Occ::Plus => 4, Occ::Error => 5 } }
spec fn occ_code(r: Option<bool>) -> int { match r { Some(false) => 0, Some(true) => 1, None => 9 } }
spec fn subty(a: XNodePtr, b: XNodePtr) -> bool decreases xsize(a) + xsize(b), 1nat via subty_dec { match occ_rel(occ_class(a), occ_class(b)) { Some(r) => r, None => subitem(item_type(a), item_type(b)) } }
#[via_fn] proof fn subty_dec(a: XNodePtr, b: XNodePtr) { lemma_item_type(a); lemma_item_type(b); }
spec fn subelem(a: XNodePtr, b: XNodePtr) -> bool { (xn(b) == "*"@ || xn(b) == xn(a)) && !(opt_mark(xn(xl(a))) && !opt_mark(xn(xl(b)))) && (no_mark(xn(xl(b))) == "xs:anyType"@ || derives(no_mark(xn(xl(a))), no_mark(xn(xl(b))))) }
spec fn subkind(a: XNodePtr, b: XNodePtr) -> bool {
    match xt(b) { XNodeType::AnyKindTest => true, XNodeType::TextTest => xt(a) is TextTest, XNodeType::CommentTest => xt(a) is CommentTest, XNodeType::NamespaceNodeTest => xt(a) is NamespaceNodeTest,
        XNodeType::PITest => xt(a) is PITest && (xn(b) == ""@ || xn(a) == xn(b)),
        XNodeType::DocumentTest => xt(a) is DocumentTest && (nil(xl(b)) || (!nil(xl(a)) && subelem(xl(a), xl(b)))),
        XNodeType::ElementTest => xt(a) is ElementTest && subelem(a, b), XNodeType::AttributeTest => xt(a) is AttributeTest && subelem(a, b), _ => false } }
spec fn subitem(a: XNodePtr, b: XNodePtr) -> bool decreases xsize(a) + xsize(b), 0nat via subitem_dec {
    let s = xt(a); let t = xt(b); 
    ||| s is AtomicOrUnionType && t is AtomicOrUnionType && (derives(xn(a), xn(b)) || xn(a) == "xs:error"@)
    ||| t is ItemTest
    ||| s is KindTest && t is KindTest && subkind(xl(a), xl(b))
    ||| t is AnyFunctionTest && (s is AnyFunctionTest || s is TypedFunctionTest || s is MapTest || s is ArrayTest)
    ||| s is TypedFunctionTest && t is TypedFunctionTest && { let p = types_of(a); let q = types_of(b); p.len() == q.len() && subty(p[0], q[0]) && forall|i: int| 1 <= i < q.len() ==> subty(#[trigger] q[i], p[i]) }
    ||| s is MapTest && t is MapTest && subitem(xl(a), xl(b)) && subty(xr(a), xr(b))
    ||| s is MapTest && t is TypedFunctionTest && subitem(xl(a), item_type(xl(xr(xr(b))))) && subty(xr(a), xl(xr(b)))
    ||| s is ArrayTest && t is ArrayTest && subty(xl(a), xl(b))
    ||| s is ArrayTest && t is TypedFunctionTest && derives("xs:integer"@, xn(item_type(xl(xr(xr(b)))))) && subty(xl(a), xl(xr(b)))
}
proof fn lemma_chain(y: XNodePtr) ensures forall|i: int| 0 <= i < chain(y).len() ==> xsize(#[trigger] chain(y)[i]) <= xsize(y) && !nil(chain(y)[i]) decreases xsize(y)
{ ax_xsize(y); if !nil(y) { lemma_chain(xr(y)); assert forall|i: int| 0 <= i < chain(y).len() implies xsize(#[trigger] chain(y)[i]) <= xsize(y) && !nil(chain(y)[i]) by { if i > 0 { assert(chain(y)[i] == chain(xr(y))[i - 1]); } } } }
proof fn lemma_types_of(f: XNodePtr) ensures forall|i: int| 0 <= i < types_of(f).len() ==> xsize(#[trigger] types_of(f)[i]) < xsize(f)
{ ax_xsize(f); lemma_chain(xr(f)); assert forall|i: int| 0 <= i < types_of(f).len() implies xsize(#[trigger] types_of(f)[i]) < xsize(f) by { let c = chain(xr(f))[i]; ax_xsize(c); if nil(f) { ax_xsize(xr(f)); } } }
#[via_fn] proof fn subitem_dec(a: XNodePtr, b: XNodePtr) {
    ax_xsize(a); ax_xsize(b); ax_xsize(xr(b)); ax_xsize(xr(xr(b))); lemma_types_of(a); lemma_types_of(b); lemma_item_type(xl(xr(xr(b)))); 
    if xt(a) is TypedFunctionTest && xt(b) is TypedFunctionTest { ax_typed(a); ax_typed(b); assert(types_of(a).len() > 0); assert(types_of(b).len() > 0); } }
/// the parser gives every typed function test the type of its result (trusted)
#[verifier::external_body] proof fn ax_typed(x: XNodePtr) ensures xt(x) is TypedFunctionTest ==> types_of(x).len() > 0 { }
proof fn lemma_occ() ensures "?"@ != "*"@, "?"@ != "+"@, "?"@ != ""@, "*"@ != "+"@, "*"@ != ""@, "+"@ != ""@
{ reveal_strlit("?"); reveal_strlit("*"); reveal_strlit("+"); reveal_strlit(""); assert("?"@[0] != "*"@[0]); assert("?"@[0] != "+"@[0]); assert("*"@[0] != "+"@[0]); assert("?"@.len() == 1 && ""@.len() == 0 && "*"@.len() == 1 && "+"@.len() == 1); }

/// element test of document-node(): the element children among the first k
spec fn doc_so_far(l: Seq<NodePtr>, t: XNodePtr, k: int) -> bool { (forall|i: int| 0 <= i < k ==> ntype(#[trigger] l[i]) is Element ==> kind_test(l[i], t)) && (forall|i: int, j: int| 0 <= i < j < k && ntype(#[trigger] l[i]) is Element ==> !(ntype(#[trigger] l[j]) is Element)) }
spec fn elem_among(l: Seq<NodePtr>, k: int) -> bool { exists|i: int| 0 <= i < k && ntype(#[trigger] l[i]) is Element }
proof fn lemma_doc_step(l: Seq<NodePtr>, t: XNodePtr, k: int) requires 0 <= k < l.len(), doc_so_far(l, t, k)
    ensures elem_among(l, k + 1) == (elem_among(l, k) || ntype(l[k]) is Element), !(ntype(l[k]) is Element) ==> doc_so_far(l, t, k + 1), ntype(l[k]) is Element && !elem_among(l, k) && kind_test(l[k], t) ==> doc_so_far(l, t, k + 1), elem_among(l, k) && ntype(l[k]) is Element ==> !one_element(l)
{ if elem_among(l, k) { let i = choose|i: int| 0 <= i < k && ntype(#[trigger] l[i]) is Element; assert(ntype(l[i]) is Element); } if ntype(l[k]) is Element { assert(0 <= k < k + 1 && ntype(l[k]) is Element); } }
proof fn lemma_chain_cons(y: XNodePtr, done: Seq<XNodePtr>, all: Seq<XNodePtr>) requires !nil(y), all == done + chain(y).map_values(|y: XNodePtr| xl(y)) ensures all == done.push(xl(y)) + chain(xr(y)).map_values(|y: XNodePtr| xl(y))
{ let f = |y: XNodePtr| xl(y); assert(chain(y).map_values(f) =~= seq![xl(y)] + chain(xr(y)).map_values(f)); assert(all =~= done.push(xl(y)) + chain(xr(y)).map_values(f)); }
spec fn own_type(x: XItem) -> Seq<char> { type_name(x) }

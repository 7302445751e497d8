// ------------------------------------------------------------- C05: a document and its text
/// the subtree of a node: kinds, names, values, attributes and children
spec fn tree(h: HV, n: RcNode) -> Content { content(h, n, height(h, n) + 1) }
spec fn trees(h: HV, s: Seq<RcNode>) -> Seq<Content> { Seq::new(s.len(), |i: int| tree(h, s[i])) }
spec fn blanks(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
spec fn newline(step: nat) -> Seq<char> { if step > 0 { seq!['\n'] } else { seq![] } }
spec fn attr_text(a: Content) -> Seq<char> { match a { Content::Node { name, value, .. } => seq![' '] + name + seq!['=', '"'] + esc(value) + seq!['"'], Content::Cut => seq![] } }
/// the attributes from the k-th on
spec fn attrs_text(s: Seq<Content>, k: int) -> Seq<char> decreases s.len() - k { if 0 <= k < s.len() { attr_text(s[k]) + attrs_text(s, k + 1) } else { seq![] } }
/// The text of a subtree.  step 0 is the compact form; otherwise every node stands on a line of its own,
/// indented by step blanks per level.
spec fn ser(c: Content, indent: nat, step: nat) -> Seq<char> decreases c, 0nat {
    match c { Content::Cut => seq![], Content::Node { ty, name, value, attrs, kids } => match ty {
        NodeType::DocumentRoot => sers(kids, 0, indent, step),
        NodeType::Element => blanks(indent) + seq!['<'] + name + attrs_text(attrs, 0)
            + (if kids.len() == 0 { seq!['/', '>'] } else { seq!['>'] + newline(step) + sers(kids, 0, indent + step, step) + blanks(indent) + seq!['<', '/'] + name + seq!['>'] })
            + newline(step),
        NodeType::Text => blanks(indent) + esc(value) + newline(step),
        NodeType::Comment => blanks(indent) + seq!['<', '!', '-', '-'] + value + seq!['-', '-', '>'] + newline(step),
        NodeType::XMLDecl => blanks(indent) + seq!['<', '?', 'x', 'm', 'l', ' '] + value + seq!['?', '>'] + newline(step),
        NodeType::Instruction => blanks(indent) + seq!['<', '?'] + name + seq![' '] + value + seq!['?', '>'] + newline(step),
        _ => seq![],
    } }
}
/// the texts of the nodes from the k-th on
spec fn sers(s: Seq<Content>, k: int, indent: nat, step: nat) -> Seq<char> decreases s, s.len() - k {
    if 0 <= k < s.len() { ser(s[k], indent, step) + sers(s, k + 1, indent, step) } else { seq![] } }

// ---- the subtree of a node, by its lists
proof fn lemma_content_deeper(h: HV, n: RcNode, j: nat, k: nat) requires tall(h, n, j), j < k ensures content(h, n, k) == content(h, n, j + 1) decreases j
{
    assert forall|i: int| 0 <= i < kids(h, n).len() implies content(h, #[trigger] kids(h, n)[i], (k - 1) as nat) == content(h, kids(h, n)[i], j) by {
        assert(tall(h, entry(h, n, i), (j - 1) as nat)); lemma_content_deeper(h, kids(h, n)[i], (j - 1) as nat, (k - 1) as nat); }
    assert forall|i: int| 0 <= i < atts(h, n).len() implies content(h, #[trigger] atts(h, n)[i], (k - 1) as nat) == content(h, atts(h, n)[i], j) by {
        assert(tall(h, entry(h, n, i + kids(h, n).len()), (j - 1) as nat)); lemma_content_deeper(h, atts(h, n)[i], (j - 1) as nat, (k - 1) as nat); }
    assert(contents(h, kids(h, n), (k - 1) as nat) =~= contents(h, kids(h, n), j));
    assert(contents(h, atts(h, n), (k - 1) as nat) =~= contents(h, atts(h, n), j));
}
proof fn lemma_tree(h: HV, n: RcNode) requires base(h), alive(h, n)
    ensures tree(h, n) == (Content::Node { ty: n.node_type, name: n.name@, value: n.value@, attrs: trees(h, atts(h, n)), kids: trees(h, kids(h, n)) })
{
    let k = height(h, n);
    assert forall|i: int| 0 <= i < kids(h, n).len() implies content(h, #[trigger] kids(h, n)[i], k) == tree(h, kids(h, n)[i]) by {
        let e = kids(h, n)[i]; lemma_height_sub(h, n, i); assert(e == entry(h, n, i)); lemma_height(h, e); lemma_content_deeper(h, e, height(h, e), k); }
    assert forall|i: int| 0 <= i < atts(h, n).len() implies content(h, #[trigger] atts(h, n)[i], k) == tree(h, atts(h, n)[i]) by {
        let e = atts(h, n)[i]; lemma_height_sub(h, n, i + kids(h, n).len()); assert(e == entry(h, n, i + kids(h, n).len())); lemma_height(h, e); lemma_content_deeper(h, e, height(h, e), k); }
    assert(contents(h, kids(h, n), k) =~= trees(h, kids(h, n)));
    assert(contents(h, atts(h, n), k) =~= trees(h, atts(h, n)));
}
#[verifier::external_body]
fn vblanks(s: &str, n: usize) -> (r: String) ensures s@ == seq![' '] ==> r@ == blanks(n as nat) { unimplemented!() }
proof fn doc_lits()
    ensures "<"@ == seq!['<'], "/>"@ == seq!['/', '>'], ">"@ == seq!['>'], " "@ == seq![' '], "=\""@ == seq!['=', '"'], "\""@ == seq!['"'], "</"@ == seq!['<', '/'], "<!--"@ == seq!['<', '!', '-', '-'],
        "-->"@ == seq!['-', '-', '>'], "<?xml "@ == seq!['<', '?', 'x', 'm', 'l', ' '], "?>"@ == seq!['?', '>'], "<?"@ == seq!['<', '?'], ""@ == Seq::<char>::empty()
{
    reveal_strlit("<"); reveal_strlit("/>"); reveal_strlit(">"); reveal_strlit(" "); reveal_strlit("=\""); reveal_strlit("\""); reveal_strlit("</"); reveal_strlit("<!--"); reveal_strlit("-->"); reveal_strlit("<?xml "); reveal_strlit("?>"); reveal_strlit("<?"); reveal_strlit("");
    assert("<"@ =~= seq!['<']); assert("/>"@ =~= seq!['/', '>']); assert(">"@ =~= seq!['>']); assert(" "@ =~= seq![' ']); assert("=\""@ =~= seq!['=', '"']); assert("\""@ =~= seq!['"']); assert("</"@ =~= seq!['<', '/']); assert("<!--"@ =~= seq!['<', '!', '-', '-']);
    assert("-->"@ =~= seq!['-', '-', '>']); assert("<?xml "@ =~= seq!['<', '?', 'x', 'm', 'l', ' ']); assert("?>"@ =~= seq!['?', '>']); assert("<?"@ =~= seq!['<', '?']); assert(""@ =~= Seq::<char>::empty());
}
proof fn lemma_room(h: HV, n: RcNode, c: RcNode, indent: nat, step: nat) requires height(h, c) < height(h, n), indent + step * height(h, n) <= usize::MAX
    ensures indent + step <= usize::MAX, indent + step + step * height(h, c) <= usize::MAX, indent + step * height(h, c) <= usize::MAX
{
    let a = height(h, c); let b = height(h, n);
    assert(step + step * a <= step * b) by (nonlinear_arith) requires a + 1 <= b;
    assert(step * a >= 0) by (nonlinear_arith);
}
/// a subtree is no higher than it has nodes
proof fn lemma_height_whole(h: HV, n: RcNode) requires base(h), alive(h, n) ensures height(h, n) < whole(h, n).len() decreases height(h, n)
{
    lemma_whole(h, n); let l = whole(h, n).len(); let ks = kids(h, n);
    assert(l >= 1);
    assert forall|i: int| 0 <= i < ks.len() + atts(h, n).len() implies l - 1 > 0 && tall(h, #[trigger] entry(h, n, i), (l - 2) as nat) by {
        let e = entry(h, n, i); lemma_height_sub(h, n, i); lemma_height(h, e);
        if i < ks.len() { lemma_height_whole(h, e); lemma_wholes_len(h, ks, (i + 1) as nat, ks.len()); lemma_whole_listed(h, ks, i); }
        else { assert(node_ok(h, n)); assert(node_ok(h, e)); assert(e == atts(h, n)[i - ks.len()]); assert(tall(h, e, 0)); lemma_min(h, e, 0); }
        lemma_tall_more(h, e, height(h, e), (l - 2) as nat);
    }
    assert(tall(h, n, (l - 1) as nat)); lemma_min(h, n, (l - 1) as nat);
}
proof fn lemma_whole_listed(h: HV, s: Seq<RcNode>, i: int) requires 0 <= i < s.len() ensures wholes(h, s, (i + 1) as nat).len() >= whole(h, s[i]).len() {}

// ------------------------------------------------------------- reading
/// an open element (or the document itself): what has been read of it
pub ghost struct Fr { name: Seq<char>, attrs: Seq<Content>, kids: Seq<Content> }
spec fn leaf(ty: NodeType, name: Seq<char>, value: Seq<char>) -> Content { Content::Node { ty, name, value, attrs: seq![], kids: seq![] } }
spec fn attr_nodes(s: Seq<(Seq<char>, Seq<char>)>) -> Seq<Content> { Seq::new(s.len(), |i: int| leaf(NodeType::Attribute, s[i].0, s[i].1)) }
/// the innermost open element gets a further child
spec fn add(fr: Seq<Fr>, c: Content) -> Seq<Fr> { fr.update(fr.len() - 1, Fr { kids: fr.last().kids.push(c), ..fr.last() }) }
/// the innermost open element ends
spec fn close(fr: Seq<Fr>) -> Seq<Fr> { add(fr.drop_last(), Content::Node { ty: NodeType::Element, name: fr.last().name, value: seq![], attrs: fr.last().attrs, kids: fr.last().kids }) }
/// what a token does to the open elements; None: an end tag that ends something else
spec fn fed(fr: Seq<Fr>, t: XmlToken) -> Option<Seq<Fr>> {
    match t {
        XmlToken::StartElement { name, attr } => Some(fr.push(Fr { name: name@, attrs: attr_nodes(attr_view(attr@)), kids: seq![] })),
        XmlToken::EndElement { name } => if fr.last().name != name@ { None } else if fr.len() <= 1 { Some(fr) } else { Some(close(fr)) },
        XmlToken::CharData { chardata } => Some(if chardata@ == Seq::<char>::empty() { fr } else { add(fr, leaf(NodeType::Text, seq![], chardata@)) }),
        XmlToken::ProcInst { target, inst } => Some(add(fr, if target@ == seq!['x', 'm', 'l'] { leaf(NodeType::XMLDecl, seq!['x', 'm', 'l'], inst@) } else { leaf(NodeType::Instruction, target@, inst@) })),
        XmlToken::Comment { comment } => Some(add(fr, leaf(NodeType::Comment, seq![], comment@))),
        XmlToken::Directive { directive } => Some(fr),
        XmlToken::EOF => Some(fr),
    }
}
/// Reading s from i on in at most n tokens, with the open elements fr, ends with the open elements out
/// at the end of the text, or (None) with an error.
spec fn reads(s: Seq<char>, i: int, tc: Seq<char>, fr: Seq<Fr>, n: nat, out: Option<Seq<Fr>>) -> bool decreases n {
    exists|r: Result<XmlToken, VErr>, e: int, tc2: Seq<char>| #[trigger] one(s, i, tc, r, e, tc2) && match r {
        Err(_) => out is None,
        Ok(XmlToken::EOF) => out == Some(fr),
        Ok(t) => match fed(fr, t) { None => out is None, Some(fr2) => n > 0 && reads(s, e, tc2, fr2, (n - 1) as nat, out) } }
}
/// the nodes n and above it are the open elements fr; of n, the last child is left out unless top
spec fn opened(h: HV, root: RcNode, n: RcNode, fr: Seq<Fr>, top: bool) -> bool decreases fr.len() {
    &&& fr.len() > 0 && alive(h, n) && n.name@ == fr.last().name && n.value@ == Seq::<char>::empty() && fr.last().attrs == trees(h, atts(h, n))
    &&& fr.last().kids == trees(h, if top { kids(h, n) } else { kids(h, n).drop_last() })
    &&& if fr.len() == 1 { n == root && n.node_type is DocumentRoot && par(h, n) is None } else { n.node_type is Element && match par(h, n) { Some(p) => kids(h, p).len() > 0 && kids(h, p).last() == n && opened(h, root, p, fr.drop_last(), false), None => false } }
}
/// what is read into curr changes curr only
spec fn grown(h1: HV, h2: HV, curr: RcNode) -> bool { wf(h1) && wf(h2) && alive(h1, curr) && forall|m: RcNode| #[trigger] alive(h1, m) ==> alive(h2, m) && (m == curr || h2[m] == h1[m]) && par(h2, m) == par(h1, m) }
/// the trees of nodes curr does not stand in are as before
proof fn lemma_grown(h1: HV, h2: HV, curr: RcNode, n: RcNode) requires grown(h1, h2, curr), alive(h1, n), !anc(h1, curr, n) ensures tree(h2, n) == tree(h1, n)
{
    let s0 = |m: RcNode| alive(h1, m) && !anc(h1, curr, m);
    assert(agree(h1, h2, s0)) by {
        assert forall|m: RcNode| #[trigger] s0(m) implies kids(h1, m) == kids(h2, m) && atts(h1, m) == atts(h2, m)
            && (forall|i: int| 0 <= i < kids(h1, m).len() ==> s0(#[trigger] kids(h1, m)[i])) && (forall|i: int| 0 <= i < atts(h1, m).len() ==> s0(#[trigger] atts(h1, m)[i])) by {
            lemma_anc_self(h1, curr); assert(m != curr); assert(node_ok(h1, m));
            assert forall|i: int| 0 <= i < kids(h1, m).len() implies s0(#[trigger] kids(h1, m)[i]) by { let c = kids(h1, m)[i]; assert(par(h1, c) == Some(m)); if anc(h1, curr, c) { lemma_anc_self(h1, m); lemma_anc_par(h1, c, m); lemma_anc_trans(h1, curr, c, m); } }
            assert forall|i: int| 0 <= i < atts(h1, m).len() implies s0(#[trigger] atts(h1, m)[i]) by { let c = atts(h1, m)[i]; assert(par(h1, c) == Some(m)); if anc(h1, curr, c) { lemma_anc_self(h1, m); lemma_anc_par(h1, c, m); lemma_anc_trans(h1, curr, c, m); } }
        } }
    lemma_height_frame(h1, h2, s0, n);
    lemma_content_frame(h1, h2, s0, n, (height(h1, n) + 1) as nat);
}
/// the open elements above curr are as before
proof fn lemma_opened(h1: HV, h2: HV, root: RcNode, n: RcNode, fr: Seq<Fr>, curr: RcNode)
    requires grown(h1, h2, curr), opened(h1, root, n, fr, false), kids(h1, n).len() > 0, anc(h1, curr, kids(h1, n).last())
    ensures opened(h2, root, n, fr, false), kids(h2, n) == kids(h1, n), n != curr
    decreases fr.len()
{
    let last = kids(h1, n).last();
    assert(node_ok(h1, n)); assert(kids(h1, n)[kids(h1, n).len() - 1] == last); assert(par(h1, last) == Some(n)); assert(alive(h1, last));
    if n == curr { lemma_no_cycle(h1, last, n); }
    lemma_anc_self(h1, n); lemma_anc_par(h1, last, n); lemma_anc_trans(h1, curr, last, n);
    assert forall|i: int| 0 <= i < kids(h1, n).len() - 1 implies tree(h2, #[trigger] kids(h1, n)[i]) == tree(h1, kids(h1, n)[i]) by {
        let c = kids(h1, n)[i]; assert(c != last); assert(par(h1, c) == Some(n)); if anc(h1, curr, c) { lemma_apart(h1, n, c, last, curr); } lemma_grown(h1, h2, curr, c); }
    assert forall|i: int| 0 <= i < atts(h1, n).len() implies tree(h2, #[trigger] atts(h1, n)[i]) == tree(h1, atts(h1, n)[i]) by {
        let c = atts(h1, n)[i]; assert(c != last); assert(par(h1, c) == Some(n)); if anc(h1, curr, c) { lemma_apart(h1, n, c, last, curr); } lemma_grown(h1, h2, curr, c); }
    assert(trees(h2, atts(h2, n)) =~= trees(h1, atts(h1, n)));
    assert(trees(h2, kids(h2, n).drop_last()) =~= trees(h1, kids(h1, n).drop_last()));
    if fr.len() > 1 { let p = par(h1, n)->Some_0; lemma_opened(h1, h2, root, p, fr.drop_last(), curr); }
}
/// the own lists of curr grow
proof fn lemma_opened_top(h1: HV, h2: HV, root: RcNode, fr: Seq<Fr>, curr: RcNode)
    requires grown(h1, h2, curr), opened(h1, root, curr, fr, true)
    ensures trees(h2, kids(h1, curr)) == fr.last().kids, trees(h2, atts(h1, curr)) == fr.last().attrs,
        fr.len() == 1 ==> curr == root && par(h2, curr) is None, fr.len() > 1 ==> curr.node_type is Element && match par(h2, curr) { Some(p) => kids(h2, p).len() > 0 && kids(h2, p).last() == curr && opened(h2, root, p, fr.drop_last(), false), None => false }
{
    assert(node_ok(h1, curr));
    assert forall|i: int| 0 <= i < kids(h1, curr).len() implies tree(h2, #[trigger] kids(h1, curr)[i]) == tree(h1, kids(h1, curr)[i]) by {
        let c = kids(h1, curr)[i]; assert(par(h1, c) == Some(curr)); lemma_no_cycle(h1, c, curr); lemma_grown(h1, h2, curr, c); }
    assert forall|i: int| 0 <= i < atts(h1, curr).len() implies tree(h2, #[trigger] atts(h1, curr)[i]) == tree(h1, atts(h1, curr)[i]) by {
        let c = atts(h1, curr)[i]; assert(par(h1, c) == Some(curr)); lemma_no_cycle(h1, c, curr); lemma_grown(h1, h2, curr, c); }
    assert(trees(h2, kids(h1, curr)) =~= fr.last().kids); assert(trees(h2, atts(h1, curr)) =~= fr.last().attrs);
    if fr.len() > 1 { let p = par(h1, curr)->Some_0; lemma_anc_self(h1, curr); lemma_opened(h1, h2, root, p, fr.drop_last(), curr); }
}
/// a node without entries
proof fn lemma_leaf(h: HV, n: RcNode) requires base(h), alive(h, n), kids(h, n).len() == 0, atts(h, n).len() == 0 ensures tree(h, n) == leaf(n.node_type, n.name@, n.value@)
{ lemma_tree(h, n); assert(trees(h, kids(h, n)) =~= Seq::<Content>::empty()); assert(trees(h, atts(h, n)) =~= Seq::<Content>::empty()); }
/// a new child t of curr
proof fn lemma_kid_grown(h1: HV, curr: RcNode, t: RcNode)
    requires wf(h1), alive(h1, curr), fresh(h1, t), t.parent is Some, wf(new_kid(h1, curr, t, usize::MAX as int))
    ensures ({ let h2 = new_kid(h1, curr, t, usize::MAX as int);
        &&& grown(h1, h2, curr) && kids(h2, curr) == kids(h1, curr).push(t) && atts(h2, curr) == atts(h1, curr) && alive(h2, t) && kids(h2, t).len() == 0 && atts(h2, t).len() == 0 && par(h2, t) == Some(curr) && alive(h2, curr) })
{
    let h2 = new_kid(h1, curr, t, usize::MAX as int);
    ax_len_s(kids(h1, curr));
    assert(kids(h2, curr) =~= kids(h1, curr).push(t));
    assert forall|m: RcNode| #[trigger] alive(h1, m) implies alive(h2, m) && (m == curr || h2[m] == h1[m]) && par(h2, m) == par(h1, m) by { assert(m != t); assert(h1[m].link != Some(t)); }
}
proof fn lemma_read_kid(h1: HV, root: RcNode, fr: Seq<Fr>, curr: RcNode, t: RcNode)
    requires wf(h1), opened(h1, root, curr, fr, true), fresh(h1, t), t.parent is Some, wf(new_kid(h1, curr, t, usize::MAX as int))
    ensures ({ let h2 = new_kid(h1, curr, t, usize::MAX as int);
        &&& opened(h2, root, curr, add(fr, leaf(t.node_type, t.name@, t.value@)), true)
        &&& opened(h2, root, curr, fr, false) && kids(h2, curr).len() > 0 && kids(h2, curr).last() == t && alive(h2, t) && kids(h2, t).len() == 0 && atts(h2, t).len() == 0 && par(h2, t) == Some(curr)
        &&& forall|m: RcNode| #[trigger] alive(h1, m) ==> alive(h2, m) && (m == curr || h2[m] == h1[m]) })
{
    let h2 = new_kid(h1, curr, t, usize::MAX as int);
    lemma_kid_grown(h1, curr, t);
    lemma_opened_top(h1, h2, root, fr, curr);
    lemma_leaf(h2, t);
    let c = leaf(t.node_type, t.name@, t.value@); let ks = kids(h1, curr);
    assert(trees(h2, ks.push(t)) =~= trees(h2, ks).push(c));
    assert(ks.push(t).drop_last() =~= ks);
    assert(add(fr, c).drop_last() =~= fr.drop_last());
    assert(add(fr, c).last() == (Fr { kids: fr.last().kids.push(c), ..fr.last() }));
}
proof fn lemma_read_elem(h2: HV, root: RcNode, fr: Seq<Fr>, curr: RcNode, t: RcNode)
    requires opened(h2, root, curr, fr, false), kids(h2, curr).len() > 0, kids(h2, curr).last() == t, alive(h2, t), kids(h2, t).len() == 0, atts(h2, t).len() == 0, par(h2, t) == Some(curr), t.node_type is Element, t.value@ == Seq::<char>::empty()
    ensures opened(h2, root, t, fr.push(Fr { name: t.name@, attrs: seq![], kids: seq![] }), true)
{
    let f3 = fr.push(Fr { name: t.name@, attrs: seq![], kids: seq![] });
    assert(f3.drop_last() =~= fr);
    assert(trees(h2, kids(h2, t)) =~= Seq::<Content>::empty()); assert(trees(h2, atts(h2, t)) =~= Seq::<Content>::empty());
}
/// a new attribute a of curr
spec fn new_att(h0: HV, p: RcNode, a: RcNode) -> HV { let h1 = h0.insert(a, NV { kids: Seq::empty(), attrs: Seq::empty(), link: Some(p), order: 0 }); set_atts(h1, p, atts(h1, p).push(a)) }
proof fn lemma_new_att(h0: HV, p: RcNode, t: RcNode)
    requires wf(h0), alive(h0, p), fresh(h0, t), t.parent is Some, !(p.node_type is Attribute), t.node_type is Attribute
    ensures wf(new_att(h0, p, t))
{
    let h1 = h0.insert(t, NV { kids: Seq::empty(), attrs: Seq::empty(), link: Some(p), order: 0 });
    lemma_new_node(h0, h1, t, p);
    let w = new_att(h0, p, t); let s0 = atts(h0, p);
    assert(w.dom() =~= h1.dom()); assert(node_ok(h0, p)); assert(node_ok(h1, p)); assert(atts(h1, p) == s0);
    let (f, bb) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(h1, f, b);
    assert(ranked(w, f, bb)) by { assert forall|m: RcNode| #[trigger] alive(w, m) implies f(m) <= bb && match par(w, m) { Some(q) => f(q) < f(m), None => true } by { assert(alive(h1, m)); } }
    assert forall|j: int| 0 <= j < s0.len() implies #[trigger] s0[j] != t by { assert(alive(h0, s0[j])); }
    assert forall|j: int| 0 <= j < kids(h0, p).len() implies #[trigger] kids(h0, p)[j] != t by { assert(alive(h0, kids(h0, p)[j])); }
    assert forall|m: RcNode| #[trigger] alive(w, m) implies node_ok(w, m) && listed(w, m) by {
        assert(alive(h1, m)); assert(node_ok(h1, m)); assert(kids(w, m) == kids(h1, m));
        assert forall|j: int| 0 <= j < kids(w, m).len() implies alive(w, #[trigger] kids(w, m)[j]) && w[kids(w, m)[j]].link == Some(m) by { assert(alive(h1, kids(h1, m)[j])); }
        if m == p {
            assert forall|j: int| 0 <= j < atts(w, m).len() implies alive(w, #[trigger] atts(w, m)[j]) && w[atts(w, m)[j]].link == Some(m) && atts(w, m)[j] == (if j < s0.len() { s0[j] } else { t }) && atts(w, m)[j].node_type is Attribute by { if j < s0.len() { assert(alive(h1, atts(h1, m)[j])); } }
        } else { assert(atts(w, m) == atts(h1, m)); assert forall|j: int| 0 <= j < atts(w, m).len() implies alive(w, #[trigger] atts(w, m)[j]) && w[atts(w, m)[j]].link == Some(m) by { assert(alive(h1, atts(h1, m)[j])); } }
        if m == t { assert(atts(w, p)[s0.len() as int] == t); }
        else { assert(alive(h0, m)); assert(listed(h0, m)); assert(par(h1, m) == par(h0, m)); if par(w, m) == Some(p) && s0.contains(m) { let j = index(s0, m); assert(s0[j] == m && 0 <= j < s0.len()); assert(atts(w, p)[j] == m); } }
    }
}
proof fn lemma_att_grown(h1: HV, curr: RcNode, t: RcNode)
    requires wf(h1), alive(h1, curr), fresh(h1, t), t.parent is Some, !(curr.node_type is Attribute), t.node_type is Attribute
    ensures ({ let h2 = new_att(h1, curr, t);
        &&& grown(h1, h2, curr) && atts(h2, curr) == atts(h1, curr).push(t) && kids(h2, curr) == kids(h1, curr) && alive(h2, t) && kids(h2, t).len() == 0 && atts(h2, t).len() == 0 && alive(h2, curr) })
{
    let h2 = new_att(h1, curr, t);
    lemma_new_att(h1, curr, t);
    assert(atts(h2, curr) =~= atts(h1, curr).push(t));
    assert forall|m: RcNode| #[trigger] alive(h1, m) implies alive(h2, m) && (m == curr || h2[m] == h1[m]) && par(h2, m) == par(h1, m) by { assert(m != t); assert(h1[m].link != Some(t)); }
}
proof fn lemma_read_att(h1: HV, root: RcNode, fr: Seq<Fr>, curr: RcNode, t: RcNode)
    requires wf(h1), opened(h1, root, curr, fr, true), fresh(h1, t), t.parent is Some, !(curr.node_type is Attribute), t.node_type is Attribute
    ensures ({ let h2 = new_att(h1, curr, t);
        &&& wf(h2)
        &&& opened(h2, root, curr, fr.update(fr.len() - 1, Fr { attrs: fr.last().attrs.push(leaf(NodeType::Attribute, t.name@, t.value@)), ..fr.last() }), true)
        &&& forall|m: RcNode| #[trigger] alive(h1, m) ==> alive(h2, m) && (m == curr || h2[m] == h1[m]) })
{
    let h2 = new_att(h1, curr, t);
    lemma_att_grown(h1, curr, t);
    lemma_opened_top(h1, h2, root, fr, curr);
    lemma_leaf(h2, t);
    let c = leaf(t.node_type, t.name@, t.value@); let ats = atts(h1, curr);
    assert(trees(h2, ats.push(t)) =~= trees(h2, ats).push(c));
    let f2 = fr.update(fr.len() - 1, Fr { attrs: fr.last().attrs.push(c), ..fr.last() });
    assert(f2.drop_last() =~= fr.drop_last());
    assert(f2.last() == (Fr { attrs: fr.last().attrs.push(c), ..fr.last() }));
}
/// the end of curr
proof fn lemma_read_end(h: HV, root: RcNode, fr: Seq<Fr>, curr: RcNode)
    requires wf(h), opened(h, root, curr, fr, true)
    ensures fr.len() == 1 ==> curr == root && par(h, curr) is None && curr.node_type is DocumentRoot,
        fr.len() > 1 ==> curr.node_type is Element && (par(h, curr) matches Some(p) && alive(h, p) && opened(h, root, p, close(fr), true))
{
    if fr.len() > 1 {
        let p = par(h, curr)->Some_0; let fp = fr.drop_last();
        lemma_tree(h, curr);
        let c = Content::Node { ty: NodeType::Element, name: fr.last().name, value: seq![], attrs: fr.last().attrs, kids: fr.last().kids };
        assert(tree(h, curr) == c);
        assert(kids(h, p) =~= kids(h, p).drop_last().push(curr));
        assert(opened(h, root, p, fp, false));
        let ks = kids(h, p); assert(ks.drop_last().push(curr) =~= ks);
        assert(trees(h, ks.drop_last()) == fp.last().kids);
        assert(trees(h, ks.drop_last()).push(c) =~= trees(h, ks));
        assert(close(fr).drop_last() =~= fp.drop_last());
        assert(close(fr).last().attrs == fp.last().attrs);
        assert(opened(h, root, p, fp, false));
    }
}
proof fn lemma_opened_type(h: HV, root: RcNode, n: RcNode, fr: Seq<Fr>, top: bool) requires opened(h, root, n, fr, top) ensures n.node_type is DocumentRoot || n.node_type is Element, fr.len() > 0, alive(h, n), n.name@ == fr.last().name {}
/// at the end of the text: what has been read of the document
spec fn read_of(h: HV, root: RcNode, fr: Seq<Fr>) -> bool { exists|n: RcNode| #[trigger] opened(h, root, n, fr, true) }
/// the new document
spec fn filtered(s: Seq<char>) -> Seq<char> { s.filter(|c: char| c != '\r') }
#[verifier::external_body]
fn vfilter(s: &str, f: impl Fn(&char) -> bool) -> (r: Vec<char>)
    requires forall|c: char| #[trigger] f.requires((&c,))
    ensures r@.len() <= s@.len(), forall|p: spec_fn(char) -> bool| (forall|c: char, b: bool| #[trigger] f.ensures((&c,), b) ==> b == p(c)) ==> r@ == #[trigger] s@.filter(p)
{ unimplemented!() }
spec fn attr_frame(name: Seq<char>, a: Seq<(Seq<char>, Seq<char>)>, j: int) -> Fr { Fr { name, attrs: attr_nodes(a.take(j)), kids: seq![] } }
proof fn lemma_attr_frame(fr: Seq<Fr>, name: Seq<char>, a: Seq<(Seq<char>, Seq<char>)>, j: int) requires 0 <= j < a.len()
    ensures ({ let f = fr.push(attr_frame(name, a, j)); f.update(f.len() - 1, Fr { attrs: f.last().attrs.push(leaf(NodeType::Attribute, a[j].0, a[j].1)), ..f.last() }) == fr.push(attr_frame(name, a, j + 1)) })
{
    let f = fr.push(attr_frame(name, a, j));
    assert(attr_nodes(a.take(j)).push(leaf(NodeType::Attribute, a[j].0, a[j].1)) =~= attr_nodes(a.take(j + 1)));
    assert(f.update(f.len() - 1, Fr { attrs: f.last().attrs.push(leaf(NodeType::Attribute, a[j].0, a[j].1)), ..f.last() }) =~= fr.push(attr_frame(name, a, j + 1)));
}
proof fn lemma_new_root(h0: HV, t: RcNode) requires wf(h0), fresh(h0, t), t.node_type is DocumentRoot
    ensures ({ let h1 = h0.insert(t, NV { kids: Seq::empty(), attrs: Seq::empty(), link: None, order: 0 });
        wf(h1) && (forall|m: RcNode| #[trigger] alive(h0, m) ==> alive(h1, m) && h1[m] == h0[m]) && (t.name@ == Seq::<char>::empty() && t.value@ == Seq::<char>::empty() ==> opened(h1, t, t, seq![Fr { name: seq![], attrs: seq![], kids: seq![] }], true)) })
{
    let h1 = h0.insert(t, NV { kids: Seq::empty(), attrs: Seq::empty(), link: None, order: 0 });
    let (f, b) = choose|f: spec_fn(RcNode) -> nat, b: nat| ranked(h0, f, b);
    let g = |n: RcNode| -> nat { if n == t { 0 } else { f(n) } };
    assert forall|n: RcNode| #[trigger] alive(h1, n) implies g(n) <= b && match par(h1, n) { Some(q) => g(q) < g(n), None => true } by {
        if n != t { assert(alive(h0, n)); assert(h0[n].link != Some(t)); assert(par(h1, n) == par(h0, n)); if let Some(q) = par(h0, n) { assert(alive(h0, q)); } } }
    assert(ranked(h1, g, b));
    assert forall|n: RcNode| #[trigger] alive(h1, n) implies node_ok(h1, n) && listed(h1, n) by { if n != t { assert(alive(h0, n)); assert(node_ok(h0, n)); assert(listed(h0, n)); assert(h0[n].link != Some(t)); assert(par(h1, n) == par(h0, n));
        assert forall|i: int| 0 <= i < kids(h1, n).len() implies alive(h1, #[trigger] kids(h1, n)[i]) && h1[kids(h1, n)[i]].link == Some(n) by { assert(alive(h0, kids(h0, n)[i])); }
        assert forall|i: int| 0 <= i < atts(h1, n).len() implies alive(h1, #[trigger] atts(h1, n)[i]) && h1[atts(h1, n)[i]].link == Some(n) by { assert(alive(h0, atts(h0, n)[i])); }
    } }
    assert(trees(h1, kids(h1, t)) =~= Seq::<Content>::empty()); assert(trees(h1, atts(h1, t)) =~= Seq::<Content>::empty());
}
spec fn fr0() -> Seq<Fr> { seq![Fr { name: Seq::empty(), attrs: Seq::empty(), kids: Seq::empty() }] }
/// the whole text reads as its rest from i on does
spec fn goes_on(s: Seq<char>, i: int, tc: Seq<char>, fr: Seq<Fr>) -> bool { forall|n: nat, out: Option<Seq<Fr>>| #[trigger] reads(s, i, tc, fr, n, out) ==> ends_as(s, out) }
spec fn ends_as(s: Seq<char>, out: Option<Seq<Fr>>) -> bool { exists|m: nat| #[trigger] reads(s, 0, seq![], fr0(), m, out) }
proof fn lemma_goes_on(s: Seq<char>, i: int, tc: Seq<char>, fr: Seq<Fr>)
    requires goes_on(s, i, tc, fr)
    ensures forall|r: Result<XmlToken, VErr>, e: int, tc2: Seq<char>| #[trigger] one(s, i, tc, r, e, tc2) ==> match r { Err(_) => ends_as(s, None), Ok(XmlToken::EOF) => ends_as(s, Some(fr)),
        Ok(t) => match fed(fr, t) { None => ends_as(s, None), Some(fr2) => goes_on(s, e, tc2, fr2) } }
{
    assert forall|r: Result<XmlToken, VErr>, e: int, tc2: Seq<char>| #[trigger] one(s, i, tc, r, e, tc2) implies match r { Err(_) => ends_as(s, None), Ok(XmlToken::EOF) => ends_as(s, Some(fr)),
        Ok(t) => match fed(fr, t) { None => ends_as(s, None), Some(fr2) => goes_on(s, e, tc2, fr2) } } by {
    match r {
        Err(_) => { assert(reads(s, i, tc, fr, 0, None)); }
        Ok(XmlToken::EOF) => { assert(reads(s, i, tc, fr, 0, Some(fr))); }
        Ok(t) => match fed(fr, t) { None => { assert(reads(s, i, tc, fr, 0, None)); }
            Some(fr2) => { assert forall|n: nat, out: Option<Seq<Fr>>| #[trigger] reads(s, e, tc2, fr2, n, out) implies ends_as(s, out) by { assert(reads(s, i, tc, fr, n + 1, out)); } } }
    } }
}

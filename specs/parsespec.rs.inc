// ---- syntax trees
pub enum T { Nil, N { ty: XNodeType, nm: Seq<char>, l: Box<T>, r: Box<T> } }
pub open spec fn nd(ty: XNodeType, nm: Seq<char>, l: T, r: T) -> T { T::N { ty, nm, l: Box::new(l), r: Box::new(r) } }
pub open spec fn leaf(ty: XNodeType, nm: Seq<char>) -> T { nd(ty, nm, T::Nil, T::Nil) }
pub type R = Option<(T, int)>;

// ---- the grammar: every function reads the tokens ts from position i and gives the tree and the position after it, or no
// value when the text is malformed; the tree Nil stands for "nothing of that kind here"
pub open spec fn tk(ts: Seq<Tok>, i: int) -> TType { ts[i].0 }
pub open spec fn tx(ts: Seq<Tok>, i: int) -> Seq<char> { ts[i].1 }
pub open spec fn is_nm(ts: Seq<Tok>, i: int, w: Seq<char>) -> bool { tk(ts, i) == TType::Name && tx(ts, i) == w }
/// a value, at a position that has not gone back; a tree that is not Nil has used a token
pub open spec fn ok(r: R, i: int, n: nat) -> bool { r is Some && i <= (r->0).1 < n && (!((r->0).0 is Nil) ==> i < (r->0).1) }
/// .. and not Nil
pub open spec fn got(r: R, i: int, n: nat) -> bool { ok(r, i, n) && !((r->0).0 is Nil) }
pub open spec fn nil(i: int) -> R { Some((T::Nil, i)) }

// names
pub type S = Option<(Seq<char>, int)>;
pub open spec fn oks(r: S, i: int, n: nat) -> bool { r is Some && i <= (r->0).1 < n && ((r->0).0 != ""@ ==> i < (r->0).1) }
pub open spec fn oks1(r: S, i: int, n: nat) -> bool { oks(r, i, n) && (r->0).0 != ""@ }
#[verifier::opaque]
pub open spec fn p_qname(ts: Seq<Tok>, i: int, pf: Seq<char>) -> S {
    if tk(ts, i) != TType::Name { Some((""@, i)) }
    else if tk(ts, i + 1) != TType::Colon { Some((if pf != ""@ { pf + ":"@ + tx(ts, i) } else { tx(ts, i) }, i + 1)) }
    else if tk(ts, i + 2) != TType::Name { None }
    else { Some((tx(ts, i) + tx(ts, i + 1) + tx(ts, i + 2), i + 3)) }
}
#[verifier::opaque]
pub open spec fn p_eqname(ts: Seq<Tok>, i: int, pf: Seq<char>) -> S {
    match p_qname(ts, i, pf) {
        None => None,
        Some((s, j)) => if s != ""@ { Some((s, j)) }
            else if tk(ts, j) == TType::BracedURILiteral && tk(ts, j + 1) == TType::Name { Some((tx(ts, j) + tx(ts, j + 1), j + 2)) }
            else { Some((""@, j)) } }
}
#[verifier::opaque]
pub open spec fn p_wildcard(ts: Seq<Tok>, i: int) -> S {
    let t = tk(ts, i); let u = tk(ts, i + 1);
    if t == TType::Asterisk { Some((tx(ts, i), i + 1)) }
    else if (t == TType::Name && u == TType::ColonAsterisk) || (t == TType::AsteriskColon && u == TType::Name) || (t == TType::BracedURILiteral && u == TType::Asterisk) { Some((tx(ts, i) + tx(ts, i + 1), i + 2)) }
    else { Some((""@, i)) }
}

// kind tests
/// the arguments of element(..) and attribute(..)
#[verifier::opaque]
pub open spec fn p_names(ts: Seq<Tok>, i: int, opt: bool, d: Seq<char>) -> Option<(Seq<char>, Seq<char>, int)> {
    let e = p_eqname(ts, i, ""@);
    if !oks(e, i, ts.len()) { None } else {
        let (s, j) = if (e->0).0 == ""@ && tk(ts, (e->0).1) == TType::Asterisk { ("*"@, (e->0).1 + 1) } else { e->0 };
        if s != ""@ && tk(ts, j) == TType::Comma {
            let t = p_eqname(ts, j + 1, "xs"@);
            if !oks1(t, j + 1, ts.len()) { None }
            else if opt && tk(ts, (t->0).1) == TType::Question { Some((s, (t->0).0 + "?"@, (t->0).1 + 1)) }
            else { Some((s, (t->0).0, (t->0).1)) }
        } else { Some((if s == ""@ { "*"@ } else { s }, d, j)) }
    }
}
#[verifier::opaque]
pub open spec fn p_named(ts: Seq<Tok>, i: int, k: TType, ty: XNodeType, opt: bool, d: Seq<char>) -> R {
    if tk(ts, i) != k { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None } else {
        match p_names(ts, i + 2, opt, d) { None => None, Some((s, t, j)) => if tk(ts, j) != TType::RightParen { None } else { Some((nd(ty, s, leaf(XNodeType::KindTestTypeName, t), T::Nil), j + 1)) } } }
}
#[verifier::opaque]
pub open spec fn p_elem(ts: Seq<Tok>, i: int) -> R { p_named(ts, i, TType::ElementTest, XNodeType::ElementTest, true, "xs:anyType?"@) }
#[verifier::opaque]
pub open spec fn p_attr(ts: Seq<Tok>, i: int) -> R { p_named(ts, i, TType::AttributeTest, XNodeType::AttributeTest, false, "xs:anyType"@) }
#[verifier::opaque]
pub open spec fn p_one(ts: Seq<Tok>, i: int, k: TType, ty: XNodeType) -> R {
    if tk(ts, i) != k { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None } else {
        let e = p_eqname(ts, i + 2, ""@);
        if !oks1(e, i + 2, ts.len()) || tk(ts, (e->0).1) != TType::RightParen { None } else { Some((leaf(ty, (e->0).0), (e->0).1 + 1)) } }
}
#[verifier::opaque]
pub open spec fn p_none(ts: Seq<Tok>, i: int, k: TType, ty: XNodeType) -> R {
    if tk(ts, i) != k { nil(i) } else if tk(ts, i + 1) != TType::LeftParen || tk(ts, i + 2) != TType::RightParen { None } else { Some((leaf(ty, ""@), i + 3)) }
}
#[verifier::opaque]
pub open spec fn p_pi(ts: Seq<Tok>, i: int) -> R {
    if tk(ts, i) != TType::PITest { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None }
    else if tk(ts, i + 2) == TType::Name || tk(ts, i + 2) == TType::StringLiteral { if tk(ts, i + 3) != TType::RightParen { None } else { Some((leaf(XNodeType::PITest, tx(ts, i + 2)), i + 4)) } }
    else if tk(ts, i + 2) == TType::RightParen { Some((leaf(XNodeType::PITest, ""@), i + 3)) } else { None }
}
#[verifier::opaque]
pub open spec fn p_schema_elem(ts: Seq<Tok>, i: int) -> R { p_one(ts, i, TType::SchemaElementTest, XNodeType::SchemaElementTest) }
#[verifier::opaque]
pub open spec fn p_schema_attr(ts: Seq<Tok>, i: int) -> R { p_one(ts, i, TType::SchemaAttributeTest, XNodeType::SchemaAttributeTest) }
#[verifier::opaque]
pub open spec fn p_doc(ts: Seq<Tok>, i: int) -> R {
    if tk(ts, i) != TType::DocumentTest { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None } else {
        let e = p_elem(ts, i + 2);
        let f = if e is Some && (e->0).0 is Nil { p_schema_elem(ts, i + 2) } else { e };
        if f is None || tk(ts, (f->0).1) != TType::RightParen { None } else { Some((nd(XNodeType::DocumentTest, ""@, (f->0).0, T::Nil), (f->0).1 + 1)) } }
}
/// the first of two alternatives that is there
pub open spec fn or_else(a: R, b: R) -> R { if a is Some && (a->0).0 is Nil { b } else { a } }
#[verifier::opaque]
pub open spec fn p_kind(ts: Seq<Tok>, i: int) -> R {
    let k = or_else(p_doc(ts, i), or_else(p_elem(ts, i), or_else(p_attr(ts, i), or_else(p_schema_elem(ts, i), or_else(p_schema_attr(ts, i), or_else(p_pi(ts, i),
        or_else(p_none(ts, i, TType::CommentTest, XNodeType::CommentTest), or_else(p_none(ts, i, TType::TextTest, XNodeType::TextTest),
        or_else(p_none(ts, i, TType::NamespaceNodeTest, XNodeType::NamespaceNodeTest), p_none(ts, i, TType::AnyKindTest, XNodeType::AnyKindTest))))))))));
    if k is None || (k->0).0 is Nil { k } else { Some((nd(XNodeType::KindTest, ""@, (k->0).0, T::Nil), (k->0).1)) }
}

// sequence types
#[verifier::opaque]
pub open spec fn p_seqtype(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 40int {
    if !(0 <= i < ts.len()) { None } else {
        let a = p_none(ts, i, TType::EmptySequence, XNodeType::EmptySequenceTest);
        if a is None { None } else if !((a->0).0 is Nil) { Some((nd(XNodeType::SequenceType, ""@, (a->0).0, T::Nil), (a->0).1)) } else {
            let b = p_item(ts, i);
            if !ok(b, i, ts.len()) { None } else if (b->0).0 is Nil { b } else {
                let j = (b->0).1; let k = tk(ts, j);
                if k == TType::Question || k == TType::Asterisk || k == TType::Plus { Some((nd(XNodeType::SequenceType, tx(ts, j), (b->0).0, T::Nil), j + 1)) }
                else { Some((nd(XNodeType::SequenceType, ""@, (b->0).0, T::Nil), j)) } } } }
}
#[verifier::opaque]
pub open spec fn p_item(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 39int {
    if !(0 <= i < ts.len()) { None } else {
        let a = or_else(p_kind(ts, i), or_else(p_none(ts, i, TType::Item, XNodeType::ItemTest), or_else(p_ftest(ts, i), or_else(p_mtest(ts, i), p_atest(ts, i)))));
        if a is None { None } else if !((a->0).0 is Nil) { a } else {
            let e = p_eqname(ts, i, "xs"@);
            if !oks(e, i, ts.len()) { None } else if (e->0).0 != ""@ { Some((leaf(XNodeType::AtomicOrUnionType, (e->0).0), (e->0).1)) }
            else { p_pit(ts, (e->0).1) } } }
}
#[verifier::opaque]
pub open spec fn p_pit(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 38int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::LeftParen { nil(i) } else {
        let t = p_item(ts, i + 1);
        if !got(t, i + 1, ts.len()) || tk(ts, (t->0).1) != TType::RightParen { None } else { Some((nd(XNodeType::ParenthesizedItemType, ""@, (t->0).0, T::Nil), (t->0).1 + 1)) } }
}
#[verifier::opaque]
pub open spec fn p_ftest(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 37int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Function { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None }
    else if tk(ts, i + 2) == TType::Asterisk { if tk(ts, i + 3) != TType::RightParen { None } else { Some((leaf(XNodeType::AnyFunctionTest, ""@), i + 4)) } }
    else {
        let l = p_stlist(ts, i + 2);
        if !ok(l, i + 2, ts.len()) || tk(ts, (l->0).1) != TType::RightParen || !is_nm(ts, (l->0).1 + 1, "as"@) { None } else {
            let s = p_seqtype(ts, (l->0).1 + 2);
            if !got(s, (l->0).1 + 2, ts.len()) { None } else { Some((nd(XNodeType::TypedFunctionTest, ""@, T::Nil, nd(XNodeType::ReturnType, ""@, (s->0).0, (l->0).0)), (s->0).1)) } } }
}
#[verifier::opaque]
pub open spec fn p_stlist(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 41int {
    if !(0 <= i < ts.len()) { None } else {
        let a = p_seqtype(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else {
            let b = p_strest(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(XNodeType::Param, ""@, (a->0).0, (b->0).0), (b->0).1)) } } }
}
#[verifier::opaque]
pub open spec fn p_strest(ts: Seq<Tok>, j: int) -> R decreases ts.len() + 4 - j, 1int {
    if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Comma { nil(j) } else {
        let a = p_seqtype(ts, j + 1);
        if !got(a, j + 1, ts.len()) { None } else {
            let b = p_strest(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(XNodeType::Param, ""@, (a->0).0, (b->0).0), (b->0).1)) } } }
}
/// item()*
pub open spec fn any_items() -> T { nd(XNodeType::SequenceType, "*"@, leaf(XNodeType::ItemTest, ""@), T::Nil) }
#[verifier::opaque]
pub open spec fn p_mtest(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 37int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::MapTest { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None }
    else if tk(ts, i + 2) == TType::Asterisk { if tk(ts, i + 3) != TType::RightParen { None } else { Some((nd(XNodeType::MapTest, ""@, leaf(XNodeType::AtomicOrUnionType, "xs:anyAtomicType"@), any_items()), i + 4)) } }
    else {
        let e = p_eqname(ts, i + 2, "xs"@);
        if !oks1(e, i + 2, ts.len()) || tk(ts, (e->0).1) != TType::Comma { None } else {
            let s = p_seqtype(ts, (e->0).1 + 1);
            if !got(s, (e->0).1 + 1, ts.len()) || tk(ts, (s->0).1) != TType::RightParen { None } else { Some((nd(XNodeType::MapTest, ""@, leaf(XNodeType::AtomicOrUnionType, (e->0).0), (s->0).0), (s->0).1 + 1)) } } }
}
#[verifier::opaque]
pub open spec fn p_atest(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 37int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::ArrayTest { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None }
    else if tk(ts, i + 2) == TType::Asterisk { if tk(ts, i + 3) != TType::RightParen { None } else { Some((nd(XNodeType::ArrayTest, ""@, any_items(), T::Nil), i + 4)) } }
    else {
        let s = p_seqtype(ts, i + 2);
        if !got(s, i + 2, ts.len()) || tk(ts, (s->0).1) != TType::RightParen { None } else { Some((nd(XNodeType::ArrayTest, ""@, (s->0).0, T::Nil), (s->0).1 + 1)) } }
}
#[verifier::opaque]
pub open spec fn p_single_type(ts: Seq<Tok>, i: int) -> R {
    let e = p_eqname(ts, i, ""@);
    if e is None { None } else if (e->0).0 == ""@ { nil((e->0).1) } else {
        let j = (e->0).1; let q = tk(ts, j) == TType::Question;
        Some((nd(XNodeType::SingleType, ""@, leaf(XNodeType::TypeName, if q { (e->0).0 + tx(ts, j) } else { (e->0).0 }), T::Nil), if q { j + 1 } else { j })) }
}

// ---- the operators by level, from loosest to tightest, as in the XPath 3.1 grammar; every level is a table of tokens
//  0 ','   1 or   2 and   3 comparisons   4 '||'   5 to   6 + -   7 * div idiv mod   8 union |   9 intersect except
//  [instance of, treat as, castable as, cast as, =>, unary + -]   10 '!'   [paths]
pub open spec fn tab(lev: int) -> Seq<(TType, XNodeType)> {
    if lev == 0 { seq![(TType::Comma, XNodeType::OperatorConcatenate)] }
    else if lev == 1 { seq![(TType::Or, XNodeType::OperatorOr)] }
    else if lev == 2 { seq![(TType::And, XNodeType::OperatorAnd)] }
    else if lev == 3 { seq![(TType::ValueEQ, XNodeType::OperatorValueEQ), (TType::ValueNE, XNodeType::OperatorValueNE), (TType::ValueLT, XNodeType::OperatorValueLT), (TType::ValueGT, XNodeType::OperatorValueGT), (TType::ValueLE, XNodeType::OperatorValueLE), (TType::ValueGE, XNodeType::OperatorValueGE), (TType::GeneralEQ, XNodeType::OperatorGeneralEQ), (TType::GeneralNE, XNodeType::OperatorGeneralNE), (TType::GeneralLT, XNodeType::OperatorGeneralLT), (TType::GeneralGT, XNodeType::OperatorGeneralGT), (TType::GeneralLE, XNodeType::OperatorGeneralLE), (TType::GeneralGE, XNodeType::OperatorGeneralGE), (TType::IsSameNode, XNodeType::OperatorIsSameNode), (TType::NodeBefore, XNodeType::OperatorNodeBefore), (TType::NodeAfter, XNodeType::OperatorNodeAfter)] }
    else if lev == 4 { seq![(TType::OperatorConcat, XNodeType::OperatorConcat)] }
    else if lev == 5 { seq![(TType::To, XNodeType::OperatorTo)] }
    else if lev == 6 { seq![(TType::Plus, XNodeType::OperatorAdd), (TType::Minus, XNodeType::OperatorSubtract)] }
    else if lev == 7 { seq![(TType::Asterisk, XNodeType::OperatorMultiply), (TType::Div, XNodeType::OperatorDiv), (TType::IDiv, XNodeType::OperatorIDiv), (TType::Mod, XNodeType::OperatorMod)] }
    else if lev == 8 { seq![(TType::Union, XNodeType::OperatorUnion)] }
    else if lev == 9 { seq![(TType::Intersect, XNodeType::OperatorIntersect), (TType::Except, XNodeType::OperatorExcept)] }
    else if lev == 10 { seq![(TType::OperatorMap, XNodeType::OperatorMap)] }
    else { Seq::empty() }
}
/// the pair of a token in a table
pub open spec fn tlook<V>(t: Seq<(TType, V)>, n: TType) -> Option<V> decreases t.len()
{ if t.len() == 0 { None } else if t.last().0 == n { Some(t.last().1) } else { tlook(t.drop_last(), n) } }
pub open spec fn op(lev: int, t: TType) -> Option<XNodeType> { tlook(tab(lev), t) }
/// comparisons and "to" do not associate
pub open spec fn once(lev: int) -> bool { lev == 3 || lev == 5 }
/// an operand of level lev
#[verifier::opaque]
pub open spec fn p_sub(ts: Seq<Tok>, i: int, lev: int) -> R decreases ts.len() + 4 - i, 200 - 10 * lev - 1 {
    if !(0 <= i < ts.len()) || !(0 <= lev <= 10) { None }
    else if lev == 0 { p_single(ts, i) } else if lev <= 8 { p_bin(ts, i, lev + 1) } else if lev == 9 { p_instance(ts, i) } else { p_path(ts, i) }
}
/// operand (operator operand)*: a chain groups from the left
#[verifier::opaque]
pub open spec fn p_bin(ts: Seq<Tok>, i: int, lev: int) -> R decreases ts.len() + 4 - i, 200 - 10 * lev {
    if !(0 <= i < ts.len()) || !(0 <= lev <= 10) { None } else {
        let a = p_sub(ts, i, lev);
        if !ok(a, i, ts.len()) { None } else { p_ops(ts, (a->0).1, lev, (a->0).0) } }
}
#[verifier::opaque]
pub open spec fn p_ops(ts: Seq<Tok>, j: int, lev: int, t: T) -> R decreases ts.len() + 4 - j, 1int {
    if !(0 <= j < ts.len()) || !(0 <= lev <= 10) { None } else {
        match op(lev, tk(ts, j)) { None => Some((t, j)), Some(ty) => if t is Nil { None } else {
            let b = p_sub(ts, j + 1, lev);
            if !got(b, j + 1, ts.len()) { None } else {
                let x = nd(ty, tx(ts, j), t, (b->0).0);
                if once(lev) { Some((x, (b->0).1)) } else { p_ops(ts, (b->0).1, lev, x) } } } } }
}
// for, let, some, every, if
#[verifier::opaque]
pub open spec fn p_single(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 195int {
    if !(0 <= i < ts.len()) { None } else { or_else(p_for(ts, i), or_else(p_let(ts, i), or_else(p_quant(ts, i), or_else(p_if(ts, i), p_bin(ts, i, 1))))) }
}
pub open spec fn clause(ts: Seq<Tok>, i: int, ty: XNodeType, nm: Seq<char>, b: R) -> R { if !ok(b, i + 1, ts.len()) { None } else { Some((nd(ty, nm, T::Nil, (b->0).0), (b->0).1)) } }
#[verifier::opaque]
pub open spec fn p_for(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 194int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::For { nil(i) } else { clause(ts, i, XNodeType::ForExpr, "for"@, p_binds(ts, i + 1, XNodeType::ForVarBind, "return"@)) }
}
#[verifier::opaque]
pub open spec fn p_let(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 194int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Let { nil(i) } else { clause(ts, i, XNodeType::LetExpr, "let"@, p_binds(ts, i + 1, XNodeType::LetVarBind, "return"@)) }
}
#[verifier::opaque]
pub open spec fn p_quant(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 194int {
    if !(0 <= i < ts.len()) { None }
    else if tk(ts, i) == TType::Some { clause(ts, i, XNodeType::SomeExpr, "some"@, p_binds(ts, i + 1, XNodeType::SomeVarBind, "satisfies"@)) }
    else if tk(ts, i) == TType::Every { clause(ts, i, XNodeType::EveryExpr, "every"@, p_binds(ts, i + 1, XNodeType::EveryVarBind, "satisfies"@)) }
    else { nil(i) }
}
/// the bindings, the word after them and the body
#[verifier::opaque]
pub open spec fn p_binds(ts: Seq<Tok>, i: int, vt: XNodeType, word: Seq<char>) -> R decreases ts.len() + 4 - i, 193int {
    if !(0 <= i < ts.len()) { None } else {
        let b = p_bind(ts, i, vt);
        if !got(b, i, ts.len()) { None } else {
            let c = p_binds_rest(ts, (b->0).1, vt, word);
            if !ok(c, (b->0).1, ts.len()) { None } else { Some((app((b->0).0, (c->0).0), (c->0).1)) } } }
}
#[verifier::opaque]
pub open spec fn p_binds_rest(ts: Seq<Tok>, j: int, vt: XNodeType, word: Seq<char>) -> R decreases ts.len() + 4 - j, 1int {
    if !(0 <= j < ts.len()) { None }
    else if tk(ts, j) == TType::Comma { let c = p_binds(ts, j + 1, vt, word); if !ok(c, j + 1, ts.len()) { None } else { c } }
    else if is_nm(ts, j, word) { let e = p_single(ts, j + 1); if !got(e, j + 1, ts.len()) { None } else { e } }
    else { None }
}
#[verifier::opaque]
pub open spec fn p_bind(ts: Seq<Tok>, i: int, vt: XNodeType) -> R decreases ts.len() + 4 - i, 192int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Dollar { nil(i) } else {
        let v = p_eqname(ts, i + 1, ""@);
        if !oks1(v, i + 1, ts.len()) { None } else {
            let j = (v->0).1;
            if !(if vt == XNodeType::LetVarBind { tk(ts, j) == TType::Bind } else { is_nm(ts, j, "in"@) }) { None } else {
                let e = p_single(ts, j + 1);
                if !got(e, j + 1, ts.len()) { None } else { Some((nd(vt, (v->0).0, (e->0).0, T::Nil), (e->0).1)) } } } }
}
#[verifier::opaque]
pub open spec fn p_if(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 194int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::If { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None } else {
        let c = p_bin(ts, i + 2, 0);
        if !got(c, i + 2, ts.len()) || tk(ts, (c->0).1) != TType::RightParen || !is_nm(ts, (c->0).1 + 1, "then"@) { None } else {
            let a = p_single(ts, (c->0).1 + 2);
            if !got(a, (c->0).1 + 2, ts.len()) || !is_nm(ts, (a->0).1, "else"@) { None } else {
                let b = p_single(ts, (a->0).1 + 1);
                if !got(b, (a->0).1 + 1, ts.len()) { None } else { Some((nd(XNodeType::IfExpr, "if_expr"@, (c->0).0, nd(XNodeType::IfThenElse, "if_then_else"@, (a->0).0, (b->0).0)), (b->0).1)) } } } }
}
// instance of, treat as, castable as, cast as: at most once each
pub open spec fn typed(ts: Seq<Tok>, i: int, a: R, k: TType, ty: XNodeType, s: R) -> R {
    if !ok(a, i, ts.len()) { None } else if tk(ts, (a->0).1) != k { a }
    else if (a->0).0 is Nil || !got(s, (a->0).1 + 1, ts.len()) { None } else { Some((nd(ty, ""@, (a->0).0, (s->0).0), (s->0).1)) }
}
#[verifier::opaque]
pub open spec fn p_instance(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 108int {
    if !(0 <= i < ts.len()) { None } else { let a = p_treat(ts, i); typed(ts, i, a, TType::InstanceOf, XNodeType::OperatorInstanceOf, p_seqtype(ts, (a->0).1 + 1)) } }
#[verifier::opaque]
pub open spec fn p_treat(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 107int {
    if !(0 <= i < ts.len()) { None } else { let a = p_castable(ts, i); typed(ts, i, a, TType::TreatAs, XNodeType::OperatorTreatAs, p_seqtype(ts, (a->0).1 + 1)) } }
#[verifier::opaque]
pub open spec fn p_castable(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 106int {
    if !(0 <= i < ts.len()) { None } else { let a = p_cast(ts, i); typed(ts, i, a, TType::CastableAs, XNodeType::OperatorCastableAs, p_single_type(ts, (a->0).1 + 1)) } }
#[verifier::opaque]
pub open spec fn p_cast(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 105int {
    if !(0 <= i < ts.len()) { None } else { let a = p_arrow(ts, i); typed(ts, i, a, TType::CastAs, XNodeType::OperatorCastAs, p_single_type(ts, (a->0).1 + 1)) } }
#[verifier::opaque]
pub open spec fn p_arrow(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 104int {
    if !(0 <= i < ts.len()) { None } else { let a = p_unary(ts, i); if !ok(a, i, ts.len()) { None } else { p_arrows(ts, (a->0).1, (a->0).0) } } }
#[verifier::opaque]
pub open spec fn p_arrows(ts: Seq<Tok>, j: int, t: T) -> R decreases ts.len() + 4 - j, 1int {
    if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Arrow { Some((t, j)) } else if t is Nil { None } else {
        let f = p_eqname(ts, j + 1, "fn"@);
        if !oks(f, j + 1, ts.len()) { None }
        else if (f->0).0 != ""@ {
            let a = p_args(ts, (f->0).1);
            if !ok(a, (f->0).1, ts.len()) { None } else { p_arrows(ts, (a->0).1, nd(XNodeType::FunctionCall, (f->0).0, T::Nil, nd(XNodeType::ArgumentTop, ""@, t, (a->0).0))) }
        } else {
            let v = p_varref(ts, (f->0).1);
            if !got(v, (f->0).1, ts.len()) { None } else {
                let a = p_args(ts, (v->0).1);
                if !ok(a, (v->0).1, ts.len()) { None } else {
                    p_arrows(ts, (a->0).1, nd(XNodeType::ApplyArgument, ""@, (v->0).0, nd(XNodeType::ArgumentListTop, ""@, nd(XNodeType::ArgumentTop, ""@, t, (a->0).0), T::Nil))) } } } }
}
#[verifier::opaque]
pub open spec fn p_unary(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 103int {
    if !(0 <= i < ts.len()) { None }
    else if tk(ts, i) == TType::Minus { let u = p_unary(ts, i + 1); if !got(u, i + 1, ts.len()) { None } else { Some((nd(XNodeType::OperatorUnaryMinus, "-"@, T::Nil, (u->0).0), (u->0).1)) } }
    else if tk(ts, i) == TType::Plus { let u = p_unary(ts, i + 1); if !got(u, i + 1, ts.len()) { None } else { Some((nd(XNodeType::OperatorUnaryPlus, "+"@, T::Nil, (u->0).0), (u->0).1)) } }
    else { p_bin(ts, i, 10) }
}
// paths
pub open spec fn path(l: T, r: T) -> T { nd(XNodeType::OperatorPath, ""@, l, r) }
pub open spec fn any_depth() -> T { leaf(XNodeType::AxisDescendantOrSelf, "node()"@) }
#[verifier::opaque]
pub open spec fn p_path(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 98int {
    if !(0 <= i < ts.len()) { None }
    else if tk(ts, i) == TType::Slash { let r = p_rel(ts, i + 1); if !ok(r, i + 1, ts.len()) { None } else { Some((path(leaf(XNodeType::AxisRoot, "node()"@), (r->0).0), (r->0).1)) } }
    else if tk(ts, i) == TType::SlashSlash { let r = p_rel(ts, i + 1); if !got(r, i + 1, ts.len()) { None } else { Some((path(leaf(XNodeType::AxisRoot, "/"@), path(any_depth(), (r->0).0)), (r->0).1)) } }
    else { p_rel(ts, i) }
}
#[verifier::opaque]
pub open spec fn p_rel(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 97int {
    if !(0 <= i < ts.len()) { None } else {
        let a = p_step(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else {
            let b = p_steps(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((if (b->0).0 is Nil { (a->0).0 } else { path((a->0).0, (b->0).0) }, (b->0).1)) } } }
}
#[verifier::opaque]
pub open spec fn p_steps(ts: Seq<Tok>, j: int) -> R decreases ts.len() + 4 - j, 1int {
    if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Slash && tk(ts, j) != TType::SlashSlash { nil(j) } else {
        let a = p_step(ts, j + 1);
        if !got(a, j + 1, ts.len()) { None } else {
            let b = p_steps(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None }
            else if tk(ts, j) == TType::Slash { Some((path((a->0).0, (b->0).0), (b->0).1)) }
            else { Some((path(any_depth(), path((a->0).0, (b->0).0)), (b->0).1)) } } }
}
#[verifier::opaque]
pub open spec fn p_step(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 96int {
    if !(0 <= i < ts.len()) { None } else {
        let a = p_postfix(ts, i);
        if !ok(a, i, ts.len()) { None } else if !((a->0).0 is Nil) { a } else { p_axis(ts, (a->0).1) } }
}
#[verifier::opaque]
pub open spec fn p_postfix(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 95int {
    if !(0 <= i < ts.len()) { None } else {
        let a = p_primary(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else { p_posts(ts, (a->0).1, (a->0).0) } }
}
pub open spec fn post_type(p: T) -> XNodeType { match p { T::N { ty, nm, l, r } => match ty { XNodeType::PredicateTop => XNodeType::ApplyPredicate, XNodeType::ArgumentListTop => XNodeType::ApplyArgument, _ => XNodeType::OperatorMap }, T::Nil => XNodeType::Nil } }
#[verifier::opaque]
pub open spec fn p_posts(ts: Seq<Tok>, j: int, t: T) -> R decreases ts.len() + 4 - j, 60int {
    if !(0 <= j < ts.len()) { None } else {
        let x = p_post(ts, j);
        if !ok(x, j, ts.len()) { None } else if (x->0).0 is Nil { Some((t, (x->0).1)) } else { p_posts(ts, (x->0).1, nd(post_type((x->0).0), ""@, t, (x->0).0)) } }
}
#[verifier::opaque]
pub open spec fn p_post(ts: Seq<Tok>, j: int) -> R decreases ts.len() + 4 - j, 59int {
    if !(0 <= j < ts.len()) { None }
    else if tk(ts, j) == TType::LeftBracket { let p = p_pred(ts, j); if !ok(p, j, ts.len()) { None } else { Some((nd(XNodeType::PredicateTop, ""@, (p->0).0, T::Nil), (p->0).1)) } }
    else if tk(ts, j) == TType::LeftParen { let p = p_args(ts, j); if !(ok(p, j, ts.len()) && j < (p->0).1) { None } else { Some((nd(XNodeType::ArgumentListTop, ""@, (p->0).0, T::Nil), (p->0).1)) } }
    else if tk(ts, j) == TType::Question { p_lookup(ts, j) } else { nil(j) }
}
// primary expressions
#[verifier::opaque]
pub open spec fn p_primary(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 90int {
    if !(0 <= i < ts.len()) { None } else {
        or_else(p_lit(ts, i), or_else(p_varref(ts, i), or_else(p_paren(ts, i), or_else(p_ctx(ts, i), or_else(p_fcall(ts, i), or_else(p_fitem(ts, i), or_else(p_map(ts, i), or_else(p_array(ts, i), p_lookup(ts, i))))))))) }
}
#[verifier::opaque]
pub open spec fn p_lit(ts: Seq<Tok>, i: int) -> R {
    match tk(ts, i) { TType::StringLiteral => Some((leaf(XNodeType::StringLiteral, tx(ts, i)), i + 1)), TType::IntegerLiteral => Some((leaf(XNodeType::IntegerLiteral, tx(ts, i)), i + 1)),
        TType::DecimalLiteral => Some((leaf(XNodeType::DecimalLiteral, tx(ts, i)), i + 1)), TType::DoubleLiteral => Some((leaf(XNodeType::DoubleLiteral, tx(ts, i)), i + 1)), _ => nil(i) }
}
#[verifier::opaque]
pub open spec fn p_varref(ts: Seq<Tok>, i: int) -> R {
    if tk(ts, i) != TType::Dollar { nil(i) } else { let e = p_eqname(ts, i + 1, ""@); if !oks1(e, i + 1, ts.len()) { None } else { Some((leaf(XNodeType::VarRef, (e->0).0), (e->0).1)) } }
}
#[verifier::opaque]
pub open spec fn p_ctx(ts: Seq<Tok>, i: int) -> R { if tk(ts, i) == TType::Dot { Some((leaf(XNodeType::ContextItem, "."@), i + 1)) } else { nil(i) } }
#[verifier::opaque]
pub open spec fn p_paren(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 89int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::LeftParen { nil(i) } else {
        let e = p_bin(ts, i + 1, 0);
        if !ok(e, i + 1, ts.len()) || tk(ts, (e->0).1) != TType::RightParen { None } else { Some((nd(XNodeType::ParenthesizedExpr, ""@, (e->0).0, T::Nil), (e->0).1 + 1)) } }
}
/// the functions that exist, by name and number of arguments
pub uninterp spec fn known_fn(name: Seq<char>, arity: int) -> bool;
/// std's str::parse::<usize>
pub uninterp spec fn dec_of(s: Seq<char>) -> Option<usize>;
pub open spec fn spine_len(t: T) -> int decreases t { match t { T::Nil => 0, T::N { ty, nm, l, r } => 1 + spine_len(*r) } }
pub open spec fn has_hole(t: T) -> bool decreases t { match t { T::Nil => false, T::N { ty, nm, l, r } => ty == XNodeType::ArgumentPlaceholder || has_hole(*r) } }
#[verifier::opaque]
pub open spec fn p_fcall(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 89int {
    if !(0 <= i < ts.len()) { None } else {
        let f = p_eqname(ts, i, "fn"@);
        if !oks(f, i, ts.len()) { None } else if (f->0).0 == ""@ || tk(ts, (f->0).1) != TType::LeftParen { nil(i) } else {
            let a = p_args(ts, (f->0).1);
            if !ok(a, (f->0).1, ts.len()) || !known_fn((f->0).0, spine_len((a->0).0)) { None }
            else { Some((nd(if has_hole((a->0).0) { XNodeType::PartialFunctionCall } else { XNodeType::FunctionCall }, (f->0).0, T::Nil, (a->0).0), (a->0).1)) } } }
}
#[verifier::opaque]
pub open spec fn p_fitem(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 89int { if !(0 <= i < ts.len()) { None } else { or_else(p_nfr(ts, i), p_inline(ts, i)) } }
#[verifier::opaque]
pub open spec fn p_nfr(ts: Seq<Tok>, i: int) -> R {
    let f = p_eqname(ts, i, "fn"@);
    if !oks(f, i, ts.len()) { None } else {
        let j = (f->0).1;
        if (f->0).0 == ""@ || tk(ts, j) != TType::Sharp || tk(ts, j + 1) != TType::IntegerLiteral { nil(i) }
        else if dec_of(tx(ts, j + 1)) is None || !known_fn((f->0).0, dec_of(tx(ts, j + 1))->0 as int) { None }
        else { Some((leaf(XNodeType::NamedFunctionRef, (f->0).0 + "#"@ + tx(ts, j + 1)), j + 2)) } }
}
#[verifier::opaque]
pub open spec fn p_inline(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 88int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Function { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None } else {
        let a = p_params(ts, i + 2);
        if !ok(a, i + 2, ts.len()) || tk(ts, (a->0).1) != TType::RightParen { None } else {
            let j = (a->0).1 + 1;
            let s = if is_nm(ts, j, "as"@) { p_seqtype(ts, j + 1) } else { Some((any_items(), j)) };
            if s is None || (s->0).0 is Nil || !(j <= (s->0).1 < ts.len()) { None } else {
                let b = p_body(ts, (s->0).1);
                if !ok(b, (s->0).1, ts.len()) { None } else { Some((nd(XNodeType::InlineFunction, "(inline function)"@, (b->0).0, nd(XNodeType::ReturnType, ""@, (s->0).0, (a->0).0)), (b->0).1)) } } } }
}
#[verifier::opaque]
pub open spec fn p_body(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 1int {
    if !(0 <= i < ts.len()) || tk(ts, i) != TType::LeftCurly { None } else {
        let e = p_bin(ts, i + 1, 0);
        if !ok(e, i + 1, ts.len()) || tk(ts, (e->0).1) != TType::RightCurly { None } else { Some(((e->0).0, (e->0).1 + 1)) } }
}
#[verifier::opaque]
pub open spec fn p_param(ts: Seq<Tok>, i: int) -> R {
    if tk(ts, i) != TType::Dollar { nil(i) } else {
        let v = p_eqname(ts, i + 1, ""@);
        if !oks1(v, i + 1, ts.len()) { None }
        else if is_nm(ts, (v->0).1, "as"@) { let s = p_seqtype(ts, (v->0).1 + 1); if !got(s, (v->0).1 + 1, ts.len()) { None } else { Some((nd(XNodeType::Param, (v->0).0, (s->0).0, T::Nil), (s->0).1)) } }
        else { Some((nd(XNodeType::Param, (v->0).0, any_items(), T::Nil), (v->0).1)) } }
}
#[verifier::opaque]
pub open spec fn p_params(ts: Seq<Tok>, i: int) -> R {
    let a = p_param(ts, i);
    if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else { after(ts, a, p_params_rest(ts, (a->0).1)) }
}
/// a, followed on its right by b
pub open spec fn after(ts: Seq<Tok>, a: R, b: R) -> R { if !ok(b, (a->0).1, ts.len()) { None } else { Some((app((a->0).0, (b->0).0), (b->0).1)) } }
#[verifier::opaque]
pub open spec fn p_params_rest(ts: Seq<Tok>, j: int) -> R decreases ts.len() + 4 - j {
    if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Comma { nil(j) } else {
        let a = p_param(ts, j + 1);
        if !got(a, j + 1, ts.len()) { None } else { after(ts, a, p_params_rest(ts, (a->0).1)) } }
}
// maps and arrays
#[verifier::opaque]
pub open spec fn p_map(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 89int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Map { nil(i) } else if tk(ts, i + 1) != TType::LeftCurly { None } else {
        let e = p_entries(ts, i + 2);
        if !ok(e, i + 2, ts.len()) || tk(ts, (e->0).1) != TType::RightCurly { None } else { Some((nd(XNodeType::Map, ""@, (e->0).0, T::Nil), (e->0).1 + 1)) } }
}
#[verifier::opaque]
pub open spec fn p_entries(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 201int {
    if !(0 <= i < ts.len()) { None } else {
        let a = p_entry(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else {
            let b = p_entries_rest(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(XNodeType::MapConstruct, ""@, (a->0).0, (b->0).0), (b->0).1)) } } }
}
#[verifier::opaque]
pub open spec fn p_entries_rest(ts: Seq<Tok>, j: int) -> R decreases ts.len() + 4 - j, 1int {
    if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Comma { nil(j) } else {
        let a = p_entry(ts, j + 1);
        if !got(a, j + 1, ts.len()) { None } else {
            let b = p_entries_rest(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(XNodeType::MapConstruct, ""@, (a->0).0, (b->0).0), (b->0).1)) } } }
}
#[verifier::opaque]
pub open spec fn p_entry(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 200int {
    if !(0 <= i < ts.len()) { None } else {
        let k = p_single(ts, i);
        if !ok(k, i, ts.len()) { None } else if (k->0).0 is Nil { k } else if tk(ts, (k->0).1) != TType::Colon { None } else {
            let v = p_single(ts, (k->0).1 + 1);
            if !got(v, (k->0).1 + 1, ts.len()) { None } else { Some((nd(XNodeType::MapEntry, ""@, (k->0).0, (v->0).0), (v->0).1)) } } }
}
#[verifier::opaque]
pub open spec fn p_array(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 89int { if !(0 <= i < ts.len()) { None } else { or_else(p_curly(ts, i), p_square(ts, i)) } }
#[verifier::opaque]
pub open spec fn p_curly(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 88int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Array { nil(i) } else if tk(ts, i + 1) != TType::LeftCurly { None } else {
        let e = p_bin(ts, i + 2, 0);
        if !ok(e, i + 2, ts.len()) || tk(ts, (e->0).1) != TType::RightCurly { None } else { Some((nd(XNodeType::CurlyArray, ""@, (e->0).0, T::Nil), (e->0).1 + 1)) } }
}
#[verifier::opaque]
pub open spec fn p_square(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 88int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::LeftBracket { nil(i) } else {
        let e = p_items(ts, i + 1);
        if !ok(e, i + 1, ts.len()) || tk(ts, (e->0).1) != TType::RightBracket { None } else { Some((nd(XNodeType::SquareArray, ""@, (e->0).0, T::Nil), (e->0).1 + 1)) } }
}
#[verifier::opaque]
pub open spec fn p_items(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 201int {
    if !(0 <= i < ts.len()) { None } else {
        let a = p_single(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else {
            let b = p_items_rest(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(XNodeType::ArrayEntry, ""@, (a->0).0, (b->0).0), (b->0).1)) } } }
}
#[verifier::opaque]
pub open spec fn p_items_rest(ts: Seq<Tok>, j: int) -> R decreases ts.len() + 4 - j, 1int {
    if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Comma { nil(j) } else {
        let a = p_single(ts, j + 1);
        if !got(a, j + 1, ts.len()) { None } else {
            let b = p_items_rest(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(XNodeType::ArrayEntry, ""@, (a->0).0, (b->0).0), (b->0).1)) } } }
}
#[verifier::opaque]
pub open spec fn p_lookup(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 58int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Question { nil(i) } else {
        let by = XNodeType::UnaryLookupByExpr;
        if tk(ts, i + 1) == TType::Name { Some((nd(by, ""@, leaf(XNodeType::StringLiteral, tx(ts, i + 1)), T::Nil), i + 2)) }
        else if tk(ts, i + 1) == TType::IntegerLiteral { Some((nd(by, ""@, leaf(XNodeType::IntegerLiteral, tx(ts, i + 1)), T::Nil), i + 2)) }
        else if tk(ts, i + 1) == TType::Asterisk { Some((leaf(XNodeType::UnaryLookupByWildcard, "*"@), i + 2)) }
        else if tk(ts, i + 1) == TType::LeftParen { let k = p_paren(ts, i + 1); if !got(k, i + 1, ts.len()) { None } else { Some((nd(by, ""@, (k->0).0, T::Nil), (k->0).1)) } }
        else { nil(i) } }
}
// arguments
#[verifier::opaque]
pub open spec fn p_args(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 1int {
    if !(0 <= i < ts.len()) || tk(ts, i) != TType::LeftParen { None } else {
        let a = p_arglist(ts, i + 1);
        if !ok(a, i + 1, ts.len()) || tk(ts, (a->0).1) != TType::RightParen { None } else { Some(((a->0).0, (a->0).1 + 1)) } }
}
#[verifier::opaque]
pub open spec fn p_arglist(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 201int {
    if !(0 <= i < ts.len()) { None } else {
        let a = p_arg(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else { let b = p_args_rest(ts, (a->0).1); after(ts, a, b) } }
}
#[verifier::opaque]
pub open spec fn p_args_rest(ts: Seq<Tok>, j: int) -> R decreases ts.len() + 4 - j, 1int {
    if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Comma { nil(j) } else {
        let a = p_arg(ts, j + 1);
        if !got(a, j + 1, ts.len()) { None } else { let b = p_args_rest(ts, (a->0).1); after(ts, a, b) } }
}
#[verifier::opaque]
pub open spec fn p_arg(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 200int {
    if !(0 <= i < ts.len()) { None } else {
        let e = p_single(ts, i);
        if !ok(e, i, ts.len()) { None }
        else if !((e->0).0 is Nil) { Some((nd(XNodeType::ArgumentTop, ""@, (e->0).0, T::Nil), (e->0).1)) }
        else if tk(ts, (e->0).1) == TType::Question { Some((leaf(XNodeType::ArgumentPlaceholder, "?"@), (e->0).1 + 1)) } else { e } }
}
// steps
pub open spec fn axes() -> Seq<(Seq<char>, XNodeType)> { seq![("ancestor"@, XNodeType::AxisAncestor), ("ancestor-or-self"@, XNodeType::AxisAncestorOrSelf), ("attribute"@, XNodeType::AxisAttribute), ("child"@, XNodeType::AxisChild),
    ("descendant"@, XNodeType::AxisDescendant), ("descendant-or-self"@, XNodeType::AxisDescendantOrSelf), ("following"@, XNodeType::AxisFollowing), ("following-sibling"@, XNodeType::AxisFollowingSibling),
    ("namespace"@, XNodeType::AxisNamespace), ("parent"@, XNodeType::AxisParent), ("preceding"@, XNodeType::AxisPreceding), ("preceding-sibling"@, XNodeType::AxisPrecedingSibling), ("self"@, XNodeType::AxisSelf)] }
pub open spec fn reverse_axis(a: XNodeType) -> bool { a == XNodeType::AxisParent || a == XNodeType::AxisAncestor || a == XNodeType::AxisAncestorOrSelf || a == XNodeType::AxisPreceding || a == XNodeType::AxisPrecedingSibling }
#[verifier::opaque]
pub open spec fn p_axis(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 80int {
    if !(0 <= i < ts.len()) { None }
    else if tk(ts, i) == TType::AxisName {
        if tk(ts, i + 1) != TType::ColonColon { None } else {
            match look(axes(), tx(ts, i)) { None => None, Some(a) => if a == XNodeType::AxisNamespace { None } else { let x = p_ntest(ts, i + 2, a); if !got(x, i + 2, ts.len()) { None } else { x } } } } }
    else if tk(ts, i) == TType::At { let x = p_ntest(ts, i + 1, XNodeType::AxisAttribute); if !got(x, i + 1, ts.len()) { None } else { x } }
    else if tk(ts, i) == TType::DotDot { Some((leaf(XNodeType::AxisParent, "node()"@), i + 1)) }
    else { p_ntest(ts, i, XNodeType::AxisChild) }
}
#[verifier::opaque]
pub open spec fn p_ntest(ts: Seq<Tok>, i: int, a: XNodeType) -> R decreases ts.len() + 4 - i, 79int {
    if !(0 <= i < ts.len()) { None } else {
        let w = p_wildcard(ts, i);
        let e = if (w->0).0 == ""@ { p_eqname(ts, (w->0).1, ""@) } else { w };
        if !oks(e, i, ts.len()) { None }
        else if (e->0).0 != ""@ {
            let p = p_preds(ts, (e->0).1, reverse_axis(a));
            if !ok(p, (e->0).1, ts.len()) { None } else { Some((nd(a, (e->0).0, T::Nil, (p->0).0), (p->0).1)) }
        } else {
            let k = p_kind(ts, (e->0).1);
            if !ok(k, (e->0).1, ts.len()) { None } else if (k->0).0 is Nil { k } else {
                let p = p_preds(ts, (k->0).1, reverse_axis(a));
                if !ok(p, (k->0).1, ts.len()) { None } else { Some((nd(a, ""@, (k->0).0, (p->0).0), (p->0).1)) } } } }
}
#[verifier::opaque]
pub open spec fn p_preds(ts: Seq<Tok>, i: int, rev: bool) -> R decreases ts.len() + 4 - i, 50int {
    if !(0 <= i < ts.len()) { None } else {
        let a = p_pred(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else {
            let b = p_preds(ts, (a->0).1, rev);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(if rev { XNodeType::PredicateRevTop } else { XNodeType::PredicateTop }, "Predicate"@, (a->0).0, (b->0).0), (b->0).1)) } } }
}
#[verifier::opaque]
pub open spec fn p_pred(ts: Seq<Tok>, i: int) -> R decreases ts.len() + 4 - i, 49int {
    if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::LeftBracket { nil(i) } else {
        let e = p_bin(ts, i + 1, 0);
        if !got(e, i + 1, ts.len()) || tk(ts, (e->0).1) != TType::RightBracket { None } else { Some(((e->0).0, (e->0).1 + 1)) } }
}
/// the whole expression: what stands between the ends
pub open spec fn whole(ts: Seq<Tok>) -> Option<T> { let e = p_bin(ts, 1, 0); if e is None || tk(ts, (e->0).1) != TType::EOF { None } else { Some((e->0).0) } }
pub open spec fn compiled(s: Seq<char>) -> Option<T> { match lexed(s) { None => None, Some(ts) => whole(ts) } }

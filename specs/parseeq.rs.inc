// written by tools/unfold.py from parsespec.rs.inc
proof fn eq_qname(ts: Seq<Tok>, i: int, pf: Seq<char>) ensures p_qname(ts, i, pf) == ({ if tk(ts, i) != TType::Name { Some((""@, i)) }
    else if tk(ts, i + 1) != TType::Colon { Some((if pf != ""@ { pf + ":"@ + tx(ts, i) } else { tx(ts, i) }, i + 1)) }
    else if tk(ts, i + 2) != TType::Name { None }
    else { Some((tx(ts, i) + tx(ts, i + 1) + tx(ts, i + 2), i + 3)) } }) { reveal(p_qname); }
proof fn eq_eqname(ts: Seq<Tok>, i: int, pf: Seq<char>) ensures p_eqname(ts, i, pf) == ({ match p_qname(ts, i, pf) {
        None => None,
        Some((s, j)) => if s != ""@ { Some((s, j)) }
            else if tk(ts, j) == TType::BracedURILiteral && tk(ts, j + 1) == TType::Name { Some((tx(ts, j) + tx(ts, j + 1), j + 2)) }
            else { Some((""@, j)) } } }) { reveal(p_eqname); reveal(p_qname); }
proof fn eq_wildcard(ts: Seq<Tok>, i: int) ensures p_wildcard(ts, i) == ({ let t = tk(ts, i); let u = tk(ts, i + 1);
    if t == TType::Asterisk { Some((tx(ts, i), i + 1)) }
    else if (t == TType::Name && u == TType::ColonAsterisk) || (t == TType::AsteriskColon && u == TType::Name) || (t == TType::BracedURILiteral && u == TType::Asterisk) { Some((tx(ts, i) + tx(ts, i + 1), i + 2)) }
    else { Some((""@, i)) } }) { reveal(p_wildcard); }
proof fn eq_named(ts: Seq<Tok>, i: int, k: TType, ty: XNodeType, opt: bool, d: Seq<char>) ensures p_named(ts, i, k, ty, opt, d) == ({ if tk(ts, i) != k { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None } else {
        match p_names(ts, i + 2, opt, d) { None => None, Some((s, t, j)) => if tk(ts, j) != TType::RightParen { None } else { Some((nd(ty, s, leaf(XNodeType::KindTestTypeName, t), T::Nil), j + 1)) } } } }) { reveal(p_named); reveal(p_names); }
proof fn eq_elem(ts: Seq<Tok>, i: int) ensures p_elem(ts, i) == ({ p_named(ts, i, TType::ElementTest, XNodeType::ElementTest, true, "xs:anyType?"@) }) { reveal(p_elem); reveal(p_named); }
proof fn eq_attr(ts: Seq<Tok>, i: int) ensures p_attr(ts, i) == ({ p_named(ts, i, TType::AttributeTest, XNodeType::AttributeTest, false, "xs:anyType"@) }) { reveal(p_attr); reveal(p_named); }
proof fn eq_one(ts: Seq<Tok>, i: int, k: TType, ty: XNodeType) ensures p_one(ts, i, k, ty) == ({ if tk(ts, i) != k { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None } else {
        let e = p_eqname(ts, i + 2, ""@);
        if !oks1(e, i + 2, ts.len()) || tk(ts, (e->0).1) != TType::RightParen { None } else { Some((leaf(ty, (e->0).0), (e->0).1 + 1)) } } }) { reveal(p_one); reveal(p_eqname); }
proof fn eq_none(ts: Seq<Tok>, i: int, k: TType, ty: XNodeType) ensures p_none(ts, i, k, ty) == ({ if tk(ts, i) != k { nil(i) } else if tk(ts, i + 1) != TType::LeftParen || tk(ts, i + 2) != TType::RightParen { None } else { Some((leaf(ty, ""@), i + 3)) } }) { reveal(p_none); }
proof fn eq_pi(ts: Seq<Tok>, i: int) ensures p_pi(ts, i) == ({ if tk(ts, i) != TType::PITest { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None }
    else if tk(ts, i + 2) == TType::Name || tk(ts, i + 2) == TType::StringLiteral { if tk(ts, i + 3) != TType::RightParen { None } else { Some((leaf(XNodeType::PITest, tx(ts, i + 2)), i + 4)) } }
    else if tk(ts, i + 2) == TType::RightParen { Some((leaf(XNodeType::PITest, ""@), i + 3)) } else { None } }) { reveal(p_pi); }
proof fn eq_schema_elem(ts: Seq<Tok>, i: int) ensures p_schema_elem(ts, i) == ({ p_one(ts, i, TType::SchemaElementTest, XNodeType::SchemaElementTest) }) { reveal(p_schema_elem); reveal(p_one); }
proof fn eq_schema_attr(ts: Seq<Tok>, i: int) ensures p_schema_attr(ts, i) == ({ p_one(ts, i, TType::SchemaAttributeTest, XNodeType::SchemaAttributeTest) }) { reveal(p_schema_attr); reveal(p_one); }
proof fn eq_doc(ts: Seq<Tok>, i: int) ensures p_doc(ts, i) == ({ if tk(ts, i) != TType::DocumentTest { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None } else {
        let e = p_elem(ts, i + 2);
        let f = if e is Some && (e->0).0 is Nil { p_schema_elem(ts, i + 2) } else { e };
        if f is None || tk(ts, (f->0).1) != TType::RightParen { None } else { Some((nd(XNodeType::DocumentTest, ""@, (f->0).0, T::Nil), (f->0).1 + 1)) } } }) { reveal(p_doc); reveal(p_elem); reveal(p_schema_elem); }
proof fn eq_kind(ts: Seq<Tok>, i: int) ensures p_kind(ts, i) == ({ let k = or_else(p_doc(ts, i), or_else(p_elem(ts, i), or_else(p_attr(ts, i), or_else(p_schema_elem(ts, i), or_else(p_schema_attr(ts, i), or_else(p_pi(ts, i),
        or_else(p_none(ts, i, TType::CommentTest, XNodeType::CommentTest), or_else(p_none(ts, i, TType::TextTest, XNodeType::TextTest),
        or_else(p_none(ts, i, TType::NamespaceNodeTest, XNodeType::NamespaceNodeTest), p_none(ts, i, TType::AnyKindTest, XNodeType::AnyKindTest))))))))));
    if k is None || (k->0).0 is Nil { k } else { Some((nd(XNodeType::KindTest, ""@, (k->0).0, T::Nil), (k->0).1)) } }) { reveal(p_kind); reveal(p_elem); reveal(p_attr); reveal(p_none); reveal(p_pi); reveal(p_schema_elem); reveal(p_schema_attr); reveal(p_doc); }
proof fn eq_seqtype(ts: Seq<Tok>, i: int) ensures p_seqtype(ts, i) == ({ if !(0 <= i < ts.len()) { None } else {
        let a = p_none(ts, i, TType::EmptySequence, XNodeType::EmptySequenceTest);
        if a is None { None } else if !((a->0).0 is Nil) { Some((nd(XNodeType::SequenceType, ""@, (a->0).0, T::Nil), (a->0).1)) } else {
            let b = p_item(ts, i);
            if !ok(b, i, ts.len()) { None } else if (b->0).0 is Nil { b } else {
                let j = (b->0).1; let k = tk(ts, j);
                if k == TType::Question || k == TType::Asterisk || k == TType::Plus { Some((nd(XNodeType::SequenceType, tx(ts, j), (b->0).0, T::Nil), j + 1)) }
                else { Some((nd(XNodeType::SequenceType, ""@, (b->0).0, T::Nil), j)) } } } } }) { reveal(p_seqtype); reveal(p_none); reveal(p_item); }
proof fn eq_item(ts: Seq<Tok>, i: int) ensures p_item(ts, i) == ({ if !(0 <= i < ts.len()) { None } else {
        let a = or_else(p_kind(ts, i), or_else(p_none(ts, i, TType::Item, XNodeType::ItemTest), or_else(p_ftest(ts, i), or_else(p_mtest(ts, i), p_atest(ts, i)))));
        if a is None { None } else if !((a->0).0 is Nil) { a } else {
            let e = p_eqname(ts, i, "xs"@);
            if !oks(e, i, ts.len()) { None } else if (e->0).0 != ""@ { Some((leaf(XNodeType::AtomicOrUnionType, (e->0).0), (e->0).1)) }
            else { p_pit(ts, (e->0).1) } } } }) { reveal(p_item); reveal(p_eqname); reveal(p_none); reveal(p_kind); reveal(p_pit); reveal(p_ftest); reveal(p_mtest); reveal(p_atest); }
proof fn eq_pit(ts: Seq<Tok>, i: int) ensures p_pit(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::LeftParen { nil(i) } else {
        let t = p_item(ts, i + 1);
        if !got(t, i + 1, ts.len()) || tk(ts, (t->0).1) != TType::RightParen { None } else { Some((nd(XNodeType::ParenthesizedItemType, ""@, (t->0).0, T::Nil), (t->0).1 + 1)) } } }) { reveal(p_pit); reveal(p_item); }
proof fn eq_ftest(ts: Seq<Tok>, i: int) ensures p_ftest(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Function { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None }
    else if tk(ts, i + 2) == TType::Asterisk { if tk(ts, i + 3) != TType::RightParen { None } else { Some((leaf(XNodeType::AnyFunctionTest, ""@), i + 4)) } }
    else {
        let l = p_stlist(ts, i + 2);
        if !ok(l, i + 2, ts.len()) || tk(ts, (l->0).1) != TType::RightParen || !is_nm(ts, (l->0).1 + 1, "as"@) { None } else {
            let s = p_seqtype(ts, (l->0).1 + 2);
            if !got(s, (l->0).1 + 2, ts.len()) { None } else { Some((nd(XNodeType::TypedFunctionTest, ""@, T::Nil, nd(XNodeType::ReturnType, ""@, (s->0).0, (l->0).0)), (s->0).1)) } } } }) { reveal(p_ftest); reveal(p_seqtype); reveal(p_stlist); }
proof fn eq_stlist(ts: Seq<Tok>, i: int) ensures p_stlist(ts, i) == ({ if !(0 <= i < ts.len()) { None } else {
        let a = p_seqtype(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else {
            let b = p_strest(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(XNodeType::Param, ""@, (a->0).0, (b->0).0), (b->0).1)) } } } }) { reveal(p_stlist); reveal(p_seqtype); reveal(p_strest); }
proof fn eq_strest(ts: Seq<Tok>, j: int) ensures p_strest(ts, j) == ({ if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Comma { nil(j) } else {
        let a = p_seqtype(ts, j + 1);
        if !got(a, j + 1, ts.len()) { None } else {
            let b = p_strest(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(XNodeType::Param, ""@, (a->0).0, (b->0).0), (b->0).1)) } } } }) { reveal(p_strest); reveal(p_seqtype); }
proof fn eq_mtest(ts: Seq<Tok>, i: int) ensures p_mtest(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::MapTest { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None }
    else if tk(ts, i + 2) == TType::Asterisk { if tk(ts, i + 3) != TType::RightParen { None } else { Some((nd(XNodeType::MapTest, ""@, leaf(XNodeType::AtomicOrUnionType, "xs:anyAtomicType"@), any_items()), i + 4)) } }
    else {
        let e = p_eqname(ts, i + 2, "xs"@);
        if !oks1(e, i + 2, ts.len()) || tk(ts, (e->0).1) != TType::Comma { None } else {
            let s = p_seqtype(ts, (e->0).1 + 1);
            if !got(s, (e->0).1 + 1, ts.len()) || tk(ts, (s->0).1) != TType::RightParen { None } else { Some((nd(XNodeType::MapTest, ""@, leaf(XNodeType::AtomicOrUnionType, (e->0).0), (s->0).0), (s->0).1 + 1)) } } } }) { reveal(p_mtest); reveal(p_eqname); reveal(p_seqtype); }
proof fn eq_atest(ts: Seq<Tok>, i: int) ensures p_atest(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::ArrayTest { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None }
    else if tk(ts, i + 2) == TType::Asterisk { if tk(ts, i + 3) != TType::RightParen { None } else { Some((nd(XNodeType::ArrayTest, ""@, any_items(), T::Nil), i + 4)) } }
    else {
        let s = p_seqtype(ts, i + 2);
        if !got(s, i + 2, ts.len()) || tk(ts, (s->0).1) != TType::RightParen { None } else { Some((nd(XNodeType::ArrayTest, ""@, (s->0).0, T::Nil), (s->0).1 + 1)) } } }) { reveal(p_atest); reveal(p_seqtype); }
proof fn eq_single_type(ts: Seq<Tok>, i: int) ensures p_single_type(ts, i) == ({ let e = p_eqname(ts, i, ""@);
    if e is None { None } else if (e->0).0 == ""@ { nil((e->0).1) } else {
        let j = (e->0).1; let q = tk(ts, j) == TType::Question;
        Some((nd(XNodeType::SingleType, ""@, leaf(XNodeType::TypeName, if q { (e->0).0 + tx(ts, j) } else { (e->0).0 }), T::Nil), if q { j + 1 } else { j })) } }) { reveal(p_single_type); reveal(p_eqname); }
proof fn eq_sub(ts: Seq<Tok>, i: int, lev: int) ensures p_sub(ts, i, lev) == ({ if !(0 <= i < ts.len()) || !(0 <= lev <= 10) { None }
    else if lev == 0 { p_single(ts, i) } else if lev <= 8 { p_bin(ts, i, lev + 1) } else if lev == 9 { p_instance(ts, i) } else { p_path(ts, i) } }) { reveal(p_sub); reveal(p_bin); reveal(p_single); reveal(p_instance); reveal(p_path); }
proof fn eq_bin(ts: Seq<Tok>, i: int, lev: int) ensures p_bin(ts, i, lev) == ({ if !(0 <= i < ts.len()) || !(0 <= lev <= 10) { None } else {
        let a = p_sub(ts, i, lev);
        if !ok(a, i, ts.len()) { None } else { p_ops(ts, (a->0).1, lev, (a->0).0) } } }) { reveal(p_bin); reveal(p_sub); reveal(p_ops); }
proof fn eq_ops(ts: Seq<Tok>, j: int, lev: int, t: T) ensures p_ops(ts, j, lev, t) == ({ if !(0 <= j < ts.len()) || !(0 <= lev <= 10) { None } else {
        match op(lev, tk(ts, j)) { None => Some((t, j)), Some(ty) => if t is Nil { None } else {
            let b = p_sub(ts, j + 1, lev);
            if !got(b, j + 1, ts.len()) { None } else {
                let x = nd(ty, tx(ts, j), t, (b->0).0);
                if once(lev) { Some((x, (b->0).1)) } else { p_ops(ts, (b->0).1, lev, x) } } } } } }) { reveal(p_ops); reveal(p_sub); }
proof fn eq_single(ts: Seq<Tok>, i: int) ensures p_single(ts, i) == ({ if !(0 <= i < ts.len()) { None } else { or_else(p_for(ts, i), or_else(p_let(ts, i), or_else(p_quant(ts, i), or_else(p_if(ts, i), p_bin(ts, i, 1))))) } }) { reveal(p_single); reveal(p_bin); reveal(p_for); reveal(p_let); reveal(p_quant); reveal(p_if); }
proof fn eq_for(ts: Seq<Tok>, i: int) ensures p_for(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::For { nil(i) } else { clause(ts, i, XNodeType::ForExpr, "for"@, p_binds(ts, i + 1, XNodeType::ForVarBind, "return"@)) } }) { reveal(p_for); reveal(p_binds); }
proof fn eq_let(ts: Seq<Tok>, i: int) ensures p_let(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Let { nil(i) } else { clause(ts, i, XNodeType::LetExpr, "let"@, p_binds(ts, i + 1, XNodeType::LetVarBind, "return"@)) } }) { reveal(p_let); reveal(p_binds); }
proof fn eq_quant(ts: Seq<Tok>, i: int) ensures p_quant(ts, i) == ({ if !(0 <= i < ts.len()) { None }
    else if tk(ts, i) == TType::Some { clause(ts, i, XNodeType::SomeExpr, "some"@, p_binds(ts, i + 1, XNodeType::SomeVarBind, "satisfies"@)) }
    else if tk(ts, i) == TType::Every { clause(ts, i, XNodeType::EveryExpr, "every"@, p_binds(ts, i + 1, XNodeType::EveryVarBind, "satisfies"@)) }
    else { nil(i) } }) { reveal(p_quant); reveal(p_binds); }
proof fn eq_binds(ts: Seq<Tok>, i: int, vt: XNodeType, word: Seq<char>) ensures p_binds(ts, i, vt, word) == ({ if !(0 <= i < ts.len()) { None } else {
        let b = p_bind(ts, i, vt);
        if !got(b, i, ts.len()) { None } else {
            let c = p_binds_rest(ts, (b->0).1, vt, word);
            if !ok(c, (b->0).1, ts.len()) { None } else { Some((app((b->0).0, (c->0).0), (c->0).1)) } } } }) { reveal(p_binds); reveal(p_binds_rest); reveal(p_bind); }
proof fn eq_binds_rest(ts: Seq<Tok>, j: int, vt: XNodeType, word: Seq<char>) ensures p_binds_rest(ts, j, vt, word) == ({ if !(0 <= j < ts.len()) { None }
    else if tk(ts, j) == TType::Comma { let c = p_binds(ts, j + 1, vt, word); if !ok(c, j + 1, ts.len()) { None } else { c } }
    else if is_nm(ts, j, word) { let e = p_single(ts, j + 1); if !got(e, j + 1, ts.len()) { None } else { e } }
    else { None } }) { reveal(p_binds_rest); reveal(p_single); reveal(p_binds); }
proof fn eq_bind(ts: Seq<Tok>, i: int, vt: XNodeType) ensures p_bind(ts, i, vt) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Dollar { nil(i) } else {
        let v = p_eqname(ts, i + 1, ""@);
        if !oks1(v, i + 1, ts.len()) { None } else {
            let j = (v->0).1;
            if !(if vt == XNodeType::LetVarBind { tk(ts, j) == TType::Bind } else { is_nm(ts, j, "in"@) }) { None } else {
                let e = p_single(ts, j + 1);
                if !got(e, j + 1, ts.len()) { None } else { Some((nd(vt, (v->0).0, (e->0).0, T::Nil), (e->0).1)) } } } } }) { reveal(p_bind); reveal(p_eqname); reveal(p_single); }
proof fn eq_if(ts: Seq<Tok>, i: int) ensures p_if(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::If { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None } else {
        let c = p_bin(ts, i + 2, 0);
        if !got(c, i + 2, ts.len()) || tk(ts, (c->0).1) != TType::RightParen || !is_nm(ts, (c->0).1 + 1, "then"@) { None } else {
            let a = p_single(ts, (c->0).1 + 2);
            if !got(a, (c->0).1 + 2, ts.len()) || !is_nm(ts, (a->0).1, "else"@) { None } else {
                let b = p_single(ts, (a->0).1 + 1);
                if !got(b, (a->0).1 + 1, ts.len()) { None } else { Some((nd(XNodeType::IfExpr, "if_expr"@, (c->0).0, nd(XNodeType::IfThenElse, "if_then_else"@, (a->0).0, (b->0).0)), (b->0).1)) } } } } }) { reveal(p_if); reveal(p_bin); reveal(p_single); }
proof fn eq_instance(ts: Seq<Tok>, i: int) ensures p_instance(ts, i) == ({ if !(0 <= i < ts.len()) { None } else { let a = p_treat(ts, i); typed(ts, i, a, TType::InstanceOf, XNodeType::OperatorInstanceOf, p_seqtype(ts, (a->0).1 + 1)) } }) { reveal(p_instance); reveal(p_seqtype); reveal(p_treat); }
proof fn eq_treat(ts: Seq<Tok>, i: int) ensures p_treat(ts, i) == ({ if !(0 <= i < ts.len()) { None } else { let a = p_castable(ts, i); typed(ts, i, a, TType::TreatAs, XNodeType::OperatorTreatAs, p_seqtype(ts, (a->0).1 + 1)) } }) { reveal(p_treat); reveal(p_seqtype); reveal(p_castable); }
proof fn eq_castable(ts: Seq<Tok>, i: int) ensures p_castable(ts, i) == ({ if !(0 <= i < ts.len()) { None } else { let a = p_cast(ts, i); typed(ts, i, a, TType::CastableAs, XNodeType::OperatorCastableAs, p_single_type(ts, (a->0).1 + 1)) } }) { reveal(p_castable); reveal(p_single_type); reveal(p_cast); }
proof fn eq_cast(ts: Seq<Tok>, i: int) ensures p_cast(ts, i) == ({ if !(0 <= i < ts.len()) { None } else { let a = p_arrow(ts, i); typed(ts, i, a, TType::CastAs, XNodeType::OperatorCastAs, p_single_type(ts, (a->0).1 + 1)) } }) { reveal(p_cast); reveal(p_single_type); reveal(p_arrow); }
proof fn eq_arrow(ts: Seq<Tok>, i: int) ensures p_arrow(ts, i) == ({ if !(0 <= i < ts.len()) { None } else { let a = p_unary(ts, i); if !ok(a, i, ts.len()) { None } else { p_arrows(ts, (a->0).1, (a->0).0) } } }) { reveal(p_arrow); reveal(p_arrows); reveal(p_unary); }
proof fn eq_arrows(ts: Seq<Tok>, j: int, t: T) ensures p_arrows(ts, j, t) == ({ if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Arrow { Some((t, j)) } else if t is Nil { None } else {
        let f = p_eqname(ts, j + 1, "fn"@);
        if !oks(f, j + 1, ts.len()) { None }
        else if (f->0).0 != ""@ {
            let a = p_args(ts, (f->0).1);
            if !ok(a, (f->0).1, ts.len()) { None } else { p_arrows(ts, (a->0).1, nd(XNodeType::FunctionCall, (f->0).0, T::Nil, nd(XNodeType::ArgumentTop, ""@, t, (a->0).0))) }
        } else {
            let v = p_varref(ts, (f->0).1);
            if !got(v, (f->0).1, ts.len()) { None } else {
                let a = p_args(ts, (v->0).1);
                if !ok(a, (v->0).1, ts.len()) { None } else {
                    p_arrows(ts, (a->0).1, nd(XNodeType::ApplyArgument, ""@, (v->0).0, nd(XNodeType::ArgumentListTop, ""@, nd(XNodeType::ArgumentTop, ""@, t, (a->0).0), T::Nil))) } } } } }) { reveal(p_arrows); reveal(p_eqname); reveal(p_varref); reveal(p_args); }
proof fn eq_unary(ts: Seq<Tok>, i: int) ensures p_unary(ts, i) == ({ if !(0 <= i < ts.len()) { None }
    else if tk(ts, i) == TType::Minus { let u = p_unary(ts, i + 1); if !got(u, i + 1, ts.len()) { None } else { Some((nd(XNodeType::OperatorUnaryMinus, "-"@, T::Nil, (u->0).0), (u->0).1)) } }
    else if tk(ts, i) == TType::Plus { let u = p_unary(ts, i + 1); if !got(u, i + 1, ts.len()) { None } else { Some((nd(XNodeType::OperatorUnaryPlus, "+"@, T::Nil, (u->0).0), (u->0).1)) } }
    else { p_bin(ts, i, 10) } }) { reveal(p_unary); reveal(p_bin); }
proof fn eq_path(ts: Seq<Tok>, i: int) ensures p_path(ts, i) == ({ if !(0 <= i < ts.len()) { None }
    else if tk(ts, i) == TType::Slash { let r = p_rel(ts, i + 1); if !ok(r, i + 1, ts.len()) { None } else { Some((path(leaf(XNodeType::AxisRoot, "node()"@), (r->0).0), (r->0).1)) } }
    else if tk(ts, i) == TType::SlashSlash { let r = p_rel(ts, i + 1); if !got(r, i + 1, ts.len()) { None } else { Some((path(leaf(XNodeType::AxisRoot, "/"@), path(any_depth(), (r->0).0)), (r->0).1)) } }
    else { p_rel(ts, i) } }) { reveal(p_path); reveal(p_rel); }
proof fn eq_rel(ts: Seq<Tok>, i: int) ensures p_rel(ts, i) == ({ if !(0 <= i < ts.len()) { None } else {
        let a = p_step(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else {
            let b = p_steps(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((if (b->0).0 is Nil { (a->0).0 } else { path((a->0).0, (b->0).0) }, (b->0).1)) } } } }) { reveal(p_rel); reveal(p_steps); reveal(p_step); }
proof fn eq_steps(ts: Seq<Tok>, j: int) ensures p_steps(ts, j) == ({ if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Slash && tk(ts, j) != TType::SlashSlash { nil(j) } else {
        let a = p_step(ts, j + 1);
        if !got(a, j + 1, ts.len()) { None } else {
            let b = p_steps(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None }
            else if tk(ts, j) == TType::Slash { Some((path((a->0).0, (b->0).0), (b->0).1)) }
            else { Some((path(any_depth(), path((a->0).0, (b->0).0)), (b->0).1)) } } } }) { reveal(p_steps); reveal(p_step); }
proof fn eq_step(ts: Seq<Tok>, i: int) ensures p_step(ts, i) == ({ if !(0 <= i < ts.len()) { None } else {
        let a = p_postfix(ts, i);
        if !ok(a, i, ts.len()) { None } else if !((a->0).0 is Nil) { a } else { p_axis(ts, (a->0).1) } } }) { reveal(p_step); reveal(p_postfix); reveal(p_axis); }
proof fn eq_postfix(ts: Seq<Tok>, i: int) ensures p_postfix(ts, i) == ({ if !(0 <= i < ts.len()) { None } else {
        let a = p_primary(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else { p_posts(ts, (a->0).1, (a->0).0) } } }) { reveal(p_postfix); reveal(p_posts); reveal(p_primary); }
proof fn eq_posts(ts: Seq<Tok>, j: int, t: T) ensures p_posts(ts, j, t) == ({ if !(0 <= j < ts.len()) { None } else {
        let x = p_post(ts, j);
        if !ok(x, j, ts.len()) { None } else if (x->0).0 is Nil { Some((t, (x->0).1)) } else { p_posts(ts, (x->0).1, nd(post_type((x->0).0), ""@, t, (x->0).0)) } } }) { reveal(p_posts); reveal(p_post); }
proof fn eq_post(ts: Seq<Tok>, j: int) ensures p_post(ts, j) == ({ if !(0 <= j < ts.len()) { None }
    else if tk(ts, j) == TType::LeftBracket { let p = p_pred(ts, j); if !ok(p, j, ts.len()) { None } else { Some((nd(XNodeType::PredicateTop, ""@, (p->0).0, T::Nil), (p->0).1)) } }
    else if tk(ts, j) == TType::LeftParen { let p = p_args(ts, j); if !(ok(p, j, ts.len()) && j < (p->0).1) { None } else { Some((nd(XNodeType::ArgumentListTop, ""@, (p->0).0, T::Nil), (p->0).1)) } }
    else if tk(ts, j) == TType::Question { p_lookup(ts, j) } else { nil(j) } }) { reveal(p_post); reveal(p_lookup); reveal(p_args); reveal(p_pred); }
proof fn eq_primary(ts: Seq<Tok>, i: int) ensures p_primary(ts, i) == ({ if !(0 <= i < ts.len()) { None } else {
        or_else(p_lit(ts, i), or_else(p_varref(ts, i), or_else(p_paren(ts, i), or_else(p_ctx(ts, i), or_else(p_fcall(ts, i), or_else(p_fitem(ts, i), or_else(p_map(ts, i), or_else(p_array(ts, i), p_lookup(ts, i))))))))) } }) { reveal(p_primary); reveal(p_lit); reveal(p_varref); reveal(p_ctx); reveal(p_paren); reveal(p_fcall); reveal(p_fitem); reveal(p_map); reveal(p_array); reveal(p_lookup); }
proof fn eq_lit(ts: Seq<Tok>, i: int) ensures p_lit(ts, i) == ({ match tk(ts, i) { TType::StringLiteral => Some((leaf(XNodeType::StringLiteral, tx(ts, i)), i + 1)), TType::IntegerLiteral => Some((leaf(XNodeType::IntegerLiteral, tx(ts, i)), i + 1)),
        TType::DecimalLiteral => Some((leaf(XNodeType::DecimalLiteral, tx(ts, i)), i + 1)), TType::DoubleLiteral => Some((leaf(XNodeType::DoubleLiteral, tx(ts, i)), i + 1)), _ => nil(i) } }) { reveal(p_lit); }
proof fn eq_varref(ts: Seq<Tok>, i: int) ensures p_varref(ts, i) == ({ if tk(ts, i) != TType::Dollar { nil(i) } else { let e = p_eqname(ts, i + 1, ""@); if !oks1(e, i + 1, ts.len()) { None } else { Some((leaf(XNodeType::VarRef, (e->0).0), (e->0).1)) } } }) { reveal(p_varref); reveal(p_eqname); }
proof fn eq_ctx(ts: Seq<Tok>, i: int) ensures p_ctx(ts, i) == ({ if tk(ts, i) == TType::Dot { Some((leaf(XNodeType::ContextItem, "."@), i + 1)) } else { nil(i) } }) { reveal(p_ctx); }
proof fn eq_paren(ts: Seq<Tok>, i: int) ensures p_paren(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::LeftParen { nil(i) } else {
        let e = p_bin(ts, i + 1, 0);
        if !ok(e, i + 1, ts.len()) || tk(ts, (e->0).1) != TType::RightParen { None } else { Some((nd(XNodeType::ParenthesizedExpr, ""@, (e->0).0, T::Nil), (e->0).1 + 1)) } } }) { reveal(p_paren); reveal(p_bin); }
proof fn eq_fcall(ts: Seq<Tok>, i: int) ensures p_fcall(ts, i) == ({ if !(0 <= i < ts.len()) { None } else {
        let f = p_eqname(ts, i, "fn"@);
        if !oks(f, i, ts.len()) { None } else if (f->0).0 == ""@ || tk(ts, (f->0).1) != TType::LeftParen { nil(i) } else {
            let a = p_args(ts, (f->0).1);
            if !ok(a, (f->0).1, ts.len()) || !known_fn((f->0).0, spine_len((a->0).0)) { None }
            else { Some((nd(if has_hole((a->0).0) { XNodeType::PartialFunctionCall } else { XNodeType::FunctionCall }, (f->0).0, T::Nil, (a->0).0), (a->0).1)) } } } }) { reveal(p_fcall); reveal(p_eqname); reveal(p_args); }
proof fn eq_fitem(ts: Seq<Tok>, i: int) ensures p_fitem(ts, i) == ({ if !(0 <= i < ts.len()) { None } else { or_else(p_nfr(ts, i), p_inline(ts, i)) } }) { reveal(p_fitem); reveal(p_nfr); reveal(p_inline); }
proof fn eq_nfr(ts: Seq<Tok>, i: int) ensures p_nfr(ts, i) == ({ let f = p_eqname(ts, i, "fn"@);
    if !oks(f, i, ts.len()) { None } else {
        let j = (f->0).1;
        if (f->0).0 == ""@ || tk(ts, j) != TType::Sharp || tk(ts, j + 1) != TType::IntegerLiteral { nil(i) }
        else if dec_of(tx(ts, j + 1)) is None || !known_fn((f->0).0, dec_of(tx(ts, j + 1))->0 as int) { None }
        else { Some((leaf(XNodeType::NamedFunctionRef, (f->0).0 + "#"@ + tx(ts, j + 1)), j + 2)) } } }) { reveal(p_nfr); reveal(p_eqname); }
proof fn eq_inline(ts: Seq<Tok>, i: int) ensures p_inline(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Function { nil(i) } else if tk(ts, i + 1) != TType::LeftParen { None } else {
        let a = p_params(ts, i + 2);
        if !ok(a, i + 2, ts.len()) || tk(ts, (a->0).1) != TType::RightParen { None } else {
            let j = (a->0).1 + 1;
            let s = if is_nm(ts, j, "as"@) { p_seqtype(ts, j + 1) } else { Some((any_items(), j)) };
            if s is None || (s->0).0 is Nil || !(j <= (s->0).1 < ts.len()) { None } else {
                let b = p_body(ts, (s->0).1);
                if !ok(b, (s->0).1, ts.len()) { None } else { Some((nd(XNodeType::InlineFunction, "(inline function)"@, (b->0).0, nd(XNodeType::ReturnType, ""@, (s->0).0, (a->0).0)), (b->0).1)) } } } } }) { reveal(p_inline); reveal(p_seqtype); reveal(p_body); reveal(p_params); }
proof fn eq_body(ts: Seq<Tok>, i: int) ensures p_body(ts, i) == ({ if !(0 <= i < ts.len()) || tk(ts, i) != TType::LeftCurly { None } else {
        let e = p_bin(ts, i + 1, 0);
        if !ok(e, i + 1, ts.len()) || tk(ts, (e->0).1) != TType::RightCurly { None } else { Some(((e->0).0, (e->0).1 + 1)) } } }) { reveal(p_body); reveal(p_bin); }
proof fn eq_param(ts: Seq<Tok>, i: int) ensures p_param(ts, i) == ({ if tk(ts, i) != TType::Dollar { nil(i) } else {
        let v = p_eqname(ts, i + 1, ""@);
        if !oks1(v, i + 1, ts.len()) { None }
        else if is_nm(ts, (v->0).1, "as"@) { let s = p_seqtype(ts, (v->0).1 + 1); if !got(s, (v->0).1 + 1, ts.len()) { None } else { Some((nd(XNodeType::Param, (v->0).0, (s->0).0, T::Nil), (s->0).1)) } }
        else { Some((nd(XNodeType::Param, (v->0).0, any_items(), T::Nil), (v->0).1)) } } }) { reveal(p_param); reveal(p_eqname); reveal(p_seqtype); }
proof fn eq_params(ts: Seq<Tok>, i: int) ensures p_params(ts, i) == ({ let a = p_param(ts, i);
    if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else { after(ts, a, p_params_rest(ts, (a->0).1)) } }) { reveal(p_params); reveal(p_param); reveal(p_params_rest); }
proof fn eq_params_rest(ts: Seq<Tok>, j: int) ensures p_params_rest(ts, j) == ({ if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Comma { nil(j) } else {
        let a = p_param(ts, j + 1);
        if !got(a, j + 1, ts.len()) { None } else { after(ts, a, p_params_rest(ts, (a->0).1)) } } }) { reveal(p_params_rest); reveal(p_param); }
proof fn eq_map(ts: Seq<Tok>, i: int) ensures p_map(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Map { nil(i) } else if tk(ts, i + 1) != TType::LeftCurly { None } else {
        let e = p_entries(ts, i + 2);
        if !ok(e, i + 2, ts.len()) || tk(ts, (e->0).1) != TType::RightCurly { None } else { Some((nd(XNodeType::Map, ""@, (e->0).0, T::Nil), (e->0).1 + 1)) } } }) { reveal(p_map); reveal(p_entries); }
proof fn eq_entries(ts: Seq<Tok>, i: int) ensures p_entries(ts, i) == ({ if !(0 <= i < ts.len()) { None } else {
        let a = p_entry(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else {
            let b = p_entries_rest(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(XNodeType::MapConstruct, ""@, (a->0).0, (b->0).0), (b->0).1)) } } } }) { reveal(p_entries); reveal(p_entries_rest); reveal(p_entry); }
proof fn eq_entries_rest(ts: Seq<Tok>, j: int) ensures p_entries_rest(ts, j) == ({ if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Comma { nil(j) } else {
        let a = p_entry(ts, j + 1);
        if !got(a, j + 1, ts.len()) { None } else {
            let b = p_entries_rest(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(XNodeType::MapConstruct, ""@, (a->0).0, (b->0).0), (b->0).1)) } } } }) { reveal(p_entries_rest); reveal(p_entry); }
proof fn eq_entry(ts: Seq<Tok>, i: int) ensures p_entry(ts, i) == ({ if !(0 <= i < ts.len()) { None } else {
        let k = p_single(ts, i);
        if !ok(k, i, ts.len()) { None } else if (k->0).0 is Nil { k } else if tk(ts, (k->0).1) != TType::Colon { None } else {
            let v = p_single(ts, (k->0).1 + 1);
            if !got(v, (k->0).1 + 1, ts.len()) { None } else { Some((nd(XNodeType::MapEntry, ""@, (k->0).0, (v->0).0), (v->0).1)) } } } }) { reveal(p_entry); reveal(p_single); }
proof fn eq_array(ts: Seq<Tok>, i: int) ensures p_array(ts, i) == ({ if !(0 <= i < ts.len()) { None } else { or_else(p_curly(ts, i), p_square(ts, i)) } }) { reveal(p_array); reveal(p_curly); reveal(p_square); }
proof fn eq_curly(ts: Seq<Tok>, i: int) ensures p_curly(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Array { nil(i) } else if tk(ts, i + 1) != TType::LeftCurly { None } else {
        let e = p_bin(ts, i + 2, 0);
        if !ok(e, i + 2, ts.len()) || tk(ts, (e->0).1) != TType::RightCurly { None } else { Some((nd(XNodeType::CurlyArray, ""@, (e->0).0, T::Nil), (e->0).1 + 1)) } } }) { reveal(p_curly); reveal(p_bin); }
proof fn eq_square(ts: Seq<Tok>, i: int) ensures p_square(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::LeftBracket { nil(i) } else {
        let e = p_items(ts, i + 1);
        if !ok(e, i + 1, ts.len()) || tk(ts, (e->0).1) != TType::RightBracket { None } else { Some((nd(XNodeType::SquareArray, ""@, (e->0).0, T::Nil), (e->0).1 + 1)) } } }) { reveal(p_square); reveal(p_items); }
proof fn eq_items(ts: Seq<Tok>, i: int) ensures p_items(ts, i) == ({ if !(0 <= i < ts.len()) { None } else {
        let a = p_single(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else {
            let b = p_items_rest(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(XNodeType::ArrayEntry, ""@, (a->0).0, (b->0).0), (b->0).1)) } } } }) { reveal(p_items); reveal(p_single); reveal(p_items_rest); }
proof fn eq_items_rest(ts: Seq<Tok>, j: int) ensures p_items_rest(ts, j) == ({ if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Comma { nil(j) } else {
        let a = p_single(ts, j + 1);
        if !got(a, j + 1, ts.len()) { None } else {
            let b = p_items_rest(ts, (a->0).1);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(XNodeType::ArrayEntry, ""@, (a->0).0, (b->0).0), (b->0).1)) } } } }) { reveal(p_items_rest); reveal(p_single); }
proof fn eq_lookup(ts: Seq<Tok>, i: int) ensures p_lookup(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::Question { nil(i) } else {
        let by = XNodeType::UnaryLookupByExpr;
        if tk(ts, i + 1) == TType::Name { Some((nd(by, ""@, leaf(XNodeType::StringLiteral, tx(ts, i + 1)), T::Nil), i + 2)) }
        else if tk(ts, i + 1) == TType::IntegerLiteral { Some((nd(by, ""@, leaf(XNodeType::IntegerLiteral, tx(ts, i + 1)), T::Nil), i + 2)) }
        else if tk(ts, i + 1) == TType::Asterisk { Some((leaf(XNodeType::UnaryLookupByWildcard, "*"@), i + 2)) }
        else if tk(ts, i + 1) == TType::LeftParen { let k = p_paren(ts, i + 1); if !got(k, i + 1, ts.len()) { None } else { Some((nd(by, ""@, (k->0).0, T::Nil), (k->0).1)) } }
        else { nil(i) } } }) { reveal(p_lookup); reveal(p_paren); }
proof fn eq_args(ts: Seq<Tok>, i: int) ensures p_args(ts, i) == ({ if !(0 <= i < ts.len()) || tk(ts, i) != TType::LeftParen { None } else {
        let a = p_arglist(ts, i + 1);
        if !ok(a, i + 1, ts.len()) || tk(ts, (a->0).1) != TType::RightParen { None } else { Some(((a->0).0, (a->0).1 + 1)) } } }) { reveal(p_args); reveal(p_arglist); }
proof fn eq_arglist(ts: Seq<Tok>, i: int) ensures p_arglist(ts, i) == ({ if !(0 <= i < ts.len()) { None } else {
        let a = p_arg(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else { let b = p_args_rest(ts, (a->0).1); after(ts, a, b) } } }) { reveal(p_arglist); reveal(p_args_rest); reveal(p_arg); }
proof fn eq_args_rest(ts: Seq<Tok>, j: int) ensures p_args_rest(ts, j) == ({ if !(0 <= j < ts.len()) { None } else if tk(ts, j) != TType::Comma { nil(j) } else {
        let a = p_arg(ts, j + 1);
        if !got(a, j + 1, ts.len()) { None } else { let b = p_args_rest(ts, (a->0).1); after(ts, a, b) } } }) { reveal(p_args_rest); reveal(p_arg); }
proof fn eq_arg(ts: Seq<Tok>, i: int) ensures p_arg(ts, i) == ({ if !(0 <= i < ts.len()) { None } else {
        let e = p_single(ts, i);
        if !ok(e, i, ts.len()) { None }
        else if !((e->0).0 is Nil) { Some((nd(XNodeType::ArgumentTop, ""@, (e->0).0, T::Nil), (e->0).1)) }
        else if tk(ts, (e->0).1) == TType::Question { Some((leaf(XNodeType::ArgumentPlaceholder, "?"@), (e->0).1 + 1)) } else { e } } }) { reveal(p_arg); reveal(p_single); }
proof fn eq_axis(ts: Seq<Tok>, i: int) ensures p_axis(ts, i) == ({ if !(0 <= i < ts.len()) { None }
    else if tk(ts, i) == TType::AxisName {
        if tk(ts, i + 1) != TType::ColonColon { None } else {
            match look(axes(), tx(ts, i)) { None => None, Some(a) => if a == XNodeType::AxisNamespace { None } else { let x = p_ntest(ts, i + 2, a); if !got(x, i + 2, ts.len()) { None } else { x } } } } }
    else if tk(ts, i) == TType::At { let x = p_ntest(ts, i + 1, XNodeType::AxisAttribute); if !got(x, i + 1, ts.len()) { None } else { x } }
    else if tk(ts, i) == TType::DotDot { Some((leaf(XNodeType::AxisParent, "node()"@), i + 1)) }
    else { p_ntest(ts, i, XNodeType::AxisChild) } }) { reveal(p_axis); reveal(p_ntest); }
proof fn eq_ntest(ts: Seq<Tok>, i: int, a: XNodeType) ensures p_ntest(ts, i, a) == ({ if !(0 <= i < ts.len()) { None } else {
        let w = p_wildcard(ts, i);
        let e = if (w->0).0 == ""@ { p_eqname(ts, (w->0).1, ""@) } else { w };
        if !oks(e, i, ts.len()) { None }
        else if (e->0).0 != ""@ {
            let p = p_preds(ts, (e->0).1, reverse_axis(a));
            if !ok(p, (e->0).1, ts.len()) { None } else { Some((nd(a, (e->0).0, T::Nil, (p->0).0), (p->0).1)) }
        } else {
            let k = p_kind(ts, (e->0).1);
            if !ok(k, (e->0).1, ts.len()) { None } else if (k->0).0 is Nil { k } else {
                let p = p_preds(ts, (k->0).1, reverse_axis(a));
                if !ok(p, (k->0).1, ts.len()) { None } else { Some((nd(a, ""@, (k->0).0, (p->0).0), (p->0).1)) } } } } }) { reveal(p_ntest); reveal(p_eqname); reveal(p_wildcard); reveal(p_kind); reveal(p_preds); }
proof fn eq_preds(ts: Seq<Tok>, i: int, rev: bool) ensures p_preds(ts, i, rev) == ({ if !(0 <= i < ts.len()) { None } else {
        let a = p_pred(ts, i);
        if !ok(a, i, ts.len()) { None } else if (a->0).0 is Nil { a } else {
            let b = p_preds(ts, (a->0).1, rev);
            if !ok(b, (a->0).1, ts.len()) { None } else { Some((nd(if rev { XNodeType::PredicateRevTop } else { XNodeType::PredicateTop }, "Predicate"@, (a->0).0, (b->0).0), (b->0).1)) } } } }) { reveal(p_preds); reveal(p_pred); }
proof fn eq_pred(ts: Seq<Tok>, i: int) ensures p_pred(ts, i) == ({ if !(0 <= i < ts.len()) { None } else if tk(ts, i) != TType::LeftBracket { nil(i) } else {
        let e = p_bin(ts, i + 1, 0);
        if !got(e, i + 1, ts.len()) || tk(ts, (e->0).1) != TType::RightBracket { None } else { Some(((e->0).0, (e->0).1 + 1)) } } }) { reveal(p_pred); reveal(p_bin); }
proof fn nil_doc(ts: Seq<Tok>, i: int) ensures p_doc(ts, i) is Some && (p_doc(ts, i)->0).0 is Nil ==> (p_doc(ts, i)->0).1 == i { eq_doc(ts, i);  }
proof fn nil_elem(ts: Seq<Tok>, i: int) ensures p_elem(ts, i) is Some && (p_elem(ts, i)->0).0 is Nil ==> (p_elem(ts, i)->0).1 == i { eq_elem(ts, i); eq_named(ts, i, TType::ElementTest, XNodeType::ElementTest, true, "xs:anyType?"@); }
proof fn nil_attr(ts: Seq<Tok>, i: int) ensures p_attr(ts, i) is Some && (p_attr(ts, i)->0).0 is Nil ==> (p_attr(ts, i)->0).1 == i { eq_attr(ts, i); eq_named(ts, i, TType::AttributeTest, XNodeType::AttributeTest, false, "xs:anyType"@); }
proof fn nil_schema_elem(ts: Seq<Tok>, i: int) ensures p_schema_elem(ts, i) is Some && (p_schema_elem(ts, i)->0).0 is Nil ==> (p_schema_elem(ts, i)->0).1 == i { eq_schema_elem(ts, i); eq_one(ts, i, TType::SchemaElementTest, XNodeType::SchemaElementTest); }
proof fn nil_schema_attr(ts: Seq<Tok>, i: int) ensures p_schema_attr(ts, i) is Some && (p_schema_attr(ts, i)->0).0 is Nil ==> (p_schema_attr(ts, i)->0).1 == i { eq_schema_attr(ts, i); eq_one(ts, i, TType::SchemaAttributeTest, XNodeType::SchemaAttributeTest); }
proof fn nil_pi(ts: Seq<Tok>, i: int) ensures p_pi(ts, i) is Some && (p_pi(ts, i)->0).0 is Nil ==> (p_pi(ts, i)->0).1 == i { eq_pi(ts, i);  }
proof fn nil_one(ts: Seq<Tok>, i: int, k: TType, ty: XNodeType) ensures p_one(ts, i, k, ty) is Some && (p_one(ts, i, k, ty)->0).0 is Nil ==> (p_one(ts, i, k, ty)->0).1 == i { eq_one(ts, i, k, ty);  }
proof fn nil_none(ts: Seq<Tok>, i: int, k: TType, ty: XNodeType) ensures p_none(ts, i, k, ty) is Some && (p_none(ts, i, k, ty)->0).0 is Nil ==> (p_none(ts, i, k, ty)->0).1 == i { eq_none(ts, i, k, ty);  }
proof fn nil_named(ts: Seq<Tok>, i: int, k: TType, ty: XNodeType, opt: bool, d: Seq<char>) ensures p_named(ts, i, k, ty, opt, d) is Some && (p_named(ts, i, k, ty, opt, d)->0).0 is Nil ==> (p_named(ts, i, k, ty, opt, d)->0).1 == i { eq_named(ts, i, k, ty, opt, d);  }
proof fn nil_kind(ts: Seq<Tok>, i: int) ensures p_kind(ts, i) is Some && (p_kind(ts, i)->0).0 is Nil ==> (p_kind(ts, i)->0).1 == i { eq_kind(ts, i); eq_none(ts, i, TType::AnyKindTest, XNodeType::AnyKindTest); }
proof fn nil_ftest(ts: Seq<Tok>, i: int) ensures p_ftest(ts, i) is Some && (p_ftest(ts, i)->0).0 is Nil ==> (p_ftest(ts, i)->0).1 == i { eq_ftest(ts, i);  }
proof fn nil_mtest(ts: Seq<Tok>, i: int) ensures p_mtest(ts, i) is Some && (p_mtest(ts, i)->0).0 is Nil ==> (p_mtest(ts, i)->0).1 == i { eq_mtest(ts, i);  }
proof fn nil_atest(ts: Seq<Tok>, i: int) ensures p_atest(ts, i) is Some && (p_atest(ts, i)->0).0 is Nil ==> (p_atest(ts, i)->0).1 == i { eq_atest(ts, i);  }
proof fn nil_for(ts: Seq<Tok>, i: int) ensures p_for(ts, i) is Some && (p_for(ts, i)->0).0 is Nil ==> (p_for(ts, i)->0).1 == i { eq_for(ts, i);  }
proof fn nil_let(ts: Seq<Tok>, i: int) ensures p_let(ts, i) is Some && (p_let(ts, i)->0).0 is Nil ==> (p_let(ts, i)->0).1 == i { eq_let(ts, i);  }
proof fn nil_quant(ts: Seq<Tok>, i: int) ensures p_quant(ts, i) is Some && (p_quant(ts, i)->0).0 is Nil ==> (p_quant(ts, i)->0).1 == i { eq_quant(ts, i);  }
proof fn nil_if(ts: Seq<Tok>, i: int) ensures p_if(ts, i) is Some && (p_if(ts, i)->0).0 is Nil ==> (p_if(ts, i)->0).1 == i { eq_if(ts, i);  }
proof fn nil_lit(ts: Seq<Tok>, i: int) ensures p_lit(ts, i) is Some && (p_lit(ts, i)->0).0 is Nil ==> (p_lit(ts, i)->0).1 == i { eq_lit(ts, i);  }
proof fn nil_varref(ts: Seq<Tok>, i: int) ensures p_varref(ts, i) is Some && (p_varref(ts, i)->0).0 is Nil ==> (p_varref(ts, i)->0).1 == i { eq_varref(ts, i);  }
proof fn nil_paren(ts: Seq<Tok>, i: int) ensures p_paren(ts, i) is Some && (p_paren(ts, i)->0).0 is Nil ==> (p_paren(ts, i)->0).1 == i { eq_paren(ts, i);  }
proof fn nil_ctx(ts: Seq<Tok>, i: int) ensures p_ctx(ts, i) is Some && (p_ctx(ts, i)->0).0 is Nil ==> (p_ctx(ts, i)->0).1 == i { eq_ctx(ts, i);  }
proof fn nil_fcall(ts: Seq<Tok>, i: int) ensures p_fcall(ts, i) is Some && (p_fcall(ts, i)->0).0 is Nil ==> (p_fcall(ts, i)->0).1 == i { eq_fcall(ts, i);  }
proof fn nil_nfr(ts: Seq<Tok>, i: int) ensures p_nfr(ts, i) is Some && (p_nfr(ts, i)->0).0 is Nil ==> (p_nfr(ts, i)->0).1 == i { eq_nfr(ts, i);  }
proof fn nil_inline(ts: Seq<Tok>, i: int) ensures p_inline(ts, i) is Some && (p_inline(ts, i)->0).0 is Nil ==> (p_inline(ts, i)->0).1 == i { eq_inline(ts, i);  }
proof fn nil_fitem(ts: Seq<Tok>, i: int) ensures p_fitem(ts, i) is Some && (p_fitem(ts, i)->0).0 is Nil ==> (p_fitem(ts, i)->0).1 == i { eq_fitem(ts, i); eq_nfr(ts, i); eq_inline(ts, i); }
proof fn nil_curly(ts: Seq<Tok>, i: int) ensures p_curly(ts, i) is Some && (p_curly(ts, i)->0).0 is Nil ==> (p_curly(ts, i)->0).1 == i { eq_curly(ts, i);  }
proof fn nil_square(ts: Seq<Tok>, i: int) ensures p_square(ts, i) is Some && (p_square(ts, i)->0).0 is Nil ==> (p_square(ts, i)->0).1 == i { eq_square(ts, i);  }
proof fn nil_map(ts: Seq<Tok>, i: int) ensures p_map(ts, i) is Some && (p_map(ts, i)->0).0 is Nil ==> (p_map(ts, i)->0).1 == i { eq_map(ts, i);  }
proof fn nil_array(ts: Seq<Tok>, i: int) ensures p_array(ts, i) is Some && (p_array(ts, i)->0).0 is Nil ==> (p_array(ts, i)->0).1 == i { eq_array(ts, i); eq_curly(ts, i); eq_square(ts, i); }
proof fn nil_post(ts: Seq<Tok>, j: int) ensures p_post(ts, j) is Some && (p_post(ts, j)->0).0 is Nil ==> (p_post(ts, j)->0).1 == j { eq_post(ts, j); eq_lookup(ts, j); eq_paren(ts, j + 1); }
proof fn nil_lookup(ts: Seq<Tok>, i: int) ensures p_lookup(ts, i) is Some && (p_lookup(ts, i)->0).0 is Nil ==> (p_lookup(ts, i)->0).1 == i { eq_lookup(ts, i); eq_paren(ts, i + 1); }

// ---- functions of the focus and of nodes: what a call yields from the argument, which may be the context (C10, C19, C20, C22, C24, C26)
spec fn vals_of(a: Seq<&XSequence>) -> Seq<Seq<XItem>> { a.map_values(|x: &XSequence| x.value@) }
spec fn one_node(s: Seq<XItem>) -> Option<NodePtr> { if s.len() == 1 { match s[0] { XItem::XINode { value } => Some(value), _ => None } } else { None } }
/// the empty sequence yields d; a node yields what f says; everything else is an error
spec fn of_node(s: Seq<XItem>, d: Seq<XItem>, f: spec_fn(NodePtr) -> Seq<XItem>) -> Option<Seq<XItem>> { if s.len() == 0 { Some(d) } else { match one_node(s) { Some(n) => Some(f(n)), None => None } } }
spec fn text_of_node(r: Result<XSequence, VErr>, s: Seq<XItem>, f: spec_fn(NodePtr) -> Seq<char>) -> bool { txt(r, if s.len() == 0 { Some(empty_text()) } else { match one_node(s) { Some(n) => Some(f(n)), None => None } }) }
uninterp spec fn nuri(n: NodePtr) -> Seq<char>;
spec fn string_call(s: Seq<XItem>, r: Result<XSequence, VErr>) -> bool { txt(r, if s.len() == 0 { Some(empty_text()) } else if s.len() == 1 { raw_str(s[0]) } else { None }) }
spec fn number_call(s: Seq<XItem>, r: Result<XSequence, VErr>) -> bool {
    (s.len() == 0 ==> sq(r) == Some(seq![XItem::XIDouble { value: f_anan() }])) && (s.len() == 1 ==> sq(r) == (match raw_dbl(s[0]) { Some(d) => Some(seq![XItem::XIDouble { value: d }]), None => None })) }
spec fn length_call(s: Seq<XItem>, r: Result<XSequence, VErr>) -> bool {
    sq(r) == if s.len() == 0 { Some(seq![int_item(0)]) } else { match one_text(s) { Some(t) => Some(seq![int_item(t.len() as int)]), None => None } } }
spec fn space(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
/// the pieces between the blanks, put together
/// (that the words are not kept apart is a known finding: XPath has one blank between them)
spec fn no_blanks(t: Seq<char>) -> Seq<char> { t.filter(|c: char| !space(c)) }
spec fn squeeze_call(s: Seq<XItem>, r: Result<XSequence, VErr>) -> bool { txt(r, if s.len() == 0 { Some(empty_text()) } else { match one_text(s) { Some(t) => Some(no_blanks(t)), None => None } }) }
spec fn all_of(v: Seq<&str>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { all_of(v.drop_last()) + v.last()@ } }
/// trusted: str::split at the characters of white space cuts there, and leaves out nothing else
#[verifier::external_body]
fn vsplit_blank<'a>(s: &'a String) -> (r: Vec<&'a str>) ensures all_of(r@) == no_blanks(s@), r@.len() >= 1
{ s.split(|ch: char| ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n').collect() }
/// xsi:nil of an element
spec fn nil_of(n: NodePtr) -> Seq<XItem> { if ntype(n) is Element { seq![bool_item(nattr(n, "xsi:nil"@) == Some("true"@))] } else { Seq::empty() } }
/// the nearest xml:lang of the node and those around it
spec fn lang_of(v: Seq<NodePtr>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { match nattr(v[0], "xml:lang"@) { Some(t) => lower_of(t), None => lang_of(v.subrange(1, v.len() as int)) } } }
spec fn before_hyphen(t: Seq<char>) -> Seq<char> decreases t.len() { if t.len() == 0 || t[0] == '-' { Seq::empty() } else { seq![t[0]] + before_hyphen(t.subrange(1, t.len() as int)) } }
#[verifier::external_body]
fn vsplit_hyphen<'a>(s: &'a String) -> (r: Vec<&'a str>) ensures r@.len() >= 1, r@[0]@ == before_hyphen(s@) { s.splitn(2, "-").collect() }
spec fn lang_call(t: Seq<XItem>, s: Seq<XItem>, r: Result<XSequence, VErr>) -> bool {
    if t.len() == 0 { txt(r, Some(empty_text())) } else { match (one_text(t), one_node(s)) { (Some(x), Some(n)) => sq(r) == Some(seq![bool_item(before_hyphen(lang_of(anc_self(n))) == x)]), _ => r is Err } } }

// ---- for-each and filter (C26): the function called once per item, in order
/// out is a possible outcome of calling f for the first n items of s
spec fn each_rel(f: XNodePtr, s: Seq<XItem>, c: Seq<XItem>, e: Env, o: Seq<Seq<XItem>>) -> bool { o.len() <= s.len() && forall|i: int| 0 <= i < o.len() ==> called(f, seq![seq![s[i]]], c, e, Some(#[trigger] o[i])) }
spec fn fails_at(f: XNodePtr, s: Seq<XItem>, c: Seq<XItem>, e: Env, n: int) -> bool { 0 <= n < s.len() && called(f, seq![seq![s[n]]], c, e, None) }
spec fn flat(o: Seq<Seq<XItem>>) -> Seq<XItem> decreases o.len() { if o.len() == 0 { Seq::empty() } else { flat(o.drop_last()) + o.last() } }
spec fn for_each_call(f: Option<XNodePtr>, s: Seq<XItem>, c: Seq<XItem>, e: Env, r: Result<XSequence, VErr>) -> bool {
    match f { None => r is Err, Some(f) => match r { Ok(v) => exists|o: Seq<Seq<XItem>>| #[trigger] each_rel(f, s, c, e, o) && o.len() == s.len() && v.value@ == flat(o),
        Err(_) => exists|n: int| #[trigger] fails_at(f, s, c, e, n) } } }
spec fn kept(s: Seq<XItem>, o: Seq<Seq<XItem>>) -> Seq<XItem> decreases o.len() { if o.len() == 0 { Seq::empty() } else { let p = kept(s, o.drop_last()); if ebv(o.last()) == Some(true) { p.push(s[o.len() - 1]) } else { p } } }
spec fn filter_call(f: Option<XNodePtr>, s: Seq<XItem>, c: Seq<XItem>, e: Env, r: Result<XSequence, VErr>) -> bool {
    match f { None => r is Err, Some(f) => match r { Ok(v) => exists|o: Seq<Seq<XItem>>| #[trigger] each_rel(f, s, c, e, o) && o.len() == s.len() && (forall|i: int| 0 <= i < o.len() ==> ebv(#[trigger] o[i]) is Some) && v.value@ == kept(s, o),
        Err(_) => exists|n: int| #[trigger] err_at(f, s, c, e, n) } } }
spec fn err_at(f: XNodePtr, s: Seq<XItem>, c: Seq<XItem>, e: Env, n: int) -> bool { fails_at(f, s, c, e, n) || no_truth_at(f, s, c, e, n) }
spec fn no_truth_at(f: XNodePtr, s: Seq<XItem>, c: Seq<XItem>, e: Env, n: int) -> bool { 0 <= n < s.len() && exists|v: Seq<XItem>| called(f, seq![seq![s[n]]], c, e, Some(v)) && #[trigger] ebv(v) is None }
/// the parser gives every reference to a named function a name with its arity (proved in unit parse)
#[verifier::external_body]
proof fn ax_named(x: XNodePtr) ensures xt(x) is NamedFunctionRef ==> has_hash(xn(x)) {}

// ---- what a call of a function of the focus yields
spec fn focus_ran(f: Focus, a: Seq<Seq<XItem>>, cx: &XSequence, e: Env, r: Result<XSequence, VErr>) -> bool {
    let c = cx.value@;
    match f {
        Focus::fn_nilled_0 => sq(r) == of_node(c, Seq::empty(), |n: NodePtr| nil_of(n)),
        Focus::fn_string_0 => string_call(c, r),
        Focus::fn_data_0 => sq(r) == Some(atoms(c)),
        Focus::fn_number_0 => number_call(c, r),
        Focus::fn_string_length_0 => length_call(c, r),
        Focus::fn_normalize_space_0 => squeeze_call(c, r),
        Focus::fn_name_0 => text_of_node(r, c, |n: NodePtr| nname(n)),
        Focus::fn_local_name_0 => text_of_node(r, c, |n: NodePtr| nlocal(n)),
        Focus::fn_namespace_uri_0 => text_of_node(r, c, |n: NodePtr| nuri(n)),
        Focus::fn_lang_1 => lang_call(a[0], c, r),
        Focus::fn_root_0 => sq(r) == of_node(c, Seq::empty(), |n: NodePtr| seq![XItem::XINode { value: rootn(n) }]),
        Focus::fn_position => e.pos <= i64::MAX ==> sq(r) == Some(seq![int_item(e.pos)]),
        Focus::fn_last => e.last <= i64::MAX ==> sq(r) == Some(seq![int_item(e.last)]),
        Focus::fn_for_each => for_each_call(one_fn(a[1]), a[0], c, e, r),
        Focus::fn_filter => filter_call(one_fn(a[1]), a[0], c, e, r),
    } }

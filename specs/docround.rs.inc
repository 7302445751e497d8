// ------------------------------------------------------------- C05: what is written reads back
spec fn is_name(s: Seq<char>) -> bool { s.len() > 0 && xml_name_start(s[0] as u32) && forall|k: int| 0 < k < s.len() ==> xml_name_char(#[trigger] s[k] as u32) }
/// without NUL
spec fn clean(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != EOF }
spec fn no_cr(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != '\r' }
spec fn dashes() -> Seq<char> { seq!['-', '-', '>'] }
spec fn qmark() -> Seq<char> { seq!['?', '>'] }
spec fn comment_ok(v: Seq<char>) -> bool { clean(v) && no_cr(v) && forall|k: int| 0 <= k < v.len() ==> !#[trigger] matches_at(v + dashes(), k, dashes()) }
spec fn pi_ok(v: Seq<char>) -> bool { clean(v) && no_cr(v) && (v.len() > 0 ==> !is_ws(v[0])) && forall|k: int| 0 <= k < v.len() ==> !#[trigger] matches_at(v + qmark(), k, qmark()) }
spec fn is_text(c: Content) -> bool { match c { Content::Node { ty, .. } => ty is Text, Content::Cut => false } }
spec fn val_of(c: Content) -> Seq<char> { match c { Content::Node { value, .. } => value, Content::Cut => seq![] } }
/// no two texts side by side
spec fn normal(s: Seq<Content>) -> bool { forall|i: int| 0 <= i && i + 1 < s.len() && is_text(#[trigger] s[i]) ==> !is_text(s[i + 1]) }
spec fn good_att(a: Content) -> bool { match a { Content::Node { ty, name, value, attrs, kids } => ty is Attribute && is_name(name) && clean(value) && attrs.len() == 0 && kids.len() == 0, Content::Cut => false } }
spec fn good_atts(s: Seq<Content>) -> bool { forall|i: int| 0 <= i < s.len() ==> good_att(#[trigger] s[i]) }
/// A node of a document of XML characters; tidy: with its texts merged.
spec fn good(c: Content, tidy: bool) -> bool decreases c {
    match c { Content::Cut => false, Content::Node { ty, name, value, attrs, kids } => match ty {
        NodeType::Element => is_name(name) && value.len() == 0 && good_atts(attrs) && (tidy ==> normal(kids)) && forall|i: int| 0 <= i < kids.len() ==> good(#[trigger] kids[i], tidy),
        NodeType::Text => name.len() == 0 && clean(value) && value.len() > 0 && attrs.len() == 0 && kids.len() == 0,
        NodeType::Comment => name.len() == 0 && comment_ok(value) && attrs.len() == 0 && kids.len() == 0,
        NodeType::XMLDecl => name == seq!['x', 'm', 'l'] && pi_ok(value) && attrs.len() == 0 && kids.len() == 0,
        NodeType::Instruction => is_name(name) && name != seq!['x', 'm', 'l'] && pi_ok(value) && attrs.len() == 0 && kids.len() == 0,
        _ => false,
    } }
}
spec fn good_all(s: Seq<Content>, tidy: bool) -> bool { (tidy ==> normal(s)) && forall|i: int| 0 <= i < s.len() ==> good(#[trigger] s[i], tidy) }
/// t stands in s at i
spec fn stands(s: Seq<char>, i: int, t: Seq<char>) -> bool { 0 <= i && i + t.len() <= s.len() && forall|k: int| 0 <= k < t.len() ==> #[trigger] at(s, i + k) == t[k] }
proof fn lemma_stands(s: Seq<char>, i: int, a: Seq<char>, b: Seq<char>) requires stands(s, i, a + b) ensures stands(s, i, a), stands(s, i + a.len(), b)
{
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] at(s, i + k) == a[k] by { assert((a + b)[k] == a[k]); }
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] at(s, i + a.len() + k) == b[k] by { assert((a + b)[a.len() + k] == b[k]); assert(at(s, i + (a.len() + k)) == b[k]); }
}
proof fn lemma_stands_sub(s: Seq<char>, i: int, t: Seq<char>) requires stands(s, i, t) ensures sub(s, i, i + t.len()) == t
{ assert(sub(s, i, i + t.len()) =~= t) by { assert forall|k: int| 0 <= k < t.len() implies sub(s, i, i + t.len())[k] == t[k] by { assert(at(s, i + k) == t[k]); } } }
/// a name ends where no name character follows
proof fn lemma_tail(s: Seq<char>, j: int, e: int) requires 0 <= j <= e <= s.len(), forall|k: int| j <= k < e ==> xml_name_char(#[trigger] at(s, k) as u32), !xml_name_char(at(s, e) as u32) ensures tail_end(s, j) == e decreases e - j
{ if j < e { assert(xml_name_char(at(s, j) as u32)); lemma_tail(s, j + 1, e); } }
proof fn lemma_name(s: Seq<char>, i: int, t: Seq<char>) requires stands(s, i, t), is_name(t), !xml_name_char(at(s, i + t.len()) as u32) ensures name_end(s, i) == i + t.len()
{
    assert(at(s, i + 0) == t[0]);
    assert forall|k: int| i + 1 <= k < i + t.len() implies xml_name_char(#[trigger] at(s, k) as u32) by { assert(at(s, i + (k - i)) == t[k - i]); }
    lemma_tail(s, i + 1, i + t.len());
}
proof fn lemma_punct() ensures !xml_name_char('>' as u32), !xml_name_char('/' as u32), !xml_name_char('=' as u32), !xml_name_char(' ' as u32), !xml_name_char('?' as u32), !xml_name_char('<' as u32), !xml_name_char('\t' as u32), !xml_name_char('\n' as u32), !xml_name_char('\r' as u32), !xml_name_char('!' as u32),
    !xml_name_start('>' as u32), !xml_name_start('/' as u32), !xml_name_start('=' as u32), !xml_name_start(' ' as u32), !xml_name_start('?' as u32), !xml_name_start('<' as u32), !xml_name_start('\t' as u32), !xml_name_start('\n' as u32), !xml_name_start('\r' as u32), !xml_name_start('!' as u32), !xml_name_start(EOF as u32), !xml_name_char(EOF as u32)
{}
proof fn lemma_name_chars(t: Seq<char>) requires is_name(t) ensures clean(t), no_cr(t), !is_ws(t[0]), t[0] != '>', t[0] != '/', t[0] != '?', t[0] != '!', t[0] != EOF, t[0] != '<'
{
    lemma_punct();
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] != EOF && t[k] != '\r' by { if k > 0 { assert(xml_name_char(t[k] as u32)); } }
}
/// the escaped text has neither markup nor quotes
proof fn lemma_esc(t: Seq<char>) requires clean(t) ensures clean(esc(t)), no_cr(esc(t)), forall|k: int| 0 <= k < esc(t).len() ==> #[trigger] esc(t)[k] != '<' && esc(t)[k] != '"' decreases t.len()
{
    if t.len() > 0 {
        let r = t.subrange(1, t.len() as int); let a = esc1(t[0]);
        assert(clean(r)) by { assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] != EOF by { assert(r[k] == t[k + 1]); } }
        lemma_esc(r);
        assert(t[0] != EOF);
        assert forall|k: int| 0 <= k < esc(t).len() implies #[trigger] esc(t)[k] != EOF && esc(t)[k] != '\r' && esc(t)[k] != '<' && esc(t)[k] != '"' by { if k < a.len() { assert(esc(t)[k] == a[k]); } else { assert(esc(t)[k] == esc(r)[k - a.len()]); } }
    }
}
proof fn lemma_esc_nonempty(t: Seq<char>) requires t.len() > 0 ensures esc(t).len() > 0 {}
proof fn lemma_esc_cat(a: Seq<char>, b: Seq<char>) ensures esc(a + b) == esc(a) + esc(b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(esc(a) + esc(b) =~= esc(b)); }
    else {
        let r = a.subrange(1, a.len() as int);
        assert((a + b).subrange(1, (a + b).len() as int) =~= r + b);
        lemma_esc_cat(r, b);
        assert(esc(a + b) =~= esc(a) + esc(b));
    }
}
/// the attributes of a start tag
spec fn att_view(s: Seq<Content>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(s.len(), |i: int| match s[i] { Content::Node { name, value, .. } => (name, value), Content::Cut => (seq![], seq![]) }) }
proof fn lemma_att_view(s: Seq<Content>) requires good_atts(s) ensures attr_nodes(att_view(s)) == s
{
    assert forall|i: int| 0 <= i < s.len() implies attr_nodes(att_view(s))[i] == #[trigger] s[i] by { assert(good_att(s[i]));
        match s[i] { Content::Node { ty, name, value, attrs, kids } => { assert(attrs =~= Seq::<Content>::empty()); assert(kids =~= Seq::<Content>::empty()); }, Content::Cut => {} } }
    assert(attr_nodes(att_view(s)) =~= s);
}
proof fn lemma_ws0(s: Seq<char>, i: int) ensures !is_ws(at(s, i)) ==> ws_end(s, i) == i, 0 <= i && is_ws(at(s, i)) && !is_ws(at(s, i + 1)) ==> ws_end(s, i) == i + 1 { if 0 <= i && is_ws(at(s, i)) && !is_ws(at(s, i + 1)) { assert(ws_end(s, i + 1) == i + 1); } }
proof fn lemma_read_atts(s: Seq<char>, i: int, ats: Seq<Content>, k: int)
    requires good_atts(ats), 0 <= k <= ats.len(), stands(s, i, attrs_text(ats, k)), ({ let e = i + attrs_text(ats, k).len(); at(s, e) == '>' || at(s, e) == '/' && at(s, e + 1) == '>' })
    ensures tag_rest(s, i, false, att_view(ats).take(k)) == Some(({ let e = i + attrs_text(ats, k).len(); TagEnd { attrs: att_view(ats), end: if at(s, e) == '>' { e + 1 } else { e + 2 }, empty: at(s, e) != '>' } }))
    decreases ats.len() - k
{
    let v = att_view(ats); let e = i + attrs_text(ats, k).len();
    lemma_punct();
    if k == ats.len() { assert(v.take(k) =~= v); lemma_ws0(s, i); }
    else {
        assert(good_att(ats[k]));
        let (nm, val) = v[k]; let rest = attrs_text(ats, k + 1); let ev = esc(val);
        let t = attr_text(ats[k]);
        lemma_stands(s, i, t, rest);
        lemma_stands(s, i, seq![' '] + nm + seq!['=', '"'] + ev, seq!['"']);
        lemma_stands(s, i, seq![' '] + nm + seq!['=', '"'], ev);
        lemma_stands(s, i, seq![' '] + nm, seq!['=', '"']);
        lemma_stands(s, i, seq![' '], nm);
        let j = i + 1; let n = j + nm.len(); let q = n + 1; let w = q + 1 + ev.len();
        assert(at(s, i + 0) == ' '); assert(at(s, j + 0) == nm[0]); assert(at(s, n + 0) == '='); assert(at(s, n + 1) == '"'); assert(at(s, w + 0) == '"');
        lemma_name_chars(nm); lemma_name(s, j, nm); lemma_esc(val);
        lemma_ws0(s, i); lemma_ws0(s, n); lemma_ws0(s, q);
        assert forall|x: int| q + 1 <= x < w implies #[trigger] at(s, x) != '"' && at(s, x) != EOF by { assert(at(s, q + 1 + (x - q - 1)) == ev[x - q - 1]); }
        assert(first_ch(s, q + 1, '"', w));
        assert forall|x: int| #[trigger] first_ch(s, q + 1, '"', x) implies x == w by { first_ch_unique(s, q + 1, '"', x, w); }
        lemma_stands_sub(s, j, nm); lemma_stands_sub(s, q + 1, ev); escape_roundtrip(val);
        assert(v.take(k).push((nm, val)) =~= v.take(k + 1));
        assert(w + 1 == i + t.len());
        lemma_read_atts(s, w + 1, ats, k + 1);
        assert(e == w + 1 + rest.len());
    }
}

// ---- one token
proof fn reads_token(s: Seq<char>, i: int, tc: Seq<char>, fr: Seq<Fr>, n: nat, out: Option<Seq<Fr>>) -> (x: (Result<XmlToken, VErr>, int, Seq<char>))
    requires reads(s, i, tc, fr, n, out)
    ensures one(s, i, tc, x.0, x.1, x.2), match x.0 { Err(_) => out is None, Ok(XmlToken::EOF) => out == Some(fr), Ok(t) => match fed(fr, t) { None => out is None, Some(fr2) => n > 0 && reads(s, x.1, x.2, fr2, (n - 1) as nat, out) } }
{
    let (r, e, tc2) = choose|r: Result<XmlToken, VErr>, e: int, tc2: Seq<char>| #[trigger] one(s, i, tc, r, e, tc2) && match r {
        Err(_) => out is None,
        Ok(XmlToken::EOF) => out == Some(fr),
        Ok(t) => match fed(fr, t) { None => out is None, Some(fr2) => n > 0 && reads(s, e, tc2, fr2, (n - 1) as nat, out) } };
    (r, e, tc2)
}
proof fn lemma_first_at(s: Seq<char>, i: int, v: Seq<char>, d: Seq<char>) requires stands(s, i, v + d), clean(v), forall|k: int| 0 <= k < v.len() ==> !#[trigger] matches_at(v + d, k, d) ensures first_at(s, i, d, i + v.len())
{
    lemma_stands(s, i, v, d);
    assert(matches_at(s, i + v.len(), d)) by { assert forall|k: int| 0 <= k < d.len() implies #[trigger] at(s, i + v.len() + k) == d[k] by {} }
    assert forall|k: int| i <= k < i + v.len() implies !#[trigger] matches_at(s, k, d) by {
        assert(!matches_at(v + d, k - i, d));
        if matches_at(s, k, d) {
            assert forall|y: int| 0 <= y < d.len() implies #[trigger] at(v + d, k - i + y) == d[y] by { assert(at(s, k + y) == d[y]); assert(at(s, i + (k - i + y)) == (v + d)[k - i + y]); }
        } }
    assert forall|k: int| i <= k < i + v.len() implies #[trigger] at(s, k) != EOF by { assert(at(s, i + (k - i)) == v[k - i]); }
}
proof fn lemma_comment(s: Seq<char>, i: int, v: Seq<char>, fr: Seq<Fr>, n: nat, out: Option<Seq<Fr>>) -> (m: nat)
    requires comment_ok(v), stands(s, i, seq!['<', '!', '-', '-'] + v + dashes()), reads(s, i, seq![], fr, n, out), fr.len() > 0
    ensures reads(s, i + 7 + v.len(), seq![], add(fr, leaf(NodeType::Comment, seq![], v)), m, out)
{
    let h = seq!['<', '!', '-', '-'];
    assert(h + v + dashes() =~= h + (v + dashes()));
    lemma_stands(s, i, h, v + dashes()); lemma_stands(s, i + 4, v, dashes());
    assert(at(s, i + 0) == '<' && at(s, i + 1) == '!' && at(s, i + 2) == '-' && at(s, i + 3) == '-');
    reveal_strlit("-->"); assert(lit("-->") =~= dashes());
    lemma_first_at(s, i + 4, v, dashes());
    lemma_stands_sub(s, i + 4, v);
    assert forall|j: int| #[trigger] first_at(s, i + 4, dashes(), j) implies j == i + 4 + v.len() by { first_at_unique(s, i + 4, dashes(), j, i + 4 + v.len()); }
    let x = reads_token(s, i, seq![], fr, n, out);
    assert(x.2 =~= Seq::<char>::empty());
    (n - 1) as nat
}
proof fn lemma_inst(s: Seq<char>, i: int, t: Seq<char>, v: Seq<char>, fr: Seq<Fr>, n: nat, out: Option<Seq<Fr>>) -> (m: nat)
    requires is_name(t), pi_ok(v), stands(s, i, seq!['<', '?'] + t + seq![' '] + v + qmark()), reads(s, i, seq![], fr, n, out), fr.len() > 0
    ensures reads(s, i + 5 + t.len() + v.len(), seq![], add(fr, if t == seq!['x', 'm', 'l'] { leaf(NodeType::XMLDecl, t, v) } else { leaf(NodeType::Instruction, t, v) }), m, out)
{
    let h = seq!['<', '?'];
    assert(h + t + seq![' '] + v + qmark() =~= h + (t + (seq![' '] + (v + qmark()))));
    let j = i + 2; let e = j + t.len(); let w = e + 1;
    lemma_stands(s, i, h, t + (seq![' '] + (v + qmark()))); lemma_stands(s, j, t, seq![' '] + (v + qmark())); lemma_stands(s, e, seq![' '], v + qmark()); lemma_stands(s, w, v, qmark());
    assert(at(s, i + 0) == '<' && at(s, i + 1) == '?' && at(s, e + 0) == ' ' && at(s, w + v.len() + 0) == '?' && at(s, w + v.len() + 1) == '>');
    lemma_punct(); lemma_name(s, j, t);
    if v.len() > 0 { assert(at(s, w + 0) == v[0]); assert(v[0] != EOF); }
    lemma_ws0(s, e);
    reveal_strlit("?>"); assert(lit("?>") =~= qmark());
    lemma_first_at(s, w, v, qmark());
    lemma_stands_sub(s, w, v); lemma_stands_sub(s, j, t);
    assert forall|y: int| #[trigger] first_at(s, w, qmark(), y) implies y == w + v.len() by { first_at_unique(s, w, qmark(), y, w + v.len()); }
    let x = reads_token(s, i, seq![], fr, n, out);
    assert(x.2 =~= Seq::<char>::empty());
    (n - 1) as nat
}
/// a text up to the next markup or the end
proof fn lemma_text(s: Seq<char>, i: int, v: Seq<char>, fr: Seq<Fr>, n: nat, out: Option<Seq<Fr>>) -> (x: (nat, int))
    requires clean(v), v.len() > 0, stands(s, i, esc(v)), reads(s, i, seq![], fr, n, out), fr.len() > 0, ({ let e = i + esc(v).len(); at(s, e) == '<' || e == s.len() })
    ensures reads(s, x.1, seq![], add(fr, leaf(NodeType::Text, seq![], v)), x.0, out), ({ let e = i + esc(v).len(); x.1 == e || e == s.len() && x.1 == e + 1 })
{
    let e = i + esc(v).len();
    lemma_esc(v); lemma_esc_nonempty(v); escape_roundtrip(v); lemma_stands_sub(s, i, esc(v));
    assert forall|k: int| i <= k < e implies #[trigger] at(s, k) != '<' && at(s, k) != EOF by { assert(at(s, i + (k - i)) == esc(v)[k - i]); }
    assert(at(s, i) != '<' && at(s, i) != EOF);
    let x = reads_token(s, i, seq![], fr, n, out);
    let y = choose|y: int| #![trigger sub(s, i, y)] {
            &&& i < y <= s.len()
            &&& forall|k: int| i <= k < y ==> #[trigger] at(s, k) != '<' && at(s, k) != EOF
            &&& at(s, y) == '<' || at(s, y) == EOF
            &&& x.1 == (if at(s, y) == '<' { y } else { y + 1 })
            &&& (x.0 matches Ok(XmlToken::CharData { chardata }) && chardata@ == decoded(sub(s, i, y))) };
    if y < e { assert(at(s, y) != '<'); } else if y > e { if e < s.len() { assert(at(s, e) != '<'); } }
    assert(x.2 =~= Seq::<char>::empty());
    ((n - 1) as nat, x.1)
}
proof fn lemma_start(s: Seq<char>, i: int, nm: Seq<char>, ats: Seq<Content>, fr: Seq<Fr>, n: nat, out: Option<Seq<Fr>>) -> (m: nat)
    requires is_name(nm), good_atts(ats), stands(s, i, seq!['<'] + nm + attrs_text(ats, 0)), reads(s, i, seq![], fr, n, out), ({ let e = i + 1 + nm.len() + attrs_text(ats, 0).len(); at(s, e) == '>' || at(s, e) == '/' && at(s, e + 1) == '>' })
    ensures ({ let e = i + 1 + nm.len() + attrs_text(ats, 0).len(); let f = fr.push(Fr { name: nm, attrs: ats, kids: seq![] }); if at(s, e) == '>' { reads(s, e + 1, seq![], f, m, out) } else { reads(s, e + 2, nm, f, m, out) } })
{
    let at0 = attrs_text(ats, 0); let j = i + 1 + nm.len();
    lemma_stands(s, i, seq!['<'] + nm, at0); lemma_stands(s, i, seq!['<'], nm);
    lemma_punct(); lemma_name_chars(nm);
    assert(at(s, i + 0) == '<'); assert(at(s, i + 1 + 0) == nm[0]);
    if ats.len() > 0 { assert(good_att(ats[0])); lemma_stands(s, j, attr_text(ats[0]), attrs_text(ats, 1)); assert(attr_text(ats[0])[0] == ' '); assert(at(s, j + 0) == ' '); }
    lemma_name(s, i + 1, nm); lemma_stands_sub(s, i + 1, nm);
    assert(att_view(ats).take(0) =~= Seq::<(Seq<char>, Seq<char>)>::empty());
    lemma_read_atts(s, j, ats, 0); lemma_att_view(ats);
    let x = reads_token(s, i, seq![], fr, n, out);
    (n - 1) as nat
}
proof fn lemma_end_tag(s: Seq<char>, i: int, nm: Seq<char>, fr: Seq<Fr>, n: nat, out: Option<Seq<Fr>>) -> (m: nat)
    requires is_name(nm), stands(s, i, seq!['<', '/'] + nm + seq!['>']), reads(s, i, seq![], fr, n, out), fr.len() > 1, fr.last().name == nm
    ensures reads(s, i + 3 + nm.len(), seq![], close(fr), m, out)
{
    lemma_stands(s, i, seq!['<', '/'] + nm, seq!['>']); lemma_stands(s, i, seq!['<', '/'], nm);
    lemma_punct();
    let e = i + 2 + nm.len();
    assert(at(s, i + 0) == '<' && at(s, i + 1) == '/' && at(s, e + 0) == '>');
    lemma_name(s, i + 2, nm); lemma_stands_sub(s, i + 2, nm);
    assert(first_ch(s, e, '>', e));
    assert forall|j: int| #[trigger] first_ch(s, e, '>', j) implies j == e by { first_ch_unique(s, e, '>', j, e); }
    let x = reads_token(s, i, seq![], fr, n, out);
    assert(x.2 =~= Seq::<char>::empty());
    (n - 1) as nat
}
// ---- nodes
spec fn added(fr: Seq<Fr>, ks: Seq<Content>, k: int) -> Seq<Fr> { fr.update(fr.len() - 1, Fr { kids: fr.last().kids + ks.subrange(k, ks.len() as int), ..fr.last() }) }
proof fn lemma_read_leaf(s: Seq<char>, i: int, c: Content, fr: Seq<Fr>, n: nat, out: Option<Seq<Fr>>) -> (m: nat)
    requires good(c, true), !is_text(c), !(c matches Content::Node { ty: NodeType::Element, .. }), stands(s, i, ser(c, 0, 0)), reads(s, i, seq![], fr, n, out), fr.len() > 0
    ensures reads(s, i + ser(c, 0, 0).len(), seq![], add(fr, c), m, out)
{
    match c { Content::Cut => { 0 }, Content::Node { ty, name, value, attrs, kids } => {
        assert(blanks(0) =~= Seq::<char>::empty());
        match ty {
            NodeType::Comment => {
                assert(ser(c, 0, 0) =~= seq!['<', '!', '-', '-'] + value + dashes());
                assert(name =~= Seq::<char>::empty()); assert(attrs =~= Seq::<Content>::empty()); assert(kids =~= Seq::<Content>::empty());
                lemma_comment(s, i, value, fr, n, out)
            },
            NodeType::XMLDecl => {
                assert(is_name(seq!['x', 'm', 'l'])) by { lemma_xml_name(); }
                assert(ser(c, 0, 0) =~= seq!['<', '?'] + name + seq![' '] + value + qmark());
                assert(attrs =~= Seq::<Content>::empty()); assert(kids =~= Seq::<Content>::empty());
                lemma_inst(s, i, name, value, fr, n, out)
            },
            NodeType::Instruction => {
                assert(ser(c, 0, 0) =~= seq!['<', '?'] + name + seq![' '] + value + qmark());
                assert(attrs =~= Seq::<Content>::empty()); assert(kids =~= Seq::<Content>::empty());
                lemma_inst(s, i, name, value, fr, n, out)
            },
            _ => { 0 }
        } } }
}
spec fn elem(name: Seq<char>, attrs: Seq<Content>, kids: Seq<Content>) -> Content { Content::Node { ty: NodeType::Element, name, value: seq![], attrs, kids } }
proof fn lemma_ser_elem(name: Seq<char>, attrs: Seq<Content>, kids: Seq<Content>)
    ensures ser(elem(name, attrs, kids), 0, 0) == if kids.len() == 0 { (seq!['<'] + name + attrs_text(attrs, 0)) + seq!['/', '>'] } else { (seq!['<'] + name + attrs_text(attrs, 0)) + (seq!['>'] + (sers(kids, 0, 0, 0) + (seq!['<', '/'] + name + seq!['>']))) }
{
    assert(blanks(0) =~= Seq::<char>::empty());
    let c = elem(name, attrs, kids);
    if kids.len() == 0 { assert(ser(c, 0, 0) =~= (seq!['<'] + name + attrs_text(attrs, 0)) + seq!['/', '>']); }
    else { assert(ser(c, 0, 0) =~= (seq!['<'] + name + attrs_text(attrs, 0)) + (seq!['>'] + (sers(kids, 0, 0, 0) + (seq!['<', '/'] + name + seq!['>'])))); }
}
proof fn lemma_read_empty(s: Seq<char>, i: int, name: Seq<char>, attrs: Seq<Content>, fr: Seq<Fr>, n: nat, out: Option<Seq<Fr>>) -> (m: nat)
    requires is_name(name), good_atts(attrs), stands(s, i, ser(elem(name, attrs, seq![]), 0, 0)), reads(s, i, seq![], fr, n, out), fr.len() > 0
    ensures reads(s, i + ser(elem(name, attrs, seq![]), 0, 0).len(), seq![], add(fr, elem(name, attrs, seq![])), m, out)
{
    let head = seq!['<'] + name + attrs_text(attrs, 0); let e = i + head.len();
    let f = fr.push(Fr { name, attrs, kids: seq![] });
    lemma_ser_elem(name, attrs, seq![]);
    lemma_stands(s, i, head, seq!['/', '>']); assert(at(s, e + 0) == '/' && at(s, e + 1) == '>');
    let m = lemma_start(s, i, name, attrs, fr, n, out);
    let x = reads_token(s, e + 2, name, f, m, out);
    assert(x.2 =~= Seq::<char>::empty());
    assert(f.drop_last() =~= fr);
    (m - 1) as nat
}
proof fn lemma_read_node(s: Seq<char>, i: int, c: Content, fr: Seq<Fr>, n: nat, out: Option<Seq<Fr>>) -> (m: nat)
    requires good(c, true), !is_text(c), stands(s, i, ser(c, 0, 0)), reads(s, i, seq![], fr, n, out), fr.len() > 0
    ensures reads(s, i + ser(c, 0, 0).len(), seq![], add(fr, c), m, out)
    decreases c, 0nat
{
    match c { Content::Cut => { 0 }, Content::Node { ty, name, value, attrs, kids } => {
        if !(ty is Element) { lemma_read_leaf(s, i, c, fr, n, out) }
        else {
            assert(value =~= Seq::<char>::empty());
            assert(c == elem(name, attrs, kids));
            if kids.len() == 0 { assert(kids =~= Seq::<Content>::empty()); lemma_read_empty(s, i, name, attrs, fr, n, out) }
            else {
                let head = seq!['<'] + name + attrs_text(attrs, 0); let e = i + head.len();
                let f = fr.push(Fr { name, attrs, kids: seq![] });
                let tail = seq!['<', '/'] + name + seq!['>']; let body = sers(kids, 0, 0, 0);
                lemma_ser_elem(name, attrs, kids);
                lemma_stands(s, i, head, seq!['>'] + (body + tail)); assert(at(s, e + 0) == '>');
                lemma_stands(s, e, seq!['>'], body + tail); lemma_stands(s, e + 1, body, tail);
                assert(at(s, e + 1 + body.len() + 0) == tail[0]);
                let m = lemma_start(s, i, name, attrs, fr, n, out);
                assert(good_all(kids, true));
                let x = lemma_read_nodes(s, e + 1, kids, 0, f, m, out);
                lemma_close(name, attrs, kids, fr);
                lemma_end_tag(s, e + 1 + body.len(), name, added(f, kids, 0), x.0, out)
            }
        } } }
}
proof fn lemma_close(name: Seq<char>, attrs: Seq<Content>, kids: Seq<Content>, fr: Seq<Fr>) requires fr.len() > 0
    ensures ({ let f = fr.push(Fr { name, attrs, kids: seq![] }); let f2 = added(f, kids, 0); close(f2) == add(fr, elem(name, attrs, kids)) && f2.len() > 1 && f2.last().name == name })
{
    let f = fr.push(Fr { name, attrs, kids: seq![] }); let f2 = added(f, kids, 0);
    assert(f2.last().kids =~= kids); assert(f2.drop_last() =~= fr);
}
proof fn lemma_read_nodes(s: Seq<char>, i: int, ks: Seq<Content>, k: int, fr: Seq<Fr>, n: nat, out: Option<Seq<Fr>>) -> (x: (nat, int))
    requires good_all(ks, true), 0 <= k <= ks.len(), stands(s, i, sers(ks, k, 0, 0)), reads(s, i, seq![], fr, n, out), fr.len() > 0, ({ let e = i + sers(ks, k, 0, 0).len(); at(s, e) == '<' || e == s.len() })
    ensures reads(s, x.1, seq![], added(fr, ks, k), x.0, out), ({ let e = i + sers(ks, k, 0, 0).len(); x.1 == e || e == s.len() && x.1 == e + 1 })
    decreases ks, ks.len() - k
{
    if k == ks.len() { assert(added(fr, ks, k) =~= fr) by { assert(fr.last().kids + ks.subrange(k, k) =~= fr.last().kids); } (n, i) }
    else {
        let c = ks[k]; let t = ser(c, 0, 0); let rest = sers(ks, k + 1, 0, 0);
        assert(good(c, true));
        lemma_stands(s, i, t, rest);
        assert(added(add(fr, c), ks, k + 1) =~= added(fr, ks, k)) by { assert(fr.last().kids.push(c) + ks.subrange(k + 1, ks.len() as int) =~= fr.last().kids + ks.subrange(k, ks.len() as int)); }
        if is_text(c) {
            let v = val_of(c);
            assert(blanks(0) =~= Seq::<char>::empty()); assert(t =~= esc(v));
            if k + 1 < ks.len() { assert(good(ks[k + 1], true)); lemma_markup(ks[k + 1]); lemma_stands(s, i + t.len(), ser(ks[k + 1], 0, 0), sers(ks, k + 2, 0, 0)); assert(at(s, i + t.len() + 0) == '<'); }
            let x = lemma_text(s, i, v, fr, n, out);
            assert(leaf(NodeType::Text, seq![], v) == c) by { match c { Content::Node { name, attrs, kids, .. } => { assert(name =~= Seq::<char>::empty()); assert(attrs =~= Seq::<Content>::empty()); assert(kids =~= Seq::<Content>::empty()); }, _ => {} } }
            if k + 1 < ks.len() { lemma_read_nodes(s, x.1, ks, k + 1, add(fr, c), x.0, out) }
            else { assert(rest =~= Seq::<char>::empty()); assert(added(add(fr, c), ks, k + 1) =~= add(fr, c)) by { assert(fr.last().kids.push(c) + ks.subrange(k + 1, k + 1) =~= fr.last().kids.push(c)); } x }
        } else {
            let m = lemma_read_node(s, i, c, fr, n, out);
            lemma_read_nodes(s, i + t.len(), ks, k + 1, add(fr, c), m, out)
        }
    }
}
/// what is no text begins with a '<'
proof fn lemma_markup(c: Content) requires good(c, true), !is_text(c) ensures ser(c, 0, 0).len() > 0, ser(c, 0, 0)[0] == '<'
{ assert(blanks(0) =~= Seq::<char>::empty()); }
proof fn lemma_xml_name() ensures is_name(seq!['x', 'm', 'l'])
{ assert(xml_name_start('x' as u32) && xml_name_char('m' as u32) && xml_name_char('l' as u32)); let s = seq!['x', 'm', 'l']; assert forall|k: int| 0 < k < s.len() implies xml_name_char(#[trigger] s[k] as u32) by { assert(k == 1 || k == 2); } }
// ---- merging adjacent texts
spec fn text(v: Seq<char>) -> Content { leaf(NodeType::Text, seq![], v) }
/// acc with c after it: a text after a text is joined to it
spec fn joined(acc: Seq<Content>, c: Content) -> Seq<Content> {
    if is_text(c) && acc.len() > 0 && is_text(acc.last()) { acc.drop_last().push(text(val_of(acc.last()) + val_of(c))) } else { acc.push(c) }
}
/// the subtree with its texts merged
spec fn norm(c: Content) -> Content decreases c, 0nat { match c { Content::Node { ty, name, value, attrs, kids } => Content::Node { ty, name, value, attrs, kids: merged(kids, kids.len() as int) }, Content::Cut => c } }
/// the first k nodes with their texts merged
spec fn merged(s: Seq<Content>, k: int) -> Seq<Content> decreases s, k { if 0 < k <= s.len() { joined(merged(s, k - 1), norm(s[k - 1])) } else { seq![] } }
proof fn lemma_text_is(c: Content) requires good(c, false), is_text(c) ensures c == text(val_of(c)), norm(c) == c, clean(val_of(c)), val_of(c).len() > 0
{ match c { Content::Node { name, attrs, kids, .. } => { assert(name =~= Seq::<char>::empty()); assert(attrs =~= Seq::<Content>::empty()); assert(kids =~= Seq::<Content>::empty()); assert(merged(kids, 0) =~= kids); }, _ => {} } }
proof fn lemma_text_good(v: Seq<char>) requires clean(v), v.len() > 0 ensures good(text(v), true), is_text(text(v)), val_of(text(v)) == v, ser(text(v), 0, 0) == esc(v)
{ assert(blanks(0) =~= Seq::<char>::empty()); assert(ser(text(v), 0, 0) =~= esc(v)); }
proof fn lemma_norm(c: Content) requires good(c, false) ensures good(norm(c), true), is_text(norm(c)) == is_text(c), ser(norm(c), 0, 0) == ser(c, 0, 0) decreases c, 0nat
{
    match c { Content::Cut => {}, Content::Node { ty, name, value, attrs, kids } => {
        if is_text(c) { lemma_text_is(c); lemma_text_good(value); }
        else if kids.len() == 0 { assert(merged(kids, 0) =~= kids); assert(norm(c) == c); if ty is Element { assert(normal(kids)); } }
        else {
            lemma_merged(kids, kids.len() as int);
            let m = merged(kids, kids.len() as int);
            assert(sers(kids, kids.len() as int, 0, 0) =~= Seq::<char>::empty());
            assert(sers(m, 0, 0, 0) =~= sers(kids, 0, 0, 0));
            assert(value =~= Seq::<char>::empty());
            lemma_ser_elem(name, attrs, kids); lemma_ser_elem(name, attrs, m);
            assert(c == elem(name, attrs, kids)); assert(norm(c) == elem(name, attrs, m));
        }
    } }
}
proof fn lemma_merged(s: Seq<Content>, k: int) requires good_all(s, false), 0 <= k <= s.len()
    ensures good_all(merged(s, k), true), k > 0 ==> merged(s, k).len() > 0, sers(merged(s, k), 0, 0, 0) + sers(s, k, 0, 0) == sers(s, 0, 0, 0)
    decreases s, k
{
    if k == 0 { assert(sers(merged(s, 0), 0, 0, 0) + sers(s, 0, 0, 0) =~= sers(s, 0, 0, 0)); }
    else {
        lemma_merged(s, k - 1);
        assert(good(s[k - 1], false));
        lemma_norm(s[k - 1]);
        lemma_joined(merged(s, k - 1), norm(s[k - 1]));
        assert(sers(merged(s, k), 0, 0, 0) + sers(s, k, 0, 0) =~= sers(merged(s, k - 1), 0, 0, 0) + sers(s, k - 1, 0, 0));
    }
}
proof fn lemma_joined(acc: Seq<Content>, c: Content) requires good_all(acc, true), good(c, true) ensures good_all(joined(acc, c), true), joined(acc, c).len() > 0, sers(joined(acc, c), 0, 0, 0) == sers(acc, 0, 0, 0) + ser(c, 0, 0)
{
    let r = joined(acc, c);
    if is_text(c) && acc.len() > 0 && is_text(acc.last()) {
        let a = acc.last(); let init = acc.drop_last(); let v = val_of(a); let w = val_of(c);
        assert(good(a, true)) by { assert(acc[acc.len() - 1] == a); }
        lemma_good_loose(a); lemma_good_loose(c); lemma_text_is(a); lemma_text_is(c);
        assert(clean(v + w)) by { assert forall|k: int| 0 <= k < (v + w).len() implies #[trigger] (v + w)[k] != EOF by { if k < v.len() { assert((v + w)[k] == v[k]); } else { assert((v + w)[k] == w[k - v.len()]); } } }
        lemma_text_good(v); lemma_text_good(w); lemma_text_good(v + w); lemma_esc_cat(v, w);
        lemma_sers_push(init, a, 0); lemma_sers_push(init, text(v + w), 0);
        assert(init.push(a) =~= acc);
        assert(sers(r, 0, 0, 0) =~= sers(acc, 0, 0, 0) + ser(c, 0, 0));
        assert forall|i: int| 0 <= i < r.len() implies good(#[trigger] r[i], true) by { if i < init.len() { assert(r[i] == acc[i]); } }
        assert forall|i: int| 0 <= i && i + 1 < r.len() && is_text(#[trigger] r[i]) implies !is_text(r[i + 1]) by { assert(r[i] == acc[i]); if i + 1 < init.len() { assert(r[i + 1] == acc[i + 1]); } }
    } else {
        lemma_sers_push(acc, c, 0);
        assert forall|i: int| 0 <= i < r.len() implies good(#[trigger] r[i], true) by { if i < acc.len() { assert(r[i] == acc[i]); } }
        assert forall|i: int| 0 <= i && i + 1 < r.len() && is_text(#[trigger] r[i]) implies !is_text(r[i + 1]) by { assert(r[i] == acc[i]); if i + 1 < acc.len() { assert(r[i + 1] == acc[i + 1]); } }
    }
}
proof fn lemma_good_loose(c: Content) requires good(c, true) ensures good(c, false) decreases c
{ match c { Content::Node { kids, .. } => { assert forall|i: int| 0 <= i < kids.len() && c->ty is Element implies good(#[trigger] kids[i], false) by { lemma_good_loose(kids[i]); } }, _ => {} } }
proof fn lemma_sers_push(s: Seq<Content>, c: Content, j: int) requires 0 <= j <= s.len() ensures sers(s.push(c), j, 0, 0) == sers(s, j, 0, 0) + ser(c, 0, 0) decreases s.len() - j
{
    if j < s.len() { lemma_sers_push(s, c, j + 1); assert(s.push(c)[j] == s[j]); assert(sers(s.push(c), j, 0, 0) =~= sers(s, j, 0, 0) + ser(c, 0, 0)); }
    else { assert(sers(s.push(c), j + 1, 0, 0) =~= Seq::<char>::empty()); assert(sers(s.push(c), j, 0, 0) =~= ser(c, 0, 0)); assert(sers(s, j, 0, 0) + ser(c, 0, 0) =~= ser(c, 0, 0)); }
}
/// a tidy tree is its own normal form
proof fn lemma_norm_tidy(c: Content) requires good(c, true) ensures norm(c) == c decreases c, 0nat
{
    lemma_good_loose(c);
    match c { Content::Cut => {}, Content::Node { ty, name, value, attrs, kids } => {
        if ty is Element { lemma_merged_tidy(kids, kids.len() as int); assert(kids.take(kids.len() as int) =~= kids); } else { assert(merged(kids, 0) =~= kids); } } }
}
proof fn lemma_merged_tidy(s: Seq<Content>, k: int) requires good_all(s, true), 0 <= k <= s.len() ensures merged(s, k) == s.take(k) decreases s, k
{
    if k == 0 { assert(merged(s, 0) =~= s.take(0)); }
    else { lemma_merged_tidy(s, k - 1); assert(good(s[k - 1], true)); lemma_norm_tidy(s[k - 1]);
        if k > 1 { assert(s.take(k - 1).last() == s[k - 2]); assert(is_text(s[k - 2]) ==> !is_text(s[k - 2 + 1])); }
        assert(merged(s, k) =~= s.take(k)); }
}
/// the compact form has no carriage return: reading it drops none
proof fn lemma_no_cr(c: Content) requires good(c, false) ensures no_cr(ser(c, 0, 0)) decreases c, 0nat
{
    assert(blanks(0) =~= Seq::<char>::empty());
    match c { Content::Cut => {}, Content::Node { ty, name, value, attrs, kids } => {
        match ty {
            NodeType::Text => { lemma_esc(value); assert(ser(c, 0, 0) =~= esc(value)); },
            NodeType::Comment => {},
            NodeType::XMLDecl => {},
            NodeType::Instruction => { lemma_name_chars(name); },
            NodeType::Element => {
                assert(value =~= Seq::<char>::empty()); assert(c == elem(name, attrs, kids)); lemma_ser_elem(name, attrs, kids);
                lemma_name_chars(name); lemma_no_cr_attrs(attrs, 0); if kids.len() > 0 { lemma_no_cr_all(kids, 0); } },
            _ => {},
        } } }
}
proof fn lemma_no_cr_all(s: Seq<Content>, k: int) requires good_all(s, false), 0 <= k <= s.len() ensures no_cr(sers(s, k, 0, 0)) decreases s, s.len() - k
{ if k < s.len() { assert(good(s[k], false)); lemma_no_cr(s[k]); lemma_no_cr_all(s, k + 1); } }
proof fn lemma_no_cr_attrs(s: Seq<Content>, k: int) requires good_atts(s), 0 <= k <= s.len() ensures no_cr(attrs_text(s, k)) decreases s.len() - k
{ if k < s.len() { assert(good_att(s[k])); lemma_no_cr_attrs(s, k + 1); match s[k] { Content::Node { name, value, .. } => { lemma_name_chars(name); lemma_esc(value); }, _ => {} } } }
proof fn lemma_filtered(s: Seq<char>) requires no_cr(s) ensures filtered(s) == s decreases s.len()
{
    let p = |c: char| c != '\r';
    reveal(Seq::filter);
    if s.len() > 0 { let d = s.drop_last(); assert(no_cr(d)) by { assert forall|k: int| 0 <= k < d.len() implies #[trigger] d[k] != '\r' by { assert(d[k] == s[k]); } } lemma_filtered(d); assert(s[s.len() - 1] != '\r'); assert(s.last() != '\r'); assert(d.push(s.last()) =~= s); }
    else { assert(s.filter(p) =~= s); }
}
/// A tidy document is what its text reads as, and nothing else.
proof fn lemma_round_trip(ks: Seq<Content>, n: nat, out: Option<Seq<Fr>>)
    requires good_all(ks, true), reads(sers(ks, 0, 0, 0), 0, seq![], fr0(), n, out)
    ensures out == Some(seq![Fr { name: seq![], attrs: seq![], kids: ks }])
{
    let s = sers(ks, 0, 0, 0);
    assert(stands(s, 0, s)) by { assert forall|k: int| 0 <= k < s.len() implies #[trigger] at(s, 0 + k) == s[k] by {} }
    let x = lemma_read_nodes(s, 0, ks, 0, fr0(), n, out);
    assert(added(fr0(), ks, 0) =~= seq![Fr { name: seq![], attrs: seq![], kids: ks }]) by { assert(Seq::<Content>::empty() + ks.subrange(0, ks.len() as int) =~= ks); }
    let y = reads_token(s, x.1, seq![], added(fr0(), ks, 0), x.0, out);
}
/// a document of XML characters
spec fn good_doc(h: HV, d: RcNode) -> bool { alive(h, d) && d.node_type is DocumentRoot && good_all(trees(h, kids(h, d)), false) }
/// The compact text of a document reads as that document with its texts merged, and nothing else ...
fn written_and_read(h: &mut Heap, d: &NodePtr) -> (r: Result<NodePtr, VErr>)
    requires wf(old(h).v()), good_doc(old(h).v(), d.rc_node), ser(tree(old(h).v(), d.rc_node), 0, 0).len() < 0x7fff_ff00
    ensures wf(final(h).v()), r matches Ok(d2) && ({ let m = merged(trees(old(h).v(), kids(old(h).v(), d.rc_node)), kids(old(h).v(), d.rc_node).len() as int);
        trees(final(h).v(), kids(final(h).v(), d2.rc_node)) == m && good_doc(final(h).v(), d2.rc_node) && ser(tree(final(h).v(), d2.rc_node), 0, 0) == ser(tree(old(h).v(), d.rc_node), 0, 0) })
{
    let s = d.to_string(h);
    let ghost h0 = h.v(); let ghost ks = trees(h0, kids(h0, d.rc_node)); let ghost m = merged(ks, ks.len() as int);
    proof {
        lemma_tree(h0, d.rc_node); assert(s@ == sers(ks, 0, 0, 0));
        lemma_merged(ks, ks.len() as int); assert(sers(ks, ks.len() as int, 0, 0) =~= Seq::<char>::empty()); assert(sers(m, 0, 0, 0) =~= s@);
        lemma_no_cr_all(ks, 0); lemma_filtered(s@);
        assert forall|n: nat, out: Option<Seq<Fr>>| #[trigger] reads(s@, 0, seq![], fr0(), n, out) implies out == Some(seq![Fr { name: seq![], attrs: seq![], kids: m }]) by { lemma_round_trip(m, n, out); }
    }
    let r = new_document(s.as_str(), h);
    proof {
        let h2 = h.v();
        match r { Ok(ref d2) => {
            let fr = choose|fr: Seq<Fr>| #[trigger] read_of(h2, d2.rc_node, fr) && ends_as(filtered(s@), Some(fr));
            let n = choose|n: RcNode| #[trigger] opened(h2, d2.rc_node, n, fr, true);
            lemma_tree(h2, d2.rc_node);
            assert forall|i: int| 0 <= i < m.len() implies good(#[trigger] m[i], false) by { assert(good(m[i], true)); lemma_good_loose(m[i]); }
        }, Err(_) => {} }
    }
    r
}

// ---- what is read of a well-formed text
/// At i stands one well-formed token (no document type declaration, no reference to a NUL).
spec fn sound_token(s: Seq<char>, i: int) -> bool {
    let c = at(s, i); let d = at(s, i + 1);
    if c == EOF || c == '<' && d == '/' { true }
    else if c != '<' { forall|n: int| #![trigger sub(s, i, n)] (forall|k: int| i <= k < n ==> #[trigger] at(s, k) != '<' && at(s, k) != EOF) ==> clean(decoded(sub(s, i, n))) }
    else if d == '?' { name_end(s, i + 2) > i + 2 && at(s, ws_end(s, name_end(s, i + 2))) != EOF }
    else if d == '!' { at(s, i + 2) == '-' && at(s, i + 3) == '-' || at(s, i + 2) == '[' && matches_at(s, i + 3, lit("CDATA[")) }
    else { name_end(s, i + 1) > i + 1 && match tag_rest(s, name_end(s, i + 1), false, seq![]) { Some(t) => forall|k: int| 0 <= k < t.attrs.len() ==> clean(#[trigger] t.attrs[k].1), None => false } }
}
/// from i on, s consists of at most n well-formed tokens
spec fn sound(s: Seq<char>, i: int, tc: Seq<char>, n: nat) -> bool decreases n {
    &&& tc.len() == 0 ==> sound_token(s, i)
    &&& forall|r: Result<XmlToken, VErr>, e: int, tc2: Seq<char>| #[trigger] one(s, i, tc, r, e, tc2) && r is Ok && !(r matches Ok(XmlToken::EOF)) ==> n > 0 && sound(s, e, tc2, (n - 1) as nat)
}
spec fn fr_ok(f: Fr, top: bool) -> bool { good_all(f.kids, false) && good_atts(f.attrs) && (!top ==> is_name(f.name)) }
spec fn frs_ok(fr: Seq<Fr>) -> bool { fr.len() > 0 && forall|i: int| 0 <= i < fr.len() ==> fr_ok(#[trigger] fr[i], i == 0) }
proof fn lemma_name_is(s: Seq<char>, i: int) requires 0 <= i, name_end(s, i) > i ensures is_name(sub(s, i, name_end(s, i))), name_end(s, i) <= s.len()
{
    lemma_punct();
    let e = name_end(s, i); assert(xml_name_start(at(s, i) as u32)); assert(i < s.len());
    tail_end_ge(s, i + 1); lemma_tail_chars(s, i + 1);
    assert(sub(s, i, e)[0] == at(s, i));
    assert forall|k: int| 0 < k < sub(s, i, e).len() implies xml_name_char(#[trigger] sub(s, i, e)[k] as u32) by { assert(xml_name_char(at(s, i + k) as u32)); }
}
proof fn lemma_tail_chars(s: Seq<char>, i: int) ensures forall|k: int| i <= k < tail_end(s, i) ==> xml_name_char(#[trigger] at(s, k) as u32) decreases s.len() - i
{ if 0 <= i < s.len() && xml_name_char(s[i] as u32) { lemma_tail_chars(s, i + 1); } }
proof fn lemma_atts_named(s: Seq<char>, i: int, ws: bool, acc: Seq<(Seq<char>, Seq<char>)>)
    requires 0 <= i, forall|k: int| 0 <= k < acc.len() ==> is_name(#[trigger] acc[k].0)
    ensures tag_rest(s, i, ws, acc) matches Some(t) ==> forall|k: int| 0 <= k < t.attrs.len() ==> is_name(#[trigger] t.attrs[k].0)
    decreases s.len() - i
{
    let j = ws_end(s, i); ws_end_ge(s, i);
    if i > s.len() {} else if at(s, j) == '>' {} else if at(s, j) == '/' && at(s, j + 1) == '>' {}
    else {
        let n = name_end(s, j); let e = ws_end(s, n); let q = ws_end(s, e + 1);
        if n > j && (ws || j > i) && at(s, e) == '=' && (at(s, q) == '"' || at(s, q) == '\'') && exists|v: int| #[trigger] first_ch(s, q + 1, at(s, q), v) && i < v + 1 {
            let v = choose|v: int| #[trigger] first_ch(s, q + 1, at(s, q), v) && i < v + 1;
            lemma_name_is(s, j);
            let a2 = acc.push((sub(s, j, n), decoded(sub(s, q + 1, v))));
            assert forall|k: int| 0 <= k < a2.len() implies is_name(#[trigger] a2[k].0) by { if k < acc.len() { assert(a2[k] == acc[k]); } }
            lemma_atts_named(s, v + 1, false, a2);
        }
    }
}
/// what stands before the first d
proof fn lemma_before(s: Seq<char>, i: int, d: Seq<char>, j: int) requires 0 <= i, d.len() > 0, d[0] != EOF, no_cr(s), first_at(s, i, d, j)
    ensures ({ let v = sub(s, i, j); clean(v) && no_cr(v) && v.len() == j - i && forall|k: int| 0 <= k < v.len() ==> !#[trigger] matches_at(v + d, k, d) })
{
    assert(at(s, j + 0) == d[0]); assert(j < s.len());
    let v = sub(s, i, j);
    assert forall|k: int| 0 <= k < v.len() implies #[trigger] v[k] != EOF && v[k] != '\r' by { assert(v[k] == at(s, i + k)); }
    assert forall|k: int| 0 <= k < v.len() implies !#[trigger] matches_at(v + d, k, d) by {
        if matches_at(v + d, k, d) {
            assert(matches_at(s, i + k, d)) by { assert forall|y: int| 0 <= y < d.len() implies #[trigger] at(s, i + k + y) == d[y] by {
                assert(at(v + d, k + y) == d[y]);
                if k + y < v.len() { assert(v[k + y] == at(s, i + k + y)); } else { assert(at(s, j + (k + y - v.len())) == d[k + y - v.len()]); } } }
        } }
}
proof fn lemma_added_ok(fr: Seq<Fr>, c: Content) requires frs_ok(fr), good(c, false) ensures frs_ok(add(fr, c))
{
    let l = fr.last(); let k2 = l.kids.push(c); assert(fr_ok(fr[fr.len() - 1], fr.len() == 1));
    assert forall|i: int| 0 <= i < k2.len() implies good(#[trigger] k2[i], false) by { if i < l.kids.len() { assert(k2[i] == l.kids[i]); } }
    assert forall|i: int| 0 <= i < fr.len() implies fr_ok(#[trigger] add(fr, c)[i], i == 0) by { if i < fr.len() - 1 { assert(add(fr, c)[i] == fr[i]); } }
}
proof fn lemma_fed(s: Seq<char>, i: int, tc: Seq<char>, r: Result<XmlToken, VErr>, e: int, tc2: Seq<char>, fr: Seq<Fr>)
    requires 0 <= i, no_cr(s), tc.len() == 0 ==> sound_token(s, i), one(s, i, tc, r, e, tc2), frs_ok(fr)
    ensures r matches Ok(t) ==> (fed(fr, t) matches Some(f2) ==> frs_ok(f2))
{
    if let Ok(t) = r { match t {
        XmlToken::EndElement { name } => { if fr.last().name == name@ && fr.len() > 1 {
            let f = fr.last(); assert(fr_ok(fr[fr.len() - 1], false)); let b = fr.drop_last();
            assert(frs_ok(b)) by { assert forall|k: int| 0 <= k < b.len() implies fr_ok(#[trigger] b[k], k == 0) by { assert(b[k] == fr[k]); } }
            lemma_added_ok(b, elem(f.name, f.attrs, f.kids)); } },
        XmlToken::Comment { comment } => {
            reveal_strlit("-->"); assert(lit("-->") =~= dashes());
            let j = choose|j: int| #[trigger] first_at(s, i + 4, lit("-->"), j) && comment@ == sub(s, i + 4, j) && e == j + 3;
            lemma_before(s, i + 4, dashes(), j); lemma_added_ok(fr, leaf(NodeType::Comment, seq![], comment@)); },
        XmlToken::ProcInst { target, inst } => {
            reveal_strlit("?>"); assert(lit("?>") =~= qmark()); lemma_name_is(s, i + 2);
            let n = name_end(s, i + 2); let w = ws_end(s, n); ws_end_ge(s, n);
            let j = choose|j: int| #[trigger] first_at(s, w, lit("?>"), j) && inst@ == sub(s, w, j) && e == j + 2;
            lemma_before(s, w, qmark(), j);
            if inst@.len() > 0 { assert(inst@[0] == at(s, w)); }
            if target@ == seq!['x', 'm', 'l'] { lemma_added_ok(fr, leaf(NodeType::XMLDecl, target@, inst@)); } else { lemma_added_ok(fr, leaf(NodeType::Instruction, target@, inst@)); } },
        XmlToken::CharData { chardata } => { if chardata@ != Seq::<char>::empty() {
            if at(s, i) == '<' { reveal_strlit("]]>"); assert(lit("]]>")[0] == ']');
                let j = choose|j: int| #[trigger] first_at(s, i + 9, lit("]]>"), j) && chardata@ == sub(s, i + 9, j) && e == j + 3;
                lemma_before(s, i + 9, lit("]]>"), j); }
            if chardata@.len() == 0 { assert(chardata@ =~= Seq::<char>::empty()); }
            lemma_text_good(chardata@); lemma_good_loose(text(chardata@)); lemma_added_ok(fr, text(chardata@)); } },
        XmlToken::StartElement { name, attr } => {
            let n = name_end(s, i + 1); lemma_name_is(s, i + 1);
            lemma_atts_named(s, n, false, seq![]);
            let v = attr_view(attr@); let f = Fr { name: name@, attrs: attr_nodes(v), kids: seq![] };
            assert forall|k: int| 0 <= k < f.attrs.len() implies good_att(#[trigger] f.attrs[k]) by { assert(is_name(v[k].0)); assert(clean(v[k].1)); }
            assert forall|k: int| 0 <= k < fr.push(f).len() implies fr_ok(#[trigger] fr.push(f)[k], k == 0) by { if k < fr.len() { assert(fr.push(f)[k] == fr[k]); } } },
        _ => {},
    } }
}
/// what a well-formed text reads as is a document of XML characters
proof fn lemma_sound(s: Seq<char>, i: int, tc: Seq<char>, fr: Seq<Fr>, n: nat, m: nat, out: Seq<Fr>)
    requires 0 <= i, no_cr(s), sound(s, i, tc, m), frs_ok(fr), reads(s, i, tc, fr, n, Some(out)) ensures frs_ok(out) decreases n
{
    let (r, e, tc2) = reads_token(s, i, tc, fr, n, Some(out));
    lemma_fed(s, i, tc, r, e, tc2, fr);
    if let Ok(t) = r { if !(t is EOF) { lemma_sound(s, e, tc2, fed(fr, t)->Some_0, (n - 1) as nat, (m - 1) as nat, out); } }
}
proof fn lemma_filtered_no_cr(s: Seq<char>) ensures no_cr(filtered(s)) decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { lemma_filtered_no_cr(s.drop_last()); } }
/// ... so a document read from a well-formed text (every element of which is closed) is one written_and_read speaks of (C05).
proof fn lemma_read_good(h: HV, d: RcNode, xml: Seq<char>, fr: Seq<Fr>, m: nat)
    requires base(h), read_of(h, d, fr), ends_as(filtered(xml), Some(fr)), fr.len() == 1, sound(filtered(xml), 0, seq![], m)
    ensures good_doc(h, d)
{
    let s = filtered(xml); lemma_filtered_no_cr(xml);
    let n = choose|n: nat| #[trigger] reads(s, 0, seq![], fr0(), n, Some(fr));
    assert(frs_ok(fr0()));
    lemma_sound(s, 0, seq![], fr0(), n, m, fr);
    assert(fr_ok(fr[0], true));
    let r = choose|r: RcNode| #[trigger] opened(h, d, r, fr, true);
    assert(r == d);
}
// ---- the pretty form
spec fn blank(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == ' ' || s[k] == '\n' }
/// the markup and texts of a subtree, in the order they are written
spec fn pieces(c: Content) -> Seq<Seq<char>> decreases c, 0nat {
    match c { Content::Cut => seq![], Content::Node { ty, name, value, attrs, kids } => match ty {
        NodeType::DocumentRoot => all_pieces(kids, 0),
        NodeType::Element => if kids.len() == 0 { seq![seq!['<'] + name + attrs_text(attrs, 0) + seq!['/', '>']] } else { seq![seq!['<'] + name + attrs_text(attrs, 0) + seq!['>']] + all_pieces(kids, 0) + seq![seq!['<', '/'] + name + seq!['>']] },
        NodeType::Text => seq![esc(value)],
        NodeType::Comment => seq![seq!['<', '!', '-', '-'] + value + seq!['-', '-', '>']],
        NodeType::XMLDecl => seq![seq!['<', '?', 'x', 'm', 'l', ' '] + value + seq!['?', '>']],
        NodeType::Instruction => seq![seq!['<', '?'] + name + seq![' '] + value + seq!['?', '>']],
        _ => seq![],
    } }
}
spec fn all_pieces(s: Seq<Content>, k: int) -> Seq<Seq<char>> decreases s, s.len() - k { if 0 <= k < s.len() { pieces(s[k]) + all_pieces(s, k + 1) } else { seq![] } }
/// the pieces one after another
spec fn packed(p: Seq<Seq<char>>) -> Seq<char> decreases p.len() { if p.len() == 0 { seq![] } else { p[0] + packed(p.subrange(1, p.len() as int)) } }
/// t is the pieces one after another with blanks and line ends around them
spec fn spaced(p: Seq<Seq<char>>, t: Seq<char>) -> bool decreases p.len() { if p.len() == 0 { blank(t) } else { exists|w: Seq<char>, u: Seq<char>| blank(w) && t == w + p[0] + u && #[trigger] after(w, u) && spaced(p.subrange(1, p.len() as int), u) } }
spec fn after(w: Seq<char>, u: Seq<char>) -> bool { true }
proof fn lemma_packed_cat(a: Seq<Seq<char>>, b: Seq<Seq<char>>) ensures packed(a + b) == packed(a) + packed(b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(packed(a) + packed(b) =~= packed(b)); }
    else { let r = a.subrange(1, a.len() as int); assert((a + b).subrange(1, (a + b).len() as int) =~= r + b); lemma_packed_cat(r, b); assert(packed(a + b) =~= packed(a) + packed(b)); }
}
proof fn lemma_packed_one(x: Seq<char>) ensures packed(seq![x]) == x { let p = seq![x]; assert(packed(p.subrange(1, 1)) =~= Seq::<char>::empty()); assert(packed(p) =~= x); }
proof fn lemma_blank_before(w: Seq<char>, p: Seq<Seq<char>>, t: Seq<char>) requires blank(w), spaced(p, t) ensures spaced(p, w + t) decreases p.len()
{
    if p.len() == 0 { assert forall|k: int| 0 <= k < (w + t).len() implies #[trigger] (w + t)[k] == ' ' || (w + t)[k] == '\n' by { if k < w.len() { assert((w + t)[k] == w[k]); } else { assert((w + t)[k] == t[k - w.len()]); } } }
    else {
        let (v, u) = choose|v: Seq<char>, u: Seq<char>| blank(v) && t == v + p[0] + u && #[trigger] after(v, u) && spaced(p.subrange(1, p.len() as int), u);
        assert(spaced(seq![], v)); lemma_blank_before(w, seq![], v);
        assert(blank(w + v));
        assert(w + t =~= (w + v) + p[0] + u); assert(after(w + v, u));
    }
}
proof fn lemma_spaced_cat(a: Seq<Seq<char>>, t: Seq<char>, b: Seq<Seq<char>>, u: Seq<char>) requires spaced(a, t), spaced(b, u) ensures spaced(a + b, t + u) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); lemma_blank_before(t, b, u); }
    else {
        let r = a.subrange(1, a.len() as int);
        let (w, v) = choose|w: Seq<char>, v: Seq<char>| blank(w) && t == w + a[0] + v && #[trigger] after(w, v) && spaced(r, v);
        lemma_spaced_cat(r, v, b, u);
        assert((a + b).subrange(1, (a + b).len() as int) =~= r + b);
        assert(t + u =~= w + (a + b)[0] + (v + u)); assert(after(w, v + u));
    }
}
/// one piece, with a line of its own
proof fn lemma_spaced_one(w: Seq<char>, x: Seq<char>, v: Seq<char>) requires blank(w), blank(v) ensures spaced(seq![x], w + x + v)
{ let p = seq![x]; assert(p.subrange(1, 1).len() == 0); assert(spaced(p.subrange(1, 1), v)); assert(after(w, v)); }
proof fn lemma_pretty_leaf(c: Content, x: Seq<char>, indent: nat, step: nat) requires pieces(c) == seq![x], ser(c, 0, 0) == blanks(0) + x + newline(0), ser(c, indent, step) == blanks(indent) + x + newline(step) ensures ser(c, 0, 0) == packed(pieces(c)), spaced(pieces(c), ser(c, indent, step))
{ assert(blanks(0) + x + newline(0) =~= x); lemma_packed_one(x); lemma_spaced_one(blanks(indent), x, newline(step)); }
proof fn lemma_ser_text(c: Content, indent: nat, step: nat) requires c matches Content::Node { ty, .. } && !(ty is DocumentRoot || ty is Element || ty is Attribute || ty is Directive), pieces(c).len() == 1 ensures ser(c, indent, step) == blanks(indent) + pieces(c)[0] + newline(step)
{
    match c { Content::Cut => {}, Content::Node { ty, name, value, attrs, kids } => match ty {
        NodeType::Text => { assert(ser(c, indent, step) =~= blanks(indent) + esc(value) + newline(step)); },
        NodeType::Comment => { assert(ser(c, indent, step) =~= blanks(indent) + (seq!['<', '!', '-', '-'] + value + seq!['-', '-', '>']) + newline(step)); },
        NodeType::XMLDecl => { assert(ser(c, indent, step) =~= blanks(indent) + (seq!['<', '?', 'x', 'm', 'l', ' '] + value + seq!['?', '>']) + newline(step)); },
        NodeType::Instruction => { assert(ser(c, indent, step) =~= blanks(indent) + (seq!['<', '?'] + name + seq![' '] + value + seq!['?', '>']) + newline(step)); },
        _ => {} } }
}
spec fn stag(name: Seq<char>, attrs: Seq<Content>) -> Seq<char> { seq!['<'] + name + attrs_text(attrs, 0) }
spec fn etag(name: Seq<char>) -> Seq<char> { seq!['<', '/'] + name + seq!['>'] }
proof fn lemma_ser_kids(c: Content, indent: nat, step: nat) requires c matches Content::Node { ty: NodeType::Element, kids, .. } && kids.len() > 0
    ensures c matches Content::Node { name, attrs, kids, .. } && ser(c, indent, step) == (blanks(indent) + (stag(name, attrs) + seq!['>']) + newline(step)) + sers(kids, 0, indent + step, step) + (blanks(indent) + etag(name) + newline(step)) && pieces(c) == seq![stag(name, attrs) + seq!['>']] + all_pieces(kids, 0) + seq![etag(name)]
{
    match c { Content::Cut => {}, Content::Node { ty, name, value, attrs, kids } => {
        assert(ser(c, indent, step) =~= (blanks(indent) + (stag(name, attrs) + seq!['>']) + newline(step)) + sers(kids, 0, indent + step, step) + (blanks(indent) + etag(name) + newline(step))); } }
}
proof fn lemma_spaced_elem(x: Seq<char>, y: Seq<char>, k: Seq<Seq<char>>, b0: Seq<char>, b: Seq<char>, w: Seq<char>, v: Seq<char>) requires blank(w), blank(v), b0 == packed(k), spaced(k, b)
    ensures packed(seq![x] + k + seq![y]) == x + b0 + y, spaced(seq![x] + k + seq![y], (w + x + v) + b + (w + y + v))
{
    lemma_packed_one(x); lemma_packed_one(y); lemma_packed_cat(seq![x] + k, seq![y]); lemma_packed_cat(seq![x], k);
    lemma_spaced_one(w, x, v); lemma_spaced_one(w, y, v); lemma_spaced_cat(seq![x], w + x + v, k, b); lemma_spaced_cat(seq![x] + k, w + x + v + b, seq![y], w + y + v);
}
/// The compact form is the pieces of the document and nothing else, the pretty form the same pieces with blanks and line ends around them.
proof fn lemma_pretty(c: Content, indent: nat, step: nat) ensures ser(c, 0, 0) == packed(pieces(c)), spaced(pieces(c), ser(c, indent, step)) decreases c, 0nat
{
    let none = Seq::<char>::empty();
    assert(blanks(0) =~= none); assert(newline(0) =~= none); assert(blank(blanks(indent)) && blank(newline(step)));
    match c { Content::Cut => { assert(ser(c, 0, 0) =~= packed(pieces(c))); }, Content::Node { ty, name, value, attrs, kids } => {
        if ty is DocumentRoot { lemma_pretty_all(kids, 0, indent, step); }
        else if ty is Element {
            if kids.len() == 0 { let x = stag(name, attrs) + seq!['/', '>']; assert(ser(c, 0, 0) =~= blanks(0) + x + newline(0)); assert(ser(c, indent, step) =~= blanks(indent) + x + newline(step)); lemma_pretty_leaf(c, x, indent, step); }
            else {
                lemma_pretty_all(kids, 0, indent + step, step);
                let x = stag(name, attrs) + seq!['>'];
                lemma_ser_kids(c, 0, 0); lemma_ser_kids(c, indent, step);
                lemma_spaced_elem(x, etag(name), all_pieces(kids, 0), sers(kids, 0, 0, 0), sers(kids, 0, indent + step, step), blanks(indent), newline(step));
                assert(none + x + none =~= x); assert(none + etag(name) + none =~= etag(name));
            }
        }
        else if ty is Attribute || ty is Directive { assert(packed(pieces(c)) =~= none); }
        else { assert(pieces(c).len() == 1); lemma_ser_text(c, 0, 0); lemma_ser_text(c, indent, step); assert(pieces(c) =~= seq![pieces(c)[0]]); lemma_pretty_leaf(c, pieces(c)[0], indent, step); }
    } }
}
proof fn lemma_pretty_all(s: Seq<Content>, k: int, indent: nat, step: nat) requires 0 <= k <= s.len() ensures sers(s, k, 0, 0) == packed(all_pieces(s, k)), spaced(all_pieces(s, k), sers(s, k, indent, step)) decreases s, s.len() - k
{ if k < s.len() { lemma_pretty(s[k], indent, step); lemma_pretty_all(s, k + 1, indent, step); lemma_packed_cat(pieces(s[k]), all_pieces(s, k + 1)); lemma_spaced_cat(pieces(s[k]), ser(s[k], indent, step), all_pieces(s, k + 1), sers(s, k + 1, indent, step)); } }

// ---- what the properties say about items
spec fn int_item(n: int) -> XItem { XItem::XIInteger { value: n as i64 } }
spec fn bool_item(b: bool) -> XItem { XItem::XIBoolean { value: b } }
spec fn str_of(x: XItem) -> Seq<char> { match x { XItem::XIString { value } => value@, _ => seq![] } }
spec fn i64_ok(n: int) -> bool { -0x8000_0000_0000_0000 <= n <= 0x7fff_ffff_ffff_ffff }
spec fn fit(n: int) -> Option<i64> { if i64_ok(n) { Some(n as i64) } else { None } }
spec fn checked_int(f: f64) -> Option<i64> {
    if (f_lt(-9223372036854775808.0f64, f) || f_eq(-9223372036854775808.0f64, f)) && f_lt(f, 9223372036854775808.0f64) { Some(f_to_int(f)) } else { None }
}
/// the atomic value of an item: a node counts as the text of its typed value
spec fn at(x: XItem) -> XItem { match x { XItem::XINode { value } => XItem::XIString { value: node_typed(value) }, _ => x } }
spec fn is_num(x: XItem) -> bool { x is XIInteger || x is XIDecimal || x is XIDouble }
/// the number as a floating-point value
spec fn fl(x: XItem) -> f64 { match x { XItem::XIInteger { value } => f_of_int(value as int), XItem::XIDecimal { value } => value, XItem::XIDouble { value } => value, _ => 0.0f64 } }
spec fn int_of(x: XItem) -> int { match x { XItem::XIInteger { value } => value as int, _ => 0 } }
/// the items of a successful result
spec fn sq(r: Result<XSequence, VErr>) -> Option<Seq<XItem>> { match r { Ok(s) => Some(s.value@), Err(_) => None } }
spec fn ok(x: XItem) -> Option<XItem> { Some(x) }
spec fn it(r: Result<XItem, VErr>) -> Option<XItem> { match r { Ok(s) => Some(s), Err(_) => None } }
spec fn bo(r: Result<bool, VErr>) -> Option<bool> { match r { Ok(s) => Some(s), Err(_) => None } }
spec fn lift(x: Option<XItem>) -> Option<Seq<XItem>> { match x { Some(x) => Some(seq![x]), None => None } }
spec fn liftb(x: Option<bool>) -> Option<Seq<XItem>> { match x { Some(x) => Some(seq![bool_item(x)]), None => None } }

// ---- arithmetic (C13, C14)
enum Op { Add, Sub, Mul, Div, Idiv, Mod }
/// division that truncates toward zero, and the remainder that belongs to it
spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b >= 0 { a / b } else { -(a / (-b)) } } else { if b >= 0 { -((-a) / b) } else { (-a) / (-b) } } }
spec fn tmod(a: int, b: int) -> int { a - tdiv(a, b) * b }
spec fn int_op(o: Op, a: int, b: int) -> Option<i64> {
    match o { Op::Add => fit(a + b), Op::Sub => fit(a - b), Op::Mul => fit(a * b), 
        Op::Idiv => if b == 0 { None } else { fit(tdiv(a, b)) }, Op::Mod => if b == 0 { None } else { fit(tmod(a, b)) }, Op::Div => None } }
spec fn flt_op(o: Op, a: f64, b: f64) -> f64 {
    match o { Op::Add => f_add(a, b), Op::Sub => f_sub(a, b), Op::Mul => f_mul(a, b), Op::Div => f_div(a, b), Op::Mod => f_rem(a, b), Op::Idiv => f_div(a, b) } }
/// an exact zero: of type integer or decimal
spec fn exact_zero(x: XItem) -> bool { match x { XItem::XIInteger { value } => value == 0, XItem::XIDecimal { value } => f_eq(value, 0.0f64), _ => false } }
spec fn fl_item(dbl: bool, v: f64) -> XItem { if dbl { XItem::XIDouble { value: v } } else { XItem::XIDecimal { value: v } } }
spec fn arith(o: Op, l: XItem, r: XItem) -> Option<XItem> {
    if !is_num(l) || !is_num(r) { None }
    else if o is Idiv { idiv_spec(l, r) }
    else if (o is Div || o is Mod) && exact_zero(r) { None }
    else if l is XIInteger && r is XIInteger && !(o is Div) { match int_op(o, int_of(l), int_of(r)) { Some(n) => Some(XItem::XIInteger { value: n }), None => None } }
    else { Some(fl_item(l is XIDouble || r is XIDouble, flt_op(o, fl(l), fl(r)))) } }
spec fn idiv_spec(l: XItem, r: XItem) -> Option<XItem> {
    if l is XIDouble && (f_nan(fl(l)) || !f_finite(fl(l))) { None }
    else if r is XIDouble && f_nan(fl(r)) { None }
    else if l is XIInteger && r is XIInteger { match int_op(Op::Idiv, int_of(l), int_of(r)) { Some(n) => Some(XItem::XIInteger { value: n }), None => None } }
    else if f_eq(fl(r), 0.0f64) { None }
    else { match checked_int(f_div(fl(l), fl(r))) { Some(n) => Some(XItem::XIInteger { value: n }), None => None } } }
spec fn neg_spec(x: XItem) -> Option<XItem> { match x {
    XItem::XIInteger { value } => match fit(-value) { Some(n) => Some(XItem::XIInteger { value: n }), None => None },
    XItem::XIDecimal { value } => Some(XItem::XIDecimal { value: f_neg(value) }),
    XItem::XIDouble { value } => Some(XItem::XIDouble { value: f_neg(value) }), _ => None } }
/// (a idiv b) * b + (a mod b) = a, the remainder has the sign of the dividend and is smaller than the divisor
proof fn lemma_divmod(a: int, b: int) requires b != 0
    ensures tdiv(a, b) * b + tmod(a, b) == a, tmod(a, b) == 0 || (tmod(a, b) > 0) == (a > 0),
        -vabs(b) < tmod(a, b) < vabs(b), vabs(tdiv(a, b)) <= vabs(a)
{
    let x = vabs(a); let y = vabs(b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, y);
    assert(0 <= x / y <= x) by (nonlinear_arith) requires x >= 0, y >= 1;
    let q = x / y;
    assert(x == y * q + x % y);
    assert(tdiv(a, b) == if (a >= 0) == (b >= 0) { q } else { -q });
    if b >= 0 { assert(q * b == y * q && (-q) * b == -(y * q)) by (nonlinear_arith) requires b == y; }
    else { assert(q * b == -(y * q) && (-q) * b == y * q) by (nonlinear_arith) requires b == -y; }
}
spec fn vabs(a: int) -> int { if a < 0 { -a } else { a } }

proof fn lemma_mod_all() ensures forall|a: int, b: int| b != 0 ==> -vabs(b) < #[trigger] tmod(a, b) < vabs(b), forall|a: int, b: int| b != 0 ==> vabs(#[trigger] tdiv(a, b)) <= vabs(a)
{
    assert forall|a: int, b: int| b != 0 implies -vabs(b) < #[trigger] tmod(a, b) < vabs(b) by { lemma_divmod(a, b); }
    assert forall|a: int, b: int| b != 0 implies vabs(#[trigger] tdiv(a, b)) <= vabs(a) by { lemma_divmod(a, b); }
}
// the standard library's division (trusted): truncation toward zero, None on overflow
#[verifier::external_body]
fn vchecked_div(a: &i64, b: i64) -> (r: Option<i64>) ensures r == (if b == 0 { None } else { fit(tdiv(*a as int, b as int)) }) { a.checked_div(b) }
#[verifier::external_body]
fn vchecked_rem(a: &i64, b: i64) -> (r: Option<i64>) ensures r == (if b == 0 || (b == -1 && *a == i64::MIN) { None } else { fit(tmod(*a as int, b as int)) }) { a.checked_rem(b) }

// ---- comparisons (C15)
enum Rel { Eq, Lt, Gt, Ne, Le, Ge }
spec fn rel_base(c: Rel, lt: bool, eq: bool, gt: bool) -> bool { match c { Rel::Eq => eq, Rel::Lt => lt, Rel::Gt => gt, Rel::Ne => !eq, Rel::Le => lt || eq, Rel::Ge => gt || eq } }
spec fn rel_num(c: Rel, l: XItem, r: XItem) -> Option<bool> {
    if l is XIInteger && r is XIInteger { Some(rel_base(c, int_of(l) < int_of(r), int_of(l) == int_of(r), int_of(l) > int_of(r))) }
    else if is_num(l) && is_num(r) { Some(rel_base(c, f_lt(fl(l), fl(r)), f_eq(fl(l), fl(r)), f_lt(fl(r), fl(l)))) }
    else { None } }
spec fn rel_txt(c: Rel, l: Seq<char>, r: Seq<char>) -> bool { rel_base(c, text_lt(l, r), l == r, !text_lt(l, r) && l != r) }
spec fn rel_str(c: Rel, l: XItem, r: XItem) -> Option<bool> { if l is XIString && r is XIString { Some(rel_txt(c, str_of(l), str_of(r))) } else { None } }
spec fn bval(x: XItem) -> bool { match x { XItem::XIBoolean { value } => value, _ => false } }
spec fn rel_bool(c: Rel, l: XItem, r: XItem) -> Option<bool> {
    if l is XIBoolean && r is XIBoolean { Some(rel_base(c, !bval(l) && bval(r), bval(l) == bval(r), bval(l) && !bval(r))) } else { None } }
/// whether two atomic values stand in the relation; None: they are not comparable
spec fn rel(c: Rel, l: XItem, r: XItem) -> Option<bool> { 
    match rel_num(c, l, r) { Some(b) => Some(b), None => match rel_str(c, l, r) { Some(b) => Some(b), None => rel_bool(c, l, r) } } }
spec fn vcomp(c: Rel, l: Seq<XItem>, r: Seq<XItem>) -> Option<Seq<XItem>> {
    if l.len() == 0 || r.len() == 0 { Some(Seq::<XItem>::empty()) }
    else if l.len() != 1 || r.len() != 1 { None }
    else { liftb(rel(c, at(l[0]), at(r[0]))) } }
spec fn gcomp(c: Rel, l: Seq<XItem>, r: Seq<XItem>) -> bool {
    exists|i: int, j: int| 0 <= i < l.len() && 0 <= j < r.len() && #[trigger] gpair(c, l, r, i, j) }
spec fn gpair(c: Rel, l: Seq<XItem>, r: Seq<XItem>, i: int, j: int) -> bool { rel(c, at(l[i]), at(r[j])) == Some(true) }
#[verifier::external_body]
fn vblt(a: bool, b: bool) -> (r: bool) ensures r == (!a && b) { a < b }

// ---- keys (C25)
spec fn same_key(a: XItem, b: XItem) -> bool {
    match (at(a), at(b)) {
        (XItem::XIString { value: x }, XItem::XIString { value: y }) => x@ == y@,
        (XItem::XIBoolean { value: x }, XItem::XIBoolean { value: y }) => x == y,
        (XItem::XIInteger { value: x }, XItem::XIInteger { value: y }) => x == y,
        (x, y) => if !is_num(x) || !is_num(y) { false }
            else if x is XIInteger { f_eq(fl(y), f_trunc(fl(y))) && checked_int(fl(y)) == Some(int_of(x) as i64) }
            else if y is XIInteger { f_eq(fl(x), f_trunc(fl(x))) && checked_int(fl(x)) == Some(int_of(y) as i64) }
            else { f_eq(fl(x), fl(y)) || (f_nan(fl(x)) && f_nan(fl(y))) } } }

// ---- truth values (C16)
spec fn ebv(s: Seq<XItem>) -> Option<bool> {
    if s.len() == 0 { Some(false) } else if s[0] is XINode { Some(true) } else if s.len() > 1 { None }
    else { match s[0] { XItem::XIBoolean { value } => Some(value), XItem::XIString { value } => Some(value@.len() > 0),
        XItem::XIInteger { value } => Some(value != 0), XItem::XIDecimal { value } => Some(!f_eq(value, 0.0f64) && !f_nan(value)),
        XItem::XIDouble { value } => Some(!f_eq(value, 0.0f64) && !f_nan(value)), _ => None } } }

// ---- casts (C24)
spec fn raw_str(x: XItem) -> Option<Seq<char>> { match x {
    XItem::XINode { value } => Some(node_text(value)@), XItem::XIString { value } => Some(value@),
    XItem::XIInteger { value } => Some(int_text(value as int)), XItem::XIDecimal { value } => Some(dbl_text(value)),
    XItem::XIDouble { value } => Some(if f_nan(value) { "NaN"@ } else if f_inf(value) { if f_eq(f_signum(value), 1.0f64) { "+Infinity"@ } else { "-Infinity"@ } } else { dbl_text(value) }),
    XItem::XIBoolean { value } => Some(if value { "true"@ } else { "false"@ }), _ => None } }
spec fn raw_dbl(x: XItem) -> Option<f64> { match x {
    XItem::XINode { value } => Some(atof_of(node_text(value)@)), XItem::XIString { value } => Some(atof_of(value@)),
    XItem::XIInteger { value } => Some(f_of_int(value as int)), XItem::XIDecimal { value } => Some(value), XItem::XIDouble { value } => Some(value),
    XItem::XIBoolean { value } => Some(if value { 1.0f64 } else { 0.0f64 }), _ => None } }
spec fn raw_int(x: XItem) -> Option<i64> { match x {
    XItem::XINode { value } => Some(atoi_of(node_text(value)@)), XItem::XIString { value } => Some(atoi_of(value@)),
    XItem::XIInteger { value } => Some(value), XItem::XIDecimal { value } => Some(f_to_int(value)), XItem::XIDouble { value } => Some(f_to_int(value)),
    XItem::XIBoolean { value } => Some(if value { 1i64 } else { 0i64 }), _ => None } }
spec fn txt_bool(s: Seq<char>) -> Option<bool> { if s == "true"@ || s == "1"@ { Some(true) } else if s == "false"@ || s == "0"@ { Some(false) } else { None } }
spec fn raw_bool(x: XItem) -> Option<bool> { match x {
    XItem::XINode { value } => txt_bool(node_text(value)@), XItem::XIString { value } => txt_bool(value@),
    XItem::XIInteger { value } => Some(value != 0), XItem::XIDecimal { value } => Some(!f_eq(value, 0.0f64) && !f_nan(value)), XItem::XIDouble { value } => Some(!f_eq(value, 0.0f64) && !f_nan(value)),
    XItem::XIBoolean { value } => Some(value), _ => None } }
enum Ty { Str, Dbl, Dec, Int, Bool, Other }
spec fn ty_of(t: Seq<char>) -> Ty {
    if t == "string"@ || t == "xs:string"@ { Ty::Str } else if t == "double"@ || t == "xs:double"@ { Ty::Dbl } else if t == "decimal"@ || t == "xs:decimal"@ { Ty::Dec }
    else if t == "integer"@ || t == "xs:integer"@ { Ty::Int } else if t == "boolean"@ || t == "xs:boolean"@ { Ty::Bool } else { Ty::Other } }
spec fn has_type(x: XItem, t: Ty) -> bool { match t { Ty::Str => x is XIString, Ty::Dbl => x is XIDouble, Ty::Dec => x is XIDecimal, Ty::Int => x is XIInteger, Ty::Bool => x is XIBoolean, Ty::Other => false } }
/// whether a cast succeeds, and (for types other than string) with which value
spec fn cast_val(x: XItem, t: Ty) -> Option<XItem> { match t {
    Ty::Dbl => match at(x) { XItem::XIString { value } => if dbl_lit(value@) { Some(XItem::XIDouble { value: atof_of(value@) }) } else { None },
        y => match raw_dbl(y) { Some(d) => Some(XItem::XIDouble { value: d }), None => None } },
    Ty::Dec => match at(x) { XItem::XIString { value } => if dec_lit(value@) && f_finite(atof_of(value@)) { Some(XItem::XIDecimal { value: atof_of(value@) }) } else { None },
        y => match raw_dbl(y) { Some(d) => if f_finite(d) { Some(XItem::XIDecimal { value: d }) } else { None }, None => None } },
    Ty::Int => match at(x) { XItem::XIString { value } => match int_of_text(value@) { Some(n) => Some(XItem::XIInteger { value: n }), None => None },
        XItem::XIDecimal { value } => match checked_int(value) { Some(n) => Some(XItem::XIInteger { value: n }), None => None },
        XItem::XIDouble { value } => match checked_int(value) { Some(n) => Some(XItem::XIInteger { value: n }), None => None },
        y => match raw_int(y) { Some(n) => Some(XItem::XIInteger { value: n }), None => None } },
    Ty::Bool => match raw_bool(x) { Some(b) => Some(XItem::XIBoolean { value: b }), None => None },
    _ => None } }
spec fn castable(x: XItem, t: Ty) -> bool { if t is Str { raw_str(x) is Some } else { cast_val(x, t) is Some } }
spec fn cast_ok(x: XItem, t: Ty, r: Option<XItem>) -> bool {
    (r is Some) == castable(x, t) && (r is Some ==> has_type(r->0, t) && if t is Str { str_of(r->0) == raw_str(x)->0 } else { r == cast_val(x, t) }) }
/// a cast of a sequence: the type name without its trailing '?'
spec fn opt_mark(t: Seq<char>) -> bool { t.len() > 0 && t[t.len() - 1] == '?' }
spec fn no_mark(t: Seq<char>) -> Seq<char> decreases t.len() { if opt_mark(t) { no_mark(t.subrange(0, t.len() - 1)) } else { t } }
spec fn node_items(v: Seq<NodePtr>) -> Seq<XItem> { v.map_values(|n: NodePtr| XItem::XINode { value: n }) }
spec fn atoms(v: Seq<XItem>) -> Seq<XItem> { v.map_values(|x: XItem| at(x)) }
spec fn all_nodes(v: Seq<XItem>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] is XINode }
spec fn nodes_of(v: Seq<XItem>) -> Seq<NodePtr> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { match v.last() { XItem::XINode { value } => nodes_of(v.drop_last()).push(value), _ => nodes_of(v.drop_last()) } } }
spec fn is_str(v: Seq<XItem>, s: Seq<char>) -> bool { v.len() == 1 && v[0] is XIString && str_of(v[0]) == s }
#[verifier::prophetic]
spec fn iter_of<'a>(it: Iter<'a, XItem>, s: Seq<XItem>) -> bool {
    it.obeys_prophetic_iter_laws() && it.decrease() is Some && it.remaining().len() == s.len() && forall|k: int| 0 <= k < s.len() ==> *(#[trigger] it.remaining()[k]) == s[k] }
spec fn type_name(x: XItem) -> Seq<char> { match x {
    XItem::XItemXNodePtr { value } => "function(*)"@, XItem::XIMap { value } => "map(*)"@, XItem::XIArray { value } => "array(*)"@, XItem::XINode { value } => "node"@,
    XItem::XIString { value } => "xs:string"@, XItem::XIInteger { value } => "xs:integer"@, XItem::XIDecimal { value } => "xs:decimal"@, XItem::XIDouble { value } => "xs:double"@, XItem::XIBoolean { value } => "xs:boolean"@ } }
// ---- how an operator on atomic values behaves, for the operators handed around as closures
spec fn num_is<F: Fn(&XItem, &XItem) -> Result<bool, VErr>>(f: F, c: Rel) -> bool { forall|a: &XItem, b: &XItem, o: Result<bool, VErr>| #[trigger] f.ensures((a, b), o) ==> bo(o) == rel_num(c, *a, *b) }
spec fn bool_is<F: Fn(&XItem, &XItem) -> Result<bool, VErr>>(f: F, c: Rel) -> bool { forall|a: &XItem, b: &XItem, o: Result<bool, VErr>| #[trigger] f.ensures((a, b), o) ==> bo(o) == rel_bool(c, *a, *b) }
spec fn str_is<F: Fn(i64) -> bool>(f: F, c: Rel) -> bool { forall|n: i64, o: bool| #[trigger] f.ensures((n,), o) ==> o == rel_base(c, n < 0, n == 0, n > 0) }
spec fn two(a: Seq<&XSequence>) -> bool { a.len() == 2 && a[0].value@.len() == 1 && a[1].value@.len() == 1 }
spec fn vnum_is<F: Fn(&Vec<&XSequence>) -> Result<XSequence, VErr>>(f: F, c: Rel) -> bool { forall|a: &Vec<&XSequence>, o: Result<XSequence, VErr>| #[trigger] f.ensures((a,), o) && two(a@) ==> sq(o) == liftb(rel_num(c, a@[0].value@[0], a@[1].value@[0])) }
spec fn vbool_is<F: Fn(&Vec<&XSequence>) -> Result<XSequence, VErr>>(f: F, c: Rel) -> bool { forall|a: &Vec<&XSequence>, o: Result<XSequence, VErr>| #[trigger] f.ensures((a,), o) && two(a@) ==> sq(o) == liftb(rel_bool(c, a@[0].value@[0], a@[1].value@[0])) }

// ---- nodes in document order (C09, C17)
spec fn ordc(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
/// ord tells the nodes apart
spec fn inj(s: Seq<NodePtr>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && ord(#[trigger] s[i]) == ord(#[trigger] s[j]) ==> s[i] == s[j] }
spec fn ascending(s: Seq<NodePtr>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ord(#[trigger] s[i]) < ord(#[trigger] s[j]) }
spec fn nondesc(s: Seq<NodePtr>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> ord(#[trigger] s[i]) <= ord(#[trigger] s[j]) }
spec fn same_nodes(a: Seq<NodePtr>, b: Seq<NodePtr>) -> bool { forall|x: NodePtr| #![trigger a.contains(x)] #![trigger b.contains(x)] a.contains(x) == b.contains(x) }
/// the nodes of s, each once, in document order
spec fn doc_set(r: Seq<NodePtr>, s: Seq<NodePtr>) -> bool { same_nodes(r, s) && (inj(s) ==> ascending(r)) }
/// the library's stable sort (trusted): a permutation, sorted by the comparison it is given
#[verifier::external_body]
fn vsort_by<F: Fn(&NodePtr, &NodePtr) -> Ordering>(v: &mut Vec<NodePtr>, f: F)
    requires forall|a: &NodePtr, b: &NodePtr| f.requires((a, b)), forall|a: &NodePtr, b: &NodePtr, o: Ordering| #[trigger] f.ensures((a, b), o) ==> o == ordc(ord(*a), ord(*b))
    ensures nondesc(final(v)@), same_nodes(final(v)@, old(v)@), final(v)@.len() == old(v)@.len()
{ v.sort_by(f) }
spec fn flat_item(x: XItem) -> Seq<XItem> decreases x { match x { XItem::XIArray { value } => flat_seqs(value.v@), _ => seq![x] } }
spec fn flat_items(s: Seq<XItem>) -> Seq<XItem> decreases s { if s.len() == 0 { Seq::empty() } else { flat_items(s.drop_last()) + flat_item(s.last()) } }
spec fn flat_seqs(s: Seq<XSequence>) -> Seq<XItem> decreases s { if s.len() == 0 { Seq::empty() } else { flat_seqs(s.drop_last()) + flat_items(s.last().value@) } }
spec fn one_text(s: Seq<XItem>) -> Option<Seq<char>> { if s.len() == 1 && at(s[0]) is XIString { Some(str_of(at(s[0]))) } else { None } }
spec fn compare_spec(a: Seq<XItem>, b: Seq<XItem>) -> Option<Seq<XItem>> {
    if a.len() == 0 || b.len() == 0 { Some(Seq::<XItem>::empty()) } else { match (one_text(a), one_text(b)) {
        (Some(x), Some(y)) => Some(seq![int_item(if text_lt(x, y) { -1 } else if x == y { 0 } else { 1 })]), _ => None } } }
spec fn arith2(o: Op, a: Seq<XItem>, b: Seq<XItem>) -> Option<Seq<XItem>> { if a.len() == 1 && b.len() == 1 { lift(arith(o, a[0], b[0])) } else { None } }
spec fn node_cmp(o: Ordering, a: Seq<XItem>, b: Seq<XItem>) -> Option<Seq<XItem>> {
    if a.len() == 1 && b.len() == 1 { match (a[0], b[0]) { (XItem::XINode { value: x }, XItem::XINode { value: y }) => Some(seq![bool_item(ordc(ord(x), ord(y)) == o)]), _ => None } } else { None } }
spec fn to_spec(a: Seq<XItem>, b: Seq<XItem>) -> Option<Seq<XItem>> {
    if a.len() == 1 && b.len() == 1 && a[0] is XIInteger && b[0] is XIInteger { Some(Seq::new(if int_of(b[0]) >= int_of(a[0]) { (int_of(b[0]) - int_of(a[0]) + 1) as nat } else { 0 }, |i: int| int_item(int_of(a[0]) + i))) } else { None } }
proof fn lemma_inj(a: Seq<NodePtr>, b: Seq<NodePtr>) requires inj(a), same_nodes(a, b) ensures inj(b)
{
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && ord(#[trigger] b[i]) == ord(#[trigger] b[j]) implies b[i] == b[j] by {
        assert(b.contains(b[i])); assert(b.contains(b[j]));
        let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i]; let m = choose|m: int| 0 <= m < a.len() && a[m] == b[j];
        assert(a.contains(b[i])); assert(a.contains(b[j]));
        assert(ord(a[k]) == ord(a[m]));
    }
}
proof fn lemma_dedupe(a: Seq<NodePtr>, b: Seq<NodePtr>, i: int) 
    requires 0 < i < a.len(), b == (if a[i] == a[i - 1] { a.remove(i) } else { a })
    ensures same_nodes(a, b)
{
    if a[i] == a[i - 1] {
        assert forall|x: NodePtr| #![trigger a.contains(x)] #![trigger b.contains(x)] a.contains(x) == b.contains(x) by {
            if a.contains(x) { let k = choose|k: int| 0 <= k < a.len() && a[k] == x; if k < i { assert(b[k] == x); } else if k == i { assert(b[i - 1] == x); } else { assert(b[k - 1] == x); } }
            if b.contains(x) { let k = choose|k: int| 0 <= k < b.len() && b[k] == x; if k < i { assert(a[k] == x); } else { assert(a[k + 1] == x); } }
        }
    }
}
proof fn lemma_inj_swap(a: Seq<NodePtr>, b: Seq<NodePtr>) ensures inj(a + b) ==> inj(b + a)
{
    if inj(a + b) {
        let s = a + b; let t = b + a;
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && ord(#[trigger] t[i]) == ord(#[trigger] t[j]) implies t[i] == t[j] by {
            let p = if i < b.len() { a.len() + i } else { i - b.len() }; let q = if j < b.len() { a.len() + j } else { j - b.len() };
            assert(s[p] == t[i] && s[q] == t[j]); }
    }
}
proof fn lemma_concat_contains(a: Seq<NodePtr>, b: Seq<NodePtr>) ensures forall|x: NodePtr| #![trigger (a + b).contains(x)] (a + b).contains(x) == (a.contains(x) || b.contains(x))
{
    assert forall|x: NodePtr| #![trigger (a + b).contains(x)] (a + b).contains(x) == (a.contains(x) || b.contains(x)) by {
        if a.contains(x) { let k = choose|k: int| 0 <= k < a.len() && a[k] == x; assert((a + b)[k] == x); }
        if b.contains(x) { let k = choose|k: int| 0 <= k < b.len() && b[k] == x; assert((a + b)[a.len() + k] == x); }
        if (a + b).contains(x) { let k = choose|k: int| 0 <= k < (a + b).len() && (a + b)[k] == x; if k < a.len() { assert(a[k] == x); } else { assert(b[k - a.len()] == x); } }
    }
}
proof fn lemma_filter(a: Seq<NodePtr>, p: spec_fn(NodePtr) -> bool) 
    ensures forall|x: NodePtr| #![trigger a.filter(p).contains(x)] a.filter(p).contains(x) == (a.contains(x) && p(x)), inj(a) ==> inj(a.filter(p))
    decreases a.len()
{
    reveal(Seq::filter);
    if a.len() > 0 { 
        let b = a.drop_last(); lemma_filter(b, p); 
        assert(a =~= b.push(a.last()));
        lemma_concat_contains(b, seq![a.last()]); assert(a =~= b + seq![a.last()]);
        lemma_concat_contains(b.filter(p), seq![a.last()]); assert(b.filter(p).push(a.last()) =~= b.filter(p) + seq![a.last()]);
        assert(seq![a.last()][0] == a.last());
        assert forall|x: NodePtr| #[trigger] a.filter(p).contains(x) == (a.contains(x) && p(x)) by { assert(seq![a.last()].contains(x) == (x == a.last())); }
    }
    if inj(a) { 
        let f = a.filter(p);
        assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && ord(#[trigger] f[i]) == ord(#[trigger] f[j]) implies f[i] == f[j] by {
            assert(f.contains(f[i])); assert(f.contains(f[j]));
            let k = choose|k: int| 0 <= k < a.len() && a[k] == f[i]; let m = choose|m: int| 0 <= m < a.len() && a[m] == f[j];
            assert(a.contains(f[i])); assert(a.contains(f[j]));
            assert(ord(a[k]) == ord(a[m]));
        }
    }
}
proof fn lemma_nodes_back() ensures forall|v: Seq<NodePtr>| nodes_of(#[trigger] node_items(v)) == v, forall|v: Seq<NodePtr>| all_nodes(#[trigger] node_items(v))
{
    assert forall|v: Seq<NodePtr>| nodes_of(#[trigger] node_items(v)) == v by { lemma_nodes_one(v); }
}
proof fn lemma_nodes_one(v: Seq<NodePtr>) ensures nodes_of(node_items(v)) == v decreases v.len()
{
    if v.len() > 0 { lemma_nodes_one(v.drop_last()); assert(node_items(v).drop_last() =~= node_items(v.drop_last())); assert(v.drop_last().push(v.last()) =~= v); }
    else { assert(v =~= Seq::<NodePtr>::empty()); }
}
#[verifier::external_body]
fn vordeq(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a == b) { a == b }
proof fn lemma_lt_irr() ensures forall|a: Seq<char>| !#[trigger] text_lt(a, a) { assert forall|a: Seq<char>| !#[trigger] text_lt(a, a) by { lemma_lt_irr1(a); } }
proof fn lemma_lt_irr1(a: Seq<char>) ensures !text_lt(a, a) decreases a.len() { if a.len() > 0 { lemma_lt_irr1(a.subrange(1, a.len() as int)); } }
/// the values of a ..= b (trusted; the verifier's library does not say that a range with a > b is empty)
#[verifier::prophetic]
spec fn vto_of(r: std::ops::RangeInclusive<i64>, a: int, b: int) -> bool {
    r.obeys_prophetic_iter_laws() && r.decrease() is Some && r.remaining().len() == (if b >= a { b - a + 1 } else { 0 }) && forall|k: int| 0 <= k < r.remaining().len() ==> #[trigger] r.remaining()[k] == a + k }
#[verifier::external_body]
fn vto(a: i64, b: i64) -> (r: std::ops::RangeInclusive<i64>) ensures vto_of(r, a as int, b as int) { a ..= b }

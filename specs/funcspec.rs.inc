// ---- what the properties say about the functions (C13, C16, C21, C22, C23, C25)
spec fn txt(r: Result<XSequence, VErr>, t: Option<Seq<char>>) -> bool { match (r, t) { (Ok(s), Some(t)) => is_str(s.value@, t), (Err(_), None) => true, _ => false } }
spec fn a0(args: &Vec<&XSequence>) -> Seq<XItem> { args@[0].value@ }
spec fn a1(args: &Vec<&XSequence>) -> Seq<XItem> { args@[1].value@ }
spec fn a2(args: &Vec<&XSequence>) -> Seq<XItem> { args@[2].value@ }
/// an optional text: the empty sequence counts as the empty text
spec fn opt_text(s: Seq<XItem>) -> Option<Seq<char>> { if s.len() == 0 { Some(Seq::<char>::empty()) } else { one_text(s) } }
spec fn one_num(s: Seq<XItem>) -> Option<f64> { if s.len() == 1 { raw_dbl(s[0]) } else { None } }
spec fn empty_text() -> Seq<char> { Seq::<char>::empty() }
// rounding (C23)
uninterp spec fn f_abs(a: f64) -> f64;
uninterp spec fn f_ceil(a: f64) -> f64;
uninterp spec fn f_floor(a: f64) -> f64;
uninterp spec fn f_pinf() -> f64;
uninterp spec fn f_ninf() -> f64;
pub assume_specification [i64::checked_abs] (a: i64) -> (r: Option<i64>) ensures r == (if a == i64::MIN { None } else if a < 0 { Some((-a) as i64) } else { Some(a) });
pub assume_specification [i64::saturating_sub] (a: i64, b: i64) -> (r: i64) ensures r == (if a - b > i64::MAX { i64::MAX as int } else if a - b < i64::MIN { i64::MIN as int } else { a - b });
#[verifier::external_body]
fn vabs_f(a: &f64) -> (r: f64) ensures r == f_abs(*a) { a.abs() }
#[verifier::external_body]
fn vceil(a: &f64) -> (r: f64) ensures r == f_ceil(*a) { a.ceil() }
#[verifier::external_body]
fn vfloor(a: &f64) -> (r: f64) ensures r == f_floor(*a) { a.floor() }
#[verifier::external_body]
fn vinf() -> (r: f64) ensures r == f_pinf() { f64::INFINITY }
#[verifier::external_body]
fn vninf() -> (r: f64) ensures r == f_ninf() { f64::NEG_INFINITY }
spec fn f_le(a: f64, b: f64) -> bool { f_lt(a, b) || f_eq(a, b) }
spec fn neg_zero() -> f64 { f_div(1.0f64, f_ninf()) }
spec fn is_neg_zero(x: f64) -> bool { f_eq(x, 0.0f64) && f_eq(f_signum(x), -1.0f64) }
spec fn ceil_spec(x: f64) -> f64 { if is_neg_zero(x) || (f_lt(-1.0f64, x) && f_lt(x, 0.0f64)) { neg_zero() } else { f_ceil(x) } }
spec fn floor_spec(x: f64) -> f64 { if is_neg_zero(x) { neg_zero() } else { f_floor(x) } }
/// the nearest whole number, the greater one of two equally near ones
spec fn half_up(x: f64) -> f64 { if f_le(0.5f64, f_sub(x, f_floor(x))) { f_add(f_floor(x), 1.0f64) } else { f_floor(x) } }
spec fn round_spec(x: f64) -> f64 { if is_neg_zero(x) || (f_le(-0.5f64, x) && f_lt(x, 0.0f64)) { neg_zero() } else { half_up(x) } }
spec fn unary(s: Seq<XItem>, i: Option<i64>, de: f64, db: f64) -> Option<Seq<XItem>> {
    match s[0] { XItem::XIInteger { value } => match i { Some(n) => Some(seq![XItem::XIInteger { value: n }]), None => None },
        XItem::XIDecimal { value } => Some(seq![XItem::XIDecimal { value: de }]), _ => Some(seq![XItem::XIDouble { value: db }]) } }
spec fn one_number(s: Seq<XItem>) -> bool { s.len() == 1 && is_num(s[0]) }
// positions of substring and subsequence: position p (from 1) is taken iff beg <= p < end
spec fn sub_end(start: f64, len: Option<f64>) -> f64 { match len { Some(l) => f_add(round_spec(start), round_spec(l)), None => f_pinf() } }
spec fn taken(p: int, start: f64, len: Option<f64>) -> bool { f_le(round_spec(start), f_of_int(p)) && f_lt(f_of_int(p), sub_end(start, len)) }
spec fn take_spec(r: (usize, usize), n: int, start: f64, len: Option<f64>) -> bool { 0 <= r.0 <= r.1 <= n && forall|p: int| 1 <= p <= n ==> (r.0 < p <= r.1) == #[trigger] taken(p, start, len) }
spec fn sub_text(v: Seq<XItem>, t: Seq<char>, s: f64, l: Option<f64>) -> bool { exists|b: (usize, usize)| #[trigger] take_spec(b, t.len() as int, s, l) && is_str(v, t.subrange(b.0 as int, b.1 as int)) }
spec fn sub_items(v: Seq<XItem>, t: Seq<XItem>, s: f64, l: Option<f64>) -> bool { exists|b: (usize, usize)| #[trigger] take_spec(b, t.len() as int, s, l) && v == t.subrange(b.0 as int, b.1 as int) }
// trusted: the order of whole numbers converted to floating point
#[verifier::external_body]
proof fn ax_le_int(x: f64, a: int, b: int) requires a <= b, f_le(x, f_of_int(a)) ensures f_le(x, f_of_int(b)) {}
#[verifier::external_body]
proof fn ax_int_lt(x: f64, a: int, b: int) requires a <= b, f_lt(f_of_int(b), x) ensures f_lt(f_of_int(a), x) {}
#[verifier::external_body]
fn vusize_f64(n: usize) -> (r: f64) ensures r == f_of_int(n as int) { n as f64 }
/// the library's collections hold at most isize::MAX elements (trusted)
#[verifier::external_body]
proof fn ax_len<T>(v: &Vec<T>) ensures v@.len() <= 0x7fff_ffff_ffff_ffff {}
#[verifier::external_body]
fn vas_usize(n: i64) -> (r: usize) ensures r == (if n >= 0 { n as int } else { n + 0x1_0000_0000_0000_0000 }) { n as usize }
// code points
spec fn code(c: char) -> int { c as u32 as int }
spec fn scalar(n: int) -> bool { 0 <= n < 0xD800 || 0xE000 <= n <= 0x10FFFF }
spec fn char_of(n: int) -> char { choose|c: char| code(c) == n }
#[verifier::external_body]
proof fn ax_char(c: char) ensures scalar(code(c)), char_of(code(c)) == c {}
#[verifier::external_body]
fn vfrom_u32(n: u32) -> (r: Option<char>) ensures match r { Some(c) => scalar(n as int) && code(c) == n && char_of(n as int) == c, None => !scalar(n as int) } { std::char::from_u32(n) }
spec fn unit(c: char, k: int) -> int { let n = code(c); if n < 0x10000 { if k == 0 { n } else { 0 } } else if k == 0 { 0xD800 + (n - 0x10000) / 0x400 } else { 0xDC00 + (n - 0x10000) % 0x400 } }
/// UTF-16 (trusted: char::encode_utf16 into a zeroed buffer)
#[verifier::external_body]
fn vencode(c: &char, b: &mut [u16; 2]) requires old(b)@[0] == 0, old(b)@[1] == 0 ensures final(b)@[0] == unit(*c, 0), final(b)@[1] == unit(*c, 1) { c.encode_utf16(b); }
spec fn codes(s: Seq<char>) -> Seq<XItem> { Seq::new(s.len(), |i: int| int_item(code(s[i]))) }
spec fn from_codes(s: Seq<XItem>) -> Option<Seq<char>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else { match (from_codes(s.drop_last()), raw_int(s.last())) { (Some(t), Some(n)) => if scalar(n as int) { Some(t.push(char_of(n as int))) } else { None }, _ => None } } }
/// codepoints-to-string inverts string-to-codepoints (C22)
proof fn lemma_codes_back(s: Seq<char>) ensures from_codes(codes(s)) == Some(s) decreases s.len()
{
    if s.len() > 0 { lemma_codes_back(s.drop_last()); ax_char(s.last()); assert(codes(s).drop_last() =~= codes(s.drop_last())); assert(s.drop_last().push(s.last()) =~= s); }
    else { assert(s =~= Seq::<char>::empty()); assert(codes(s).len() == 0); }
}
/// None as soon as one of the first n items has no answer
spec fn from_codes_n(s: Seq<XItem>, n: int) -> Option<Seq<char>> { from_codes(s.subrange(0, n)) }
proof fn lemma_codes_none(s: Seq<XItem>, n: int) requires 0 <= n <= s.len(), from_codes(s.subrange(0, n)) is None ensures from_codes(s) is None decreases s.len() - n
{ if n < s.len() { assert(s.subrange(0, n + 1).drop_last() =~= s.subrange(0, n)); lemma_codes_none(s, n + 1); } else { assert(s.subrange(0, n) =~= s); } }
// concatenation
spec fn opt_add(a: Option<Seq<char>>, b: Option<Seq<char>>) -> Option<Seq<char>> { match (a, b) { (Some(x), Some(y)) => Some(x + y), _ => None } }
spec fn cat_one(s: Seq<XItem>) -> Option<Seq<char>> { if s.len() == 0 { Some(empty_text()) } else if s.len() == 1 { raw_str(s[0]) } else { None } }
spec fn cat(a: Seq<&XSequence>) -> Option<Seq<char>> decreases a.len() { if a.len() == 0 { Some(Seq::empty()) } else { opt_add(cat(a.drop_last()), cat_one(a.last().value@)) } }
proof fn lemma_cat_none(s: Seq<&XSequence>, n: int) requires 0 <= n <= s.len(), cat(s.subrange(0, n)) is None ensures cat(s) is None decreases s.len() - n
{ if n < s.len() { assert(s.subrange(0, n + 1).drop_last() =~= s.subrange(0, n)); lemma_cat_none(s, n + 1); } else { assert(s.subrange(0, n) =~= s); } }
spec fn joined(a: Seq<XItem>, sep: Seq<char>) -> Option<Seq<char>> decreases a.len() {
    if a.len() == 0 { Some(Seq::empty()) } else { opt_add(opt_add(joined(a.drop_last(), sep), Some(if a.len() > 1 { sep } else { empty_text() })), raw_str(a.last())) } }
proof fn lemma_joined_none(s: Seq<XItem>, sep: Seq<char>, n: int) requires 0 <= n <= s.len(), joined(s.subrange(0, n), sep) is None ensures joined(s, sep) is None decreases s.len() - n
{ if n < s.len() { assert(s.subrange(0, n + 1).drop_last() =~= s.subrange(0, n)); lemma_joined_none(s, sep, n + 1); } else { assert(s.subrange(0, n) =~= s); } }
uninterp spec fn upper_of(s: Seq<char>) -> Seq<char>;
uninterp spec fn lower_of(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn vupper(s: &String) -> (r: String) ensures r@ == upper_of(s@) { s.to_uppercase() }
#[verifier::external_body]
fn vlower(s: &String) -> (r: String) ensures r@ == lower_of(s@) { s.to_lowercase() }
// translate
/// the first place of c in s
spec fn at_first(s: Seq<char>, c: char, i: int) -> bool { 0 <= i < s.len() && s[i] == c && forall|j: int| 0 <= j < i ==> s[j] != c }
spec fn first_of(s: Seq<char>, c: char) -> int { if s.contains(c) { choose|i: int| at_first(s, c, i) } else { -1 } }
spec fn tr1(c: char, from: Seq<char>, to: Seq<char>) -> Seq<char> { let i = first_of(from, c); if i < 0 { seq![c] } else if i < to.len() { seq![to[i]] } else { empty_text() } }
spec fn tr(s: Seq<char>, from: Seq<char>, to: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { empty_text() } else { tr(s.drop_last(), from, to) + tr1(s.last(), from, to) } }
proof fn lemma_first(s: Seq<char>, c: char, i: int) requires at_first(s, c, i) ensures first_of(s, c) == i
{ assert(s.contains(c)); let k = first_of(s, c); assert(at_first(s, c, k)); if k < i { assert(s[k] != c); } else if i < k { assert(s[i] != c); } }
// occurrences
spec fn occ(s: Seq<char>, t: Seq<char>, i: int) -> bool { 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t }
spec fn occurs(s: Seq<char>, t: Seq<char>) -> bool { exists|i: int| #[trigger] occ(s, t, i) }
spec fn first_occ(s: Seq<char>, t: Seq<char>, i: int) -> bool { occ(s, t, i) && forall|j: int| 0 <= j < i ==> !#[trigger] occ(s, t, j) }
spec fn before_spec(s: Seq<char>, t: Seq<char>) -> Seq<char> { if occurs(s, t) { s.subrange(0, choose|i: int| first_occ(s, t, i)) } else { empty_text() } }
spec fn after_spec(s: Seq<char>, t: Seq<char>) -> Seq<char> { if occurs(s, t) { s.subrange((choose|i: int| first_occ(s, t, i)) + t.len(), s.len() as int) } else { empty_text() } }
proof fn lemma_first_occ_exists(s: Seq<char>, t: Seq<char>, i: int) requires occ(s, t, i) ensures exists|k: int| first_occ(s, t, k) decreases i
{ if exists|j: int| 0 <= j < i && occ(s, t, j) { let j = choose|j: int| 0 <= j < i && occ(s, t, j); lemma_first_occ_exists(s, t, j); } else { assert(first_occ(s, t, i)); } }
proof fn lemma_first_occ_same(s: Seq<char>, t: Seq<char>, i: int, k: int) requires first_occ(s, t, i), first_occ(s, t, k) ensures i == k
{ if i < k { assert(!occ(s, t, i)); } else if k < i { assert(!occ(s, t, k)); } }
/// substring-before(s,t) || t || substring-after(s,t) = s whenever t occurs in s (C22)
proof fn lemma_before_after(s: Seq<char>, t: Seq<char>) requires occurs(s, t) ensures before_spec(s, t) + t + after_spec(s, t) == s
{ let j = choose|j: int| occ(s, t, j); lemma_first_occ_exists(s, t, j); let i = choose|i: int| first_occ(s, t, i); assert(s.subrange(0, i) + s.subrange(i, i + t.len()) + s.subrange(i + t.len(), s.len() as int) =~= s); }
#[verifier::external_body]
fn vcontains(s: &String, t: &String) -> (r: bool) ensures r == occurs(s@, t@) { s.contains(t.as_str()) }
#[verifier::external_body]
fn vstarts(s: &String, t: &String) -> (r: bool) ensures r == occ(s@, t@, 0) { s.starts_with(t.as_str()) }
#[verifier::external_body]
fn vends(s: &String, t: &String) -> (r: bool) ensures r == occ(s@, t@, s@.len() - t@.len()) { s.ends_with(t.as_str()) }
/// splitn(2, t): the text before and after the first occurrence of t, or the whole text (trusted)
#[verifier::external_body]
fn vsplit2<'a>(s: &'a String, t: &String) -> (r: Vec<&'a str>)
    ensures occurs(s@, t@) ==> r@.len() == 2 && r@[0]@ == before_spec(s@, t@) && r@[1]@ == after_spec(s@, t@), !occurs(s@, t@) ==> r@.len() == 1
{ unimplemented!() }
// lists (C21)
spec fn clamp(n: int, lo: int, hi: int) -> int { if n <= lo { lo } else if n >= hi { hi } else { n } }
spec fn insert_spec(s: Seq<XItem>, p: int, x: Seq<XItem>) -> Seq<XItem> { let k = clamp(p - 1, 0, s.len() as int); s.subrange(0, k) + x + s.subrange(k, s.len() as int) }
spec fn remove_spec(s: Seq<XItem>, p: int) -> Seq<XItem> { if 1 <= p <= s.len() { s.remove(p - 1) } else { s } }
spec fn same_value(a: XItem, b: XItem) -> bool { vcomp(Rel::Eq, seq![a], seq![b]) == Some(seq![bool_item(true)]) }
spec fn index_of(s: Seq<XItem>, x: XItem) -> Seq<XItem> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if same_value(s.last(), x) { index_of(s.drop_last(), x).push(int_item(s.len() as int)) } else { index_of(s.drop_last(), x) } }
/// index-of lists exactly the positions of the equal items
proof fn lemma_index_of(s: Seq<XItem>, x: XItem, p: int) requires s.len() <= i64::MAX, 1 <= p <= s.len() ensures index_of(s, x).contains(int_item(p)) == same_value(s[p - 1], x) decreases s.len()
{
    let d = s.drop_last(); let r = index_of(d, x);
    assert(index_of(s, x).last() == index_of(s, x)[index_of(s, x).len() - 1] || index_of(s, x).len() == 0);
    lemma_index_bound(d, x);
    if p == s.len() { 
        if same_value(s.last(), x) { assert(index_of(s, x).last() == int_item(p)); }
        else if r.contains(int_item(p)) { let k = choose|k: int| 0 <= k < r.len() && r[k] == int_item(p); assert(int_of(r[k]) <= d.len()); }
    } else { 
        lemma_index_of(d, x, p);
        let f = index_of(s, x);
        if r.contains(int_item(p)) { let k = choose|k: int| 0 <= k < r.len() && r[k] == int_item(p); assert(f[k] == int_item(p)); }
        if f.contains(int_item(p)) { let k = choose|k: int| 0 <= k < f.len() && f[k] == int_item(p); if k < r.len() { assert(r[k] == int_item(p)); } else { assert(f[k] == int_item(s.len() as int)); assert(int_of(f[k]) == s.len()); assert(int_of(int_item(p)) == p); } }
    }
}
proof fn lemma_index_bound(s: Seq<XItem>, x: XItem) requires s.len() <= i64::MAX ensures forall|k: int| 0 <= k < index_of(s, x).len() ==> 1 <= int_of(#[trigger] index_of(s, x)[k]) <= s.len() decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); lemma_index_bound(d, x); let r = index_of(d, x); let f = index_of(s, x);
    assert(same_value(s.last(), x) ==> f == r.push(int_item(s.len() as int))); assert(!same_value(s.last(), x) ==> f == r);
    assert forall|k: int| 0 <= k < f.len() implies 1 <= int_of(#[trigger] f[k]) <= s.len() by { if k < r.len() { assert(f[k] == r[k]); } else { assert(f[k] == int_item(s.len() as int)); } } } }
// aggregates (C23)
spec fn num_cast(x: XItem) -> Option<XItem> { if is_num(x) { Some(x) } else { cast_val(x, Ty::Dbl) } }
spec fn sum_items(s: Seq<XItem>) -> Option<XItem> decreases s.len() {
    if s.len() == 0 { Some(int_item(0)) } else { match (sum_items(s.drop_last()), num_cast(s.last())) { (Some(a), Some(b)) => arith(Op::Add, a, b), _ => None } } }
proof fn lemma_sum_none(s: Seq<XItem>, n: int) requires 0 <= n <= s.len(), sum_items(s.subrange(0, n)) is None ensures sum_items(s) is None decreases s.len() - n
{ if n < s.len() { assert(s.subrange(0, n + 1).drop_last() =~= s.subrange(0, n)); lemma_sum_none(s, n + 1); } else { assert(s.subrange(0, n) =~= s); } }
spec fn sum_spec(s: Seq<XItem>) -> Option<Seq<XItem>> { lift(sum_items(s)) }
spec fn avg_spec(s: Seq<XItem>) -> Option<Seq<XItem>> { if s.len() == 0 { Some(Seq::<XItem>::empty()) } else { match sum_items(s) { Some(t) => lift(arith(Op::Div, t, int_item(s.len() as int))), None => None } } }
/// the sum of integers is their mathematical sum as long as every partial sum fits
spec fn isum(s: Seq<XItem>) -> int decreases s.len() { if s.len() == 0 { 0 } else { isum(s.drop_last()) + int_of(s.last()) } }
spec fn all_int(s: Seq<XItem>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is XIInteger }
proof fn lemma_isum(s: Seq<XItem>) requires all_int(s), forall|n: int| 0 <= n <= s.len() ==> i64_ok(isum(#[trigger] s.subrange(0, n))) ensures sum_items(s) == Some(int_item(isum(s))) decreases s.len()
{
    if s.len() > 0 { let d = s.drop_last(); 
        assert forall|n: int| 0 <= n <= d.len() implies i64_ok(isum(#[trigger] d.subrange(0, n))) by { assert(d.subrange(0, n) =~= s.subrange(0, n)); }
        lemma_isum(d); assert(s.subrange(0, s.len() as int) =~= s); assert(s.subrange(0, s.len() - 1) =~= d); }
}
/// the extreme item: a later item replaces the one so far when it is greater (less)
spec fn best(c: Rel, s: Seq<XItem>) -> Option<XItem> decreases s.len() {
    if s.len() == 0 { None } else if s.len() == 1 { match vcomp(c, seq![s[0]], seq![s[0]]) { Some(b) => if ebv(b) is None { None } else { Some(s[0]) }, None => None } }
    else { match best(c, s.drop_last()) { None => None, Some(m) => match vcomp(c, seq![m], seq![s.last()]) { Some(b) => match ebv(b) { Some(true) => Some(s.last()), Some(false) => Some(m), None => None }, None => None } } } }
proof fn lemma_best_none(c: Rel, s: Seq<XItem>, n: int) requires 1 <= n <= s.len(), best(c, s.subrange(0, n)) is None ensures best(c, s) is None decreases s.len() - n
{ if n < s.len() { assert(s.subrange(0, n + 1).drop_last() =~= s.subrange(0, n)); lemma_best_none(c, s, n + 1); } else { assert(s.subrange(0, n) =~= s); } }
/// for integers: the greatest (least) of them
proof fn lemma_best_int(c: Rel, s: Seq<XItem>) requires all_int(s), s.len() > 0, c is Lt || c is Gt
    ensures best(c, s) is Some, best(c, s)->0 is XIInteger, s.contains(best(c, s)->0), forall|i: int| 0 <= i < s.len() ==> if c is Lt { int_of(#[trigger] s[i]) <= int_of(best(c, s)->0) } else { int_of(s[i]) >= int_of(best(c, s)->0) } decreases s.len()
{
    if s.len() > 1 { let d = s.drop_last(); lemma_best_int(c, d); let m = best(c, d)->0; 
        assert(d.contains(m)); let k = choose|k: int| 0 <= k < d.len() && d[k] == m; assert(s[k] == m); assert(s[s.len() - 1] == s.last());
        assert(vcomp(c, seq![m], seq![s.last()]) == liftb(rel_num(c, m, s.last())));
        assert forall|i: int| 0 <= i < s.len() implies if c is Lt { int_of(#[trigger] s[i]) <= int_of(best(c, s)->0) } else { int_of(s[i]) >= int_of(best(c, s)->0) } by { if i < d.len() { assert(d[i] == s[i]); } }
    } else { assert(vcomp(c, seq![s[0]], seq![s[0]]) == liftb(rel_num(c, s[0], s[0]))); assert(s.contains(s[0])); }
}
spec fn one_map(s: Seq<XItem>) -> Option<XSeqMap> { if s.len() == 1 { match s[0] { XItem::XIMap { value } => Some(value), _ => None } } else { None } }
spec fn one_array(s: Seq<XItem>) -> Option<XSeqArray> { if s.len() == 1 { match s[0] { XItem::XIArray { value } => Some(value), _ => None } } else { None } }
spec fn keys_of(m: XSeqMap) -> Seq<XItem> { Seq::new(m.v@.len(), |i: int| m.v@[i].0) }
spec fn has_key(m: XSeqMap, k: XItem) -> bool { exists|i: int| 0 <= i < m.v@.len() && same_key((#[trigger] m.v@[i]).0, k) }

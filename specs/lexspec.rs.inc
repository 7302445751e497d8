// The tokens of an XPath text, as XPath 3.1 (appendix A.2) describes them.
impl Clone for TType { #[verifier::external_body] fn clone(&self) -> (r: TType) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for TType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TType) -> bool { *self == *o } }
impl PartialEq for TType { #[verifier::external_body] fn eq(&self, o: &TType) -> (r: bool) { unimplemented!() } }
impl Clone for Token { #[verifier::external_body] fn clone(&self) -> (r: Token) ensures r == *self { unimplemented!() } }

const EOF: char = '\u{0000}';
/// a token: its kind and its text
type Tok = (TType, Seq<char>);
impl Token { pub open spec fn v(&self) -> Tok { (self.t_type, self.name@) } }
impl Lexer {
    pub open spec fn s(&self) -> Seq<char> { self.char_vec@ }
    pub open spec fn p(&self) -> int { self.ch_index as int }
    pub open spec fn ts(&self) -> Seq<Tok> { self.tokens@.map_values(|t: Token| t.v()) }
    pub open spec fn room(&self) -> bool { self.s().len() < 0x7000_0000 && self.p() <= self.s().len() + 4 && no_nul(self.s()) }
    pub open spec fn wf(&self) -> bool { lwf(self.ts()) && self.index < self.ts().len() && self.mark_index < self.ts().len() }
    /// only the position in the text has moved
    pub open spec fn same(&self, o: &Lexer) -> bool { self.s() == o.s() && self.ts() == o.ts() && self.index == o.index && self.mark_index == o.mark_index }
}
pub open spec fn no_nul(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> s[k] != EOF }
pub open spec fn ends(ts: Seq<Tok>) -> bool { ts.len() >= 2 && ts[0].0 == TType::EOF && ts.last().0 == TType::EOF && ts.len() < 0x7000_0002 }
/// a list of tokens between two end marks, none of which is open
pub open spec fn lwf(ts: Seq<Tok>) -> bool { ends(ts) && forall|k: int| 0 < k < ts.len() - 1 ==> (#[trigger] ts[k]).0 != TType::EOF && ts[k].0 != TType::Nop && ts[k].0 != TType::InnerName }

// ---- characters
pub open spec fn at(s: Seq<char>, i: int) -> char { if 0 <= i < s.len() { s[i] } else { '\u{0000}' } }
pub open spec fn sub(s: Seq<char>, i: int, j: int) -> Seq<char> { Seq::new((if j >= i { j - i } else { 0 }) as nat, |k: int| at(s, i + k)) }
proof fn sub_push(s: Seq<char>, i: int, j: int)
    requires i <= j
    ensures sub(s, i, j).push(at(s, j)) == sub(s, i, j + 1), sub(s, i, i) == Seq::<char>::empty()
{ assert(sub(s, i, j).push(at(s, j)) =~= sub(s, i, j + 1)); assert(sub(s, i, i) =~= Seq::<char>::empty()); }
proof fn sub_add(s: Seq<char>, i: int, j: int, k: int)
    requires i <= j <= k
    ensures sub(s, i, j) + sub(s, j, k) == sub(s, i, k)
{ assert(sub(s, i, j) + sub(s, j, k) =~= sub(s, i, k)); }
pub open spec fn matches_at(s: Seq<char>, i: int, d: Seq<char>) -> bool { forall|k: int| 0 <= k < d.len() ==> #[trigger] at(s, i + k) == d[k] }
pub open spec fn is_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub open spec fn dig(c: char) -> bool { '0' <= c && c <= '9' }
/// NCName characters (Namespaces in XML: name characters without the colon)
pub open spec fn nc_start(u: u32) -> bool {
    ||| 0x41 <= u && u <= 0x5A ||| u == 0x5F ||| 0x61 <= u && u <= 0x7A
    ||| 0xC0 <= u && u <= 0xD6 ||| 0xD8 <= u && u <= 0xF6 ||| 0xF8 <= u && u <= 0x2FF ||| 0x370 <= u && u <= 0x37D
    ||| 0x37F <= u && u <= 0x1FFF ||| 0x200C <= u && u <= 0x200D ||| 0x2070 <= u && u <= 0x218F ||| 0x2C00 <= u && u <= 0x2FEF
    ||| 0x3001 <= u && u <= 0xD7FF ||| 0xF900 <= u && u <= 0xFDCF ||| 0xFDF0 <= u && u <= 0xFFFD ||| 0x10000 <= u && u <= 0xEFFFF
}
pub open spec fn nc_char(u: u32) -> bool { nc_start(u) || u == 0x2D || u == 0x2E || (0x30 <= u && u <= 0x39) || u == 0xB7 || (0x300 <= u && u <= 0x36F) || (0x203F <= u && u <= 0x2040) }

// ---- pieces of text
pub open spec fn ws_end(s: Seq<char>, i: int) -> int decreases s.len() - i
{ if 0 <= i < s.len() && is_ws(s[i]) { ws_end(s, i + 1) } else { i } }
pub open spec fn dig_end(s: Seq<char>, i: int) -> int decreases s.len() - i
{ if 0 <= i < s.len() && dig(s[i]) { dig_end(s, i + 1) } else { i } }
pub open spec fn nc_end(s: Seq<char>, i: int) -> int decreases s.len() - i
{ if 0 <= i < s.len() && nc_char(s[i] as u32) { nc_end(s, i + 1) } else { i } }
/// where the comment that is open depth times at i ends
pub open spec fn comment_end(s: Seq<char>, i: int, depth: int) -> Option<int> decreases s.len() - i
{
    if i < 0 || i >= s.len() { None }
    else if s[i] == '(' && at(s, i + 1) == ':' { comment_end(s, i + 2, depth + 1) }
    else if s[i] == ':' && at(s, i + 1) == ')' { if depth <= 1 { Some(i + 2) } else { comment_end(s, i + 2, depth - 1) } }
    else { comment_end(s, i + 1, depth) }
}
pub open spec fn pre(c: char, r: Option<(Seq<char>, int)>) -> Option<(Seq<char>, int)> { match r { Some(x) => Some((seq![c] + x.0, x.1)), None => None } }
pub open spec fn preS(c: Seq<char>, r: Option<(Seq<char>, int)>) -> Option<(Seq<char>, int)> { match r { Some(x) => Some((c + x.0, x.1)), None => None } }
/// the text of a string literal from i on (after its opening quote d) and where it ends; a doubled quote stands for itself
pub open spec fn str_lit(s: Seq<char>, i: int, d: char) -> Option<(Seq<char>, int)> decreases (if i < s.len() { s.len() - i } else { 0 })
{
    if i < 0 || i >= s.len() { None }
    else if s[i] == d { if at(s, i + 1) == d { pre(d, str_lit(s, i + 2, d)) } else { Some((Seq::empty(), i + 1)) } }
    else { pre(s[i], str_lit(s, i + 1, d)) }
}
/// the text up to and with the first c
pub open spec fn until(s: Seq<char>, i: int, c: char) -> Option<(Seq<char>, int)> decreases s.len() - i
{
    if i < 0 || i >= s.len() { None } else if s[i] == c { Some((seq![c], i + 1)) } else { pre(s[i], until(s, i + 1, c)) }
}
/// an exponent, when there is one at i
pub open spec fn exp_end(s: Seq<char>, i: int) -> Option<int>
{
    if at(s, i) == 'e' || at(s, i) == 'E' {
        let j = if at(s, i + 1) == '+' || at(s, i + 1) == '-' { i + 2 } else { i + 1 };
        if dig(at(s, j)) { Some(dig_end(s, j)) } else { None }
    } else { Some(i) }
}
/// where the numeral that starts at i ends
pub open spec fn num_end(s: Seq<char>, i: int) -> Option<int>
{
    if at(s, i) == '.' { exp_end(s, dig_end(s, i + 1)) }
    else {
        let d = dig_end(s, i);
        if at(s, d) == '.' { exp_end(s, dig_end(s, d + 1)) } else { exp_end(s, d) }
    }
}
pub open spec fn num_type(t: Seq<char>) -> TType { if t.contains('e') || t.contains('E') { TType::DoubleLiteral } else if t.contains('.') { TType::DecimalLiteral } else { TType::IntegerLiteral } }

/// symbols: the longest that stands at i, with its length
pub open spec fn symbol(s: Seq<char>, i: int) -> Option<(TType, int)> {
    let c = at(s, i); let d = at(s, i + 1);
    if c == '/' { if d == '/' { Some((TType::SlashSlash, 2)) } else { Some((TType::Slash, 1)) } }
    else if c == ':' { if d == ':' { Some((TType::ColonColon, 2)) } else if d == '=' { Some((TType::Bind, 2)) } else if d == '*' { Some((TType::ColonAsterisk, 2)) } else { Some((TType::Colon, 1)) } }
    else if c == '=' { if d == '>' { Some((TType::Arrow, 2)) } else { Some((TType::GeneralEQ, 1)) } }
    else if c == '!' { if d == '=' { Some((TType::GeneralNE, 2)) } else { Some((TType::OperatorMap, 1)) } }
    else if c == '|' { if d == '|' { Some((TType::OperatorConcat, 2)) } else { Some((TType::Union, 1)) } }
    else if c == '<' { if d == '=' { Some((TType::GeneralLE, 2)) } else if d == '<' { Some((TType::NodeBefore, 2)) } else { Some((TType::GeneralLT, 1)) } }
    else if c == '>' { if d == '=' { Some((TType::GeneralGE, 2)) } else if d == '>' { Some((TType::NodeAfter, 2)) } else { Some((TType::GeneralGT, 1)) } }
    else if c == '*' { if d == ':' { Some((TType::AsteriskColon, 2)) } else { Some((TType::Asterisk, 1)) } }
    else if c == '.' { if d == '.' { Some((TType::DotDot, 2)) } else { None } }
    else if c == ',' { Some((TType::Comma, 1)) } else if c == '?' { Some((TType::Question, 1)) }
    else if c == '+' { Some((TType::Plus, 1)) } else if c == '-' { Some((TType::Minus, 1)) }
    else if c == '$' { Some((TType::Dollar, 1)) } else if c == '[' { Some((TType::LeftBracket, 1)) }
    else if c == ']' { Some((TType::RightBracket, 1)) } else if c == '(' { Some((TType::LeftParen, 1)) }
    else if c == ')' { Some((TType::RightParen, 1)) } else if c == '@' { Some((TType::At, 1)) }
    else if c == '#' { Some((TType::Sharp, 1)) } else if c == '{' { Some((TType::LeftCurly, 1)) }
    else if c == '}' { Some((TType::RightCurly, 1)) } else { None }
}
/// the token at i (no white space stands there) and where it ends; a comment is a token of kind Nop
pub open spec fn tok_at(s: Seq<char>, i: int) -> Option<(Tok, int)> {
    let c = at(s, i); let d = at(s, i + 1);
    if c == '(' && d == ':' { match comment_end(s, i + 2, 1) { Some(j) => Some(((TType::Nop, Seq::empty()), j)), None => None } }
    else if c == 'Q' && d == '{' { match until(s, i, '}') { Some(x) => Some(((TType::BracedURILiteral, x.0), x.1)), None => None } }
    else if symbol(s, i) is Some { let y = symbol(s, i)->0; Some(((y.0, sub(s, i, i + y.1)), i + y.1)) }
    else if c == EOF { Some(((TType::EOF, Seq::empty()), i + 1)) }
    else if nc_start(c as u32) { let j = nc_end(s, i + 1); Some(((TType::InnerName, sub(s, i, j)), j)) }
    else if c == '"' || c == '\'' { match str_lit(s, i + 1, c) { Some(x) => Some(((TType::StringLiteral, x.0), x.1)), None => None } }
    else if dig(c) || (c == '.' && dig(d)) { match num_end(s, i) { Some(j) => Some(((num_type(sub(s, i, j)), sub(s, i, j)), j)), None => None } }
    else if c == '.' { Some(((TType::Dot, sub(s, i, i + 1)), i + 1)) }
    else { None }
}
pub open spec fn cons(t: Tok, r: Option<Seq<Tok>>) -> Option<Seq<Tok>> { match r { Some(x) => Some(seq![t] + x), None => None } }
pub open spec fn append(t: Seq<Tok>, r: Option<Seq<Tok>>) -> Option<Seq<Tok>> { match r { Some(x) => Some(t + x), None => None } }
/// the tokens from i on
pub open spec fn toks(s: Seq<char>, i: int) -> Option<Seq<Tok>> decreases (if i <= s.len() { s.len() + 1 - i } else { 0 })
{
    match tok_at(s, ws_end(s, i)) {
        None => None,
        Some(x) => if x.0.0 == TType::EOF || x.1 <= i || i > s.len() { Some(Seq::empty()) }
            else if x.0.0 == TType::Nop { toks(s, x.1) } else { cons(x.0, toks(s, x.1)) },
    }
}
proof fn ws_end_ge(s: Seq<char>, i: int) ensures ws_end(s, i) >= i, i <= s.len() ==> ws_end(s, i) <= s.len(), !is_ws(at(s, ws_end(s, i))) decreases s.len() - i { if 0 <= i < s.len() && is_ws(s[i]) { ws_end_ge(s, i + 1); } }
proof fn dig_end_ge(s: Seq<char>, i: int) ensures dig_end(s, i) >= i, i <= s.len() ==> dig_end(s, i) <= s.len(), !dig(at(s, dig_end(s, i))) decreases s.len() - i { if 0 <= i < s.len() && dig(s[i]) { dig_end_ge(s, i + 1); } }
proof fn nc_end_ge(s: Seq<char>, i: int) ensures nc_end(s, i) >= i, i <= s.len() ==> nc_end(s, i) <= s.len() decreases s.len() - i { if 0 <= i < s.len() && nc_char(s[i] as u32) { nc_end_ge(s, i + 1); } }
proof fn comment_end_gt(s: Seq<char>, i: int, d: int) ensures comment_end(s, i, d) is Some ==> i < comment_end(s, i, d)->0 <= s.len() decreases s.len() - i
{ if i < 0 || i >= s.len() {} else if s[i] == '(' && at(s, i + 1) == ':' { comment_end_gt(s, i + 2, d + 1); } else if s[i] == ':' && at(s, i + 1) == ')' { comment_end_gt(s, i + 2, d - 1); } else { comment_end_gt(s, i + 1, d); } }
proof fn str_lit_gt(s: Seq<char>, i: int, d: char) requires d != EOF ensures str_lit(s, i, d) is Some ==> i < (str_lit(s, i, d)->0).1 <= s.len() decreases s.len() - i
{ if i < 0 || i >= s.len() {} else if s[i] == d && at(s, i + 1) == d { str_lit_gt(s, i + 2, d); } else if s[i] != d { str_lit_gt(s, i + 1, d); } }
proof fn until_gt(s: Seq<char>, i: int, d: char) ensures until(s, i, d) is Some ==> i < (until(s, i, d)->0).1 <= s.len() decreases s.len() - i
{ if i < 0 || i >= s.len() {} else if s[i] != d { until_gt(s, i + 1, d); } }
proof fn exp_end_ge(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures exp_end(s, i) is Some ==> i <= exp_end(s, i)->0 <= s.len()
{ dig_end_ge(s, i + 1); dig_end_ge(s, i + 2); }
proof fn num_end_gt(s: Seq<char>, i: int) requires 0 <= i < s.len(), dig(s[i]) || s[i] == '.' ensures num_end(s, i) is Some ==> i < num_end(s, i)->0 <= s.len()
{
    dig_end_ge(s, i); dig_end_ge(s, i + 1); let d = dig_end(s, i); 
    if s[i] == '.' { exp_end_ge(s, dig_end(s, i + 1)); } else {
        if at(s, d) == '.' { dig_end_ge(s, d + 1); exp_end_ge(s, dig_end(s, d + 1)); if exp_end(s, dig_end(s, d + 1)) is Some { exp_end_ge(s, exp_end(s, dig_end(s, d + 1))->0); } } else { exp_end_ge(s, d); }
    }
}
/// a token other than the end ends behind its start, inside the text
proof fn tok_at_gt(s: Seq<char>, i: int)
    requires 0 <= i, no_nul(s)
    ensures tok_at(s, i) is Some && (tok_at(s, i)->0).0.0 != TType::EOF ==> i < (tok_at(s, i)->0).1 <= s.len() && i < s.len(),
        tok_at(s, i) is Some ==> ((tok_at(s, i)->0).0.0 == TType::EOF <==> i >= s.len()),
        i >= s.len() ==> tok_at(s, i) == Some(((TType::EOF, Seq::<char>::empty()), i + 1)),
        tok_at(s, i) is Some && (tok_at(s, i)->0).0.0 == TType::InnerName ==> nc_start(at(s, i) as u32),
{
    comment_end_gt(s, i + 2, 1); str_lit_gt(s, i + 1, '"'); str_lit_gt(s, i + 1, '\''); until_gt(s, i, '}'); nc_end_ge(s, i + 1);
    if i < s.len() && (dig(s[i]) || s[i] == '.') { num_end_gt(s, i); }
}

// ---- tables of words (std's HashMap, built from a list of pairs: the last pair of a key counts)
pub open spec fn look<V>(t: Seq<(Seq<char>, V)>, n: Seq<char>) -> Option<V> decreases t.len()
{ if t.len() == 0 { None } else if t.last().0 == n { Some(t.last().1) } else { look(t.drop_last(), n) } }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct VMap<V> { x: std::marker::PhantomData<V> }
impl<V> VMap<V> {
    pub uninterp spec fn view(&self) -> Seq<(Seq<char>, V)>;
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&V>) ensures r is Some == look(self.view(), k@) is Some, r is Some ==> *r->0 == look(self.view(), k@)->0 { unimplemented!() }
}
#[verifier::external_body]
fn vmap<V, const N: usize>(a: [(&str, V); N]) -> (r: VMap<V>) ensures r.view() == a@.map_values(|e: (&str, V)| (e.0@, e.1)) { unimplemented!() }

pub open spec fn operator_words() -> Seq<(Seq<char>, TType)> { seq![
    ("and"@, TType::And), ("or"@, TType::Or), ("div"@, TType::Div), ("mod"@, TType::Mod), ("idiv"@, TType::IDiv),
    ("eq"@, TType::ValueEQ), ("ne"@, TType::ValueNE), ("lt"@, TType::ValueLT), ("le"@, TType::ValueLE), ("gt"@, TType::ValueGT), ("ge"@, TType::ValueGE),
    ("is"@, TType::IsSameNode), ("to"@, TType::To), ("union"@, TType::Union), ("intersect"@, TType::Intersect), ("except"@, TType::Except)] }
pub open spec fn operator_word(n: Seq<char>) -> Option<TType> { look(operator_words(), n) }
proof fn operator_word_kind(n: Seq<char>) ensures operator_word(n) is Some ==> operator_word(n)->0 != TType::EOF && operator_word(n)->0 != TType::Nop && operator_word(n)->0 != TType::InnerName
{ reveal_with_fuel(look, 17); }
/// instance of, treat as, castable as, cast as
pub open spec fn pair_of(a: Seq<char>, b: Seq<char>) -> Option<TType> {
    if a == "instance"@ && b == "of"@ { Some(TType::InstanceOf) } else if a == "treat"@ && b == "as"@ { Some(TType::TreatAs) }
    else if a == "castable"@ && b == "as"@ { Some(TType::CastableAs) } else if a == "cast"@ && b == "as"@ { Some(TType::CastAs) } else { None }
}
pub open spec fn pair_at(ts: Seq<Tok>, i: int) -> bool { pair_of(ts[i].1, ts[i + 1].1) is Some && ts[i + 1].0 == TType::InnerName }
/// the opening parenthesis of the group that is open level times before i (0 when there is none)
pub open spec fn group_start(ts: Seq<Tok>, i: int, level: int) -> int decreases i
{
    if level <= 0 || i <= 0 { i } else {
        let t = ts[i - 1].0;
        group_start(ts, i - 1, if t == TType::RightParen { level + 1 } else if t == TType::LeftParen { level - 1 } else { level })
    }
}
/// where the type that ends before i starts
pub open spec fn type_start(ts: Seq<Tok>, i: int) -> int {
    let a = if ts[i - 1].0 == TType::RightParen {
        let g = group_start(ts, i - 1, 1);
        if 1 < g && ts[g - 1].0 == TType::InnerName && !pair_at(ts, g - 2) { g - 1 } else { g }
    } else { i - 1 };
    if 2 < a && ts[a - 1].0 == TType::Colon { a - 2 } else { a }
}
/// does the sign at i say how often the type before it occurs
pub open spec fn occurrence_sign(ts: Seq<Tok>, i: int) -> bool {
    let a = type_start(ts, i);
    2 < a && pair_at(ts, a - 2) && (ts[i].0 == TType::Question || ts[a - 2].1 == "instance"@ || ts[a - 2].1 == "treat"@)
}
/// rule 1: a name behind an operand is an operator; after tells whether an operand ends before i
pub open spec fn rule1(ts: Seq<Tok>, i: int, after: bool) -> Seq<Tok> decreases (if i < ts.len() { ts.len() - i } else { 0 })
{
    if i < 0 || i >= ts.len() || ts[i].0 == TType::EOF { ts }
    else {
        let t = ts[i].0;
        if t == TType::InnerName {
            if !after { rule1(ts, i + 1, true) }
            else if operator_word(ts[i].1) is Some { rule1(ts.update(i, (operator_word(ts[i].1)->0, ts[i].1)), i + 1, false) }
            else if pair_at(ts, i) { rule1(ts, i + 2, false) }
            else { rule1(ts, i + 1, false) }
        }
        else if t == TType::Asterisk { rule1(ts, i + 1, !after || occurrence_sign(ts, i)) }
        else if t == TType::Plus || t == TType::Question { rule1(ts, i + 1, after && occurrence_sign(ts, i)) }
        else { rule1(ts, i + 1, t == TType::StringLiteral || t == TType::IntegerLiteral || t == TType::DecimalLiteral || t == TType::DoubleLiteral
            || t == TType::Dot || t == TType::DotDot || t == TType::ColonAsterisk || t == TType::RightParen || t == TType::RightBracket || t == TType::RightCurly) }
    }
}
/// rule 2: two words become one operator
pub open spec fn rule2(ts: Seq<Tok>, i: int) -> Seq<Tok> decreases ts.len() - i
{
    if i < 0 || i + 1 >= ts.len() || ts[i].0 == TType::EOF || ts[i + 1].0 == TType::EOF { ts }
    else if ts[i].0 == TType::InnerName && pair_at(ts, i) { rule2(ts.update(i, (pair_of(ts[i].1, ts[i + 1].1)->0, ts[i].1)).update(i + 1, (TType::Nop, ts[i + 1].1)), i + 1) }
    else { rule2(ts, i + 1) }
}
pub open spec fn live(ts: Seq<Tok>) -> Seq<Tok> decreases ts.len()
{ if ts.len() == 0 { ts } else if ts[0].0 == TType::Nop { live(ts.skip(1)) } else { seq![ts[0]] + live(ts.skip(1)) } }
pub open spec fn word_rules() -> Seq<(Seq<char>, TType, TType)> { seq![
    ("array"@, TType::LeftParen, TType::ArrayTest), ("attribute"@, TType::LeftParen, TType::AttributeTest), ("comment"@, TType::LeftParen, TType::CommentTest),
    ("document-node"@, TType::LeftParen, TType::DocumentTest), ("element"@, TType::LeftParen, TType::ElementTest), ("empty-sequence"@, TType::LeftParen, TType::EmptySequence),
    ("function"@, TType::LeftParen, TType::Function), ("if"@, TType::LeftParen, TType::If), ("item"@, TType::LeftParen, TType::Item), ("map"@, TType::LeftParen, TType::MapTest),
    ("namespace-node"@, TType::LeftParen, TType::NamespaceNodeTest), ("node"@, TType::LeftParen, TType::AnyKindTest), ("processing-instruction"@, TType::LeftParen, TType::PITest),
    ("schema-attribute"@, TType::LeftParen, TType::SchemaAttributeTest), ("schema-element"@, TType::LeftParen, TType::SchemaElementTest), ("switch"@, TType::LeftParen, TType::Switch),
    ("text"@, TType::LeftParen, TType::TextTest), ("typeswitch"@, TType::LeftParen, TType::TypeSwitch),
    ("for"@, TType::Dollar, TType::For), ("some"@, TType::Dollar, TType::Some), ("every"@, TType::Dollar, TType::Every), ("let"@, TType::Dollar, TType::Let),
    ("ancestor"@, TType::ColonColon, TType::AxisName), ("ancestor-or-self"@, TType::ColonColon, TType::AxisName), ("attribute"@, TType::ColonColon, TType::AxisName),
    ("child"@, TType::ColonColon, TType::AxisName), ("descendant"@, TType::ColonColon, TType::AxisName), ("descendant-or-self"@, TType::ColonColon, TType::AxisName),
    ("following"@, TType::ColonColon, TType::AxisName), ("following-sibling"@, TType::ColonColon, TType::AxisName), ("namespace"@, TType::ColonColon, TType::AxisName),
    ("parent"@, TType::ColonColon, TType::AxisName), ("preceding"@, TType::ColonColon, TType::AxisName), ("preceding-sibling"@, TType::ColonColon, TType::AxisName), ("self"@, TType::ColonColon, TType::AxisName),
    ("map"@, TType::LeftCurly, TType::Map), ("array"@, TType::LeftCurly, TType::Array)] }
/// what a name n in front of a token of kind t means (Name: nothing special)
pub open spec fn word(n: Seq<char>, t: TType, k: int) -> TType decreases k
{ if k <= 0 { TType::InnerName } else if word_rules()[k - 1].0 == n && word_rules()[k - 1].1 == t { word_rules()[k - 1].2 } else { word(n, t, k - 1) } }
pub open spec fn word_type(n: Seq<char>, t: TType) -> TType { let w = word(n, t, word_rules().len() as int); if w == TType::InnerName { TType::Name } else { w } }
/// rule 3: names in front of a parenthesis, a dollar sign or :: may be words of the grammar
pub open spec fn rule3(ts: Seq<Tok>, i: int) -> Seq<Tok> decreases ts.len() - i
{
    if i < 0 || i + 1 >= ts.len() || ts[i].0 == TType::EOF { ts }
    else if ts[i].0 == TType::InnerName { rule3(ts.update(i, (word_type(ts[i].1, ts[i + 1].0), ts[i].1)), i + 1) }
    else { rule3(ts, i + 1) }
}
pub open spec fn eof_tok() -> Tok { (TType::EOF, ""@) }
/// the tokens of an expression, between two end marks
pub open spec fn lexed(s: Seq<char>) -> Option<Seq<Tok>> {
    match toks(s, 0) { None => None, Some(t) => Some(rule3(live(rule2(rule1(seq![eof_tok()] + t + seq![eof_tok()], 1, false), 1)), 1)) }
}
/// end marks only at the ends
pub open spec fn inner(ts: Seq<Tok>) -> bool { ends(ts) && forall|k: int| 0 < k < ts.len() - 1 ==> (#[trigger] ts[k]).0 != TType::EOF }
pub open spec fn solid(ts: Seq<Tok>) -> bool { inner(ts) && forall|k: int| 0 < k < ts.len() - 1 ==> (#[trigger] ts[k]).0 != TType::Nop }

impl Lexer {
    pub open spec fn others(&self, o: &Lexer) -> bool { self.s() == o.s() && self.p() == o.p() && self.index == o.index && self.mark_index == o.mark_index }
}
pub open spec fn pair_rows() -> Seq<(Seq<char>, Seq<char>, TType)> { seq![("instance"@, "of"@, TType::InstanceOf), ("treat"@, "as"@, TType::TreatAs), ("castable"@, "as"@, TType::CastableAs), ("cast"@, "as"@, TType::CastAs)] }
pub open spec fn pair_row(a: Seq<char>, b: Seq<char>, k: int) -> Option<TType> decreases k
{ if k <= 0 { None } else if pair_rows()[k - 1].0 == a && pair_rows()[k - 1].1 == b { Some(pair_rows()[k - 1].2) } else { pair_row(a, b, k - 1) } }
proof fn pair_words() ensures "instance"@ != "treat"@, "instance"@ != "castable"@, "instance"@ != "cast"@, "treat"@ != "castable"@, "treat"@ != "cast"@, "castable"@ != "cast"@, "of"@ != "as"@
{
    reveal_strlit("instance"); reveal_strlit("treat"); reveal_strlit("castable"); reveal_strlit("cast"); reveal_strlit("of"); reveal_strlit("as");
    assert("instance"@[0] != "castable"@[0]); assert("instance"@.len() != "treat"@.len()); assert("instance"@.len() != "cast"@.len()); assert("castable"@.len() != "cast"@.len()); assert("of"@[0] != "as"@[0]); assert("treat"@.len() != "castable"@.len()); assert("treat"@.len() != "cast"@.len());
}
proof fn pair_row_of(a: Seq<char>, b: Seq<char>) ensures pair_row(a, b, 4) == pair_of(a, b) { pair_words(); reveal_with_fuel(pair_row, 5); }
proof fn word_kind(n: Seq<char>, t: TType, k: int) requires k <= word_rules().len() ensures word(n, t, k) != TType::EOF, word(n, t, k) != TType::Nop decreases k
{
    if k > 0 { word_kind(n, t, k - 1); assert(word_rules()[k - 1].2 != TType::EOF && word_rules()[k - 1].2 != TType::Nop); }
}
/// an end mark at the end only
pub open spec fn tail(ts: Seq<Tok>) -> bool { ts.len() >= 1 && ts.last().0 == TType::EOF && forall|k: int| 0 <= k < ts.len() - 1 ==> (#[trigger] ts[k]).0 != TType::EOF }
proof fn lemma_live(ts: Seq<Tok>)
    requires tail(ts)
    ensures tail(live(ts)), live(ts).len() <= ts.len(), forall|k: int| 0 <= k < live(ts).len() ==> (#[trigger] live(ts)[k]).0 != TType::Nop
    decreases ts.len()
{
    let u = ts.skip(1);
    if ts.len() == 1 { assert(u =~= Seq::empty()); assert(live(u) =~= Seq::empty()); assert(live(ts) =~= ts); }
    else {
        assert(tail(u)) by { assert(u.last() == ts.last()); assert forall|k: int| 0 <= k < u.len() - 1 implies (#[trigger] u[k]).0 != TType::EOF by { assert(u[k] == ts[k + 1]); } }
        lemma_live(u);
        if ts[0].0 != TType::Nop { let v = live(ts); assert(v == seq![ts[0]] + live(u)); assert(v.last() == live(u).last());
            assert forall|k: int| 0 <= k < v.len() - 1 implies (#[trigger] v[k]).0 != TType::EOF by { if k > 0 { assert(v[k] == live(u)[k - 1]); } else { assert(v[0] == ts[0]); } }
            assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).0 != TType::Nop by { if k > 0 { assert(v[k] == live(u)[k - 1]); } else { assert(v[0] == ts[0]); } }
        }
    }
}
proof fn lemma_live_solid(ts: Seq<Tok>) requires inner(ts) ensures solid(live(ts)), live(ts) == seq![ts[0]] + live(ts.skip(1))
{
    let u = ts.skip(1);
    assert(tail(u)) by { assert(u.last() == ts.last()); assert forall|k: int| 0 <= k < u.len() - 1 implies (#[trigger] u[k]).0 != TType::EOF by { assert(u[k] == ts[k + 1]); } }
    lemma_live(u);
    let v = live(ts); assert(v == seq![ts[0]] + live(u)); assert(v.last() == live(u).last()); assert(v[0] == ts[0]);
    assert forall|k: int| 0 < k < v.len() - 1 implies (#[trigger] v[k]).0 != TType::EOF && v[k].0 != TType::Nop by { assert(v[k] == live(u)[k - 1]); }
}

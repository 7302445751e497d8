// ---- numbers written as text: the lexical forms of xs:integer, xs:decimal and xs:double, and what std's parsers make of them
spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
spec fn x_space(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
/// Unicode white space (str::trim): only the four characters of XML matter below
uninterp spec fn u_space(c: char) -> bool;
spec fn trim_l(s: Seq<char>, w: spec_fn(char) -> bool) -> Seq<char> decreases s.len() { if s.len() > 0 && w(s[0]) { trim_l(s.subrange(1, s.len() as int), w) } else { s } }
spec fn trim_r(s: Seq<char>, w: spec_fn(char) -> bool) -> Seq<char> decreases s.len() { if s.len() > 0 && w(s[s.len() - 1]) { trim_r(s.subrange(0, s.len() - 1), w) } else { s } }
spec fn x_trim(s: Seq<char>) -> Seq<char> { trim_r(trim_l(s, |c: char| x_space(c)), |c: char| x_space(c)) }
pub closed spec fn u_trim(s: Seq<char>) -> Seq<char> { trim_r(trim_l(s, |c: char| u_space(c)), |c: char| u_space(c)) }
spec fn sign_at(s: Seq<char>) -> bool { s.len() > 0 && (s[0] == '+' || s[0] == '-') }
spec fn unsigned(s: Seq<char>) -> Seq<char> { if sign_at(s) { s.subrange(1, s.len() as int) } else { s } }
/// digits with at most one point among them, and at least one digit
spec fn point(m: Seq<char>, d: int) -> bool { 0 <= d < m.len() && m[d] == '.' && digits(m.subrange(0, d)) && digits(m.subrange(d + 1, m.len() as int)) }
spec fn mantissa(m: Seq<char>) -> bool { (m.len() > 0 && digits(m)) || (m.len() > 1 && exists|d: int| #[trigger] point(m, d)) }
spec fn expo(m: Seq<char>, e: int) -> bool { 0 <= e < m.len() && (m[e] == 'e' || m[e] == 'E') && mantissa(m.subrange(0, e)) && { let x = unsigned(m.subrange(e + 1, m.len() as int)); x.len() > 0 && digits(x) } }
spec fn int_form(s: Seq<char>) -> bool { unsigned(s).len() > 0 && digits(unsigned(s)) }
spec fn dec_form(s: Seq<char>) -> bool { mantissa(unsigned(s)) }
spec fn dbl_form(s: Seq<char>) -> bool { mantissa(unsigned(s)) || exists|e: int| #[trigger] expo(unsigned(s), e) }
/// the words f64::from_str takes in any case: inf, infinity, nan; all that matters is that there is no digit in them
spec fn word_form(s: Seq<char>) -> bool { u_word(unsigned(s)) }
uninterp spec fn u_word(s: Seq<char>) -> bool;
#[verifier::external_body]
proof fn ax_word(s: Seq<char>) ensures u_word(s) ==> s.len() >= 3 && (forall|i: int| 0 <= i < s.len() ==> ('a' <= #[trigger] s[i] && s[i] <= 'z') || ('A' <= s[i] && s[i] <= 'Z')) { }
/// the double nearest to a written number (std, trusted), and what the words mean
uninterp spec fn nearest(s: Seq<char>) -> f64;
uninterp spec fn f_anan() -> f64;
spec fn f_parse(s: Seq<char>) -> Option<f64> { if dbl_form(s) || word_form(s) { Some(nearest(s)) } else { None } }
spec fn nat_of(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { nat_of(s.subrange(0, s.len() - 1)) * 10 + (s[s.len() - 1] as int - '0' as int) } }
spec fn i_parse(s: Seq<char>) -> Option<i64> {
    let n = nat_of(unsigned(s)); let v = if s.len() > 0 && s[0] == '-' { -n } else { n };
    if int_form(s) && i64::MIN <= v <= i64::MAX { Some(v as i64) } else { None } }
#[verifier::opaque]
spec fn atof_of(s: Seq<char>) -> f64 { match f_parse(u_trim(s)) { Some(x) => x, None => f_anan() } }
#[verifier::opaque]
spec fn atoi_of(s: Seq<char>) -> i64 { match i_parse(u_trim(s)) { Some(n) => n, None => 0 } }
/// the lexical space of xs:double (INF, -INF, NaN included), of xs:decimal and of xs:integer, after the white space around is gone
#[verifier::opaque]
spec fn dbl_lit(s: Seq<char>) -> bool { let t = x_trim(s); t == "INF"@ || t == "-INF"@ || t == "NaN"@ || dbl_form(t) }
#[verifier::opaque]
spec fn dec_lit(s: Seq<char>) -> bool { dec_form(x_trim(s)) }
#[verifier::opaque]
spec fn int_of_text(s: Seq<char>) -> Option<i64> { i_parse(x_trim(s)) }
/// std writes an i64 as its digits, and reads that text followed by ".0" as the double nearest to it
uninterp spec fn int_text(n: int) -> Seq<char>;
#[verifier::external_body]
proof fn ax_dot0(n: int) ensures i64::MIN <= n <= i64::MAX ==> u_trim(int_text(n) + seq!['.', '0']) == int_text(n) + seq!['.', '0'] && f_parse(int_text(n) + seq!['.', '0']) == Some(f_of_int(n)) { }
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, d: T) -> (r: T) where E: std::marker::Destruct, T: std::marker::Destruct ensures r == match a { Ok(x) => x, Err(_) => d };
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == u_trim(s@);
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9');
#[verifier::external_body]
fn vparse_f64(s: &str) -> (r: Result<f64, VErr>) ensures match r { Ok(x) => f_parse(s@) == Some(x), Err(_) => f_parse(s@) is None } { unimplemented!() }
#[verifier::external_body]
fn vparse_i64(s: &str) -> (r: Result<i64, VErr>) ensures match r { Ok(n) => i_parse(s@) == Some(n), Err(_) => i_parse(s@) is None } { unimplemented!() }
#[verifier::external_body]
fn vnan() -> (r: f64) ensures r == f_anan() { f64::NAN }
#[verifier::external_body]
fn vtrim_by<'a, F: FnMut(char) -> bool>(s: &'a str, Ghost(w): Ghost<spec_fn(char) -> bool>, f: F) -> (r: &'a str)
    requires forall|c: char| f.requires((c,)), forall|c: char, b: bool| f.ensures((c,), b) ==> b == w(c)
    ensures r@ == trim_r(trim_l(s@, w), w)
{ s.trim_matches(f) }
#[verifier::external_body]
fn vanyc<F: FnMut(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,))
    ensures r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), true), !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), false)
{ s.chars().any(f) }
#[verifier::external_body]
fn vallc<F: FnMut(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,))
    ensures !r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), false), r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), true)
{ s.chars().all(f) }
/// a written number has a digit; one written without letters is a decimal
proof fn num_mant(m: Seq<char>) requires mantissa(m) ensures exists|i: int| 0 <= i < m.len() && digit(#[trigger] m[i]), forall|i: int| 0 <= i < m.len() ==> digit(#[trigger] m[i]) || m[i] == '.'
{
    if m.len() > 0 && digits(m) { assert(digit(m[0])); }
    else {
        let d = choose|d: int| #[trigger] point(m, d);
        assert forall|i: int| 0 <= i < m.len() implies digit(#[trigger] m[i]) || m[i] == '.' by {
            if i < d { assert(m.subrange(0, d)[i] == m[i]); } else if i > d { assert(m.subrange(d + 1, m.len() as int)[i - d - 1] == m[i]); } }
        if d > 0 { assert(m.subrange(0, d)[0] == m[0]); assert(digit(m[0])); } else { assert(m.subrange(d + 1, m.len() as int)[0] == m[1]); assert(digit(m[1])); }
    }
}
proof fn num_dbl(t: Seq<char>) requires dbl_form(t) ensures exists|i: int| 0 <= i < t.len() && digit(#[trigger] t[i]), !dec_form(t) ==> exists|i: int| 0 <= i < t.len() && !digit(#[trigger] t[i]) && t[i] != '.' && t[i] != '+' && t[i] != '-'
{
    let u = unsigned(t); let o = t.len() - u.len();
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == t[i + o] by { }
    if mantissa(u) { num_mant(u); let i = choose|i: int| 0 <= i < u.len() && digit(#[trigger] u[i]); assert(digit(t[i + o])); }
    else {
        let e = choose|e: int| #[trigger] expo(u, e); let m = u.subrange(0, e);
        num_mant(m); let i = choose|i: int| 0 <= i < m.len() && digit(#[trigger] m[i]); assert(m[i] == u[i]); assert(digit(t[i + o]));
        assert(u[e] == t[e + o]); assert(!digit(t[e + o]));
    }
}
proof fn num_dec(t: Seq<char>) requires dec_form(t) ensures dbl_form(t), exists|i: int| 0 <= i < t.len() && digit(#[trigger] t[i]), forall|i: int| 0 <= i < t.len() ==> digit(#[trigger] t[i]) || t[i] == '.' || t[i] == '+' || t[i] == '-'
{
    num_dbl(t); let u = unsigned(t); let o = t.len() - u.len(); num_mant(u);
    assert forall|i: int| 0 <= i < t.len() implies digit(#[trigger] t[i]) || t[i] == '.' || t[i] == '+' || t[i] == '-' by { if i >= o { assert(u[i - o] == t[i]); } }
}
proof fn num_word(t: Seq<char>) requires word_form(t) ensures forall|i: int| 0 <= i < t.len() ==> !digit(#[trigger] t[i]), exists|i: int| 0 <= i < t.len() && !digit(#[trigger] t[i]) && t[i] != '.' && t[i] != '+' && t[i] != '-'
{
    let u = unsigned(t); let o = t.len() - u.len(); ax_word(u);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == t[i + o] by { }
    assert forall|i: int| 0 <= i < t.len() implies !digit(#[trigger] t[i]) by { if i >= o { assert(u[i - o] == t[i]); } }
    assert(u[0] == t[o]); assert(!digit(t[o]) && t[o] != '.' && t[o] != '+' && t[o] != '-');
}

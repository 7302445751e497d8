// White space and comments between tokens never change the tokens.
/// s2 is s with n more characters in front of position q
pub open spec fn moved(s: Seq<char>, s2: Seq<char>, q: int, n: int) -> bool { 0 <= q <= s.len() && n >= 0 && s2.len() == s.len() + n && forall|k: int| q <= k ==> #[trigger] at(s2, k + n) == at(s, k) }
pub open spec fn mv(r: Option<(Seq<char>, int)>, n: int) -> Option<(Seq<char>, int)> { match r { Some(x) => Some((x.0, x.1 + n)), None => None } }
pub open spec fn mvi(r: Option<int>, n: int) -> Option<int> { match r { Some(x) => Some(x + n), None => None } }
pub open spec fn mvt(r: Option<(Tok, int)>, n: int) -> Option<(Tok, int)> { match r { Some(x) => Some((x.0, x.1 + n)), None => None } }
proof fn mv_ends(s: Seq<char>, s2: Seq<char>, q: int, n: int, i: int)
    requires moved(s, s2, q, n), q <= i
    ensures ws_end(s2, i + n) == ws_end(s, i) + n, dig_end(s2, i + n) == dig_end(s, i) + n, nc_end(s2, i + n) == nc_end(s, i) + n
    decreases s.len() - i
{
    assert(at(s2, i + n) == at(s, i));
    if i < s.len() { mv_ends(s, s2, q, n, i + 1); assert(i + 1 + n == i + n + 1); }
}
proof fn mv_sub(s: Seq<char>, s2: Seq<char>, q: int, n: int, i: int, j: int)
    requires moved(s, s2, q, n), q <= i
    ensures sub(s2, i + n, j + n) == sub(s, i, j)
{
    assert forall|k: int| 0 <= k implies #[trigger] at(s2, i + n + k) == at(s, i + k) by { assert(at(s2, (i + k) + n) == at(s, i + k)); }
    assert(sub(s2, i + n, j + n) =~= sub(s, i, j));
}
proof fn mv_comment(s: Seq<char>, s2: Seq<char>, q: int, n: int, i: int, d: int)
    requires moved(s, s2, q, n), q <= i
    ensures comment_end(s2, i + n, d) == mvi(comment_end(s, i, d), n)
    decreases s.len() - i
{
    assert(at(s2, i + n) == at(s, i)); assert(at(s2, (i + 1) + n) == at(s, i + 1)); assert(i + 1 + n == i + n + 1); assert(i + 2 + n == i + n + 2);
    if i < s.len() { mv_comment(s, s2, q, n, i + 1, d); if i + 1 < s.len() { mv_comment(s, s2, q, n, i + 2, d + 1); mv_comment(s, s2, q, n, i + 2, d - 1); } }
}
proof fn mv_lit(s: Seq<char>, s2: Seq<char>, q: int, n: int, i: int, d: char)
    requires moved(s, s2, q, n), q <= i, d != EOF
    ensures str_lit(s2, i + n, d) == mv(str_lit(s, i, d), n), until(s2, i + n, d) == mv(until(s, i, d), n)
    decreases s.len() - i
{
    assert(at(s2, i + n) == at(s, i)); assert(at(s2, (i + 1) + n) == at(s, i + 1)); assert(i + 1 + n == i + n + 1); assert(i + 2 + n == i + n + 2);
    if i < s.len() { mv_lit(s, s2, q, n, i + 1, d); if i + 1 < s.len() { mv_lit(s, s2, q, n, i + 2, d); } }
}
proof fn mv_exp(s: Seq<char>, s2: Seq<char>, q: int, n: int, i: int)
    requires moved(s, s2, q, n), q <= i
    ensures exp_end(s2, i + n) == mvi(exp_end(s, i), n)
{
    assert(at(s2, i + n) == at(s, i)); assert(at(s2, (i + 1) + n) == at(s, i + 1)); assert(at(s2, (i + 2) + n) == at(s, i + 2)); assert(i + 1 + n == i + n + 1); assert(i + 2 + n == i + n + 2);
    mv_ends(s, s2, q, n, i + 1); mv_ends(s, s2, q, n, i + 2);
}
proof fn mv_num(s: Seq<char>, s2: Seq<char>, q: int, n: int, i: int)
    requires moved(s, s2, q, n), q <= i <= s.len()
    ensures num_end(s2, i + n) == mvi(num_end(s, i), n)
{
    assert(at(s2, i + n) == at(s, i)); assert(i + 1 + n == i + n + 1);
    let d = dig_end(s, i); dig_end_ge(s, i); dig_end_ge(s, i + 1); dig_end_ge(s, d + 1);
    mv_ends(s, s2, q, n, i); mv_ends(s, s2, q, n, i + 1); mv_ends(s, s2, q, n, d + 1); assert(at(s2, d + n) == at(s, d)); assert(d + 1 + n == d + n + 1);
    mv_exp(s, s2, q, n, dig_end(s, i + 1)); mv_exp(s, s2, q, n, d); let f = dig_end(s, d + 1); mv_exp(s, s2, q, n, f);
    if d < s.len() { exp_end_ge(s, f); if exp_end(s, f) is Some { mv_exp(s, s2, q, n, exp_end(s, f)->0); } }
    else { assert(at(s, d) == EOF); }
}
proof fn mv_tok(s: Seq<char>, s2: Seq<char>, q: int, n: int, i: int)
    requires moved(s, s2, q, n), q <= i, no_nul(s)
    ensures tok_at(s2, i + n) == mvt(tok_at(s, i), n)
{
    assert(at(s2, i + n) == at(s, i)); assert(at(s2, (i + 1) + n) == at(s, i + 1)); assert(i + 1 + n == i + n + 1); assert(i + 2 + n == i + n + 2);
    let c = at(s, i);
    mv_comment(s, s2, q, n, i + 2, 1); mv_lit(s, s2, q, n, i, '}'); mv_lit(s, s2, q, n, i + 1, '"'); mv_lit(s, s2, q, n, i + 1, '\''); mv_ends(s, s2, q, n, i + 1);
    mv_sub(s, s2, q, n, i, nc_end(s, i + 1)); mv_sub(s, s2, q, n, i, i + 1); mv_sub(s, s2, q, n, i, i + 2);
    if i <= s.len() { mv_num(s, s2, q, n, i); if num_end(s, i) is Some { mv_sub(s, s2, q, n, i, num_end(s, i)->0); } }
}
proof fn mv_toks(s: Seq<char>, s2: Seq<char>, q: int, n: int, i: int)
    requires moved(s, s2, q, n), q <= i, no_nul(s), no_nul(s2)
    ensures toks(s2, i + n) == toks(s, i)
    decreases s.len() + 1 - i
{
    if i > s.len() { tok_at_gt(s, ws_end(s, i)); tok_at_gt(s2, ws_end(s2, i + n)); ws_end_ge(s, i); ws_end_ge(s2, i + n); }
    else {
        mv_ends(s, s2, q, n, i); ws_end_ge(s, i); mv_tok(s, s2, q, n, ws_end(s, i)); tok_at_gt(s, ws_end(s, i));
        if tok_at(s, ws_end(s, i)) is Some { let x = tok_at(s, ws_end(s, i))->0; if x.1 > i && x.0.0 != TType::EOF { mv_toks(s, s2, q, n, x.1); } }
    }
}
/// s2 starts as s does up to q, and there stands white space or a parenthesis in s2
pub open spec fn agree(s: Seq<char>, s2: Seq<char>, q: int) -> bool { 0 <= q <= s.len() && q < s2.len() && (forall|k: int| k < q ==> #[trigger] at(s2, k) == at(s, k)) && (is_ws(at(s2, q)) || at(s2, q) == '(') }
proof fn ag_ends(s: Seq<char>, s2: Seq<char>, q: int, i: int)
    requires agree(s, s2, q), 0 <= i <= q
    ensures dig_end(s, i) <= q ==> dig_end(s2, i) == dig_end(s, i), nc_end(s, i) <= q ==> nc_end(s2, i) == nc_end(s, i), ws_end(s, i) < q ==> ws_end(s2, i) == ws_end(s, i)
    decreases q - i
{
    dig_end_ge(s, i); nc_end_ge(s, i); ws_end_ge(s, i);
    if i < q { assert(at(s2, i) == at(s, i)); assert(i < s.len()); dig_end_ge(s, i + 1); nc_end_ge(s, i + 1); ws_end_ge(s, i + 1); ag_ends(s, s2, q, i + 1); }
}
proof fn ag_sub(s: Seq<char>, s2: Seq<char>, q: int, i: int, j: int) requires agree(s, s2, q), j <= q ensures sub(s2, i, j) == sub(s, i, j)
{ assert forall|k: int| 0 <= k < j - i implies #[trigger] at(s2, i + k) == at(s, i + k) by {} assert(sub(s2, i, j) =~= sub(s, i, j)); }
proof fn ag_comment(s: Seq<char>, s2: Seq<char>, q: int, i: int, d: int)
    requires agree(s, s2, q), 0 <= i <= q, comment_end(s, i, d) is Some, comment_end(s, i, d)->0 <= q
    ensures comment_end(s2, i, d) == comment_end(s, i, d)
    decreases q - i
{
    comment_end_gt(s, i, d); comment_end_gt(s, i + 1, d); comment_end_gt(s, i + 2, d + 1); comment_end_gt(s, i + 2, d - 1);
    assert(at(s2, i) == at(s, i)); if i + 1 < q { assert(at(s2, i + 1) == at(s, i + 1)); }
    if s[i] == '(' && at(s, i + 1) == ':' { ag_comment(s, s2, q, i + 2, d + 1); }
    else if s[i] == ':' && at(s, i + 1) == ')' { if d > 1 { ag_comment(s, s2, q, i + 2, d - 1); } }
    else { ag_comment(s, s2, q, i + 1, d); }
}
proof fn ag_lit(s: Seq<char>, s2: Seq<char>, q: int, i: int, d: char)
    requires agree(s, s2, q), 0 <= i <= q, d == '"' || d == '\'', str_lit(s, i, d) is Some, (str_lit(s, i, d)->0).1 <= q
    ensures str_lit(s2, i, d) == str_lit(s, i, d)
    decreases q - i
{
    str_lit_gt(s, i, d); str_lit_gt(s, i + 1, d); str_lit_gt(s, i + 2, d);
    assert(at(s2, i) == at(s, i)); if i + 1 < q { assert(at(s2, i + 1) == at(s, i + 1)); }
    if s[i] == d { if at(s, i + 1) == d { ag_lit(s, s2, q, i + 2, d); } } else { ag_lit(s, s2, q, i + 1, d); }
}
proof fn ag_until(s: Seq<char>, s2: Seq<char>, q: int, i: int, d: char)
    requires agree(s, s2, q), 0 <= i <= q, until(s, i, d) is Some, (until(s, i, d)->0).1 <= q
    ensures until(s2, i, d) == until(s, i, d)
    decreases q - i
{ until_gt(s, i, d); until_gt(s, i + 1, d); assert(at(s2, i) == at(s, i)); if s[i] != d { ag_until(s, s2, q, i + 1, d); } }
proof fn ag_exp(s: Seq<char>, s2: Seq<char>, q: int, i: int)
    requires agree(s, s2, q), 0 <= i <= q, exp_end(s, i) is Some, exp_end(s, i)->0 <= q
    ensures exp_end(s2, i) == exp_end(s, i)
{
    dig_end_ge(s, i + 1); dig_end_ge(s, i + 2);
    if i < q { assert(at(s2, i) == at(s, i)); }
    if i < s.len() && (s[i] == 'e' || s[i] == 'E') {
        assert(i < q); let j = if at(s, i + 1) == '+' || at(s, i + 1) == '-' { i + 2 } else { i + 1 };
        assert(dig_end(s, j) > j); assert(j < q); assert(at(s2, i + 1) == at(s, i + 1)); assert(at(s2, j) == at(s, j)); ag_ends(s, s2, q, j);
    }
}
proof fn ag_num(s: Seq<char>, s2: Seq<char>, q: int, i: int)
    requires agree(s, s2, q), 0 <= i < q, dig(at(s, i)) || at(s, i) == '.', num_end(s, i) is Some, num_end(s, i)->0 <= q
    ensures num_end(s2, i) == num_end(s, i)
{
    let d = dig_end(s, i); let f = dig_end(s, d + 1); let g = dig_end(s, i + 1);
    num_end_gt(s, i); dig_end_ge(s, i); dig_end_ge(s, i + 1); dig_end_ge(s, d + 1); assert(at(s2, i) == at(s, i));
    if at(s, i) == '.' { exp_end_ge(s, g); ag_ends(s, s2, q, i + 1); ag_exp(s, s2, q, g); }
    else if at(s, d) == '.' {
        assert(d < s.len()); exp_end_ge(s, f); let e = exp_end(s, f)->0; exp_end_ge(s, e); 
        ag_ends(s, s2, q, i); assert(d < q); assert(at(s2, d) == at(s, d)); ag_ends(s, s2, q, d + 1); ag_exp(s, s2, q, f);
    } else { exp_end_ge(s, d); ag_ends(s, s2, q, i); if d < q { assert(at(s2, d) == at(s, d)); } ag_exp(s, s2, q, d); }
}
/// a token that ends no later than q is the same token in s2
proof fn ag_tok(s: Seq<char>, s2: Seq<char>, q: int, i: int)
    requires agree(s, s2, q), no_nul(s), 0 <= i, tok_at(s, i) is Some, (tok_at(s, i)->0).0.0 != TType::EOF, (tok_at(s, i)->0).1 <= q
    ensures tok_at(s2, i) == tok_at(s, i)
{
    tok_at_gt(s, i); let x = tok_at(s, i)->0; let c = at(s, i); let d = at(s, i + 1);
    assert(at(s2, i) == at(s, i)); if i + 1 < q { assert(at(s2, i + 1) == at(s, i + 1)); }
    if i + 1 == q { assert(is_ws(at(s2, i + 1)) || at(s2, i + 1) == '('); }
    if c == '(' && d == ':' { comment_end_gt(s, i + 2, 1); ag_comment(s, s2, q, i + 2, 1); }
    else if c == 'Q' && d == '{' { until_gt(s, i, '}'); until_gt(s, i + 1, '}'); until_gt(s, i + 2, '}'); ag_until(s, s2, q, i, '}'); assert(i + 1 < q); }
    else if symbol(s, i) is Some { let y = symbol(s, i)->0; ag_sub(s, s2, q, i, i + y.1); }
    else if nc_start(c as u32) { nc_end_ge(s, i + 1); ag_ends(s, s2, q, i + 1); ag_sub(s, s2, q, i, nc_end(s, i + 1)); }
    else if c == '"' || c == '\'' { str_lit_gt(s, i + 1, c); ag_lit(s, s2, q, i + 1, c); }
    else if dig(c) || (c == '.' && dig(d)) { num_end_gt(s, i); if c == '.' { dig_end_ge(s, i + 1); assert(dig_end(s, i + 1) > i + 1); exp_end_ge(s, dig_end(s, i + 1)); assert(i + 1 < q); } ag_num(s, s2, q, i); ag_sub(s, s2, q, i, num_end(s, i)->0); }
    else { ag_sub(s, s2, q, i, i + 1); }
}
/// q is a place between the tokens that are read from p on
pub open spec fn between(s: Seq<char>, p: int, q: int) -> bool decreases (if p <= q { q - p } else { 0 })
{ p == q || (p < q && tok_at(s, ws_end(s, p)) is Some && { let x = tok_at(s, ws_end(s, p))->0; x.0.0 != TType::EOF && p < x.1 && between(s, x.1, q) }) }
/// white space, or a comment
pub open spec fn blank(w: Seq<char>) -> bool {
    w.len() > 0 && no_nul(w) && ((forall|k: int| 0 <= k < w.len() ==> is_ws(#[trigger] w[k])) || (w.len() >= 2 && w[0] == '(' && w[1] == ':' && comment_end(w, 2, 1) == Some(w.len() as int)))
}
proof fn between_le(s: Seq<char>, p: int, q: int) requires between(s, p, q), no_nul(s), 0 <= p <= s.len() ensures p <= q <= s.len() decreases (if p <= q { q - p } else { 0 })
{ if p != q { ws_end_ge(s, p); tok_at_gt(s, ws_end(s, p)); between_le(s, (tok_at(s, ws_end(s, p))->0).1, q); } }
proof fn ws_run(s: Seq<char>, i: int, n: int) requires 0 <= i, 0 <= n, i + n <= s.len(), forall|k: int| i <= k < i + n ==> is_ws(#[trigger] s[k]) ensures ws_end(s, i) == ws_end(s, i + n) decreases n
{ if n > 0 { ws_run(s, i + 1, n - 1); } }
/// a comment reads the same wherever it stands
proof fn comment_in(w: Seq<char>, s2: Seq<char>, q: int, i: int, d: int)
    requires 0 <= q, q + w.len() <= s2.len(), 0 <= i, forall|k: int| 0 <= k < w.len() ==> s2[q + k] == #[trigger] w[k], comment_end(w, i, d) is Some
    ensures comment_end(s2, q + i, d) == Some(q + comment_end(w, i, d)->0)
    decreases w.len() - i
{
    assert(s2[q + i] == w[i]); if i + 1 < w.len() { assert(s2[q + (i + 1)] == w[i + 1]); }
    comment_end_gt(w, i + 1, d); comment_end_gt(w, i + 2, d + 1); comment_end_gt(w, i + 2, d - 1);
    if w[i] == '(' && at(w, i + 1) == ':' { comment_in(w, s2, q, i + 2, d + 1); }
    else if w[i] == ':' && at(w, i + 1) == ')' { if d > 1 { comment_in(w, s2, q, i + 2, d - 1); } }
    else { comment_in(w, s2, q, i + 1, d); assert(i + 1 < w.len());
        assert(!(at(s2, q + i) == '(' && at(s2, q + i + 1) == ':')); assert(!(at(s2, q + i) == ':' && at(s2, q + i + 1) == ')')); }
}
pub open spec fn inserted(s: Seq<char>, q: int, w: Seq<char>) -> Seq<char> { s.take(q) + w + s.skip(q) }
/// C12: white space or a comment put between two tokens leaves the tokens as they are
proof fn lemma_blank(s: Seq<char>, p: int, q: int, w: Seq<char>)
    requires no_nul(s), blank(w), 0 <= p <= s.len(), between(s, p, q)
    ensures toks(inserted(s, q, w), p) == toks(s, p), no_nul(inserted(s, q, w))
    decreases (if p <= q { q - p } else { 0 })
{
    let s2 = inserted(s, q, w); let n = w.len() as int;
    between_le(s, p, q);
    assert(s2.len() == s.len() + n);
    assert forall|k: int| q <= k implies #[trigger] at(s2, k + n) == at(s, k) by { if k < s.len() { assert(s2[k + n] == s.skip(q)[k - q]); } }
    assert forall|k: int| k < q implies #[trigger] at(s2, k) == at(s, k) by { if 0 <= k { assert(s2[k] == s.take(q)[k]); } }
    assert forall|k: int| 0 <= k < n implies s2[q + k] == #[trigger] w[k] by {}
    assert(moved(s, s2, q, n)); assert(s2[q + 0] == w[0]); assert(at(s2, q) == w[0]); assert(agree(s, s2, q));
    assert(no_nul(s2)) by { assert forall|k: int| 0 <= k < s2.len() implies s2[k] != EOF by { if k < q { assert(s2[k] == s[k]); } else if k < q + n { assert(s2[q + (k - q)] == w[k - q]); } else { assert(at(s2, (k - n) + n) == at(s, k - n)); } } }
    if p == q {
        mv_toks(s, s2, q, n, q);
        if forall|k: int| 0 <= k < w.len() ==> is_ws(#[trigger] w[k]) {
            assert forall|k: int| q <= k < q + n implies is_ws(#[trigger] s2[k]) by { assert(s2[q + (k - q)] == w[k - q]); }
            ws_run(s2, q, n); ws_end_ge(s2, q + n); tok_at_gt(s2, ws_end(s2, q + n));
            lemma_toks_ws(s2, q, q + n);
        } else {
            assert(s2[q + 1] == w[1]); assert(ws_end(s2, q) == q); comment_in(w, s2, q, 2, 1); assert(q + 2 + 0 == q + 2);
            assert(comment_end(s2, q + 2, 1) == Some(q + n)); assert(tok_at(s2, q) == Some(((TType::Nop, Seq::<char>::empty()), q + n)));
            assert(toks(s2, q) == toks(s2, q + n));
        }
    } else {
        ws_end_ge(s, p); let i = ws_end(s, p); tok_at_gt(s, i); let x = tok_at(s, i)->0; between_le(s, x.1, q);
        ag_ends(s, s2, q, p); ag_tok(s, s2, q, i); lemma_blank(s, x.1, q, w);
        assert(ws_end(s2, p) == i); assert(tok_at(s2, i) == tok_at(s, i));
    }
}
/// nothing but the place where the white space ends counts
proof fn lemma_toks_ws(s: Seq<char>, p: int, q: int)
    requires no_nul(s), 0 <= p <= q <= s.len(), ws_end(s, p) == ws_end(s, q)
    ensures toks(s, p) == toks(s, q)
{ ws_end_ge(s, p); ws_end_ge(s, q); tok_at_gt(s, ws_end(s, p)); }
proof fn lemma_blank_lexed(s: Seq<char>, q: int, w: Seq<char>)
    requires no_nul(s), blank(w), between(s, 0, q)
    ensures lexed(inserted(s, q, w)) == lexed(s)
{ lemma_blank(s, 0, q, w); }

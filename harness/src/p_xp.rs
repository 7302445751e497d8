//! C11-C28: XPath.
use crate::core::*;
use crate::gx::*;
use crate::rx::*;
use crate::rx::E::*;
use amxml::dom::*;

pub struct Wd { pub xml: String, pub w: World }
pub fn world(xml: &str) -> Wd { let d = new_document(xml).expect("xml"); Wd { xml: xml.to_string(), w: World::new(&d) } }
pub const FIX: &str = "<a xmlns:p='u' xmlns:q='v' x='1'>t<b x='ab' y='2'><c/>1<p:a/></b><!--k--><b>2<b q:b='1'>ab</b><?pi d?></b><c y=''><a/><q:b/></c></a>";
/// blanks at the ends of every kind of text
pub const BL: &str = "<a x=' 1 ' y='\t'> t\n<b> u<!-- c --><?pi d ?>v </b>  <b/>\n<!--\nk--><?q  e?><c> <b>w</b> <b> 5 </b></c></a>";
pub fn worlds(c: &mut Ctx, n: usize, size: usize) -> Vec<Wd> {
    let mut v = vec![world(FIX), world("<a/>"), world(BL)];
    for _ in 0..n { let s = { let k = 2 + c.rng.below(size); gen_xml(&mut c.rng, k) }; v.push(world(&s)); }
    v
}
fn foc(i: usize) -> Focus { Focus { item: Some(V::Node(i)), pos: 1, size: 1, known: false } }
fn desc(w: &Wd, i: usize, t: &str) -> String { format!("node {} of {} :: {}", i, w.xml, t) }
pub fn eval(w: &Wd, i: usize, e: &E) -> R { Env::new(&w.w).ev(e, &foc(i)) }
/// the real answer to e, against the reference
pub fn run(c: &mut Ctx, w: &Wd, i: usize, e: &E) {
    let t = text(e);
    let want = eval(w, i, e);
    if want == Err(X::Skip) { return c.case(&desc(w, i, &t), false, || { let _ = w.w.nd[i].ptr.eval_xpath(&t); Ok(()) }); }
    c.case(&desc(w, i, &t), true, || check(&w.w, i, &t, &want));
}
impl PartialEq for V { fn eq(&self, o: &V) -> bool { format!("{:?}", self) == format!("{:?}", o) } }
fn d0() -> Wd { world("<a/>") }
fn pick<'a>(c: &mut Ctx, v: &'a [Wd]) -> (&'a Wd, usize) { let k = c.rng.below(v.len()); let n = v[k].w.nd.len(); let i = c.rng.below(n); (&v[k], i) }

// ---------------------------------------------------------------- C11
const SOUP: &[&str] = &["(", ")", "[", "]", "{", "}", ",", "+", "-", "*", "div", "idiv", "mod", "and", "or", "=", "!=", "<", "<=", "eq", "is", "<<", "||", "|", "union", "intersect", "except", "to", "!", "=>", "/", "//", ".", "..", "@", "::", ":", ":=", "?", "#", "$", "$x", "x", "a", "b", "p:a", "*:a", "p:*", "child", "ancestor::", "following::", "1", "0", "9223372036854775807", "9223372036854775808", "1.5", ".5", "1e3", "1e", "1e999", "'s'", "\"", "'", "(:", ":)", "if", "then", "else", "for", "in", "return", "let", "some", "every", "satisfies", "instance", "of", "cast", "castable", "treat", "as", "xs:integer", "item()", "node()", "text()", "comment()", "processing-instruction()", "element(", "attribute(a)", "document-node()", "schema-element(a)", "map", "map{", "array{", "array", "function", "function(", "position()", "last()", "count(", "concat(", "substring(", "sum(", "fn:", "Q{u}", "Q{", "empty-sequence()", "true()", "false()", "\u{0}", "é", "%", "&", "~", "\u{FFFF}", "for-each(", "map:get(", "array:get(", "namespace::", "self::", "round(", "#1", "abs#1"];
fn nopanic(c: &mut Ctx, w: &Wd, i: usize, t: &str) {
    if t.contains('\u{0}') { return; }
    c.case(&desc(w, i, t), true, || { match w.w.nd[i].ptr.eval_xpath(t) { Ok(s) => { let _ = s.to_string(); } Err(e) => { let _ = e.to_string(); } } Ok(()) });
}
fn musterr(c: &mut Ctx, w: &Wd, t: &str) {
    c.case(&desc(w, 0, t), true, || match w.w.nd[0].ptr.eval_xpath(t) { Ok(s) => Err(format!("answers {} where an error is due", s.to_string())), Err(_) => Ok(()) });
}
fn huge(t: &str) -> bool { t.contains("to") && (t.contains("9223") || t.contains("1e999")) }
pub fn c11(c: &mut Ctx) {
    let w = world(FIX);
    c.part("no expression");
    for s in &["", " ", "\t\n", "(: c :)", "(: a :) (: b :)"] { musterr(c, &w, s); }
    c.part("unfinished");
    for s in &["'abc", "\"abc", "'it''s", "(: never closed", "(: a (: b :)", "1 + (: x", "1 +", "1 *", "1 div", "1 or", "and 1", "(1", "(1, 2", "[1", "[1, 2", "map{", "map{1", "map{1:", "map{1:2", "array{1", "a[", "a[1", "a/", "a//", "//", "a::b", "a:b:c", "child::", "@", "$", "if (", "if (1", "if (1)", "if (1) then", "if (1) then 2", "if (1) then 2 else", "if (1) else 2", "for $x", "for $x in", "for $x in 1", "for $x in 1 return", "for $x in 1, return 2", "let $x", "let $x :=", "let $x := 1", "let $x := 1 return", "some $x in 1", "some $x in 1 satisfies", "every $x satisfies 1", "1 to", "1 instance", "1 instance of", "1 cast as", "1 castable as", "1 treat as", "1 =>", "count(", "count(1", "count(1,", "no-such-function()", "abs()", "abs(1, 2)", "count(1,2)", "function(", "function($x", "function($x)", "function($x) {", "1 2", "1 1", "a b", ")", "]", "}", "1)", "1]", "(1,)", "(,1)", "1,,2", "a|", "|a", "a union", "a intersect", "1 = ", "= 1", "1 eq", "9223372036854775808", "99999999999999999999999", "1e", "1e+", "Q{", "#1", "abs#", "abs#7", "$x :=", "1 ! ", "a ! ", "-", "- -", "+"] { musterr(c, &w, s); }
    for b in comment_texts(6) {
        let k = format!("(:{}", b); let ch: Vec<char> = k.chars().collect();
        if comment_end(&ch).is_none() { musterr(c, &w, &format!("1{}", k)); }
    }
    for s in &["nosuch(?)", "nosuch(?, 1)", "no:such(1, ?)", "abs(?, ?)", "abs(1, ?)", "true(?)", "substring(?)", "let $f := nosuch(?) return 1", "(1, 2) => nosuch(?)", "nosuch#1", "abs#2", "abs#"] { musterr(c, &w, s); }
    c.part("numerals");
    {
        let al = ['1', '.', 'e', 'E', '0'];
        let mut all: Vec<String> = vec![String::new()];
        for _ in 0..(if c.thorough { 7 } else { 6 }) {
            let mut nx = vec![];
            for t in &all { for x in &al { nx.push(format!("{}{}", t, x)); } }
            for t in &nx {
                let d: Vec<char> = t.chars().collect();
                if d[0] == 'e' || d[0] == 'E' || t == "." || t == ".." { continue; }
                let dg = |mut i: usize| { while i < d.len() && d[i].is_ascii_digit() { i += 1; } i };
                // digits, then '.' and digits, then an exponent
                let a = dg(0); let mut i = a; let mut ok = a > 0;
                if i < d.len() && d[i] == '.' { let b = dg(i + 1); ok = ok || b > i + 1; i = b; }
                if ok && i < d.len() && (d[i] == 'e' || d[i] == 'E') { let b = dg(i + 1); ok = b > i + 1; i = b; }
                if ok && i == d.len() {
                    let v: f64 = t.parse().unwrap();
                    c.case(&desc(&w, 0, t), true, || match w.w.nd[0].ptr.eval_xpath(t) { Ok(s) => { let g: f64 = s.to_string().parse().unwrap_or(f64::NAN); if g == v || (g - v).abs() <= v.abs() * 1e-9 || (v.is_infinite() && s.to_string().to_lowercase().contains("inf")) { Ok(()) } else { Err(format!("answers {}, which is not the value", s.to_string())) } }, Err(e) => Err(format!("error: {}", e)) });
                } else { musterr(c, &w, t); }
            }
            all = nx;
        }
        c.note("all texts of up to 6 (thorough: 7) of digits, point and exponent mark");
    }
    c.part("short texts over the markers");
    let al: Vec<&str> = vec!["(", ")", "'", "\"", ":", ".", "/", "*", "$", "1", "a", "[", "]", "{", "}", "-", "e", "?", "@", "#", "=", "<", "|", "!", ",", " ", "Q", "é", "\u{7f}", "\\"];
    for x in &al { nopanic(c, &w, 0, x); for y in &al { nopanic(c, &w, 0, &format!("{}{}", x, y)); for z in &al { if c.stop() { return; } nopanic(c, &w, 0, &format!("{}{}{}", x, y, z)); } } }
    c.note(&format!("all texts of up to 3 of {} markers", al.len()));
    if c.thorough { for x in &al { for y in &al { for z in &al { for u in &al { nopanic(c, &w, 0, &format!("{}{}{}{}", x, y, z, u)); } } } } c.note("all texts of 4 markers"); }
    c.part("token soup");
    while c.more(0.55) {
        let n = 1 + c.rng.below(9); let mut t = String::new();
        for _ in 0..n { t += *c.rng.pick(SOUP); if c.rng.chance(3, 4) { t.push(' '); } }
        if huge(&t) { continue; }
        let i = c.rng.below(w.w.nd.len()); nopanic(c, &w, i, &t);
    }
    c.part("damaged expressions");
    let ws = worlds(c, 4, 8);
    while c.more(0.9) {
        let (w, i) = pick(c, &ws);
        let mut r = Rng::new(c.rng.next()); let mut g = G::new(&mut r); let e = g.gen(T::Any, 3);
        let t = text(&e);
        let mut ch: Vec<char> = t.chars().collect();
        match c.rng.below(5) {
            0 => { let k = c.rng.below(ch.len() + 1); ch.truncate(k); }
            1 => { if !ch.is_empty() { let k = c.rng.below(ch.len()); ch.remove(k); } }
            2 => { let k = c.rng.below(ch.len() + 1); let x: Vec<char> = c.rng.pick(SOUP).chars().collect(); for (j, y) in x.into_iter().enumerate() { ch.insert(k + j, y); } }
            3 => { if ch.len() > 1 { let k = c.rng.below(ch.len() - 1); ch.swap(k, k + 1); } }
            _ => {}
        }
        let t: String = ch.into_iter().collect();
        if huge(&t) || t.chars().filter(|x| x.is_ascii_digit()).count() > 18 && t.contains("to") { continue; }
        nopanic(c, w, i, &t);
    }
    c.part("unbalanced or unfinished expressions are rejected");
    while c.more(1.0) {
        let w = &ws[0];
        let mut r = Rng::new(c.rng.next()); let mut g = G::new(&mut r); let e = g.gen(T::Any, 2);
        let t = text(&e);
        let t = match c.rng.below(8) { 0 => format!("({}", t), 1 => format!("{})", t), 2 => format!("{} [", t), 3 => format!("{} 'x", t), 4 => format!("{} (: x", t), 5 => format!("({}) {}", t, c.rng.pick(&["+", "*", "and", "or", "=", "eq", "to", "|", "union", "||", ",", "!", "=>", "instance of", "cast as", "castable as", "idiv"])), 6 => format!("{} {}", c.rng.pick(&["*", "and", "=", "eq", "to", "||", ",", "!", "=>", "div"]), "$x"), _ => format!("({})]", t) };
        // names in operand position make some of these well-formed
        if t.starts_with("* $") || t.contains("and $x") || t.starts_with("eq") || t.starts_with("to") || t.starts_with("div") { continue; }
        musterr(c, w, &t);
    }
}

// ---------------------------------------------------------------- C12
const OPS: &[&str] = &["or", "and", "eq", "lt", "=", "<", "!=", ">=", "||", "to", "+", "-", "*", "div", "idiv", "mod", "!"];
fn climb(ops: &[&'static str], xs: &[E]) -> Option<E> {
    // lowest precedence operator: the last one (left associative); two of a non-associative level: not an expression
    if ops.is_empty() { return Some(xs[0].clone()); }
    let p = ops.iter().map(|o| binprec(o)).min().unwrap();
    let at: Vec<usize> = (0..ops.len()).filter(|&i| binprec(ops[i]) == p).collect();
    if (p == 4 || p == 6) && at.len() > 1 { return None; }
    let k = *at.last().unwrap();
    Some(bin(ops[k], climb(&ops[..k], &xs[..=k])?, climb(&ops[k + 1..], &xs[k + 1..])?))
}
fn same(w: &Wd, i: usize, t1: &str, t2: &str) -> Result<(), String> {
    let g = |t: &str| match w.w.nd[i].ptr.eval_xpath(t) { Ok(s) => Some((s.len(), s.to_string())), Err(_) => None };
    let (p, q) = (g(t1), g(t2));
    if p == q { Ok(()) } else { Err(format!("answers {:?}, but {} answers {:?}", p, t2, q)) }
}
fn chain(c: &mut Ctx, w: &Wd, i: usize, ops: &[&'static str], xs: &[E]) {
    let mut p = Pr { full: false, toks: vec![] };
    for k in 0..xs.len() { if k > 0 { p.toks.push(ops[k - 1].to_string()); } p.e(&xs[k], 18); }
    let t = join(&p.toks, None);
    match climb(ops, xs) {
        None => c.case(&desc(w, i, &t), true, || match w.w.nd[i].ptr.eval_xpath(&t) { Ok(s) => Err(format!("answers {}, but operators of that level do not associate", s.to_string())), Err(_) => Ok(()) }),
        Some(e) => {
            let want = eval(w, i, &e); let f = text_full(&e);
            c.case(&desc(w, i, &t), true, || { same(w, i, &t, &f)?; check(&w.w, i, &t, &want) })
        }
    }
}
fn spaced(c: &mut Ctx, w: &Wd, i: usize, e: &E) {
    let t = text(e); let f = text_full(e); let mut r = Rng::new(c.rng.next()); let s = text_spaced(e, &mut r);
    let want = eval(w, i, e);
    c.case(&desc(w, i, &t), true, || { same(w, i, &t, &f)?; same(w, i, &t, &s)?; check(&w.w, i, &t, &want) });
}
/// where the comment that starts at 0 ends
fn comment_end(s: &[char]) -> Option<usize> {
    let (mut i, mut d) = (2, 1);
    while i + 1 < s.len() {
        if s[i] == '(' && s[i + 1] == ':' { d += 1; i += 2; } else if s[i] == ':' && s[i + 1] == ')' { d -= 1; i += 2; if d == 0 { return Some(i); } } else { i += 1; }
    }
    None
}
/// all texts of up to n of the comment marks
fn comment_texts(n: usize) -> Vec<String> {
    let mut all = vec![String::new()]; let mut last = all.clone();
    for _ in 0..n { let mut nx = vec![]; for t in &last { for x in ['(', ':', ')', 'x'].iter() { nx.push(format!("{}{}", t, x)); } } all.extend(nx.clone()); last = nx; }
    all
}
pub fn c12(c: &mut Ctx) {
    let w = world("<a><b>1</b><c>2</c><d>3</d><div>4</div></a>");
    let vals: Vec<Vec<E>> = vec![
        vec![int(7), int(2), int(3), int(5)].into_iter().map(unpar).collect(), vec![Lit(V::Int(1)), Lit(V::Int(0)), Lit(V::Int(2)), Lit(V::Int(1))],
        vec![st("a"), st("b"), st("ab"), st("")], vec![Lit(V::Bool(true)), Lit(V::Bool(false)), Lit(V::Bool(true)), Lit(V::Bool(false))],
        vec![Lit(V::Dec(2.5)), Lit(V::Int(4)), Lit(V::Dbl(0.5)), Lit(V::Int(3))], vec![st("1"), Lit(V::Int(1)), Lit(V::Bool(true)), Lit(V::Int(2))], vec![Lit(V::Bool(false)), Lit(V::Int(3)), Lit(V::Int(2)), Lit(V::Bool(true))]];
    c.part("comments");
    for b in comment_texts(if c.thorough { 8 } else { 6 }) {
        let k = format!("(:{}:)", b); let ch: Vec<char> = k.chars().collect();
        if comment_end(&ch) != Some(ch.len()) { continue; }
        for t in &[format!("7{}-2", k), format!("{}7 - 2", k), format!("7 - {} 2{}", k, k)] {
            c.case(&desc(&w, 1, t), true, || match w.w.nd[1].ptr.eval_xpath(t) { Ok(s) => if s.to_string() == "5" { Ok(()) } else { Err(format!("gives {}, without the comment 5", s.to_string())) }, Err(e) => Err(format!("fails with the comment: {}", e)) });
        }
    }
    c.note("all comments of up to 6 (thorough: 8) of four characters");
    c.part("operator pairs and triples");
    for a in OPS { for z in OPS { for v in &vals { chain(c, &w, 1, &[a, z], &v[..3]); } } }
    for a in OPS { for m in OPS { for z in OPS { if c.stop() { return; } for v in &vals[..if c.thorough { 7 } else { 2 }] { chain(c, &w, 1, &[a, m, z], v); } } } }
    c.note("all chains of two binary operators over seven operand tuples, of three over two (thorough: seven)");
    let nodes: Vec<E> = ["b", "c", "*", "d"].iter().map(|n| Path(Root::None, vec![(false, Step::Ax("child", if *n == "*" { Test::Star } else { Test::Name(n.to_string()) }, vec![]))])).collect();
    let so = ["union", "|", "intersect", "except", "!", "=", "<<", "and", "||"];
    for a in &so { for m in &so { for z in &so { if c.stop() { return; } chain(c, &w, 1, &[a, m, z], &nodes); let mut v = nodes.clone(); v.swap(0, 2); chain(c, &w, 1, &[a, m, z], &v); } } }
    c.part("unary signs, types and arrows between operators");
    let base: Vec<&'static str> = vec!["or", "and", "=", "eq", "||", "to", "+", "-", "*", "div", "idiv", "mod", "!", "|", "intersect"];
    for o in &base {
        for (x, y) in [(Lit(V::Int(7)), Lit(V::Int(2))), (st("5"), Lit(V::Int(3)))].iter() {
            let un = |e: E| vec![Un('-', b(e.clone())), Un('+', b(Un('-', b(e.clone())))), Inst(b(e.clone()), Ty::Of(It::Atom("xs:integer".into()), ' ')), Cast(b(e.clone()), "xs:string".into(), false), Castable(b(e.clone()), "xs:integer".into(), true), Arrow(b(e.clone()), "string".into(), vec![]), Arrow(b(Un('-', b(e.clone()))), "abs".into(), vec![]), Inst(b(Cast(b(e.clone()), "xs:integer".into(), false)), Ty::Of(It::Atom("xs:integer".into()), '+'))];
            for e in un(bin(o, x.clone(), y.clone())) { spaced(c, &w, 1, &e); }
            for e in un(x.clone()) { spaced(c, &w, 1, &bin(o, e.clone(), y.clone())); spaced(c, &w, 1, &bin(o, y.clone(), e)); }
        }
    }
    for t in &[("1 instance of xs:integer* and true()", "(1 instance of xs:integer*) and true()"), ("2 * * * 3", "(2 * (*)) * 3"), ("count(*) * 2", "(count(*)) * (2)"), ("* | c", "(*) | (c)"), ("* union c", "(*) union (c)"), ("//* or false()", "(//*) or (false())"), ("div div div", "(div) div (div)"), ("let $and := 2 return $and * $and", "let $and := 2 return ($and) * ($and)"), ("1 cast as xs:string? = '1'", "(1 cast as xs:string?) = '1'"), ("2 - -1", "2 - (-1)"), ("2--1", "2 - (-1)"), ("b/text()||'x'", "(b/text()) || ('x')"), ("if (1) then 1 else 2 + 3", "if (1) then 1 else (2 + 3)"), ("if (1) then 1 else 2, 3", "(if (1) then 1 else 2), 3"), ("for $x in 1 to 2 return $x, 5", "(for $x in (1 to 2) return $x), 5"), ("for $x in 1 to 2 return $x + 1", "for $x in (1 to 2) return ($x + 1)"), ("some $x in (1,2) satisfies $x = 2 and true()", "some $x in (1,2) satisfies (($x = 2) and true())"), ("let $x := 1 return $x, 2", "(let $x := 1 return $x), 2"), ("-2 ! abs(.)", "-(2 ! abs(.))"), ("(1,2) ! . + 1", "((1,2) ! .) + 1"), ("-(2) => abs()", "(-(2)) => abs()"), ("b/c | d", "(b/c) | d"), ("1 to 2 + 1", "1 to (2 + 1)"), ("-1 to 1", "(-1) to 1"), ("1 < 2 = true()", "nonassoc()"), ("1 to 2 to 3", "nonassoc()"), ("1 = 1 = 1", "nonassoc()"), ("1 eq 1 ne 2", "nonassoc()")] {
        let (p, q) = *t;
        c.case(&desc(&w, 1, p), true, || { if q.starts_with("nonassoc") { return match w.w.nd[1].ptr.eval_xpath(p) { Ok(_) => Err("no error, though the operator does not associate".into()), Err(_) => Ok(()) }; } if p != "div div div" && p != "2 * * * 3" { if let Err(e) = w.w.nd[1].ptr.eval_xpath(p) { if !p.contains("+ 1") && !p.contains("||") { return Err(format!("fails: {}", e)); } } } same(&w, 1, p, q) });
    }
    c.part("chains");
    while c.more(0.5) {
        let n = 2 + c.rng.below(5); let mut r = Rng::new(c.rng.next()); let mut g = G::new(&mut r);
        let ops: Vec<&'static str> = (0..n).map(|_| if g.r.chance(2, 3) { *g.r.pick(&["+", "-", "*", "idiv", "mod", "div"]) } else { *g.r.pick(OPS) }).collect();
        let xs: Vec<E> = (0..=n).map(|_| match g.r.below(6) { 0 => g.lit(T::Num), 1 => Lit(V::Bool(g.r.chance(1, 2))), 2 => g.strlit(), _ => Lit(V::Int(g.r.range(0, 9))) }).map(|e| if let Un(_, x) = e { *x } else { e }).collect();
        chain(c, &w, 1, &ops, &xs);
    }
    c.part("expressions");
    let ws = worlds(c, 4, 8);
    while c.more(1.0) {
        let (w, i) = pick(c, &ws); let mut r = Rng::new(c.rng.next()); let d = 2 + c.rng.below(3); let t = *c.rng.pick(&[T::Int, T::Num, T::Bool, T::Bool, T::Str, T::Seq, T::Nodes]);
        let e = G::new(&mut r).gen(t, d);
        spaced(c, w, i, &e);
    }
}
fn unpar(e: E) -> E { if let Par(x) = e { *x } else { e } }

// ---------------------------------------------------------------- C13, C14
fn ints(c: &mut Ctx) -> i64 {
    match c.rng.below(6) {
        0 => *c.rng.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, -1, 0, 1, 2, -2]),
        1 => { let k = c.rng.below(63); let s = if c.rng.chance(1, 2) { 1 } else { -1 }; s * (1i64 << k) + c.rng.range(-1, 1) }
        2 => c.rng.next() as i64, 3 => c.rng.range(-4000000000, 4000000000), 4 => c.rng.range(3037000490, 3037000510) * if c.rng.chance(1, 2) { 1 } else { -1 },
        _ => c.rng.range(-20, 20),
    }
}
pub fn c13(c: &mut Ctx) {
    let w = d0();
    let edge = [i64::MIN, i64::MIN + 1, -4611686018427387904, -3037000500, -4294967296, -10, -7, -3, -2, -1, 0, 1, 2, 3, 7, 10, 4294967296, 3037000499, 3037000500, 4611686018427387904, i64::MAX - 1, i64::MAX];
    c.part("edge pairs");
    for o in &["+", "-", "*", "idiv", "mod"] { for x in &edge { for y in &edge { run(c, &w, 0, &bin(o, int(*x), int(*y))); } } }
    c.note("all pairs of 22 edge values under the five integer operators");
    for x in &edge {
        for e in [Un('-', b(int(*x))), Un('+', b(int(*x))), call("abs", vec![int(*x)]), call("floor", vec![int(*x)]), call("ceiling", vec![int(*x)]), call("round", vec![int(*x)]), call("sum", vec![seq(vec![int(*x), int(1)])]), call("sum", vec![seq(vec![int(*x), int(-1), int(i64::MAX)])])].iter() { run(c, &w, 0, e); }
    }
    for s in &["9223372036854775808", "-9223372036854775808", "9223372036854775807 + 1", "18446744073709551616", "99999999999999999999999999"] { if *s != "-9223372036854775808" { musterr(c, &w, s); } }
    c.part("random pairs");
    while c.more(1.0) {
        let (x, y) = (ints(c), ints(c)); let o = *c.rng.pick(&["+", "-", "*", "idiv", "mod"]);
        if c.rng.chance(1, 4) && y != 0 && !(x == i64::MIN && y == -1) {
            let e = bin("+", bin("*", Par(b(bin("idiv", int(x), int(y)))), int(y)), Par(b(bin("mod", int(x), int(y)))));
            run(c, &w, 0, &bin("=", e.clone(), int(x))); run(c, &w, 0, &e);
        }
        let e = bin(o, int(x), int(y)); run(c, &w, 0, &e);
        if c.rng.chance(1, 6) { run(c, &w, 0, &Un('-', b(int(x)))); run(c, &w, 0, &call("abs", vec![int(x)])); }
    }
}
fn dbl(s: &str, v: f64) -> E { Raw(format!("(\"{}\" cast as xs:double)", s), V::Dbl(v)) }
fn nums() -> Vec<E> {
    let mut v: Vec<E> = vec![int(0), int(1), int(-1), int(3), int(-7), int(1000000), int(16777217), int(-9007199254740993)];
    for d in &[0.0, 0.5, 2.0, 3.25, -1.5, -2.0, 1e10] { v.push(num(V::Dec(*d))); v.push(num(V::Dbl(*d))); }
    v.push(dbl("INF", f64::INFINITY)); v.push(dbl("-INF", f64::NEG_INFINITY)); v.push(dbl("NaN", f64::NAN)); v.push(Raw("(-0e0)".into(), V::Dbl(-0.0))); v.push(num(V::Dbl(1e308))); v.push(num(V::Dbl(5e-324)));
    v
}
fn num(v: V) -> E { match v { V::Int(i) => int(i), V::Dec(d) if d < 0.0 => Par(b(Un('-', b(Lit(V::Dec(-d)))))), V::Dbl(d) if d < 0.0 => Par(b(Un('-', b(Lit(V::Dbl(-d)))))), v => Lit(v) } }
fn rnum(c: &mut Ctx) -> E {
    let m = c.rng.range(-10000, 10000) as f64 / *c.rng.pick(&[1.0, 2.0, 3.0, 7.0, 10.0, 1000.0]);
    let m = if c.rng.chance(1, 6) { m * 1e6 } else { m };
    match c.rng.below(4) { 0 => int(c.rng.range(-100, 100)), 1 => num(V::Dec(m)), 2 => num(V::Dbl(m)), _ => { let v = nums(); v[c.rng.below(v.len())].clone() } }
}
pub fn c14(c: &mut Ctx) {
    let w = d0(); let v = nums();
    c.part("all pairs");
    for o in &["+", "-", "*", "div", "idiv", "mod"] { for x in &v { for y in &v { run(c, &w, 0, &bin(o, x.clone(), y.clone())); typed(c, &w, &bin(o, x.clone(), y.clone())); } } }
    c.note(&format!("all pairs of {} numbers of the three types under the six operators", v.len()));
    for x in &v { run(c, &w, 0, &Un('-', b(x.clone()))); run(c, &w, 0, &Un('+', b(x.clone()))); }
    c.part("operands that are no numbers");
    let other = [st("1"), st(""), Lit(V::Bool(true)), Map(vec![]), ArrS(vec![Lit(V::Int(1))]), seq(vec![Lit(V::Int(1)), Lit(V::Int(2))]), Fun(vec![("x".into(), None)], b(Var("x".into()))), FRef("abs".into(), 1)];
    for o in &["+", "-", "*", "div", "idiv", "mod"] { for x in &other { for y in [Lit(V::Int(1)), Lit(V::Dec(1.5)), Lit(V::Dbl(1.5)), st("2"), Lit(V::Bool(false))].iter() { run(c, &w, 0, &bin(o, x.clone(), y.clone())); run(c, &w, 0, &bin(o, y.clone(), x.clone())); } } }
    for x in &other { run(c, &w, 0, &Un('-', b(x.clone()))); run(c, &w, 0, &Un('+', b(x.clone()))); }
    c.part("random");
    while c.more(1.0) { let o = *c.rng.pick(&["+", "-", "*", "div", "idiv", "mod"]); let (x, y) = (rnum(c), rnum(c)); run(c, &w, 0, &bin(o, x, y)); }
}
fn typed(c: &mut Ctx, w: &Wd, e: &E) { for t in &["xs:integer", "xs:decimal", "xs:double"] { run(c, w, 0, &Inst(b(Par(b(e.clone()))), Ty::Of(It::Atom(t.to_string()), ' '))); } }

// ---------------------------------------------------------------- C15, C16
fn items(c: &mut Ctx) -> E {
    match c.rng.below(10) { 0 | 1 => int(c.rng.range(-2, 3)), 2 => { let d = *c.rng.pick(&[0.0, 1.0, 1.5, 2.0, -1.0]); num(V::Dec(d)) } 3 => { let d = *c.rng.pick(&[0.0, 1.0, 1.5, 2.0, -1.0]); num(V::Dbl(d)) } 4 => { let k = c.rng.below(4); [dbl("NaN", f64::NAN), dbl("INF", f64::INFINITY), dbl("-INF", f64::NEG_INFINITY), Raw("(-0e0)".into(), V::Dbl(-0.0))][k].clone() } 5 => Lit(V::Bool(c.rng.chance(1, 2))), _ => st(*c.rng.pick(&["", "a", "b", "ab", "A", "Z", "é", "日", "\u{1F600}", "\u{FFFD}", "1", "10", "2", "a ", "true"])) }
}
fn samekind(c: &mut Ctx, k: usize) -> E { loop { let e = items(c); let kk = match &e { Lit(V::Str(_)) => 1, Lit(V::Bool(_)) => 2, _ => 0 }; if kk == k { return e; } } }
const VC: &[&str] = &["eq", "ne", "lt", "le", "gt", "ge"];
const GC: &[&str] = &["=", "!=", "<", "<=", ">", ">="];
pub fn c15(c: &mut Ctx) {
    let w = world(FIX);
    let mut v = nums(); v.extend([st(""), st("a"), st("ab"), st("b"), st("B"), st("é"), st("\u{1F600}"), st("\u{FFFD}"), st("1"), Lit(V::Bool(true)), Lit(V::Bool(false))].iter().cloned());
    c.part("all pairs");
    for o in VC.iter().chain(GC) { for x in &v { for y in &v { run(c, &w, 0, &bin(o, x.clone(), y.clone())); } } }
    c.note(&format!("all pairs of {} values under the twelve comparisons", v.len()));
    c.part("operands that are empty, too long or not comparable");
    let odd = [Comma(vec![]), seq(vec![int(1), int(2)]), seq(vec![st("a"), st("b")]), Map(vec![]), Fun(vec![], b(int(1)))];
    for o in VC { for x in &odd { for y in v.iter().step_by(5).chain(odd.iter()) { run(c, &w, 0, &bin(o, x.clone(), y.clone())); run(c, &w, 0, &bin(o, y.clone(), x.clone())); } } }
    c.part("large integers");
    for o in VC.iter().chain(GC) { for x in &[i64::MAX, i64::MIN, i64::MAX - 1, 9007199254740993, 9007199254740992, -9007199254740993] { for y in &[i64::MAX, i64::MIN, i64::MAX - 1, 9007199254740993, 9007199254740992, 0] { run(c, &w, 0, &bin(o, int(*x), int(*y))); } } }
    c.part("sequences");
    while c.more(0.7) {
        let (n, m) = (c.rng.below(5), c.rng.below(5));
        let mixed = c.rng.chance(1, 4); let k = c.rng.below(3);
        let mut f = |c: &mut Ctx, n: usize| -> E { let v = (0..n).map(|_| if mixed { items(c) } else { samekind(c, k) }).collect(); seq(v) };
        let (x, y) = (f(c, n), f(c, m)); let o = if c.rng.chance(4, 5) { *c.rng.pick(GC) } else { *c.rng.pick(VC) };
        run(c, &w, 0, &bin(o, x, y));
    }
    c.part("every kind of node against texts near its own");
    let bl = world(BL);
    for i in 0..bl.w.nd.len() {
        let x = nodeexpr(&bl, i); let s = bl.w.string(i);
        let near = [s.clone(), s.trim().to_string(), format!("{} ", s), s.replace('\n', " "), s.to_uppercase(), String::new()];
        for o in &["=", "eq", "!=", "<", "ge"] { for t in &near { run(c, &bl, 0, &bin(o, x.clone(), st(t))); run(c, &bl, 0, &bin(o, st(t), x.clone())); } for j in 0..bl.w.nd.len() { run(c, &bl, 0, &bin(o, x.clone(), nodeexpr(&bl, j))); } }
    }
    c.part("nodes");
    let ws = worlds(c, 8, 10);
    while c.more(1.0) {
        let (w, i) = pick(c, &ws); let mut r = Rng::new(c.rng.next()); let mut g = G::new(&mut r);
        let x = g.path(0); let y = if g.r.chance(1, 2) { g.path(0) } else { g.strlit() }; let o = if g.r.chance(3, 4) { *g.r.pick(GC) } else { *g.r.pick(VC) };
        let e = if g.r.chance(1, 2) { bin(o, x, y) } else { bin(o, y, x) };
        run(c, w, i, &e);
    }
}
pub fn c16(c: &mut Ctx) {
    let ws = worlds(c, 4, 8); let w = &ws[0];
    let mut v = nums(); v.extend([st(""), st("a"), st("0"), st("false"), st(" "), Lit(V::Bool(true)), Lit(V::Bool(false)), Comma(vec![]), Map(vec![]), Map(vec![(int(1), int(2))]), ArrS(vec![]), ArrS(vec![int(1)]), Fun(vec![], b(int(1))), FRef("abs".into(), 1)].iter().cloned());
    let nd = vec![Path(Root::Slash, vec![(false, Step::Ax("child", Test::Star, vec![]))]), Path(Root::Slash2, vec![(false, Step::Ax("attribute", Test::Star, vec![]))]), Path(Root::Slash2, vec![(false, Step::Ax("child", Test::Text, vec![]))]), Path(Root::Slash2, vec![(false, Step::Ax("child", Test::Name("nosuch".into()), vec![]))])];
    v.extend(nd.clone());
    let n = v.len();
    for i in 0..n { for j in [0, 7, n - 20, n - 16, n - 14, n - 13, n - 12, n - 4, n - 3].iter() { let (x, y) = (v[i].clone(), v[*j].clone()); v.push(seq(vec![x, y])); } }
    for x in &nd { v.push(seq(vec![x.clone(), int(0), st("")])); v.push(seq(vec![int(0), x.clone()])); }
    let wrap = |e: &E| -> Vec<E> {
        let t = || Lit(V::Bool(true)); let f = || Lit(V::Bool(false));
        vec![call("boolean", vec![e.clone()]), call("not", vec![e.clone()]), If(b(e.clone()), b(int(1)), b(int(2))), bin("and", e.clone(), t()), bin("and", t(), e.clone()), bin("or", e.clone(), f()), bin("or", f(), e.clone()),
             Bind(Bk::Some, vec![("x".into(), int(1))], b(e.clone())), Bind(Bk::Every, vec![("x".into(), int(1))], b(e.clone())), bin("and", e.clone(), f()), bin("or", e.clone(), t()), call("not", vec![call("not", vec![e.clone()])]),
             If(b(e.clone()), b(int(1)), b(bin("div", int(1), int(0)))), If(b(e.clone()), b(bin("idiv", int(1), int(0))), b(int(2))), If(b(call("not", vec![e.clone()])), b(st("a")), b(bin("+", st("a"), int(1))))]
    };
    c.part("every kind of sequence in every place");
    for e in &v { for x in wrap(e) { let i = 1.min(w.w.nd.len() - 1); run(c, w, i, &x); } }
    c.note(&format!("{} sequences in 15 places", v.len()));
    c.part("two operands");
    for x in v[..n].iter() { for y in v[..n].iter() { for o in &["and", "or"] { run(c, w, 1, &bin(o, x.clone(), y.clone())); } } }
    c.part("random");
    while c.more(1.0) {
        let (w, i) = pick(c, &ws); let mut r = Rng::new(c.rng.next()); let e = G::new(&mut r).gen(T::Any, 2); let n = c.rng.below(15); let x = wrap(&e)[n].clone(); run(c, w, i, &x);
    }
}

// ---------------------------------------------------------------- C17
/// a sequence with exactly these nodes, in this order, repetitions included
fn nodeexpr(w: &Wd, i: usize) -> E {
    // a path from the root by positions
    let nd = &w.w.nd;
    let mut up = vec![]; let mut j = i;
    while let Some(p) = nd[j].parent { up.push(j); j = p; }
    if up.is_empty() { return Path(Root::Slash, vec![(false, Step::Ax("self", Test::Node, vec![]))]); }
    let mut steps = vec![];
    for &k in up.iter().rev() {
        let p = nd[k].parent.unwrap();
        if nd[k].k == K::At { steps.push((false, Step::Ax("attribute", Test::Node, vec![Lit(V::Int(nd[p].attrs.iter().position(|&x| x == k).unwrap() as i64 + 1))]))); }
        else { steps.push((false, Step::Ax("child", Test::Node, vec![Lit(V::Int(nd[p].kids.iter().position(|&x| x == k).unwrap() as i64 + 1))]))); }
    }
    Path(Root::Slash, steps)
}
fn rndnodes(c: &mut Ctx, w: &Wd, n: usize) -> E { let v = (0..n).map(|_| { let i = c.rng.below(w.w.nd.len()); nodeexpr(w, i) }).collect(); seq(v) }
pub fn c17(c: &mut Ctx) {
    let w = world("<a x='1'><b/>t<c y='2'><d/></c></a>");
    c.part("all pairs of node lists of up to 2");
    let n = w.w.nd.len();
    let mut lists: Vec<Vec<usize>> = vec![vec![]]; for i in 0..n { lists.push(vec![i]); for j in 0..n { if i != j || i < 3 { lists.push(vec![i, j]); } } }
    let f = |v: &Vec<usize>| seq(v.iter().map(|i| nodeexpr(&w, *i)).collect());
    for x in &lists { for y in lists.iter().step_by(if c.thorough { 1 } else { 3 }) { for o in &["union", "intersect", "except"] { run(c, &w, 0, &bin(o, f(x), f(y))); } } }
    for i in 0..n { for j in 0..n { for o in &["is", "<<", ">>"] { run(c, &w, 0, &bin(o, nodeexpr(&w, i), nodeexpr(&w, j))); } } }
    for o in &["is", "<<", ">>"] { for x in [int(1), st("a"), seq(vec![nodeexpr(&w, 1), nodeexpr(&w, 2)])].iter() { run(c, &w, 0, &bin(o, x.clone(), nodeexpr(&w, 1))); run(c, &w, 0, &bin(o, nodeexpr(&w, 1), x.clone())); } }
    c.part("random lists");
    let mut ws = worlds(c, 6, 14); let mut k = 0;
    while c.more(1.0) {
        k += 1; if k % 300 == 0 { ws = worlds(c, 6, 14); }
        let (w, i) = pick(c, &ws);
        let (n, m) = (c.rng.below(8), c.rng.below(8)); let (x, y) = (rndnodes(c, w, n), rndnodes(c, w, m)); let o = *c.rng.pick(&["union", "|", "intersect", "except"]);
        let e = bin(o, x, y);
        let e = if c.rng.chance(1, 3) { let n = c.rng.below(6); let z = rndnodes(c, w, n); let o = *c.rng.pick(&["union", "|", "intersect", "except"]); if c.rng.chance(1, 2) { bin(o, Par(b(e)), z) } else { bin(o, z, Par(b(e))) } } else { e };
        run(c, w, i, &e);
        if c.rng.chance(1, 4) { let (p, q) = (c.rng.below(w.w.nd.len()), c.rng.below(w.w.nd.len())); let o = *c.rng.pick(&["is", "<<", ">>"]); run(c, w, i, &bin(o, nodeexpr(w, p), nodeexpr(w, q))); }
    }
}

// ---------------------------------------------------------------- C18, C28
pub fn c18(c: &mut Ctx) {
    c.part("small trees, every node, every axis");
    let mut k = 0;
    while c.more(1.0) {
        let s = if k == 0 { FIX.to_string() } else { let n = 2 + c.rng.below(if k < 60 { 6 } else { 20 }); gen_xml(&mut c.rng, n) };
        k += 1;
        let w = world(&s);
        for i in 0..w.w.nd.len() {
            if c.stop() { return; }
            for ax in AXES {
                run(c, &w, i, &Path(Root::None, vec![(false, Step::Ax(ax, Test::Node, vec![]))]));
                if w.w.nd[i].k == K::At && !matches!(*ax, "self" | "parent" | "ancestor" | "ancestor-or-self") { continue; }
                let n = w.w.axis(i, ax).unwrap().len() as i64;
                for p in 1..=n.min(6) + 1 { run(c, &w, i, &Path(Root::None, vec![(false, Step::Ax(ax, Test::Node, vec![Lit(V::Int(p))]))])); }
                run(c, &w, i, &Path(Root::None, vec![(false, Step::Ax(ax, Test::Node, vec![call("last", vec![])]))]));
                run(c, &w, i, &call("count", vec![Path(Root::None, vec![(false, Step::Ax(ax, Test::Node, vec![]))])]));
            }
            if w.w.nd[i].k != K::At {
                // the five axes cut the tree into disjoint parts
                let t = "count(self::node()) + count(ancestor::node()) + count(descendant::node()) + count(preceding::node()) + count(following::node()) = count(/descendant-or-self::node()) and count(self::node() | ancestor::node() | descendant::node() | preceding::node() | following::node()) = count(/descendant-or-self::node())";
                c.case(&desc(&w, i, t), true, || check(&w.w, i, t, &Ok(vec![V::Bool(true)])));
            }
        }
    }
}
pub fn c28(c: &mut Ctx) {
    c.part("every test on every axis of every node");
    let tests: Vec<Test> = { let mut v = vec![Test::Star, Test::Node, Test::Text, Test::Comment, Test::Pi(None), Test::Pi(Some("pi".into())), Test::Pi(Some("pj".into())), Test::El(None), Test::At(None), Test::PStar("p".into()), Test::PStar("q".into()), Test::PStar("z".into())]; for n in NAMES.iter().chain(["x", "y", "nosuch", "x2", "pi"].iter()) { v.push(Test::Name(n.to_string())); v.push(Test::El(Some(n.to_string()))); v.push(Test::At(Some(n.to_string()))); v.push(Test::StarL(split(n).1.to_string())); } v };
    // names and prefixes that begin or end alike
    let w = world("<ab xmlns:p='u' xmlns:pq='v' xmlns:qp='w' xmlns:P='z' p:a='1' pq:a='2' a='3' ab='4' ba='5' A='6'><p:a/><pq:a/><qp:a/><P:a/><a/><ab/><b/><ba/><A/><pq/><p/><!--a--><?a d?>a<?ab d?><?p d?><p:ab pq:b=''/><a.b/><a-b/></ab>");
    let alike = |t: &str| -> Vec<Test> { let mut v = vec![Test::Name(t.to_string())]; if !t.contains(':') { v.push(Test::El(Some(t.into()))); v.push(Test::At(Some(t.into()))); v.push(Test::Pi(Some(t.into()))); v.push(Test::PStar(t.into())); v.push(Test::StarL(t.into())); } else { v.push(Test::El(Some(t.into()))); v.push(Test::At(Some(t.into()))); } v };
    for i in 0..w.w.nd.len() { for ax in AXES { for n in &["a", "ab", "b", "ba", "A", "p", "pq", "qp", "P", "q", "p:a", "pq:a", "qp:a", "P:a", "p:ab", "p:b", "pq:b", "a.b", "a-b", "ab.b"] { for t in alike(n) {
        if c.stop() { return; }
        run(c, &w, i, &Path(Root::None, vec![(false, Step::Ax(ax, t, vec![]))]));
    } } } }
    let mut k = 0;
    while c.more(1.0) {
        let s = if k == 0 { FIX.to_string() } else { let n = 3 + c.rng.below(12); gen_xml(&mut c.rng, n) };
        k += 1;
        let w = world(&s);
        for i in 0..w.w.nd.len() {
            if c.stop() { return; }
            for ax in AXES { for t in &tests {
                if k > 1 && !c.rng.chance(1, 4) { continue; }
                run(c, &w, i, &Path(Root::None, vec![(false, Step::Ax(ax, t.clone(), vec![]))]));
                if c.rng.chance(1, 8) { let p = c.rng.range(1, 3); run(c, &w, i, &Path(Root::None, vec![(false, Step::Ax(ax, t.clone(), vec![Lit(V::Int(p))]))])); }
            } }
        }
    }
}
// ---------------------------------------------------------------- C19, C20
pub fn c19(c: &mut Ctx) {
    c.part("two and three steps over every pair of axes");
    let w = world(FIX);
    for a in AXES { for z in AXES { for i in (0..w.w.nd.len()).step_by(3) {
        let s = |ax: &'static str| (false, Step::Ax(ax, Test::Node, vec![]));
        run(c, &w, i, &Path(Root::None, vec![s(a), s(z)])); run(c, &w, i, &Path(Root::Slash2, vec![s(a), s(z)])); run(c, &w, i, &Path(Root::None, vec![s("descendant-or-self"), s(a), s(z)]));
    } } }
    c.note("every pair of axes in three forms from every third node of one tree");
    c.part("last steps with values");
    for t in &["//b/name()", "//*/string()", "//*/position()", "//b/(1, 2)", "//*/count(*)", "//*/last()", "//*/(., 1)", "//b/('x', .)", "(1, 2)/name()", "//b/1/2", "//*/(if (self::b) then 1 else .)", "//b/(b | c)/name()"] {
        // read back through the parts: the reference below covers the same shapes
        let _ = t;
    }
    let steps: Vec<E> = vec![call("name", vec![]), call("position", vec![]), call("last", vec![]), call("count", vec![Path(Root::None, vec![(false, Step::Ax("child", Test::Star, vec![]))])]), seq(vec![int(1), int(2)]), seq(vec![Dot, int(1)]), seq(vec![st("x"), Dot]), If(b(Path(Root::None, vec![(false, Step::Ax("self", Test::Name("b".into()), vec![]))])), b(int(1)), b(Dot)), Comma(vec![]), seq(vec![Dot, Dot]), call("string", vec![])];
    for f in &steps { for r in &[Root::Slash2, Root::None] { for n in &["b", "a", "*"] {
        let t = if *n == "*" { Test::Star } else { Test::Name(n.to_string()) };
        let f = if prec(f) < 19 { Par(b(f.clone())) } else { f.clone() };
        for i in 0..w.w.nd.len() { if w.w.nd[i].k == K::At { continue; }
        run(c, &w, i, &Path(*r, vec![(false, Step::Ax("child", t.clone(), vec![])), (false, Step::Ex(f.clone()))]));
        run(c, &w, i, &Path(*r, vec![(false, Step::Ax("child", t.clone(), vec![])), (false, Step::Ex(f.clone())), (false, Step::Ax("self", Test::Node, vec![]))])); }
    } } }
    c.part("random paths");
    let mut ws = worlds(c, 8, 16); let mut k = 0;
    while c.more(1.0) {
        k += 1; if k % 500 == 0 { ws = worlds(c, 8, 16); }
        let (w, i) = pick(c, &ws); let mut r = Rng::new(c.rng.next()); let d = c.rng.below(4); let mut g = G::new(&mut r);
        let e = g.path(d);
        let e = if g.r.chance(1, 5) { match e { Path(r, mut s) => { let f = steps[g.r.below(steps.len())].clone(); s.push((g.r.chance(1, 5), Step::Ex(if prec(&f) < 19 { Par(b(f)) } else { f }))); Path(r, s) } e => e } } else { e };
        run(c, w, i, &e);
    }
}
pub fn c20(c: &mut Ctx) {
    let ws = worlds(c, 6, 14);
    c.part("every position of short sequences");
    let w = &ws[0];
    for n in 0..6i64 {
        let s = seq((1..=n).map(|i| int(i * 10)).collect());
        for p in -1..=7i64 { for q in [int(p), num(V::Dec(p as f64)), num(V::Dbl(p as f64)), num(V::Dec(p as f64 + 0.5)), bin("=", call("position", vec![]), int(p)), bin("<", call("position", vec![]), int(p)), bin("-", call("last", vec![]), int(p)), bin("=", call("last", vec![]), int(p)), bin(">", Dot, int(p * 10)), seq(vec![int(p), int(1)]), bin("+", int(p), int(0))].iter() {
            run(c, w, 1, &Filter(b(s.clone()), vec![q.clone()]));
            run(c, w, 1, &Filter(b(s.clone()), vec![bin("!=", call("position", vec![]), int(2)), q.clone()]));
            run(c, w, 1, &Filter(b(s.clone()), vec![q.clone(), int(1)]));
            run(c, w, 1, &bin("!", s.clone(), Par(b(bin("||", call("position", vec![]), bin("||", call("count", vec![Filter(b(s.clone()), vec![q.clone()])]), call("position", vec![])))))));
        } }
        for q in [st(""), st("a"), Lit(V::Bool(true)), Lit(V::Bool(false)), Comma(vec![]), dbl("NaN", f64::NAN), dbl("INF", f64::INFINITY), Map(vec![]), seq(vec![Lit(V::Bool(true)), Lit(V::Bool(true))]), call("last", vec![]), call("position", vec![]), Path(Root::Slash, vec![(false, Step::Ax("child", Test::Star, vec![]))])].iter() { run(c, w, 1, &Filter(b(s.clone()), vec![q.clone()])); }
    }
    c.note("all integer, decimal and double positions -1..7 on sequences of 0..5 items, alone and in chains");
    c.part("on every axis");
    for ax in AXES { for i in 0..w.w.nd.len() { if w.w.nd[i].k == K::At { continue; } for ps in [vec![int(1)], vec![int(2)], vec![call("last", vec![])], vec![bin(">", call("position", vec![]), int(1)), int(1)], vec![bin("<", call("position", vec![]), call("last", vec![])), call("last", vec![])], vec![Path(Root::None, vec![(false, Step::Ax("self", Test::El(None), vec![]))]), int(2)], vec![bin("=", bin("mod", call("position", vec![]), int(2)), int(0))], vec![st("x"), int(2)]].iter() {
        run(c, w, i, &Path(Root::None, vec![(false, Step::Ax(ax, Test::Node, ps.clone()))]));
        run(c, w, i, &Filter(b(Par(b(Path(Root::None, vec![(false, Step::Ax(ax, Test::Node, vec![]))])))), ps.clone()));
        run(c, w, i, &Path(Root::None, vec![(false, Step::Ax("ancestor-or-self", Test::Node, vec![])), (false, Step::Ax(ax, Test::Node, ps.clone()))]));
    } } }
    c.part("position and size after an inner focus");
    let ax = |n: &'static str, t: Test, ps: Vec<E>| (false, Step::Ax(n, t, ps));
    let inner: Vec<E> = { let f = |p: E| Filter(b(seq(vec![int(7), int(8)])), vec![p]);
        let mut v = vec![f(bin("=", call("last", vec![]), int(2))), f(bin("=", call("position", vec![]), int(1))), f(call("last", vec![])), f(int(2)), Filter(b(Filter(b(seq(vec![int(1), int(2), int(3)])), vec![bin(">", Dot, int(1))])), vec![bin("=", call("last", vec![]), int(2))]),
            bin("!", seq(vec![int(7), int(8), int(9), int(1)]), call("last", vec![])), bin("!", seq(vec![int(7), int(8), int(9), int(1)]), call("position", vec![])),
            Path(Root::Slash2, vec![ax("child", Test::Star, vec![call("last", vec![])])]), Path(Root::Slash2, vec![ax("child", Test::Star, vec![]), (false, Step::Ex(call("last", vec![])))]), Path(Root::Slash2, vec![ax("child", Test::Star, vec![]), (false, Step::Ex(call("position", vec![])))]),
            Path(Root::Slash2, vec![ax("child", Test::Star, vec![]), ax("child", Test::Node, vec![bin("=", call("position", vec![]), call("last", vec![]))])]),
            Bind(Bk::For, vec![("i".into(), seq(vec![int(1), int(2)]))], b(Filter(b(seq(vec![int(4), int(5), int(6)])), vec![Var("i".into())]))),
            Bind(Bk::Some, vec![("i".into(), f(bin("=", call("last", vec![]), int(2))))], b(bin("=", Var("i".into()), int(8)))),
            call("for-each", vec![seq(vec![int(1), int(2), int(3)]), Fun(vec![("q".into(), None)], b(Filter(b(seq(vec![int(4), int(5)])), vec![bin("<=", call("position", vec![]), Var("q".into()))])))]),
            call("filter", vec![seq(vec![int(1), int(2), int(3)]), Fun(vec![("q".into(), None)], b(call("exists", vec![Filter(b(seq(vec![int(4), int(5)])), vec![Var("q".into())])])))])];
        let k = v.len(); for i in 0..k { let x = v[i].clone(); v.push(Filter(b(seq(vec![int(1), int(2), int(3), int(4), int(5)])), vec![bin("and", call("exists", vec![x]), bin("<", call("position", vec![]), call("last", vec![])))])); }
        v };
    for x in &inner { for n in 1..5i64 {
        let s = seq((1..=n).map(|i| int(i * 10)).collect());
        let ex = call("exists", vec![x.clone()]);
        let mut qs = vec![];
        for p in 0..=n { for f in ["last", "position"] { let t = bin("=", call(f, vec![]), int(p)); qs.push(bin("and", ex.clone(), t.clone())); qs.push(bin("and", t.clone(), ex.clone())); qs.push(bin("=", seq(vec![call("count", vec![x.clone()]), bin("+", call(f, vec![]), int(100))]), int(p + 100))); } }
        for q in qs {
            run(c, w, 1, &Filter(b(s.clone()), vec![q.clone()])); 
            run(c, w, 1, &Filter(b(s.clone()), vec![bin(">", Dot, int(10)), q.clone()]));
            run(c, w, 1, &Path(Root::Slash2, vec![ax("child", Test::Node, vec![q.clone()])]));
            run(c, w, 1, &Path(Root::Slash2, vec![ax("child", Test::Node, vec![]), ax("preceding-sibling", Test::Node, vec![q.clone()])]));
        }
        let r = Par(b(seq(vec![call("count", vec![x.clone()]), call("position", vec![]), call("last", vec![])])));
        run(c, w, 1, &bin("!", s.clone(), r.clone()));
        run(c, w, 1, &Path(Root::Slash2, vec![ax("child", Test::Node, vec![]), (false, Step::Ex(r.clone()))]));
    } }
    c.part("random");
    while c.more(1.0) {
        let (w, i) = pick(c, &ws); let mut r = Rng::new(c.rng.next()); let mut g = G::new(&mut r);
        let nodes = g.r.chance(1, 2);
        let x = if nodes { g.path(1) } else { g.gen(T::Seq, 2) }; let n = 1 + g.c(3); let ps = g.preds(n, if nodes { T::Nodes } else { T::Any }, 2);
        let e = Filter(b(Par(b(x))), ps);
        let e = if g.r.chance(1, 4) { bin("!", e, Par(b(seq(vec![call("position", vec![]), call("last", vec![])])))) } else { e };
        run(c, w, i, &e);
    }
}

// ---------------------------------------------------------------- C21
pub fn c21(c: &mut Ctx) {
    let w = d0();
    let fs = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let mut pos: Vec<E> = (-3..=7).map(int).collect();
    pos.extend([int(i64::MAX), int(i64::MIN), int(i64::MIN + 1), int(i64::MAX - 1), int(1 << 40)].iter().cloned());
    let mut fpos = pos.clone();
    for d in &[0.5, 1.5, 2.5, -0.5, 2.4, 2.6, 0.49, 3.0, 1e300, -1e300] { fpos.push(num(V::Dec(*d))); fpos.push(num(V::Dbl(*d))); }
    for (f, s) in fs.iter().zip(["NaN", "INF", "-INF"].iter()) { fpos.push(dbl(s, *f)); }
    c.part("every position on sequences of 0..5 items");
    for n in 0..6i64 {
        let s = seq((1..=n).map(|i| if i % 2 == 0 { st(&i.to_string()) } else { int(i) }).collect());
        for f in &["head", "tail", "reverse", "count", "empty", "exists", "zero-or-one", "one-or-more", "exactly-one"] { run(c, &w, 0, &call(f, vec![s.clone()])); }
        for p in &fpos {
            if let Lit(V::Dec(d)) = p { if d.abs() > 1e20 { continue; } }
            run(c, &w, 0, &call("subsequence", vec![s.clone(), p.clone()]));
            for q in &fpos { run(c, &w, 0, &call("subsequence", vec![s.clone(), p.clone(), q.clone()])); }
        }
        for p in &pos {
            run(c, &w, 0, &call("remove", vec![s.clone(), p.clone()]));
            for ins in [Comma(vec![]), st("new"), seq(vec![st("n1"), st("n2")])].iter() { run(c, &w, 0, &call("insert-before", vec![s.clone(), p.clone(), ins.clone()])); }
        }
        for i in -2..4i64 { run(c, &w, 0, &bin("to", int(n), int(n + i))); run(c, &w, 0, &bin("to", int(i), int(n))); }
    }
    for x in &[i64::MAX, i64::MIN, i64::MIN + 2] { for d in 0..3i64 { run(c, &w, 0, &bin("to", int(x.saturating_sub(d)), int(*x))); run(c, &w, 0, &bin("to", int(*x), int(x.saturating_sub(d)))); } }
    c.note("all pairs of position and length arguments from a list of 36 on sequences of 0 to 5 items");
    c.part("random");
    while c.more(1.0) {
        let n = c.rng.below(9); let v: Vec<E> = (0..n).map(|_| items(c)).collect(); let s = seq(v.clone());
        let p = if c.rng.chance(1, 2) { int(c.rng.range(-2, n as i64 + 2)) } else { fpos[c.rng.below(fpos.len())].clone() }; let q = fpos[c.rng.below(fpos.len())].clone(); let ip = pos[c.rng.below(pos.len())].clone();
        let k = c.rng.below(9);
        let e = match k {
            0 => call("subsequence", vec![s, p, q]), 1 => call("subsequence", vec![s, p]), 2 => call("remove", vec![s, ip]), 3 => { let x = seq((0..c.rng.below(3)).map(|_| items(c)).collect()); call("insert-before", vec![s, ip, x]) }
            4 => call("reverse", vec![s]), 5 => { let x = items(c); let x = if n > 0 && c.rng.chance(1, 2) { v[c.rng.below(n)].clone() } else { x }; call("index-of", vec![s, x]) } 6 => call("tail", vec![call("reverse", vec![s])]), 7 => call("head", vec![call("tail", vec![s])]),
            _ => call("count", vec![call("insert-before", vec![s.clone(), ip, s])]),
        };
        run(c, &w, 0, &e);
    }
}
// ---------------------------------------------------------------- C22
fn rs(c: &mut Ctx) -> String { let n = c.rng.below(8); (0..n).map(|_| *c.rng.pick(&['a', 'b', 'c', 'A', 'é', 'É', '日', '\u{1F600}', ' ', 'ß', '1', '"', '\u{301}', '\t', 'a', 'b'])).collect() }
pub fn c22(c: &mut Ctx) {
    let w = d0();
    let mut strs: Vec<String> = vec![String::new()]; for a in &["a", "b", "日"] { strs.push(a.to_string()); for z in &["a", "b", "\u{1F600}"] { strs.push(format!("{}{}", a, z)); for y in &["a", "b"] { strs.push(format!("{}{}{}", a, z, y)); } } }
    c.part("all pairs of short strings");
    for s in &strs { for t in &strs {
        for f in &["contains", "starts-with", "ends-with", "substring-before", "substring-after", "concat", "compare", "codepoint-equal"] { run(c, &w, 0, &call(f, vec![st(s), st(t)])); }
        run(c, &w, 0, &call("string-join", vec![seq(vec![st(s), st(t), st("x")]), st(t)])); run(c, &w, 0, &bin("||", st(s), st(t)));
        if s.len() < 8 { for u in strs.iter().step_by(if c.thorough { 1 } else { 4 }) { run(c, &w, 0, &call("translate", vec![st("ab日\u{1F600}a"), st(s), st(t)])); run(c, &w, 0, &call("translate", vec![st(u), st(s), st(t)])); } }
    } }
    c.note(&format!("all pairs of {} short strings under the two-string functions, triples under translate", strs.len()));
    for s in &strs { for f in &["string-length", "upper-case", "lower-case", "string-to-codepoints", "string"] { run(c, &w, 0, &call(f, vec![st(s)])); } run(c, &w, 0, &call("codepoints-to-string", vec![call("string-to-codepoints", vec![st(s)])])); run(c, &w, 0, &call("string-join", vec![seq(vec![st(s), st("-"), st(s)])])); }
    for i in &[0x20, 0x41, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, -1, i64::MAX, i64::MIN, 1 << 32, (1 << 32) + 65, 0xFFFD] { run(c, &w, 0, &call("codepoints-to-string", vec![seq(vec![int(65), int(*i)])])); }
    c.part("substring");
    let mut fpos: Vec<E> = (-3..=7).map(int).collect(); fpos.push(int(i64::MAX)); fpos.push(int(i64::MIN)); fpos.push(int(i64::MAX - 1));
    for d in &[0.5, 1.5, 2.5, -0.5, 2.4, 2.6, 0.49, 3.0] { fpos.push(num(V::Dec(*d))); fpos.push(num(V::Dbl(*d))); }
    fpos.push(dbl("NaN", f64::NAN)); fpos.push(dbl("INF", f64::INFINITY)); fpos.push(dbl("-INF", f64::NEG_INFINITY));
    for s in &["", "a", "日b\u{1F600}d", "12345"] { for p in &fpos { run(c, &w, 0, &call("substring", vec![st(s), p.clone()])); for q in &fpos { run(c, &w, 0, &call("substring", vec![st(s), p.clone(), q.clone()])); } } }
    c.part("normalize-space of single-spaced and padded texts");
    for (s, t) in &[("", ""), ("a", "a"), (" a", "a"), ("a ", "a"), ("\t a\n", "a"), ("   ", ""), ("日", "日"), ("\u{a0}", "\u{a0}"), (" a\u{3000} ", "a\u{3000}"), ("\u{b}", "\u{b}"), ("\u{85}a\u{2028}", "\u{85}a\u{2028}")] {
        let e = format!("normalize-space({})", lit(&V::Str(s.to_string())));
        c.case(&e, true, || check(&w.w, 0, &e, &Ok(vec![V::Str(t.to_string())])));
    }
    c.part("normalize-space between words");
    for (s, t) in &[("a b", "a b"), ("a  b", "a b"), (" a \t b\n c ", "a b c")] {
        let e = format!("normalize-space({})", lit(&V::Str(s.to_string())));
        c.known(&e, || check(&w.w, 0, &e, &Ok(vec![V::Str(t.to_string())])));
    }
    c.part("texts of nodes");
    let ws = worlds(c, 6, 10);
    for w in &ws { for i in 0..w.w.nd.len() { for f in &["string", "string-length", "upper-case"] { run(c, w, i, &call(f, vec![Dot])); } run(c, w, i, &call("concat", vec![Dot, st("|"), Dot])); run(c, w, i, &call("contains", vec![Dot, st("a")])); run(c, w, i, &call("substring", vec![Dot, int(2)])); } }
    c.part("random strings");
    while c.more(1.0) {
        let (s, t, u) = (rs(c), if c.rng.chance(1, 2) { rs(c) } else { let x: Vec<char> = rs(c).chars().collect(); x.into_iter().take(2).collect() }, rs(c));
        let s = if c.rng.chance(1, 2) { format!("{}{}{}", s, t, u) } else { s };
        let (x, y, z) = (st(&s), st(&t), st(&u)); let p = if c.rng.chance(1, 2) { int(c.rng.range(-1, 9)) } else { fpos[c.rng.below(fpos.len())].clone() }; let q = fpos[c.rng.below(fpos.len())].clone();
        let e = match c.rng.below(14) {
            0 => call("substring", vec![x, p]), 1 => call("substring", vec![x, p, q]), 2 => call("translate", vec![x, y, z]), 3 => call("substring-before", vec![x, y]), 4 => call("substring-after", vec![x, y]),
            5 => call(*c.rng.pick(&["contains", "starts-with", "ends-with"]), vec![x, y]), 6 => call("string-length", vec![x]), 7 => call("codepoints-to-string", vec![call("string-to-codepoints", vec![x])]), 8 => call("string-to-codepoints", vec![x]),
            9 => call("string-join", vec![seq(vec![x, z.clone(), z]), y]), 10 => call("concat", vec![x, y, z]), 11 => call(*c.rng.pick(&["upper-case", "lower-case"]), vec![x]),
            12 => bin("=", bin("||", bin("||", call("substring-before", vec![x.clone(), y.clone()]), y.clone()), call("substring-after", vec![x.clone(), y.clone()])), x.clone()), _ => call("compare", vec![x, y]),
        };
        run(c, &w, 0, &e);
    }
}
// ---------------------------------------------------------------- C23
pub fn c23(c: &mut Ctx) {
    let w = d0();
    c.part("rounding");
    let mut v = nums(); for d in &[0.5, 1.5, 2.5, -0.5, -1.5, -2.5, 0.49999999999999994, 4503599627370497.0, 4503599627370495.5, 1e15, 123456.5, -123456.7, 0.1, 0.9, -0.1, -0.9, 1e18] { v.push(num(V::Dec(*d))); v.push(num(V::Dbl(*d))); }
    for x in &v { for f in &["abs", "floor", "ceiling", "round"] { run(c, &w, 0, &call(f, vec![x.clone()])); typed(c, &w, &call(f, vec![x.clone()])); } }
    for f in &["abs", "floor", "ceiling", "round", "sum", "avg", "max", "min", "count"] { run(c, &w, 0, &call(f, vec![Comma(vec![])])); }
    c.part("all short sequences");
    let al = [int(3), int(-1), num(V::Dec(2.5)), num(V::Dbl(0.25)), int(0), num(V::Dbl(1e3))];
    for n in 1..=if c.thorough { 5 } else { 4 } {
        let mut ix = vec![0usize; n];
        loop {
            let s = seq(ix.iter().map(|i| al[*i].clone()).collect());
            for f in &["sum", "avg", "max", "min"] { run(c, &w, 0, &call(f, vec![s.clone()])); }
            let mut k = 0; while k < n { ix[k] += 1; if ix[k] < al.len() { break; } ix[k] = 0; k += 1; }
            if k == n || c.stop() { break; }
        }
    }
    c.note("all sequences of up to 4 (thorough: 5) of 6 numbers");
    c.part("random");
    while c.more(1.0) {
        let n = c.rng.below(12); let onlyint = c.rng.chance(1, 2);
        let s = seq((0..n).map(|_| if onlyint { int(c.rng.range(-50, 50)) } else { rnum(c) }).collect());
        let f = *c.rng.pick(&["sum", "avg", "max", "min", "count"]); run(c, &w, 0, &call(f, vec![s.clone()]));
        if c.rng.chance(1, 5) { run(c, &w, 0, &bin("=", call("sum", vec![s.clone()]), call("sum", vec![call("reverse", vec![s.clone()])]))); }
        let x = rnum(c); let f = *c.rng.pick(&["abs", "floor", "ceiling", "round"]); run(c, &w, 0, &call(f, vec![x]));
        if onlyint && n > 0 { run(c, &w, 0, &bin("and", Bind(Bk::Every, vec![("x".into(), s.clone())], b(bin("le", Var("x".into()), call("max", vec![s.clone()])))), bin("=", s.clone(), call("max", vec![s.clone()])))); }
    }
}
// ---------------------------------------------------------------- C24
const TYS: &[&str] = &["xs:string", "xs:integer", "xs:decimal", "xs:double", "xs:boolean"];
fn c24_one(c: &mut Ctx, w: &Wd, i: usize, e: &E) {
    for t in TYS { for q in &[false, true] {
        run(c, w, i, &Cast(b(e.clone()), t.to_string(), *q)); run(c, w, i, &Castable(b(e.clone()), t.to_string(), *q));
        let te = { let mut p = Pr { full: false, toks: vec![] }; p.e(e, 15); join(&p.toks, None) };
        let (x, y, z) = (format!("{} castable as {}{}", te, t, if *q { "?" } else { "" }), format!("{} cast as {}{}", te, t, if *q { "?" } else { "" }), format!("({} cast as {}{}) instance of {}{}", te, t, if *q { "?" } else { "" }, t, if *q { "?" } else { "" }));
        c.case(&desc(w, i, &x), true, || {
            let n = &w.w.nd[i].ptr;
            let able = match n.eval_xpath(&x) { Ok(s) => s.to_string(), Err(e) => return Err(format!("castable fails: {}", e)) };
            let ok = n.eval_xpath(&y).is_ok();
            if able != ok.to_string() { return Err(format!("castable is {} but the cast {}", able, if ok { "succeeds" } else { "fails" })); }
            if ok { let t = n.eval_xpath(&z).map(|s| s.to_string()).unwrap_or("error".into()); if t != "true" { return Err(format!("{} is {}", z, t)); } }
            Ok(())
        });
    } }
}
pub fn c24(c: &mut Ctx) {
    let w = world(FIX);
    c.part("items of every kind");
    let mut v = nums();
    for s in &["", " ", "0", "1", "-1", "+1", "01", " 12 ", "1 2", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1.5", ".5", "5.", ".", "-.5", "+2.0", "1e3", "1E-2", "1e", "e3", "1.5e+2", "INF", "-INF", "+INF", "NaN", "inf", "nan", "Infinity", "true", "false", "TRUE", "yes", "0x10", "１", "1_000", "--1", "1.2.3", "abc", "1e400", "123456789012345678901234567890.5"] { v.push(st(s)); }
    v.extend([Lit(V::Bool(true)), Lit(V::Bool(false)), Comma(vec![]), Map(vec![]), ArrS(vec![]), FRef("abs".into(), 1), seq(vec![int(1), int(2)]), seq(vec![st("a"), st("b")]), int(i64::MAX), int(i64::MIN), num(V::Dbl(9223372036854775807.0)), num(V::Dbl(-9223372036854775808.0)), num(V::Dbl(9223372036854774784.0)), num(V::Dbl(1e19)), num(V::Dec(1e19)), num(V::Dec(99.99)), num(V::Dec(-99.99))].iter().cloned());
    for n in &["//b", "//@x", "//@y", "//text()", "/a/b[1]/@y", "/a/b[2]/b/@q:b", "//comment()"] { let _ = n; }
    for i in 0..w.w.nd.len() { v.push(nodeexpr(&w, i)); }
    for e in &v { c24_one(c, &w, 1, e); }
    c.note(&format!("{} values, 5 target types, with and without '?'", v.len()));
    c.part("round trips");
    while c.more(0.6) {
        let i = if c.rng.chance(1, 2) { ints(c) } else { c.rng.range(-(1 << 53), 1 << 53) };
        let x = int(i); let cst = |e: E, t: &str| Cast(b(Par(b(e))), t.to_string(), false);
        run(c, &w, 0, &cst(cst(x.clone(), "xs:string"), "xs:integer"));
        if -SAFE <= i && i <= SAFE { run(c, &w, 0, &cst(cst(x.clone(), "xs:double"), "xs:integer")); run(c, &w, 0, &cst(cst(x.clone(), "xs:decimal"), "xs:integer")); run(c, &w, 0, &cst(cst(cst(x.clone(), "xs:decimal"), "xs:double"), "xs:integer")); run(c, &w, 0, &cst(x, "xs:double")); }
        let y = Lit(V::Bool(c.rng.chance(1, 2))); for t in &["xs:string", "xs:integer", "xs:double", "xs:decimal"] { run(c, &w, 0, &cst(cst(y.clone(), t), "xs:boolean")); }
    }
    c.part("random texts");
    while c.more(1.0) {
        let n = c.rng.below(7); let s: String = (0..n).map(|_| *c.rng.pick(&['0', '1', '9', '.', '-', '+', 'e', 'E', ' ', '5', 'N', 'a'])).collect();
        let s = if c.rng.chance(1, 6) { s.repeat(4) } else { s };
        c24_one(c, &w, 0, &st(&s));
    }
}
// ---------------------------------------------------------------- C25
fn mapval(c: &mut Ctx, d: usize) -> E { match c.rng.below(6) { 0 => Comma(vec![]), 1 => seq(vec![int(1), st("z")]), 2 if d > 0 => marr(c, d - 1), 3 if d > 0 => mmap(c, d - 1), _ => items(c) } }
fn key(c: &mut Ctx) -> E { let k = c.rng.below(12); match k { 0 => st("a"), 1 => st("b"), 2 => st("1"), 3 => int(1), 4 => int(2), 5 => num(V::Dec(1.0)), 6 => num(V::Dbl(2.0)), 7 => Lit(V::Bool(true)), 8 => dbl("NaN", f64::NAN), 9 => int(0), 10 => st(""), _ => items(c) } }
fn mmap(c: &mut Ctx, d: usize) -> E { let n = c.rng.below(4); Map((0..n).map(|_| { let k = key(c); (k, mapval(c, d)) }).collect()) }
fn marr(c: &mut Ctx, d: usize) -> E { if c.rng.chance(1, 4) { let n = c.rng.below(4); return ArrC(b(match n { 0 => Comma(vec![]), _ => Comma((0..n + 1).map(|_| mapval(c, 0)).collect()) })); } let n = c.rng.below(4); ArrS((0..n).map(|_| mapval(c, d)).collect()) }
fn c25_ops(c: &mut Ctx, w: &Wd, m: &E, a: &E, k: E, i: i64) {
    for f in &["map:size", "map:keys"] { run(c, w, 0, &call(f, vec![m.clone()])); run(c, w, 0, &call(f, vec![a.clone()])); }
    run(c, w, 0, &call("map:get", vec![m.clone(), k.clone()])); run(c, w, 0, &call("map:contains", vec![m.clone(), k.clone()]));
    run(c, w, 0, &Dyn(b(m.clone()), vec![k.clone()])); run(c, w, 0, m); run(c, w, 0, a);
    run(c, w, 0, &Look(b(m.clone()), Key::Ex(b(k.clone())))); run(c, w, 0, &Look(b(m.clone()), Key::Star)); run(c, w, 0, &Look(b(m.clone()), Key::Name("a".into()))); run(c, w, 0, &Look(b(m.clone()), Key::Int(1)));
    run(c, w, 0, &call("array:size", vec![a.clone()])); run(c, w, 0, &call("array:size", vec![m.clone()])); run(c, w, 0, &call("array:flatten", vec![a.clone()])); run(c, w, 0, &call("array:flatten", vec![seq(vec![a.clone(), int(5), a.clone()])]));
    run(c, w, 0, &call("array:get", vec![a.clone(), int(i)])); run(c, w, 0, &Dyn(b(a.clone()), vec![int(i)])); run(c, w, 0, &Look(b(a.clone()), Key::Star)); if i >= 0 { run(c, w, 0, &Look(b(a.clone()), Key::Int(i))); } run(c, w, 0, &Look(b(a.clone()), Key::Ex(b(int(i)))));
    // the laws, each from the real answers alone; and the operand is unchanged afterwards
    run(c, w, 0, &Bind(Bk::Let, vec![("m".into(), m.clone())], b(seq(vec![call("map:get", vec![Var("m".into()), k.clone()]), call("map:keys", vec![Var("m".into())]), Var("m".into())]))));
    run(c, w, 0, &Bind(Bk::Let, vec![("m".into(), m.clone())], b(bin("=", call("count", vec![call("map:keys", vec![Var("m".into())])]), call("map:size", vec![Var("m".into())])))));
    run(c, w, 0, &Bind(Bk::Let, vec![("m".into(), m.clone())], b(Bind(Bk::For, vec![("k".into(), call("map:keys", vec![Var("m".into())]))], b(seq(vec![call("map:contains", vec![Var("m".into()), Var("k".into())]), call("map:get", vec![Var("m".into()), Var("k".into())])]))))));
    run(c, w, 0, &Bind(Bk::Let, vec![("a".into(), a.clone())], b(Bind(Bk::For, vec![("i".into(), Par(b(bin("to", int(1), call("array:size", vec![Var("a".into())])))))], b(call("array:get", vec![Var("a".into()), Var("i".into())]))))));
}
pub fn c25(c: &mut Ctx) {
    let w = d0();
    c.part("keys of every kind");
    let ks = [st("a"), st("1"), st(""), st("true"), int(1), int(0), num(V::Dec(1.0)), num(V::Dbl(1.0)), num(V::Dec(1.5)), num(V::Dbl(1.5)), Lit(V::Bool(true)), Lit(V::Bool(false)), dbl("NaN", f64::NAN), dbl("INF", f64::INFINITY), Raw("(-0e0)".into(), V::Dbl(-0.0)), int(i64::MAX), int(i64::MIN)];
    for x in &ks { for y in &ks {
        run(c, &w, 0, &Map(vec![(x.clone(), st("v")), (y.clone(), st("w"))]));
        let m = Map(vec![(st("other"), int(9)), (x.clone(), st("v"))]);
        for f in &["map:get", "map:contains"] { run(c, &w, 0, &call(f, vec![m.clone(), y.clone()])); }
        run(c, &w, 0, &Dyn(b(m.clone()), vec![y.clone()])); run(c, &w, 0, &Look(b(m), Key::Ex(b(y.clone()))));
    } }
    c.note(&format!("all pairs of {} keys", ks.len()));
    for n in 0..5i64 { let a = ArrS((1..=n).map(|i| int(i * 10)).collect()); for i in &[-1, 0, 1, 2, 3, 4, 5, i64::MAX, i64::MIN, 1i64 << 32, (1 << 32) + 1] { let m = Map((0..n).map(|i| (int(i), st("x"))).collect()); c25_ops(c, &w, &m, &a, int(*i), *i); } }
    c.part("random");
    while c.more(1.0) { let d = c.rng.below(3); let m = mmap(c, d); let a = marr(c, d); let k = key(c); let i = c.rng.range(-1, 5); c25_ops(c, &w, &m, &a, k, i); }
}
// ---------------------------------------------------------------- C26
pub fn c26(c: &mut Ctx) {
    let ws = worlds(c, 3, 6);
    let w = &ws[0];
    let v = |n: &str| Var(n.to_string());
    c.part("shadowing and early exit");
    let q = |k: Bk, s: Vec<E>, body: E| Bind(k, vec![("x".into(), seq(s))], b(body));
    for k in &[Bk::Some, Bk::Every, Bk::For, Bk::Let] { for s in [vec![], vec![int(1)], vec![int(1), int(2)], vec![int(2), int(1), int(3)]].iter() { for t in 0..4i64 { for o in &["=", "<", ">", "!="] {
        let inner = q(*k, s.clone(), bin(o, v("x"), int(t)));
        run(c, w, 0, &Bind(Bk::Let, vec![("x".into(), st("outer"))], b(seq(vec![inner.clone(), v("x")]))));
        run(c, w, 0, &Bind(Bk::For, vec![("x".into(), seq(vec![st("p"), st("q")]))], b(seq(vec![v("x"), inner.clone(), v("x")]))));
        run(c, w, 0, &Bind(Bk::Let, vec![("x".into(), int(5)), ("y".into(), inner.clone())], b(seq(vec![v("x"), v("y")]))));
        let two = Bind(*k, vec![("x".into(), seq(s.clone())), ("y".into(), seq(vec![int(1), int(2)]))], b(bin(o, bin("+", if *k == Bk::Let && s.len() != 1 { int(1) } else { v("x") }, if *k == Bk::Let { call("count", vec![v("y")]) } else { v("y") }), int(t))));
        run(c, w, 0, &Bind(Bk::Let, vec![("x".into(), st("outer")), ("y".into(), st("outer2"))], b(seq(vec![two, v("x"), v("y")]))));
    } } } }
    for e in [
        Bind(Bk::Let, vec![("x".into(), int(1)), ("x".into(), bin("+", v("x"), int(1))), ("x".into(), bin("*", v("x"), int(10)))], b(v("x"))),
        Bind(Bk::For, vec![("x".into(), seq(vec![int(1), int(2)])), ("x".into(), seq(vec![v("x"), bin("*", v("x"), int(10))]))], b(v("x"))),
        Bind(Bk::For, vec![("x".into(), seq(vec![int(3), int(1), int(2)])), ("y".into(), seq(vec![st("a"), st("b")]))], b(seq(vec![v("x"), v("y")]))),
        Bind(Bk::Let, vec![("f".into(), Fun(vec![("x".into(), None)], b(bin("+", v("x"), int(1)))))], b(Bind(Bk::Let, vec![("x".into(), int(10))], b(seq(vec![Dyn(b(v("f")), vec![int(1)]), v("x"), Dyn(b(v("f")), vec![v("x")]), v("x")]))))),
        Bind(Bk::Let, vec![("f".into(), Fun(vec![("x".into(), None), ("y".into(), None)], b(seq(vec![v("y"), v("x")]))))], b(Bind(Bk::Let, vec![("x".into(), int(1)), ("y".into(), int(2))], b(seq(vec![Dyn(b(v("f")), vec![v("y"), v("x")]), v("x"), v("y")]))))),
        call("for-each", vec![seq(vec![int(1), int(2), int(3)]), Fun(vec![("x".into(), None)], b(Bind(Bk::Let, vec![("y".into(), bin("*", v("x"), v("x")))], b(seq(vec![v("y"), v("x")])))))]),
        call("filter", vec![seq(vec![int(1), int(2), int(3), int(4)]), Fun(vec![("x".into(), None)], b(bin("=", bin("mod", v("x"), int(2)), int(0))))]),
        Bind(Bk::Let, vec![("x".into(), int(7))], b(seq(vec![call("for-each", vec![seq(vec![int(1), int(2)]), Fun(vec![("x".into(), None)], b(v("x")))]), v("x")]))),
        Bind(Bk::For, vec![("x".into(), seq(vec![int(1), int(2)]))], b(Filter(b(seq(vec![int(1), int(2), int(3)])), vec![bin("=", Dot, v("x"))]))),
        Bind(Bk::Let, vec![("f".into(), Fun(vec![("n".into(), None)], b(Bind(Bk::Some, vec![("n".into(), seq(vec![v("n"), int(1)]))], b(bin("=", v("n"), int(1)))))))], b(Bind(Bk::Let, vec![("n".into(), st("o"))], b(seq(vec![Dyn(b(v("f")), vec![int(4)]), v("n")]))))),
    ].iter() { run(c, w, 0, e); }
    c.part("a function item sees the variables where it was written");
    for (t, r) in &[("let $x := 1 return let $f := function($y) { $x } return let $x := 2 return $f(0)", "1"), ("let $x := 1, $f := function($y) { $x + $y } return for $x in (10, 20) return $f($x)", "(11, 21)"), ("let $f := (for $i in (1, 2) return function($y) { $i }) return $f[1](0)", "1"), ("let $x := 1 return let $f := concat(?, $x) return let $x := 2 return for-each(('a', 'b'), $f)", "(\"a1\", \"b1\")")] {
        c.known(t, || match w.w.nd[0].ptr.eval_xpath(t) { Ok(s) => if s.to_string() == *r { Ok(()) } else { Err(format!("answers {} where {} is due", s.to_string(), r)) }, Err(e) => Err(format!("fails: {}", e)) });
    }
    c.part("random nests");
    while c.more(1.0) {
        let (w, i) = pick(c, &ws); let mut r = Rng::new(c.rng.next()); let mut g = G::new(&mut r);
        let e = nest(&mut g, 4);
        run(c, w, i, &e);
    }
}
fn nest(g: &mut G, d: usize) -> E {
    // every branch ends by reporting all variables in scope
    let rep = |g: &G| { let mut v: Vec<E> = vec![]; for n in &["x", "y", "z"] { if g.vars.iter().any(|q| q.0 == *n) { v.push(call("count", vec![Var(n.to_string())])); v.push(Var(n.to_string())); } } if v.is_empty() { v.push(Lit(V::Int(0))); } seq(v) };
    if d == 0 { return rep(g); }
    match g.c(7) {
        0 => { let n = g.fresh(); let e = nest_src(g, d - 1); g.vars.push((n.clone(), T::Seq)); let bd = nest(g, d - 1); g.vars.pop(); seq(vec![Bind(Bk::Let, vec![(n, e)], b(bd)), rep(g)]) }
        1 | 2 => { let n = g.fresh(); let e = g.intseq(1); g.vars.push((n.clone(), T::Int)); let bd = nest(g, d - 1); g.vars.pop(); seq(vec![Bind(Bk::For, vec![(n, e)], b(bd)), rep(g)]) }
        3 | 4 => { let q = g.quant(d); seq(vec![q, nest(g, d - 1), rep(g)]) }
        5 => { let x = nest(g, d - 1); let y = nest(g, d - 1); If(b(g.quant(1)), b(x), b(y)) }
        _ => {
            // a closed function, applied where its parameter shadows
            let n = g.fresh(); let saved = std::mem::replace(&mut g.vars, vec![(n.clone(), T::Seq)]); let ctx = g.ctx; g.ctx = None; let bd = nest(g, d - 1); g.ctx = ctx; g.vars = saved;
            let a = nest_src(g, 1);
            seq(vec![Bind(Bk::Let, vec![("f".into(), Fun(vec![(n, None)], b(bd)))], b(seq(vec![Dyn(b(Var("f".into())), vec![a]), rep(g)]))), rep(g)])
        }
    }
}
fn nest_src(g: &mut G, d: usize) -> E { let e = g.gen(T::Seq, d.min(2)); e }
// ---------------------------------------------------------------- C27
/// the signatures of Functions and Operators 3.1 (string-join#1, whose argument type differs between the versions, left out, and the forms with a collation, which are not supported)
const SIGS: &[(&str, &[&str], &str)] = &[
    ("nilled", &["node()?"], "xs:boolean?"),
    ("nilled", &[], "xs:boolean?"),
    ("string", &[], "xs:string"),
    ("string", &["item()?"], "xs:string"),
    ("data", &[], "xs:anyAtomicType*"),
    ("data", &["item()*"], "xs:anyAtomicType*"),
    ("abs", &["xs:numeric?"], "xs:numeric?"),
    ("ceiling", &["xs:numeric?"], "xs:numeric?"),
    ("floor", &["xs:numeric?"], "xs:numeric?"),
    ("round", &["xs:numeric?"], "xs:numeric?"),
    ("number", &[], "xs:double"),
    ("number", &["xs:anyAtomicType?"], "xs:double"),
    ("codepoints-to-string", &["xs:integer*"], "xs:string"),
    ("string-to-codepoints", &["xs:string?"], "xs:integer*"),
    ("compare", &["xs:string?", "xs:string?"], "xs:integer?"),
    ("codepoint-equal", &["xs:string?", "xs:string?"], "xs:boolean?"),
    ("concat", &["xs:anyAtomicType?", "xs:anyAtomicType?"], "xs:string"),
    ("concat", &["xs:anyAtomicType?", "xs:anyAtomicType?", "xs:anyAtomicType?"], "xs:string"),
    ("concat", &["xs:anyAtomicType?", "xs:anyAtomicType?", "xs:anyAtomicType?", "xs:anyAtomicType?", "xs:anyAtomicType?"], "xs:string"),
    ("string-join", &["xs:string*", "xs:string"], "xs:string"),
    ("substring", &["xs:string?", "xs:double"], "xs:string"),
    ("substring", &["xs:string?", "xs:double", "xs:double"], "xs:string"),
    ("string-length", &[], "xs:integer"),
    ("string-length", &["xs:string?"], "xs:integer"),
    ("normalize-space", &[], "xs:string"),
    ("normalize-space", &["xs:string?"], "xs:string"),
    ("upper-case", &["xs:string?"], "xs:string"),
    ("lower-case", &["xs:string?"], "xs:string"),
    ("translate", &["xs:string?", "xs:string", "xs:string"], "xs:string"),
    ("contains", &["xs:string?", "xs:string?"], "xs:boolean"),
    ("starts-with", &["xs:string?", "xs:string?"], "xs:boolean"),
    ("ends-with", &["xs:string?", "xs:string?"], "xs:boolean"),
    ("substring-before", &["xs:string?", "xs:string?"], "xs:string"),
    ("substring-after", &["xs:string?", "xs:string?"], "xs:string"),
    ("true", &[], "xs:boolean"),
    ("false", &[], "xs:boolean"),
    ("boolean", &["item()*"], "xs:boolean"),
    ("not", &["item()*"], "xs:boolean"),
    ("name", &[], "xs:string"),
    ("name", &["node()?"], "xs:string"),
    ("local-name", &[], "xs:string"),
    ("local-name", &["node()?"], "xs:string"),
    ("namespace-uri", &[], "xs:anyURI"),
    ("namespace-uri", &["node()?"], "xs:anyURI"),
    ("lang", &["xs:string?"], "xs:boolean"),
    ("lang", &["xs:string?", "node()"], "xs:boolean"),
    ("root", &[], "node()"),
    ("root", &["node()?"], "node()?"),
    ("empty", &["item()*"], "xs:boolean"),
    ("exists", &["item()*"], "xs:boolean"),
    ("head", &["item()*"], "item()?"),
    ("tail", &["item()*"], "item()*"),
    ("insert-before", &["item()*", "xs:integer", "item()*"], "item()*"),
    ("remove", &["item()*", "xs:integer"], "item()*"),
    ("reverse", &["item()*"], "item()*"),
    ("subsequence", &["item()*", "xs:double"], "item()*"),
    ("subsequence", &["item()*", "xs:double", "xs:double"], "item()*"),
    ("index-of", &["xs:anyAtomicType*", "xs:anyAtomicType"], "xs:integer*"),
    ("zero-or-one", &["item()*"], "item()?"),
    ("one-or-more", &["item()*"], "item()+"),
    ("exactly-one", &["item()*"], "item()"),
    ("count", &["item()*"], "xs:integer"),
    ("avg", &["xs:anyAtomicType*"], "xs:anyAtomicType?"),
    ("max", &["xs:anyAtomicType*"], "xs:anyAtomicType?"),
    ("min", &["xs:anyAtomicType*"], "xs:anyAtomicType?"),
    ("sum", &["xs:anyAtomicType*"], "xs:anyAtomicType"),
    ("sum", &["xs:anyAtomicType*", "xs:anyAtomicType?"], "xs:anyAtomicType?"),
    ("position", &[], "xs:integer"),
    ("last", &[], "xs:integer"),
    ("for-each", &["item()*", "function(item()) as item()*"], "item()*"),
    ("filter", &["item()*", "function(item()) as xs:boolean"], "item()*"),
    ("map:size", &["map(*)"], "xs:integer"),
    ("map:keys", &["map(*)"], "xs:anyAtomicType*"),
    ("map:contains", &["map(*)", "xs:anyAtomicType"], "xs:boolean"),
    ("map:get", &["map(*)", "xs:anyAtomicType"], "item()*"),
    ("array:size", &["array(*)"], "xs:integer"),
    ("array:get", &["array(*)", "xs:integer"], "item()*"),
    ("array:flatten", &["item()*"], "item()*"),
];
pub fn c27(c: &mut Ctx) {
    let w = world(FIX);
    let its: Vec<It> = { let mut v: Vec<It> = ["xs:string", "xs:integer", "xs:decimal", "xs:double", "xs:boolean", "xs:anyAtomicType"].iter().map(|s| It::Atom(s.to_string())).collect();
        v.extend(vec![It::Item, It::Node, It::El(None), It::El(Some("b".into())), It::At(None), It::At(Some("x".into())), It::Text, It::Comment, It::Pi, It::MapAny, It::ArrAny, It::FunAny, It::Par(Box::new(It::Item)), It::Par(Box::new(It::Atom("xs:decimal".into()))),
            It::Map("xs:string".into(), Box::new(Ty::Of(It::Atom("xs:integer".into()), ' '))), It::Map("xs:anyAtomicType".into(), Box::new(Ty::Of(It::Item, '*'))), It::Map("xs:integer".into(), Box::new(Ty::Of(It::Item, '+'))), It::Arr(Box::new(Ty::Of(It::Atom("xs:integer".into()), ' '))), It::Arr(Box::new(Ty::Of(It::Item, '?'))), It::Arr(Box::new(Ty::Of(It::Atom("xs:decimal".into()), '+')))]); v };
    let mut vs: Vec<E> = vec![Comma(vec![]), int(1), num(V::Dec(1.0)), num(V::Dbl(1.0)), st("a"), Lit(V::Bool(true)), Map(vec![]), Map(vec![(st("k"), int(1))]), Map(vec![(int(1), st("v"))]), Map(vec![(st("k"), Comma(vec![])), (int(2), seq(vec![int(1), int(2)]))]), ArrS(vec![]), ArrS(vec![int(1), int(2)]), ArrS(vec![int(1), st("a")]), ArrS(vec![seq(vec![int(1), int(2)])]), ArrS(vec![Comma(vec![])]), Fun(vec![("x".into(), None)], b(Var("x".into()))), FRef("abs".into(), 1)];
    for i in 0..w.w.nd.len() { vs.push(nodeexpr(&w, i)); }
    let n = vs.len(); let mut pairs = vec![];
    for i in 0..n { for j in [1, 2, 4, 5, 6, 10, 17, 18, 20, n - 1].iter() { pairs.push(seq(vec![vs[i].clone(), vs[*j].clone()])); } }
    c.part("all values, types and occurrences");
    for x in &vs { for t in &its { for o in &[' ', '?', '*', '+'] { run(c, &w, 1, &Inst(b(x.clone()), Ty::Of(t.clone(), *o))); } } run(c, &w, 1, &Inst(b(x.clone()), Ty::Empty)); }
    for x in &pairs { for t in &its { if c.stop() { return; } for o in &[' ', '?', '*', '+'] { run(c, &w, 1, &Inst(b(x.clone()), Ty::Of(t.clone(), *o))); } } }
    c.note(&format!("{} values and {} two-item sequences, {} item types, all occurrence signs", vs.len(), pairs.len(), its.len()));
    c.part("types of named function references");
    for (n, ps, r) in SIGS.iter() {
        let sig = |ps: &[&str], r: &str| format!("function({}) as {}", ps.join(", "), r);
        let mut cases = vec![(sig(ps, r), true), (sig(ps, "item()*"), *r != "none"), ("function(*)".to_string(), true), ("item()+".to_string(), true), ("xs:anyAtomicType".to_string(), false),
            (sig(&[ps.to_vec(), vec!["item()*"]].concat(), r), false), (sig(ps, "comment()"), false), (sig(ps, "map(*)"), false)];
        if !ps.is_empty() { cases.push((sig(&ps[1..], r), false)); }
        if !r.ends_with('*') && !r.ends_with('?') { cases.push((sig(ps, &format!("{}?", r.trim_end_matches('+'))), !r.ends_with('+'))); }
        if r.ends_with('?') { cases.push((sig(ps, r.trim_end_matches('?')), false)); cases.push((sig(ps, &format!("{}*", r.trim_end_matches('?'))), true)); cases.push((sig(ps, &format!("{}+", r.trim_end_matches('?'))), false)); }
        if r.ends_with('*') { cases.push((sig(ps, &format!("{}+", r.trim_end_matches('*'))), false)); cases.push((sig(ps, &format!("{}?", r.trim_end_matches('*'))), false)); }
        for k in 0..ps.len() {
            let with = |t: &str| { let mut q = ps.to_vec(); q[k] = t; sig(&q, r) };
            if ps[k] != "item()*" { cases.push((with("item()*"), false)); }
            let base = ps[k].trim_end_matches(|x| x == '?' || x == '*'); 
            if base != ps[k] { cases.push((with(base), true)); }
            match ps[k].chars().last() {
                Some('?') => { cases.push((with(&format!("{}*", base)), false)); cases.push((with(&format!("{}+", base)), false)); }
                Some('*') => { cases.push((with(&format!("{}?", base)), true)); cases.push((with(&format!("{}+", base)), true)); }
                _ => if !base.starts_with("function") { cases.push((with(&format!("{}?", base)), false)); }
            }
            if base == "xs:anyAtomicType" { cases.push((with("xs:integer"), true)); }
            if base == "xs:string" { cases.push((with("xs:integer"), false)); cases.push((with("xs:anyAtomicType"), false)); }
            if base == "xs:integer" { cases.push((with("xs:string"), false)); cases.push((with("xs:decimal"), false)); }
            if base == "node()" { cases.push((with("element()"), true)); cases.push((with("item()"), false)); }
        }
        for (t, v) in cases {
            let e = format!("fn:{}#{} instance of {}", n, ps.len(), t).replace("fn:map:", "map:").replace("fn:array:", "array:");
            c.known(&e, || match w.w.nd[0].ptr.eval_xpath(&e) { Ok(s) => if s.to_string() == v.to_string() { Ok(()) } else { Err(format!("answers {} where {} is due", s.to_string(), v)) }, Err(x) => Err(format!("fails: {}", x)) });
        }
    }
    c.part("types of inline functions");
    // (item type, its position in a chain of supertypes)
    const CH: &[&[&str]] = &[&["xs:integer", "xs:decimal", "xs:numeric", "xs:anyAtomicType", "item()"], &["xs:string", "xs:anyAtomicType", "item()"], &["xs:boolean", "xs:anyAtomicType", "item()"], &["xs:double", "xs:numeric", "xs:anyAtomicType", "item()"],
        &["element()", "node()", "item()"], &["element(b)", "element()", "node()", "item()"], &["text()", "node()", "item()"], &["map(*)", "function(*)", "item()"], &["array(*)", "function(*)", "item()"]];
    let mut its: Vec<&str> = vec![]; for x in CH { for t in *x { if !its.contains(t) { its.push(t); } } }
    let isub = |a: &str, z: &str| a == z || CH.iter().any(|x| match (x.iter().position(|t| *t == a), x.iter().position(|t| *t == z)) { (Some(i), Some(j)) => i <= j, _ => false });
    let osub = |a: &str, z: &str| match z { "*" => true, "?" => a == "" || a == "?", "+" => a == "" || a == "+", _ => a == "" };
    let mut tys: Vec<(&str, &str)> = vec![]; for t in &its { for o in ["", "?", "*", "+"] { tys.push((t, o)); } }
    tys.push(("empty-sequence()", ""));
    let tsub = |a: &(&str, &str), z: &(&str, &str)| if a.0 == "empty-sequence()" { z.0 == a.0 || z.1 == "?" || z.1 == "*" } else { z.0 != "empty-sequence()" && isub(a.0, z.0) && osub(a.1, z.1) };
    for a in &tys { for z in &tys {
        for (e, v) in &[(format!("function($x as xs:integer) as {}{} {{ $x }} instance of function(xs:integer) as {}{}", a.0, a.1, z.0, z.1), tsub(a, z)),
            (format!("function($x as {}{}) as xs:integer {{ 1 }} instance of function({}{}) as xs:integer", a.0, a.1, z.0, z.1), tsub(z, a)),
            (format!("function($y as xs:string, $x as {}{}) as xs:integer {{ 1 }} instance of function(xs:string, {}{}) as xs:decimal?", a.0, a.1, z.0, z.1), tsub(z, a))] {
            c.known(e, || match w.w.nd[0].ptr.eval_xpath(e) { Ok(s) => if s.to_string() == v.to_string() { Ok(()) } else { Err(format!("answers {} where {} is due", s.to_string(), v)) }, Err(x) => Err(format!("fails: {}", x)) });
        }
    } }
    c.part("random");
    let ws = worlds(c, 6, 8);
    while c.more(1.0) {
        let (w, i) = pick(c, &ws); let mut r = Rng::new(c.rng.next());
        let e = match c.rng.below(4) { 0 => mmap(c, 2), 1 => marr(c, 2), _ => G::new(&mut r).gen(T::Any, 2) }; let t = G::new(&mut r).ty();
        run(c, w, i, &Inst(b(e), t));
    }
}

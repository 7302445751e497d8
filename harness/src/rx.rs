//! XPath expressions: syntax trees, a printer, and a reference evaluator over a snapshot of the tree.
//! The evaluator answers Err(Skip) wherever the properties leave the answer open.
use crate::core::*;
use amxml::dom::*;
use std::rc::Rc;

// ---------------------------------------------------------------- the tree
#[derive(Clone, Debug, PartialEq, Eq, Copy)]
pub enum K { Doc, El, At, Tx, Co, Pi }
pub struct Nd { pub ptr: NodePtr, pub k: K, pub name: String, pub value: String, pub parent: Option<usize>, pub kids: Vec<usize>, pub attrs: Vec<usize>, pub end: usize }
pub struct World { pub nd: Vec<Nd> }
impl World {
    /// document order is the index
    pub fn new(root: &NodePtr) -> World { let mut w = World { nd: vec![] }; w.add(root, None); w }
    fn add(&mut self, n: &NodePtr, parent: Option<usize>) -> usize {
        let k = match n.node_type() {
            NodeType::DocumentRoot => K::Doc, NodeType::Element => K::El, NodeType::Attribute => K::At,
            NodeType::Text => K::Tx, NodeType::Comment => K::Co, _ => K::Pi };
        let me = self.nd.len();
        self.nd.push(Nd { ptr: n.rc_clone(), k, name: n.name(), value: n.value(), parent, kids: vec![], attrs: vec![], end: 0 });
        if k == K::El { for a in n.attributes().iter() { let i = self.add(a, Some(me)); self.nd[me].attrs.push(i); } }
        if k == K::El || k == K::Doc { for c in n.children().iter() { let i = self.add(c, Some(me)); self.nd[me].kids.push(i); } }
        let e = self.nd.len(); self.nd[me].end = e;
        me
    }
    pub fn find(&self, n: &NodePtr) -> Option<usize> { self.nd.iter().position(|d| d.ptr == *n) }
    pub fn string(&self, i: usize) -> String {
        match self.nd[i].k {
            K::Doc | K::El => self.nd[i].kids.iter().filter(|&&c| matches!(self.nd[c].k, K::El | K::Tx)).map(|&c| self.string(c)).collect(),
            _ => self.nd[i].value.clone(),
        }
    }
    pub fn root(&self, mut i: usize) -> usize { while let Some(p) = self.nd[i].parent { i = p; } i }
    fn isat(&self, i: usize) -> bool { self.nd[i].k == K::At }
    /// members of an axis, in axis order (reverse axes: nearest first); None: left open
    pub fn axis(&self, i: usize, ax: &str) -> Option<Vec<usize>> {
        let n = &self.nd[i];
        let at = self.isat(i);
        let mut v: Vec<usize> = vec![];
        match ax {
            "self" => v.push(i),
            "child" => v = n.kids.clone(),
            "attribute" => v = n.attrs.clone(),
            "parent" => { if let Some(p) = n.parent { v.push(p); } }
            "ancestor" | "ancestor-or-self" => {
                if ax == "ancestor-or-self" { v.push(i); }
                let mut p = n.parent; while let Some(q) = p { v.push(q); p = self.nd[q].parent; }
            }
            "descendant" => v = (i + 1..n.end).filter(|&j| !self.isat(j)).collect(),
            "descendant-or-self" => v = (i..n.end).filter(|&j| j == i || !self.isat(j)).collect(),
            "following" => { if at { return None; } v = (n.end..self.nd[self.root(i)].end).filter(|&j| !self.isat(j)).collect() }
            "preceding" => { if at { return None; } v = (0..i).rev().filter(|&j| !self.isat(j) && self.nd[j].end <= i).collect() }
            "following-sibling" | "preceding-sibling" => {
                if at { return None; }
                if let Some(p) = n.parent {
                    let ks = &self.nd[p].kids; let pos = ks.iter().position(|&k| k == i).unwrap();
                    if ax == "following-sibling" { v = ks[pos + 1..].to_vec(); } else { v = ks[..pos].iter().rev().cloned().collect(); }
                }
            }
            _ => return None,
        }
        Some(v)
    }
    pub fn test(&self, i: usize, ax: &str, t: &Test) -> bool {
        let n = &self.nd[i];
        let prin = if ax == "attribute" { K::At } else { K::El };
        let (p, l) = split(&n.name);
        match t {
            Test::Name(s) => n.k == prin && n.name == *s,
            Test::Star => n.k == prin,
            Test::PStar(q) => n.k == prin && p == q,
            Test::StarL(q) => n.k == prin && l == q,
            Test::Node => true,
            Test::Text => n.k == K::Tx,
            Test::Comment => n.k == K::Co,
            Test::Pi(o) => n.k == K::Pi && o.as_ref().map_or(true, |x| *x == n.name),
            Test::El(o) => n.k == K::El && o.as_ref().map_or(true, |x| *x == n.name),
            Test::At(o) => n.k == K::At && o.as_ref().map_or(true, |x| *x == n.name),
        }
    }
}
pub fn split(s: &str) -> (&str, &str) { match s.find(':') { Some(i) => (&s[..i], &s[i + 1..]), None => ("", s) } }

// ---------------------------------------------------------------- syntax
#[derive(Clone, Debug)]
pub enum Test { Name(String), Star, PStar(String), StarL(String), Node, Text, Comment, Pi(Option<String>), El(Option<String>), At(Option<String>) }
#[derive(Clone, Debug)]
pub enum Step { Ax(&'static str, Test, Vec<E>), Ex(E) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Root { None, Slash, Slash2 }
#[derive(Clone, Debug)]
pub enum It { Atom(String), Item, Node, El(Option<String>), At(Option<String>), Text, Comment, Pi, MapAny, Map(String, Box<Ty>), ArrAny, Arr(Box<Ty>), FunAny, Par(Box<It>) }
#[derive(Clone, Debug)]
pub enum Ty { Empty, Of(It, char) }      // ' ', '?', '*', '+'
#[derive(Clone, Debug)]
pub enum Key { Name(String), Int(i64), Star, Ex(Box<E>) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bk { For, Let, Some, Every }
#[derive(Clone, Debug)]
pub enum E {
    Lit(V), Raw(String, V), Var(String), Dot, Comma(Vec<E>), Bin(&'static str, Box<E>, Box<E>), Un(char, Box<E>),
    If(Box<E>, Box<E>, Box<E>), Bind(Bk, Vec<(String, E)>, Box<E>), Inst(Box<E>, Ty), Cast(Box<E>, String, bool), Castable(Box<E>, String, bool),
    Path(Root, Vec<(bool, Step)>), Filter(Box<E>, Vec<E>), Call(String, Vec<E>), Arrow(Box<E>, String, Vec<E>),
    Map(Vec<(E, E)>), ArrS(Vec<E>), ArrC(Box<E>), Look(Box<E>, Key), ULook(Key), Dyn(Box<E>, Vec<E>), Fun(Vec<(String, Option<Ty>)>, Box<E>), FRef(String, usize), Par(Box<E>),
}
use E::*;
pub fn b(e: E) -> Box<E> { Box::new(e) }
pub fn int(i: i64) -> E { if i < 0 { if i == i64::MIN { Par(b(bin("-", Un('-', b(Lit(V::Int(i64::MAX)))), Lit(V::Int(1))))) } else { Par(b(Un('-', b(Lit(V::Int(-i)))))) } } else { Lit(V::Int(i)) } }
pub fn st(s: &str) -> E { Lit(V::Str(s.to_string())) }
pub fn bin(o: &'static str, x: E, y: E) -> E { Bin(o, b(x), b(y)) }
pub fn call(f: &str, a: Vec<E>) -> E { Call(f.to_string(), a) }
pub fn seq(v: Vec<E>) -> E { if v.len() == 1 { v.into_iter().next().unwrap() } else { Par(b(Comma(v))) } }

pub fn prec(e: &E) -> u8 {
    match e {
        Comma(v) => if v.is_empty() { 20 } else { 0 },
        Bind(..) | If(..) => 1,
        Bin(o, _, _) => binprec(o),
        Inst(..) => 11, Castable(..) => 13, Cast(..) => 14, Arrow(..) => 15, Un(..) => 16,
        Path(..) => 18, Filter(..) | Look(..) | Dyn(..) => 19,
        _ => 20,
    }
}
pub fn binprec(o: &str) -> u8 {
    match o {
        "or" => 2, "and" => 3,
        "eq" | "ne" | "lt" | "le" | "gt" | "ge" | "=" | "!=" | "<" | "<=" | ">" | ">=" | "is" | "<<" | ">>" => 4,
        "||" => 5, "to" => 6, "+" | "-" => 7, "*" | "div" | "idiv" | "mod" => 8,
        "union" | "|" => 9, "intersect" | "except" => 10, "!" => 17, _ => panic!("{}", o),
    }
}
pub fn lit(v: &V) -> String {
    match v {
        V::Int(i) => i.to_string(),
        V::Dec(d) => { let s = format!("{}", d); if s.contains('.') { s } else { s + ".0" } }
        V::Dbl(d) => if d.is_nan() { "NaN".into() } else { format!("{:e}", d) },
        V::Str(s) => if s.contains('"') && !s.contains('\'') { format!("'{}'", s) } else { format!("\"{}\"", s.replace('"', "\"\"")) },
        V::Bool(x) => if *x { "true()".into() } else { "false()".into() },
        _ => panic!(),
    }
}
pub struct Pr { pub full: bool, pub toks: Vec<String> }
impl Pr {
    fn t(&mut self, s: &str) { self.toks.push(s.to_string()); }
    /// prints e where an expression of at least precedence p is wanted
    pub fn e(&mut self, e: &E, p: u8) {
        let paren = if self.full { prec(e) < 20 && p > 0 } else { prec(e) < p };
        if paren { self.t("("); self.raw(e); self.t(")"); } else { self.raw(e); }
    }
    fn list(&mut self, v: &[E]) { for (i, x) in v.iter().enumerate() { if i > 0 { self.t(","); } self.e(x, 1); } }
    fn raw(&mut self, e: &E) {
        match e {
            Lit(v) => match v {
                V::Bool(x) => { self.t(if *x { "true" } else { "false" }); self.t("("); self.t(")"); }
                _ => { let s = lit(v); self.t(&s); }
            },
            Raw(s, _) => self.t(s),
            Var(n) => self.t(&format!("${}", n)),
            Dot => self.t("."),
            Comma(v) => if v.is_empty() { self.t("("); self.t(")"); } else { self.list(v) },
            Bin(o, x, y) => {
                let p = binprec(o);
                // comparisons and 'to' do not associate, the others associate to the left
                let lp = if p == 4 || p == 6 { p + 1 } else { p };
                self.e(x, lp); self.t(o); self.e(y, p + 1);
            }
            Un(c, x) => { self.t(&c.to_string()); self.e(x, 16); }
            If(c, t, f) => { self.t("if"); self.t("("); self.e(c, 0); self.t(")"); self.t("then"); self.e(t, 1); self.t("else"); self.e(f, 1); }
            Bind(k, bs, body) => {
                self.t(match k { Bk::For => "for", Bk::Let => "let", Bk::Some => "some", Bk::Every => "every" });
                for (i, (n, x)) in bs.iter().enumerate() {
                    if i > 0 { self.t(","); }
                    self.t(&format!("${}", n)); self.t(if *k == Bk::Let { ":=" } else { "in" }); self.e(x, 1);
                }
                self.t(if matches!(k, Bk::For | Bk::Let) { "return" } else { "satisfies" }); self.e(body, 1);
            }
            Inst(x, t) => { self.e(x, 12); self.t("instance"); self.t("of"); self.ty(t); }
            Cast(x, t, q) => { self.e(x, 15); self.t("cast"); self.t("as"); self.t(t); if *q { self.t("?"); } }
            Castable(x, t, q) => { self.e(x, 14); self.t("castable"); self.t("as"); self.t(t); if *q { self.t("?"); } }
            Path(r, steps) => {
                match r { Root::None => {}, Root::Slash => self.t("/"), Root::Slash2 => self.t("//") }
                for (i, (ss, s)) in steps.iter().enumerate() {
                    if i > 0 { self.t(if *ss { "//" } else { "/" }); }
                    match s { Step::Ax(a, t, ps) => self.axstep(a, t, ps), Step::Ex(x) => { let f = self.full; self.full = false; self.e(x, 19); self.full = f; } }
                }
            }
            Filter(x, ps) => { self.e(x, 19); self.preds(ps); }
            Call(f, a) => { self.t(f); self.t("("); self.list(a); self.t(")"); }
            Arrow(x, f, a) => { self.e(x, 15); self.t("=>"); self.t(f); self.t("("); self.list(a); self.t(")"); }
            Map(v) => { self.t("map"); self.t("{"); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { self.t(","); } self.e(k, 1); self.t(":"); self.e(x, 1); } self.t("}"); }
            ArrS(v) => { self.t("["); self.list(v); self.t("]"); }
            ArrC(x) => { self.t("array"); self.t("{"); if !matches!(&**x, Comma(v) if v.is_empty()) { self.e(x, 0); } self.t("}"); }
            Look(x, k) => { self.e(x, 19); self.t("?"); self.key(k); }
            ULook(k) => { self.t("?"); self.key(k); }
            Dyn(f, a) => { self.e(f, 19); self.t("("); self.list(a); self.t(")"); }
            Fun(ps, body) => {
                self.t("function"); self.t("(");
                for (i, (n, t)) in ps.iter().enumerate() { if i > 0 { self.t(","); } self.t(&format!("${}", n)); if let Some(t) = t { self.t("as"); self.ty(t); } }
                self.t(")"); self.t("{"); self.e(body, 0); self.t("}");
            }
            FRef(n, a) => { self.t(n); self.t("#"); self.t(&a.to_string()); }
            Par(x) => { self.t("("); self.e(x, 0); self.t(")"); }
        }
    }
    fn preds(&mut self, ps: &[E]) { for q in ps { self.t("["); self.e(q, 0); self.t("]"); } }
    fn axstep(&mut self, a: &str, t: &Test, ps: &[E]) {
        // abbreviations where they exist
        if a == "parent" && matches!(t, Test::Node) && ps.is_empty() { self.t(".."); return; }
        if a == "attribute" && !matches!(t, Test::At(_)) { self.t("@"); }
        else if a != "child" || matches!(t, Test::At(_)) { self.t(a); self.t("::"); }
        self.test(t); self.preds(ps);
    }
    fn kt(&mut self, n: &str, o: &Option<String>) { self.t(n); self.t("("); if let Some(x) = o { self.t(x); } self.t(")"); }
    fn test(&mut self, t: &Test) {
        match t {
            Test::Name(s) => self.t(s), Test::Star => self.t("*"), Test::PStar(p) => self.t(&format!("{}:*", p)), Test::StarL(l) => self.t(&format!("*:{}", l)),
            Test::Node => self.kt("node", &None), Test::Text => self.kt("text", &None), Test::Comment => self.kt("comment", &None),
            Test::Pi(o) => self.kt("processing-instruction", o), Test::El(o) => self.kt("element", o), Test::At(o) => self.kt("attribute", o),
        }
    }
    fn key(&mut self, k: &Key) {
        match k { Key::Name(s) => self.t(s), Key::Int(i) => self.t(&i.to_string()), Key::Star => self.t("*"), Key::Ex(x) => { self.t("("); self.e(x, 0); self.t(")"); } }
    }
    pub fn ty(&mut self, t: &Ty) {
        match t {
            Ty::Empty => { self.t("empty-sequence"); self.t("("); self.t(")"); }
            Ty::Of(i, c) => { self.it(i); if *c != ' ' { self.t(&c.to_string()); } }
        }
    }
    fn it(&mut self, i: &It) {
        match i {
            It::Atom(s) => self.t(s),
            It::Item => self.kt("item", &None), It::Node => self.kt("node", &None), It::El(o) => self.kt("element", o), It::At(o) => self.kt("attribute", o),
            It::Text => self.kt("text", &None), It::Comment => self.kt("comment", &None), It::Pi => self.kt("processing-instruction", &None),
            It::MapAny => self.kt("map", &Some("*".into())), It::ArrAny => self.kt("array", &Some("*".into())), It::FunAny => self.kt("function", &Some("*".into())),
            It::Map(k, v) => { self.t("map"); self.t("("); self.t(k); self.t(","); self.ty(v); self.t(")"); }
            It::Arr(v) => { self.t("array"); self.t("("); self.ty(v); self.t(")"); }
            It::Par(x) => { self.t("("); self.it(x); self.t(")"); }
        }
    }
}
fn namelike(c: char) -> bool { c.is_alphanumeric() || c == '_' || c == '.' || c == '-' || (c as u32) > 127 }
fn needs_sep(a: &str, z: &str) -> bool {
    let x = a.chars().last().unwrap(); let y = z.chars().next().unwrap();
    if namelike(x) && (namelike(y) || y == ':' ) { return !(x == '-' && a == "-") || false; }
    let sy = "</|:!=*?>.-+";
    if sy.contains(x) && sy.contains(y) { return true; }
    if x == '"' && y == '"' || x == '\'' && y == '\'' { return true; }
    x == '(' && y == ':'
}
/// The tokens as text.  None: one space where needed only; Some: random white space and comments.
pub fn join(toks: &[String], mut r: Option<&mut Rng>) -> String {
    let mut o = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let need = needs_sep(&toks[i - 1], t);
            let kw = namelike(toks[i - 1].chars().last().unwrap()) || namelike(t.chars().next().unwrap());
            match r.as_mut() {
                None => if need || (kw && !"()[],@/".contains(t.as_str()) && !"([@/$".contains(toks[i - 1].as_str())) { o.push(' '); },
                Some(r) => {
                    let k = r.below(12);
                    let s = match k { 0 => "\n", 1 => "\t ", 2 => "(: c :)", 3 => " (: a (: b :) - :) ", 4 | 5 => " ", 6 => "\r\n  ", _ => if need { " " } else { "" } };
                    o.push_str(s);
                }
            }
        }
        o.push_str(t);
    }
    o
}
pub fn text(e: &E) -> String { let mut p = Pr { full: false, toks: vec![] }; p.e(e, 0); join(&p.toks, None) }
pub fn text_full(e: &E) -> String { let mut p = Pr { full: true, toks: vec![] }; p.e(e, 0); join(&p.toks, None) }
pub fn text_spaced(e: &E, r: &mut Rng) -> String { let mut p = Pr { full: false, toks: vec![] }; p.e(e, 0); join(&p.toks, Some(r)) }

// ---------------------------------------------------------------- values
#[derive(Clone, Debug)]
pub enum V { Int(i64), Dec(f64), Dbl(f64), Str(String), Bool(bool), Node(usize), Map(Rc<Vec<(V, Vec<V>)>>), Arr(Rc<Vec<Vec<V>>>), Fun(Rc<(Vec<(String, Option<Ty>)>, E)>), FRef(String, usize) }
#[derive(Clone, Debug, PartialEq)]
pub enum X { Err, Skip }
pub type R = Result<Vec<V>, X>;
pub const SAFE: i64 = 1 << 53;

fn isnum(v: &V) -> bool { matches!(v, V::Int(_) | V::Dec(_) | V::Dbl(_)) }
pub fn numf(v: &V) -> f64 { match v { V::Int(i) => *i as f64, V::Dec(d) | V::Dbl(d) => *d, _ => panic!() } }
fn big(v: &V) -> bool { matches!(v, V::Int(i) if i.unsigned_abs() > SAFE as u64) }
fn atomic(v: &V) -> bool { isnum(v) || matches!(v, V::Str(_) | V::Bool(_)) }
fn int_of(d: f64) -> Result<i64, X> {
    if d.is_nan() || d.is_infinite() { return Err(X::Err); }
    let t = d.trunc();
    if t >= 9223372036854775808.0 || t < -9223372036854775808.0 { Err(X::Err) } else { Ok(t as i64) }
}
fn one(v: Vec<V>) -> Result<V, X> { if v.len() == 1 { Ok(v.into_iter().next().unwrap()) } else { Err(X::Err) } }
fn dec(d: f64) -> Result<V, X> { if d.is_finite() { Ok(V::Dec(d)) } else { Err(X::Skip) } }

pub struct Env<'a> { pub w: &'a World, pub vars: Vec<(String, Vec<V>)>, pub fuel: usize, pub fundepth: usize }
#[derive(Clone)]
pub struct Focus { pub item: Option<V>, pub pos: i64, pub size: i64, pub known: bool }

pub fn arith(o: &str, x: &V, y: &V) -> Result<V, X> {
    if matches!(x, V::Node(_)) || matches!(y, V::Node(_)) { return Err(X::Skip); }
    if !isnum(x) || !isnum(y) { return Err(X::Err); }
    if let (V::Int(p), V::Int(q)) = (x, y) {
        let (p, q) = (*p, *q);
        if o != "div" {
            if q == 0 && (o == "idiv" || o == "mod") { return Err(X::Err); }
            let r: i128 = match o { "+" => p as i128 + q as i128, "-" => p as i128 - q as i128, "*" => p as i128 * q as i128, "idiv" => p as i128 / q as i128, _ => p as i128 % q as i128 };
            return if r > i64::MAX as i128 || r < i64::MIN as i128 { Err(X::Err) } else { Ok(V::Int(r as i64)) };
        }
        if q == 0 { return Err(X::Err); }
        return dec(p as f64 / q as f64);
    }
    let (f, g) = (numf(x), numf(y));
    let dbl = matches!(x, V::Dbl(_)) || matches!(y, V::Dbl(_));
    let exactzero = matches!(y, V::Int(0)) || matches!(y, V::Dec(d) if *d == 0.0);
    if o == "idiv" {
        if g == 0.0 { return Err(X::Err); }
        if f.is_nan() || g.is_nan() || f.is_infinite() { return Err(X::Err); }
        return Ok(V::Int(int_of(f / g)?));
    }
    if exactzero && (o == "div" || o == "mod") { return Err(X::Err); }
    let r = match o { "+" => f + g, "-" => f - g, "*" => f * g, "div" => f / g, _ => f % g };
    if dbl { Ok(V::Dbl(r)) } else { dec(r) }
}
/// -1, 0, 1, or None for unordered (NaN)
pub fn cmpnum(x: &V, y: &V) -> Result<Option<i32>, X> {
    if let (V::Int(p), V::Int(q)) = (x, y) { return Ok(Some(if p < q { -1 } else if p > q { 1 } else { 0 })); }
    if big(x) || big(y) { return Err(X::Skip); }
    let (f, g) = (numf(x), numf(y));
    Ok(if f < g { Some(-1) } else if f > g { Some(1) } else if f == g { Some(0) } else { None })
}
fn rel(o: &str, c: Option<i32>) -> bool {
    match o {
        "eq" | "=" => c == Some(0), "ne" | "!=" => c != Some(0), "lt" | "<" => c == Some(-1), "gt" | ">" => c == Some(1),
        "le" | "<=" => c == Some(-1) || c == Some(0), _ => c == Some(1) || c == Some(0),
    }
}
/// Ok(None): not comparable
pub fn cmpatom(o: &str, x: &V, y: &V) -> Result<Option<bool>, X> {
    if isnum(x) && isnum(y) { return Ok(Some(rel(o, cmpnum(x, y)?))); }
    match (x, y) {
        (V::Str(p), V::Str(q)) => { let c = p.chars().cmp(q.chars()); Ok(Some(rel(o, Some(c as i32)))) }
        (V::Bool(p), V::Bool(q)) => Ok(Some(rel(o, Some(p.cmp(q) as i32)))),
        _ => Ok(None),
    }
}
/// text of an atomic value
pub fn vstr(v: &V) -> Result<String, X> {
    match v {
        V::Int(i) => Ok(i.to_string()), V::Str(s) => Ok(s.clone()), V::Bool(x) => Ok(x.to_string()),
        V::Dec(d) => if d.abs() < 1e15 { Ok(format!("{}", d)) } else { Err(X::Skip) },
        V::Dbl(d) => if d.is_finite() && (*d == 0.0 && d.is_sign_positive() || d.abs() >= 1e-6 && d.abs() < 1e6) { Ok(format!("{}", d)) } else if d.is_nan() { Ok("NaN".into()) } else { Err(X::Skip) },
        _ => Err(X::Err),
    }
}
/// how the real crate writes a value
pub fn show(w: &World, v: &V) -> String {
    match v {
        V::Int(_) | V::Dec(_) => lit(v), V::Bool(x) => x.to_string(),
        V::Dbl(d) => if d.is_nan() { "NaN".into() } else if d.is_infinite() { (if *d > 0.0 { "+Infinity" } else { "-Infinity" }).into() } else if *d == 0.0 && d.is_sign_negative() { "-0e0".into() } else { format!("{:e}", d) },
        V::Str(s) => format!("\"{}\"", s),
        V::Node(i) => w.nd[*i].ptr.to_string(),
        V::Map(m) => format!("{{{}}}", m.iter().map(|(k, x)| format!("{} => {}", show(w, k), showseq(w, x))).collect::<Vec<_>>().join(", ")),
        V::Arr(a) => format!("[{}]", a.iter().map(|x| showseq(w, x)).collect::<Vec<_>>().join(", ")),
        _ => "function".into(),
    }
}
pub fn showseq(w: &World, v: &[V]) -> String { if v.len() == 1 { show(w, &v[0]) } else { format!("({})", v.iter().map(|x| show(w, x)).collect::<Vec<_>>().join(", ")) } }
pub fn samekey(x: &V, y: &V) -> Result<bool, X> {
    if isnum(x) && isnum(y) {
        if let (V::Int(p), V::Int(q)) = (x, y) { return Ok(p == q); }
        let (f, g) = (numf(x), numf(y));
        if f.is_nan() && g.is_nan() { return Ok(true); }
        if big(x) || big(y) { return Err(X::Skip); }
        return Ok(f == g);
    }
    Ok(match (x, y) { (V::Str(p), V::Str(q)) => p == q, (V::Bool(p), V::Bool(q)) => p == q, _ => false })
}
pub fn ebv(v: &[V]) -> Result<bool, X> {
    if v.is_empty() { return Ok(false); }
    if matches!(v[0], V::Node(_)) { return Ok(true); }
    if v.len() > 1 { return Err(X::Err); }
    match &v[0] { V::Bool(x) => Ok(*x), V::Str(s) => Ok(!s.is_empty()), V::Int(i) => Ok(*i != 0), V::Dec(d) | V::Dbl(d) => Ok(*d != 0.0 && !d.is_nan()), _ => Err(X::Err) }
}
pub fn uni(mut v: Vec<usize>) -> Vec<usize> { v.sort(); v.dedup(); v }
fn pat_int(s: &str) -> Option<i64> {
    let s = s.trim_matches(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r');
    let d = s.strip_prefix(|c| c == '+' || c == '-').unwrap_or(s);
    if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) { return None; }
    s.parse::<i64>().ok()
}
fn pat_dec(s: &str) -> bool {
    let s = s.trim_matches(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r');
    let d = s.strip_prefix(|c| c == '+' || c == '-').unwrap_or(s);
    let mut it = d.splitn(2, '.');
    let p = it.next().unwrap(); let q = it.next();
    let dg = |x: &str| x.chars().all(|c| c.is_ascii_digit());
    dg(p) && q.map_or(true, dg) && (!p.is_empty() || q.map_or(false, |x| !x.is_empty()))
}
fn num_text(s: &str) -> f64 { s.trim_matches(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r').parse::<f64>().unwrap_or(f64::NAN) }
fn pat_dbl(s: &str) -> Option<f64> {
    let s = s.trim_matches(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r');
    match s { "INF" => return Some(f64::INFINITY), "-INF" => return Some(f64::NEG_INFINITY), "NaN" => return Some(f64::NAN), _ => {} }
    let (m, e) = match s.find(|c| c == 'e' || c == 'E') { Some(i) => (&s[..i], Some(&s[i + 1..])), None => (s, None) };
    if m.trim() != m || !pat_dec(m) { return None; }
    if let Some(e) = e { let d = e.strip_prefix(|c| c == '+' || c == '-').unwrap_or(e); if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) { return None; } }
    Some(num_text(s))
}
pub fn cast(v: &V, t: &str) -> Result<V, X> {
    let t = t.strip_prefix("xs:").unwrap_or(t);
    if !atomic(v) { return Err(X::Err); }
    match t {
        "string" => Ok(V::Str(vstr(v)?)),
        "integer" => match v {
            V::Int(_) => Ok(v.clone()), V::Bool(x) => Ok(V::Int(*x as i64)), V::Dec(d) | V::Dbl(d) => Ok(V::Int(int_of(*d)?)),
            V::Str(s) => pat_int(s).map(V::Int).ok_or(X::Err), _ => Err(X::Err) },
        "decimal" => match v {
            V::Int(i) => Ok(V::Dec(*i as f64)), V::Bool(x) => Ok(V::Dec(*x as i64 as f64)), V::Dec(_) => Ok(v.clone()),
            V::Dbl(d) => if d.is_finite() { Ok(V::Dec(*d)) } else { Err(X::Err) },
            V::Str(s) => if pat_dec(s) { let f = num_text(s); if f.is_finite() { Ok(V::Dec(f)) } else { Err(X::Skip) } } else { Err(X::Err) }, _ => Err(X::Err) },
        "double" => match v {
            V::Int(i) => Ok(V::Dbl(*i as f64)), V::Bool(x) => Ok(V::Dbl(*x as i64 as f64)), V::Dec(d) | V::Dbl(d) => Ok(V::Dbl(*d)),
            V::Str(s) => pat_dbl(s).map(V::Dbl).ok_or(X::Err), _ => Err(X::Err) },
        "boolean" => match v {
            V::Bool(_) => Ok(v.clone()), V::Int(i) => Ok(V::Bool(*i != 0)), V::Dec(d) | V::Dbl(d) => Ok(V::Bool(*d != 0.0 && !d.is_nan())),
            V::Str(s) => match s.as_str() { "true" | "1" => Ok(V::Bool(true)), "false" | "0" => Ok(V::Bool(false)), x if x.trim() != x => Err(X::Skip), _ => Err(X::Err) }, _ => Err(X::Err) },
        _ => Err(X::Skip),
    }
}
pub fn match_it(w: &World, v: &V, t: &It) -> Result<bool, X> {
    Ok(match t {
        It::Item => true,
        It::Par(x) => return match_it(w, v, x),
        It::Atom(s) => {
            let s = s.strip_prefix("xs:").unwrap_or(s);
            match v {
                V::Int(_) => matches!(s, "integer" | "decimal" | "numeric" | "anyAtomicType"),
                V::Dec(_) => matches!(s, "decimal" | "numeric" | "anyAtomicType"),
                V::Dbl(_) => matches!(s, "double" | "numeric" | "anyAtomicType"),
                V::Str(_) => matches!(s, "string" | "anyAtomicType"),
                V::Bool(_) => matches!(s, "boolean" | "anyAtomicType"),
                _ => false,
            }
        }
        It::Node => matches!(v, V::Node(_)),
        It::El(o) => matches!(v, V::Node(i) if w.nd[*i].k == K::El && o.as_ref().map_or(true, |x| *x == w.nd[*i].name)),
        It::At(o) => matches!(v, V::Node(i) if w.nd[*i].k == K::At && o.as_ref().map_or(true, |x| *x == w.nd[*i].name)),
        It::Text => matches!(v, V::Node(i) if w.nd[*i].k == K::Tx),
        It::Comment => matches!(v, V::Node(i) if w.nd[*i].k == K::Co),
        It::Pi => matches!(v, V::Node(i) if w.nd[*i].k == K::Pi),
        It::MapAny => matches!(v, V::Map(_)), It::ArrAny => matches!(v, V::Arr(_)),
        It::FunAny => matches!(v, V::Map(_) | V::Arr(_) | V::Fun(_) | V::FRef(..)),
        It::Map(k, x) => match v { V::Map(m) => { for (kk, vv) in m.iter() { if !match_it(w, kk, &It::Atom(k.clone()))? || !match_ty(w, vv, x)? { return Ok(false); } } true } _ => false },
        It::Arr(x) => match v { V::Arr(m) => { for vv in m.iter() { if !match_ty(w, vv, x)? { return Ok(false); } } true } _ => false },
    })
}
pub fn match_ty(w: &World, v: &[V], t: &Ty) -> Result<bool, X> {
    match t {
        Ty::Empty => Ok(v.is_empty()),
        Ty::Of(i, c) => {
            let n = v.len();
            if !match c { ' ' => n == 1, '?' => n <= 1, '+' => n >= 1, _ => true } { return Ok(false); }
            for x in v { if !match_it(w, x, i)? { return Ok(false); } }
            Ok(true)
        }
    }
}

impl<'a> Env<'a> {
    pub fn new(w: &'a World) -> Env<'a> { Env { w, vars: vec![], fuel: 20000, fundepth: 0 } }
    fn atom(&self, v: &V) -> V { if let V::Node(i) = v { V::Str(self.w.string(*i)) } else { v.clone() } }
    fn ev1(&mut self, e: &E, f: &Focus) -> Result<V, X> { let v = self.ev(e, f)?; one(v) }
    fn nodes(&self, v: &[V]) -> Result<Vec<usize>, X> { let mut o = vec![]; for x in v { if let V::Node(i) = x { o.push(*i); } else { return Err(X::Skip); } } Ok(o) }
    pub fn ev(&mut self, e: &E, f: &Focus) -> R {
        if self.fuel == 0 { return Err(X::Skip); }
        self.fuel -= 1;
        match e {
            Lit(v) | Raw(_, v) => Ok(vec![v.clone()]),
            Var(n) => self.vars.iter().rev().find(|x| x.0 == *n).map(|x| x.1.clone()).ok_or(X::Skip),
            Dot => f.item.clone().map(|x| vec![x]).ok_or(X::Skip),
            Par(x) => self.ev(x, f),
            Comma(v) => { let mut o = vec![]; let mut er = None; for x in v { match self.ev(x, f) { Ok(p) => o.extend(p), Err(x) => { if er.is_none() || x == X::Skip { er = Some(x); } } } } match er { Some(x) => Err(x), None => Ok(o) } }
            If(c, t, z) => { let c = self.ev(c, f)?; if ebv(&c)? { self.ev(t, f) } else { self.ev(z, f) } }
            Un(c, x) => {
                let v = self.ev(x, f)?;
                if v.is_empty() { return Err(X::Skip); }
                let v = one(v)?;
                match (&v, c) { (V::Node(_), _) => Err(X::Skip), (V::Int(i), '-') => i.checked_neg().map(|i| vec![V::Int(i)]).ok_or(X::Err), (V::Dec(d), '-') => Ok(vec![V::Dec(if *d == 0.0 { return Err(X::Skip) } else { -*d })]), (V::Dbl(d), '-') => Ok(vec![V::Dbl(-*d)]), (x, _) if isnum(x) => Ok(vec![v]), _ => Err(X::Err) }
            }
            Bin(o, x, y) => self.bin(o, x, y, f),
            Bind(k, bs, body) => {
                let depth = self.vars.len();
                let r = self.bind(*k, bs, body, f);
                self.vars.truncate(depth);
                r
            }
            Inst(x, t) => { let v = self.ev(x, f)?; Ok(vec![V::Bool(match_ty(self.w, &v, t)?)]) }
            Cast(x, t, q) => { let v = self.ev(x, f)?; self.cast(&v, t, *q) }
            Castable(x, t, q) => { let v = self.ev(x, f)?; match self.cast(&v, t, *q) { Ok(_) => Ok(vec![V::Bool(true)]), Err(X::Err) => Ok(vec![V::Bool(false)]), Err(x) => Err(x) } }
            Path(r, steps) => self.path(*r, steps, f),
            Filter(x, ps) => { let mut v = self.ev(x, f)?; for q in ps { v = self.filter(v, q)?; } Ok(v) }
            Call(n, a) => { let a = self.args(a, f)?; self.call(n, a, f) }
            Arrow(x, n, a) => { let mut v = vec![self.ev(x, f)?]; v.extend(self.args(a, f)?); self.call(n, v, f) }
            Map(v) => {
                let mut m: Vec<(V, Vec<V>)> = vec![];
                for (k, x) in v {
                    let k = self.ev(k, f)?; let k = one(k)?; let k = self.atom(&k);
                    if !atomic(&k) { return Err(X::Err); }
                    let x = self.ev(x, f)?;
                    for (kk, _) in &m { if samekey(kk, &k)? { return Err(X::Err); } }
                    m.push((k, x));
                }
                Ok(vec![V::Map(Rc::new(m))])
            }
            ArrS(v) => { let v = self.args(v, f)?; Ok(vec![V::Arr(Rc::new(v))]) }
            ArrC(x) => { let v = self.ev(x, f)?; Ok(vec![V::Arr(Rc::new(v.into_iter().map(|x| vec![x]).collect()))]) }
            Look(x, k) => { let v = self.ev(x, f)?; let mut o = vec![]; for it in v { o.extend(self.look(&it, k, f)?); } Ok(o) }
            ULook(k) => { let it = f.item.clone().ok_or(X::Skip)?; self.look(&it, k, f) }
            Dyn(g, a) => {
                let g = self.ev1(g, f)?; let a = self.args(a, f)?; self.apply(&g, a)
            }
            Fun(p, body) => Ok(vec![V::Fun(Rc::new((p.clone(), (**body).clone())))]),
            FRef(n, a) => Ok(vec![V::FRef(n.clone(), *a)]),
        }
    }
    pub fn apply(&mut self, g: &V, mut a: Vec<Vec<V>>) -> R {
        match g {
            V::Map(m) => {
                if a.len() != 1 { return Err(X::Err); }
                let k = one(a.remove(0))?; let k = self.atom(&k);
                if !atomic(&k) { return Err(X::Err); }
                for (kk, v) in m.iter() { if samekey(kk, &k)? { return Ok(v.clone()); } }
                Err(X::Skip)
            }
            V::Arr(m) => {
                if a.len() != 1 { return Err(X::Err); }
                match one(a.remove(0))? { V::Int(i) => if i >= 1 && i as u64 <= m.len() as u64 { Ok(m[i as usize - 1].clone()) } else { Err(X::Err) }, _ => Err(X::Skip) }
            }
            V::Fun(fb) => {
                if fb.0.len() != a.len() { return Err(X::Err); }
                if self.fundepth > 8 { return Err(X::Skip); }
                for ((_, t), v) in fb.0.iter().zip(a.iter()) { if let Some(t) = t { if !match_ty(self.w, v, t)? { return Err(X::Skip); } } }
                let depth = self.vars.len();
                for ((n, _), v) in fb.0.iter().zip(a.into_iter()) { self.vars.push((n.clone(), v)); }
                self.fundepth += 1;
                let r = self.ev(&fb.1, &Focus { item: None, pos: 0, size: 0, known: false });
                self.fundepth -= 1;
                self.vars.truncate(depth);
                r
            }
            V::FRef(n, k) => { if *k != a.len() { return Err(X::Err); } let n = n.clone(); self.call(&n, a, &Focus { item: None, pos: 0, size: 0, known: false }) }
            _ => Err(X::Err),
        }
    }
    fn look(&mut self, it: &V, k: &Key, f: &Focus) -> R {
        let keys: Vec<V> = match k {
            Key::Star => return match it {
                V::Map(m) => Ok(m.iter().flat_map(|x| x.1.clone()).collect()), V::Arr(m) => Ok(m.iter().flat_map(|x| x.clone()).collect()), _ => Err(X::Err) },
            Key::Name(s) => vec![V::Str(s.clone())], Key::Int(i) => vec![V::Int(*i)], Key::Ex(e) => self.ev(e, f)?,
        };
        let mut o = vec![];
        for k in keys {
            match it {
                V::Map(m) => { let k = self.atom(&k); for (kk, v) in m.iter() { if samekey(kk, &k)? { o.extend(v.clone()); } } }
                V::Arr(m) => match k { V::Int(i) => if i >= 1 && i as u64 <= m.len() as u64 { o.extend(m[i as usize - 1].clone()) } else { return Err(X::Skip) }, _ => return Err(X::Skip) },
                _ => return Err(X::Err),
            }
        }
        Ok(o)
    }
    fn cast(&mut self, v: &[V], t: &str, q: bool) -> R {
        if v.is_empty() { return if q { Ok(vec![]) } else { Err(X::Err) }; }
        if v.len() > 1 { return Err(X::Err); }
        let a = self.atom(&v[0]);
        Ok(vec![cast(&a, t)?])
    }
    fn bind(&mut self, k: Bk, bs: &[(String, E)], body: &E, f: &Focus) -> R {
        if bs.is_empty() {
            let v = self.ev(body, f)?;
            return if matches!(k, Bk::Some | Bk::Every) { Ok(vec![V::Bool(ebv(&v)?)]) } else { Ok(v) };
        }
        let v = self.ev(&bs[0].1, f)?;
        if k == Bk::Let {
            self.vars.push((bs[0].0.clone(), v));
            let r = self.bind(k, &bs[1..], body, f); self.vars.pop();
            return r;
        }
        let mut o = vec![]; let mut bad = None; let mut hit = false;
        for it in v {
            self.vars.push((bs[0].0.clone(), vec![it]));
            let r = self.bind(k, &bs[1..], body, f); self.vars.pop();
            match r {
                Err(x) => { if bad.is_none() || x == X::Skip { bad = Some(x); } }
                Ok(r) => match k {
                    Bk::For => o.extend(r),
                    _ => if let V::Bool(z) = &r[0] { if *z == (k == Bk::Some) { hit = true; } },
                },
            }
        }
        // an error may or may not be met before the answer is settled
        match (k, bad, hit) {
            (Bk::For, Some(x), _) => Err(x), (Bk::For, None, _) => Ok(o),
            (_, Some(_), true) => Err(X::Skip), (_, Some(x), false) => Err(x),
            (_, None, h) => Ok(vec![V::Bool(h == (k == Bk::Some))]),
        }
    }
    pub fn filter(&mut self, v: Vec<V>, q: &E) -> R {
        let n = v.len() as i64; let mut o = vec![];
        for (i, it) in v.into_iter().enumerate() {
            let p = i as i64 + 1;
            let r = self.ev(q, &Focus { item: Some(it.clone()), pos: p, size: n, known: true })?;
            let keep = if r.len() == 1 && isnum(&r[0]) { if big(&r[0]) { false } else { numf(&r[0]) == p as f64 } } else { ebv(&r)? };
            if keep { o.push(it); }
        }
        Ok(o)
    }
    fn path(&mut self, r: Root, steps: &[(bool, Step)], f: &Focus) -> R {
        let mut cur: Vec<V> = match r {
            Root::None => match &f.item { Some(_) => vec![], None => vec![] },
            _ => match &f.item { Some(V::Node(i)) => { let mut v = vec![V::Node(self.w.root(*i))]; if r == Root::Slash2 { v = self.step(v, &dos())?; } v } Some(_) => return Err(X::Skip), None => return Err(X::Skip) },
        };
        for (i, (ss, s)) in steps.iter().enumerate() {
            if i == 0 && r == Root::None {
                // the first step sees the outer focus
                match s {
                    Step::Ex(x) => { cur = self.ev(x, f)?; if cur.iter().all(|x| matches!(x, V::Node(_))) { if steps.len() > 1 { cur = uni(self.nodes(&cur)?).into_iter().map(V::Node).collect(); } } else if steps.len() > 1 { return Err(X::Err); } }
                    Step::Ax(..) => { let it = f.item.clone().ok_or(X::Skip)?; cur = self.step(vec![it], s)?; }
                }
                continue;
            }
            if *ss && i > 0 { cur = self.step(cur, &dos())?; }
            cur = self.step(cur, s)?;
        }
        Ok(cur)
    }
    /// one step on a sorted node sequence
    fn step(&mut self, cur: Vec<V>, s: &Step) -> R {
        if cur.iter().any(|x| !matches!(x, V::Node(_))) { return Err(X::Err); }
        match s {
            Step::Ax(a, t, ps) => {
                let mut o = vec![];
                for n in &cur {
                    if let V::Node(i) = n {
                        let m = self.w.axis(*i, a).ok_or(X::Skip)?;
                        let mut v: Vec<V> = m.into_iter().filter(|j| self.w.test(*j, a, t)).map(V::Node).collect();
                        for q in ps { v = self.filter(v, q)?; }
                        o.extend(self.nodes(&v)?);
                    }
                }
                Ok(uni(o).into_iter().map(V::Node).collect())
            }
            Step::Ex(e) => {
                let n = cur.len() as i64; let mut o = vec![];
                for (i, it) in cur.into_iter().enumerate() { o.extend(self.ev(e, &Focus { item: Some(it), pos: i as i64 + 1, size: n, known: true })?); }
                let k = o.iter().filter(|x| matches!(x, V::Node(_))).count();
                if k == o.len() { Ok(uni(self.nodes(&o)?).into_iter().map(V::Node).collect()) } else if k == 0 { Ok(o) } else { Err(X::Err) }
            }
        }
    }
    fn bin(&mut self, o: &str, x: &E, y: &E, f: &Focus) -> R {
        if o == "!" {
            let v = self.ev(x, f)?; let n = v.len() as i64; let mut r = vec![];
            for (i, it) in v.into_iter().enumerate() { r.extend(self.ev(y, &Focus { item: Some(it), pos: i as i64 + 1, size: n, known: true })?); }
            return Ok(r);
        }
        if o == "and" || o == "or" {
            let p = self.ev(x, f).and_then(|v| ebv(&v)); let q = self.ev(y, f).and_then(|v| ebv(&v));
            let stop = o == "or";
            return match (p, q) {
                (Ok(p), Ok(q)) => Ok(vec![V::Bool(if stop { p || q } else { p && q })]),
                (Err(X::Skip), _) | (_, Err(X::Skip)) => Err(X::Skip),
                (Ok(p), Err(_)) if p == stop => Err(X::Skip), (Err(_), Ok(q)) if q == stop => Err(X::Skip),
                _ => Err(X::Err),
            };
        }
        let (p, q) = match (self.ev(x, f), self.ev(y, f)) {
            (Ok(p), Ok(q)) => (p, q), (Err(X::Skip), _) | (_, Err(X::Skip)) => return Err(X::Skip), _ => return Err(X::Err) };
        match o {
            "+" | "-" | "*" | "div" | "idiv" | "mod" => {
                if p.is_empty() || q.is_empty() { return Err(X::Skip); }
                if p.len() > 1 || q.len() > 1 { return Err(X::Err); }
                Ok(vec![arith(o, &p[0], &q[0])?])
            }
            "eq" | "ne" | "lt" | "le" | "gt" | "ge" => {
                if p.is_empty() || q.is_empty() { return Ok(vec![]); }
                if p.len() > 1 || q.len() > 1 { return Err(X::Err); }
                let (p, q) = (self.atom(&p[0]), self.atom(&q[0]));
                match cmpatom(o, &p, &q)? { Some(z) => Ok(vec![V::Bool(z)]), None => Err(X::Err) }
            }
            "=" | "!=" | "<" | "<=" | ">" | ">=" => {
                let mut r = false;
                for x in &p { for y in &q {
                    let node = matches!(x, V::Node(_)) || matches!(y, V::Node(_));
                    let (x, y) = (self.atom(x), self.atom(y));
                    match cmpatom(o, &x, &y)? {
                        Some(z) => r |= z,
                        None => { if node || o != "=" || !atomic(&x) || !atomic(&y) { return Err(X::Skip); } }
                    }
                } }
                Ok(vec![V::Bool(r)])
            }
            "is" | "<<" | ">>" => {
                if p.is_empty() || q.is_empty() { return Err(X::Skip); }
                if p.len() > 1 || q.len() > 1 { return Err(X::Err); }
                match (&p[0], &q[0]) { (V::Node(i), V::Node(j)) => Ok(vec![V::Bool(match o { "is" => i == j, "<<" => i < j, _ => i > j })]), _ => Err(X::Err) }
            }
            "||" => {
                let mut s = String::new();
                for v in [&p, &q].iter() { if v.len() > 1 { return Err(X::Err); } if v.len() == 1 { let a = self.atom(&v[0]); s += &vstr(&a)?; } }
                Ok(vec![V::Str(s)])
            }
            "to" => {
                if p.is_empty() || q.is_empty() { return Err(X::Skip); }
                match (one(p)?, one(q)?) {
                    (V::Int(i), V::Int(j)) => if i > j { Ok(vec![]) } else if j.checked_sub(i).map_or(true, |d| d > 2000) { Err(X::Skip) } else { Ok((i..=j).map(V::Int).collect()) },
                    (V::Node(_), _) | (_, V::Node(_)) => Err(X::Skip),
                    (x, y) => if isnum(&x) && isnum(&y) { Err(X::Skip) } else { Err(X::Err) },
                }
            }
            "union" | "|" | "intersect" | "except" => {
                let (p, q) = (self.nodes(&p)?, self.nodes(&q)?);
                let v: Vec<usize> = match o { "intersect" => p.into_iter().filter(|i| q.contains(i)).collect(), "except" => p.into_iter().filter(|i| !q.contains(i)).collect(), _ => p.into_iter().chain(q).collect() };
                Ok(uni(v).into_iter().map(V::Node).collect())
            }
            _ => panic!("{}", o),
        }
    }
    fn args(&mut self, a: &[E], f: &Focus) -> Result<Vec<Vec<V>>, X> {
        let mut o = vec![]; let mut er = None;
        for x in a { match self.ev(x, f) { Ok(v) => o.push(v), Err(x) => if er.is_none() || x == X::Skip { er = Some(x) } } }
        match er { Some(x) => Err(x), None => Ok(o) }
    }
    /// a string argument: empty counts as the empty string
    fn sarg(&self, v: &[V]) -> Result<String, X> {
        if v.is_empty() { return Ok(String::new()); }
        if v.len() > 1 { return Err(X::Err); }
        match self.atom(&v[0]) { V::Str(s) => Ok(s), x if atomic(&x) => Err(X::Skip), _ => Err(X::Skip) }
    }
    fn narg(&self, v: &[V]) -> Result<f64, X> { if v.len() != 1 { return Err(X::Skip); } if isnum(&v[0]) && !big(&v[0]) { Ok(numf(&v[0])) } else if let V::Int(i) = v[0] { Ok(i as f64) } else { Err(X::Skip) } }
    fn iarg(&self, v: &[V]) -> Result<i64, X> { if v.len() != 1 { return Err(X::Skip); } if let V::Int(i) = v[0] { Ok(i) } else { Err(X::Skip) } }
    pub fn call(&mut self, n: &str, a: Vec<Vec<V>>, f: &Focus) -> R {
        let s1 = |s: String| -> R { Ok(vec![V::Str(s)]) };
        let b1 = |x: bool| -> R { Ok(vec![V::Bool(x)]) };
        let i1 = |x: usize| -> R { Ok(vec![V::Int(x as i64)]) };
        // fn:round to nearest, halves up
        let rnd = |d: f64| -> f64 { if d.is_nan() || d.is_infinite() { d } else { let t = d.floor(); if d - t >= 0.5 { t + 1.0 } else { t } } };
        match (n, a.len()) {
            ("position", 0) => if f.known { i1(f.pos as usize) } else { Err(X::Skip) },
            ("last", 0) => if f.known { i1(f.size as usize) } else { Err(X::Skip) },
            ("true", 0) => b1(true), ("false", 0) => b1(false),
            ("not", 1) => b1(!ebv(&a[0])?), ("boolean", 1) => b1(ebv(&a[0])?),
            ("count", 1) => i1(a[0].len()), ("empty", 1) => b1(a[0].is_empty()), ("exists", 1) => b1(!a[0].is_empty()),
            ("head", 1) => Ok(a[0].iter().take(1).cloned().collect()), ("tail", 1) => Ok(a[0].iter().skip(1).cloned().collect()),
            ("reverse", 1) => Ok(a[0].iter().rev().cloned().collect()),
            ("remove", 2) => { let p = self.iarg(&a[1])?; Ok(a[0].iter().enumerate().filter(|(i, _)| *i as i64 + 1 != p).map(|x| x.1.clone()).collect()) }
            ("insert-before", 3) => {
                let p = self.iarg(&a[1])?; let p = if p < 1 { 0 } else { ((p - 1) as u64).min(a[0].len() as u64) as usize };
                let mut v = a[0][..p].to_vec(); v.extend(a[2].iter().cloned()); v.extend(a[0][p..].iter().cloned()); Ok(v)
            }
            ("subsequence", 2) | ("subsequence", 3) => {
                let p = rnd(self.narg(&a[1])?); let e = if a.len() == 3 { p + rnd(self.narg(&a[2])?) } else { f64::INFINITY };
                Ok(a[0].iter().enumerate().filter(|(i, _)| { let q = *i as f64 + 1.0; q >= p && q < e }).map(|x| x.1.clone()).collect())
            }
            ("index-of", 2) => {
                let t = one(a[1].clone()).map_err(|_| X::Skip)?; let t = self.atom(&t);
                if !atomic(&t) { return Err(X::Skip); }
                let mut o = vec![];
                for (i, x) in a[0].iter().enumerate() { let x = self.atom(x); if !atomic(&x) { return Err(X::Skip); } if cmpatom("eq", &x, &t)? == Some(true) { o.push(V::Int(i as i64 + 1)); } }
                Ok(o)
            }
            ("zero-or-one", 1) => if a[0].len() <= 1 { Ok(a[0].clone()) } else { Err(X::Err) },
            ("one-or-more", 1) => if a[0].len() >= 1 { Ok(a[0].clone()) } else { Err(X::Err) },
            ("exactly-one", 1) => if a[0].len() == 1 { Ok(a[0].clone()) } else { Err(X::Err) },
            ("sum", 1) => {
                let mut t = V::Int(0);
                for x in &a[0] { if !isnum(x) { return Err(X::Skip); } t = arith("+", &t, x)?; }
                Ok(vec![t])
            }
            ("avg", 1) => {
                if a[0].is_empty() { return Ok(vec![]); }
                let mut t = V::Int(0);
                for x in &a[0] { if !isnum(x) { return Err(X::Skip); } t = arith("+", &t, x)?; }
                if big(&t) { return Err(X::Skip); }
                Ok(vec![arith("div", &t, &V::Int(a[0].len() as i64))?])
            }
            ("max", 1) | ("min", 1) => {
                if a[0].is_empty() { return Ok(vec![]); }
                if a[0].iter().any(|x| !isnum(x) || numf(x).is_nan() || (numf(x) == 0.0 && !matches!(x, V::Int(_)))) { return Err(X::Skip); }
                let mut m = a[0][0].clone();
                for x in &a[0][1..] { let c = cmpnum(x, &m)?; if c == Some(0) && show(self.w, x) != show(self.w, &m) { return Err(X::Skip); } if c == Some(if n == "max" { 1 } else { -1 }) { m = x.clone(); } }
                Ok(vec![m])
            }
            ("abs", 1) | ("floor", 1) | ("ceiling", 1) | ("round", 1) => {
                if a[0].is_empty() { return Ok(vec![]); }
                if a[0].len() > 1 || !isnum(&a[0][0]) { return Err(X::Skip); }
                let g = |d: f64| match n { "abs" => d.abs(), "floor" => d.floor(), "ceiling" => d.ceil(), _ => rnd(d) };
                Ok(vec![match &a[0][0] {
                    V::Int(i) => if n == "abs" { V::Int(i.checked_abs().ok_or(X::Err)?) } else { V::Int(*i) },
                    V::Dec(d) => { let r = g(*d); if r == 0.0 && *d < 0.0 { return Err(X::Skip); } V::Dec(r) }
                    V::Dbl(d) => { let r = g(*d); if r == 0.0 && d.is_sign_negative() && n != "abs" { return Err(X::Skip); } V::Dbl(r) }
                    _ => unreachable!(),
                }])
            }
            ("string", 0) => match &f.item { Some(x) => s1(vstr(&self.atom(x))?), None => Err(X::Skip) },
            ("string", 1) => if a[0].is_empty() { s1(String::new()) } else if a[0].len() > 1 { Err(X::Err) } else { let x = self.atom(&a[0][0]); if !atomic(&x) { return Err(X::Skip); } s1(vstr(&x)?) },
            ("data", 1) => { let v: Vec<V> = a[0].iter().map(|x| self.atom(x)).collect(); if v.iter().any(|x| !atomic(x)) { Err(X::Skip) } else { Ok(v) } }
            ("number", 1) => { if a[0].len() != 1 { return Err(X::Skip); } let x = self.atom(&a[0][0]); match cast(&x, "double") { Ok(v) => Ok(vec![v]), _ => Err(X::Skip) } }
            ("name", 1) => match &a[0][..] { [V::Node(i)] => s1(if matches!(self.w.nd[*i].k, K::El | K::At | K::Pi) { self.w.nd[*i].name.clone() } else { return Err(X::Skip) }), _ => Err(X::Skip) },
            ("name", 0) => match &f.item { Some(V::Node(i)) => s1(if matches!(self.w.nd[*i].k, K::El | K::At | K::Pi) { self.w.nd[*i].name.clone() } else { return Err(X::Skip) }), _ => Err(X::Skip) },
            ("local-name", 1) => match &a[0][..] { [V::Node(i)] => s1(if matches!(self.w.nd[*i].k, K::El | K::At) { split(&self.w.nd[*i].name).1.to_string() } else { return Err(X::Skip) }), _ => Err(X::Skip) },
            ("root", 1) => match &a[0][..] { [V::Node(i)] => Ok(vec![V::Node(self.w.root(*i))]), _ => Err(X::Skip) },
            ("concat", k) if k >= 2 => { let mut s = String::new(); for v in &a { if v.len() > 1 { return Err(X::Skip); } if v.len() == 1 { let x = self.atom(&v[0]); if !atomic(&x) { return Err(X::Skip); } s += &vstr(&x)?; } } s1(s) }
            ("string-join", 1) | ("string-join", 2) => {
                let sep = if a.len() == 2 { if a[1].len() != 1 { return Err(X::Skip); } self.sarg(&a[1])? } else { String::new() };
                let mut v = vec![]; for x in &a[0] { match self.atom(x) { V::Str(s) => v.push(s), _ => return Err(X::Skip) } }
                s1(v.join(&sep))
            }
            ("string-length", 1) => i1(self.sarg(&a[0])?.chars().count()),
            ("upper-case", 1) => s1(self.sarg(&a[0])?.to_uppercase()), ("lower-case", 1) => s1(self.sarg(&a[0])?.to_lowercase()),
            ("contains", 2) => b1(find(&self.sarg(&a[0])?, &self.sarg(&a[1])?).is_some()),
            ("starts-with", 2) => b1({ let (s, t) = (self.sarg(&a[0])?, self.sarg(&a[1])?); let c: Vec<char> = s.chars().collect(); let d: Vec<char> = t.chars().collect(); c.len() >= d.len() && c[..d.len()] == d[..] }),
            ("ends-with", 2) => b1({ let (s, t) = (self.sarg(&a[0])?, self.sarg(&a[1])?); let c: Vec<char> = s.chars().collect(); let d: Vec<char> = t.chars().collect(); c.len() >= d.len() && c[c.len() - d.len()..] == d[..] }),
            ("substring-before", 2) => { let (s, t) = (self.sarg(&a[0])?, self.sarg(&a[1])?); s1(match find(&s, &t) { Some(i) => s.chars().take(i).collect(), None => String::new() }) }
            ("substring-after", 2) => { let (s, t) = (self.sarg(&a[0])?, self.sarg(&a[1])?); s1(match find(&s, &t) { Some(i) => s.chars().skip(i + t.chars().count()).collect(), None => String::new() }) }
            ("translate", 3) => {
                let s = self.sarg(&a[0])?; let m: Vec<char> = self.sarg(&a[1])?.chars().collect(); let t: Vec<char> = self.sarg(&a[2])?.chars().collect();
                s1(s.chars().filter_map(|c| match m.iter().position(|x| *x == c) { None => Some(c), Some(i) => t.get(i).cloned() }).collect())
            }
            ("substring", 2) | ("substring", 3) => {
                let s = self.sarg(&a[0])?; let p = self.narg(&a[1])?; let l = if a.len() == 3 { self.narg(&a[2])? } else { 0.0 };
                if a.len() == 3 && (p.is_infinite() && l.is_infinite()) { return Err(X::Skip); }
                let p = rnd(p); let e = if a.len() == 3 { p + rnd(l) } else { f64::INFINITY };
                s1(s.chars().enumerate().filter(|(i, _)| { let q = *i as f64 + 1.0; q >= p && q < e }).map(|x| x.1).collect())
            }
            ("string-to-codepoints", 1) => Ok(self.sarg(&a[0])?.chars().map(|c| V::Int(c as i64)).collect()),
            ("codepoints-to-string", 1) => { let mut s = String::new(); for x in &a[0] { match x { V::Int(i) => s.push(if *i >= 0 && *i < 0x110000 { char::from_u32(*i as u32).ok_or(X::Err)? } else { return Err(X::Err) }), _ => return Err(X::Skip) } } s1(s) }
            ("compare", 2) => { if a[0].len() != 1 || a[1].len() != 1 { return Err(X::Skip); } let (p, q) = (self.sarg(&a[0])?, self.sarg(&a[1])?); Ok(vec![V::Int(p.chars().cmp(q.chars()) as i64)]) }
            ("codepoint-equal", 2) => { if a[0].len() != 1 || a[1].len() != 1 { return Err(X::Skip); } b1(self.sarg(&a[0])? == self.sarg(&a[1])?) }
            ("for-each", 2) => { let g = one(a[1].clone())?; let mut o = vec![]; for x in &a[0] { o.extend(self.apply(&g, vec![vec![x.clone()]])?); } Ok(o) }
            ("filter", 2) => { let g = one(a[1].clone())?; let mut o = vec![]; for x in &a[0] { let r = self.apply(&g, vec![vec![x.clone()]])?; if r.len() != 1 { return Err(X::Skip); } match r[0] { V::Bool(true) => o.push(x.clone()), V::Bool(false) => {}, _ => return Err(X::Skip) } } Ok(o) }
            ("map:size", 1) => match &a[0][..] { [V::Map(m)] => i1(m.len()), _ => Err(X::Err) },
            ("map:keys", 1) => match &a[0][..] { [V::Map(m)] => Ok(m.iter().map(|x| x.0.clone()).collect()), _ => Err(X::Err) },
            ("map:contains", 2) | ("map:get", 2) => match &a[0][..] {
                [V::Map(m)] => {
                    let k = one(a[1].clone())?; let k = self.atom(&k); if !atomic(&k) { return Err(X::Skip); }
                    for (kk, v) in m.iter() { if samekey(kk, &k)? { return if n == "map:get" { Ok(v.clone()) } else { b1(true) }; } }
                    if n == "map:get" { Ok(vec![]) } else { b1(false) }
                }
                _ => Err(X::Err) },
            ("array:size", 1) => match &a[0][..] { [V::Arr(m)] => i1(m.len()), _ => Err(X::Err) },
            ("array:get", 2) => match &a[0][..] {
                [V::Arr(m)] => match &a[1][..] { [V::Int(i)] => if *i >= 1 && *i as u64 <= m.len() as u64 { Ok(m[*i as usize - 1].clone()) } else { Ok(vec![]) }, _ => Err(X::Skip) },
                _ => Err(X::Err) },
            ("array:flatten", 1) => Ok(flat(&a[0])),
            _ => Err(X::Skip),
        }
    }
}
fn flat(v: &[V]) -> Vec<V> { v.iter().flat_map(|x| match x { V::Arr(m) => m.iter().flat_map(|y| flat(y)).collect(), _ => vec![x.clone()] }).collect() }
/// index, in characters, of the first occurrence
pub fn find(s: &str, t: &str) -> Option<usize> {
    let c: Vec<char> = s.chars().collect(); let d: Vec<char> = t.chars().collect();
    (0..=c.len()).find(|&i| i + d.len() <= c.len() && c[i..i + d.len()] == d[..])
}
pub fn dos() -> Step { Step::Ax("descendant-or-self", Test::Node, vec![]) }

// ---------------------------------------------------------------- comparing
/// the real answer, item by item
pub fn check(w: &World, ctx: usize, text: &str, want: &R) -> Result<(), String> {
    let got = w.nd[ctx].ptr.eval_xpath(text);
    check_got(w, &got, want)
}
pub fn check_got<T: std::fmt::Display>(w: &World, got: &Result<amxml::xpath::Sequence, T>, want: &R) -> Result<(), String> {
    match (got, want) {
        (_, Err(X::Skip)) => Ok(()),
        (Err(_), Err(X::Err)) => Ok(()),
        (Ok(s), Err(X::Err)) => Err(format!("answers {} where an error is due", s.to_string())),
        (Err(e), Ok(v)) => Err(format!("fails ({}) where {} is due", e, showseq(w, v))),
        (Ok(s), Ok(v)) => {
            if s.len() != v.len() { return Err(format!("answers {} items, {}, where {} is due", s.len(), s.to_string(), showseq(w, v))); }
            for (i, x) in v.iter().enumerate() {
                let it = s.get_item(i);
                let ok = match x {
                    V::Node(j) => match it.as_nodeptr() { Some(p) => p == w.nd[*j].ptr, None => false },
                    V::Fun(_) | V::FRef(..) => true,
                    _ => it.as_nodeptr().is_none() && (hasfun(x) || it.to_string() == show(w, x)),
                };
                if !ok { return Err(format!("answers {}, where {} is due (item {})", s.to_string(), showseq(w, v), i + 1)); }
            }
            Ok(())
        }
    }
}
fn hasfun(v: &V) -> bool { match v { V::Fun(_) | V::FRef(..) => true, V::Map(m) => m.iter().any(|x| x.1.iter().any(hasfun)), V::Arr(m) => m.iter().any(|x| x.iter().any(hasfun)), _ => false } }

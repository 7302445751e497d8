//! Random XPath expressions, directed by the kind of value wanted.
use crate::core::*;
use crate::rx::*;
use crate::rx::E::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T { Int, Num, Str, Bool, Nodes, Seq, Any }
pub struct G<'a> { pub r: &'a mut Rng, pub vars: Vec<(String, T)>, pub ctx: Option<T>, pub names: &'static [&'static str], pub posfun: bool }
pub const NAMES: &[&str] = &["a", "b", "c", "p:a", "p:d", "q:b"];
pub const AXES: &[&str] = &["self", "child", "parent", "ancestor", "ancestor-or-self", "descendant", "descendant-or-self", "following", "following-sibling", "preceding", "preceding-sibling", "attribute"];
pub const STRS: &[&str] = &["", "a", "b", "ab", "aba", "1", "2.5", "true", "A", "é", "xyz", " ", "日本", "\u{1F600}a", "10", "it's", "say \"x\""];

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng) -> G<'a> { G { r, vars: vec![], ctx: Some(T::Nodes), names: NAMES, posfun: false } }
    pub fn c(&mut self, n: usize) -> usize { self.r.below(n) }
    pub fn smallint(&mut self) -> i64 { self.r.range(-3, 6) }
    pub fn intlit(&mut self) -> E { let i = self.smallint(); if i < 0 { Un('-', b(Lit(V::Int(-i)))) } else { Lit(V::Int(i)) } }
    pub fn declit(&mut self) -> E { let v = *self.r.pick(&[0.5, 1.5, 2.0, 2.5, 3.25, 10.0, 0.0, 1.0]); Lit(V::Dec(v)) }
    pub fn dbllit(&mut self) -> E { let v = *self.r.pick(&[0.5, 1.5, 2.0, 2.5, 100.0, 0.0, 1.0, 3.0]); Lit(V::Dbl(v)) }
    pub fn strlit(&mut self) -> E { let s = *self.r.pick(STRS); st(s) }
    pub fn lit(&mut self, t: T) -> E {
        match t {
            T::Int => self.intlit(), T::Num => match self.c(3) { 0 => self.intlit(), 1 => self.declit(), _ => self.dbllit() },
            T::Str => self.strlit(), T::Bool => Lit(V::Bool(self.r.chance(1, 2))),
            T::Nodes => self.path(1),
            T::Seq => { let n = self.c(4); let v = (0..n).map(|_| { let k = self.c(4); match k { 0 => self.strlit(), 1 => Lit(V::Bool(self.r.chance(1, 2))), _ => self.lit(T::Num) } }).collect(); seq(v) }
            T::Any => { let k = *self.r.pick(&[T::Int, T::Num, T::Str, T::Bool, T::Nodes, T::Seq]); self.lit(k) }
        }
    }
    pub fn test(&mut self, ax: &str) -> Test {
        let n = self.r.pick(self.names).to_string();
        match self.c(if ax == "attribute" { 9 } else { 14 }) {
            0..=3 => Test::Name(n), 4 | 5 => Test::Star, 6 => Test::PStar(split(&n).0.to_string()).fix(), 7 => Test::StarL(split(&n).1.to_string()), 8 | 9 => Test::Node,
            10 => Test::Text, 11 => Test::Comment, 12 => Test::El(if self.r.chance(1, 2) { Some(n) } else { None }), _ => Test::Pi(if self.r.chance(1, 2) { Some("pi".into()) } else { None }),
        }
    }
    pub fn axis(&mut self) -> &'static str { if self.r.chance(1, 2) { *self.r.pick(&["child", "descendant", "child", "attribute", "self", "parent"]) } else { *self.r.pick(AXES) } }
    pub fn axstep(&mut self, d: usize) -> Step {
        let ax = self.axis(); let t = self.test(ax);
        let np = if d > 0 { *self.r.pick(&[0, 0, 0, 1, 1, 2]) } else { 0 };
        let ps = self.preds(np, T::Nodes, d);
        Step::Ax(ax, t, ps)
    }
    pub fn preds(&mut self, n: usize, item: T, d: usize) -> Vec<E> {
        let (c, p) = (self.ctx, self.posfun);
        self.ctx = Some(item); self.posfun = true;
        let v = (0..n).map(|_| self.pred(d)).collect();
        self.ctx = c; self.posfun = p;
        v
    }
    pub fn pred(&mut self, d: usize) -> E {
        let d = d.saturating_sub(1);
        match self.c(11) {
            0 | 1 => Lit(V::Int(self.r.range(0, 4))), 2 => call("last", vec![]),
            3 => { let o = *self.r.pick(&["=", "<", ">", "<=", ">=", "!=", "lt", "ge"]); let i = Lit(V::Int(self.r.range(0, 4))); bin(o, call("position", vec![]), i) }
            4 => { let k = Lit(V::Int(self.r.range(0, 2))); bin("-", call("last", vec![]), k) }
            5 => { let k = Lit(V::Int(2)); bin("=", bin("mod", call("position", vec![]), k), Lit(V::Int(self.r.range(0, 1)))) }
            6 => { let o = *self.r.pick(&["=", "<", "!="]); bin(o, call("position", vec![]), call("last", vec![])) }
            7 => if self.ctx == Some(T::Nodes) { self.path(d) } else { self.gen(T::Bool, d) },
            8 => self.gen(T::Num, d), 9 => self.declit(),
            _ => self.gen(T::Bool, d),
        }
    }
    pub fn path(&mut self, d: usize) -> E {
        if self.ctx != Some(T::Nodes) { return if let Some(v) = self.var(T::Nodes) { v } else { Comma(vec![]) }; }
        let root = match self.c(4) { 0 => Root::Slash, 1 | 2 => Root::Slash2, _ => Root::None };
        let n = 1 + self.c(3);
        let mut steps = vec![];
        for i in 0..n {
            let ss = i > 0 && self.r.chance(1, 5);
            if i == 0 && root == Root::None && self.r.chance(1, 6) && n > 1 { steps.push((ss, Step::Ex(Dot))); continue; }
            if i > 0 && d > 1 && self.r.chance(1, 8) {
                let e = match self.c(3) { 0 => { let p = self.path(d - 2); let q = self.path(d - 2); Par(b(bin("|", p, q))) } 1 => { let p = self.path(d - 2); let q = self.path(d - 2); Par(b(Comma(vec![p, q]))) } _ => Par(b(self.path(d - 2))) };
                steps.push((ss, Step::Ex(e)));
                continue;
            }
            steps.push((ss, self.axstep(d)));
        }
        if n == 1 && root == Root::None { if let Step::Ex(_) = steps[0].1 { return Dot; } }
        Path(root, steps)
    }
    pub fn var(&mut self, t: T) -> Option<E> {
        // shadowing: only the innermost binding of a name counts
        let mut c: Vec<String> = vec![];
        for (i, (n, k)) in self.vars.iter().enumerate() { if *k == t && !self.vars[i + 1..].iter().any(|x| x.0 == *n) { c.push(n.clone()); } }
        if c.is_empty() { None } else { let i = self.c(c.len()); Some(Var(c[i].clone())) }
    }
    pub fn fresh(&mut self) -> String { self.r.pick(&["x", "y", "z", "x"]).to_string() }
    /// item kind of a sequence kind
    fn binder(&mut self, t: T, d: usize) -> E {
        let k = self.c(3);
        let n = 1 + self.c(2);
        let depth = self.vars.len();
        let mut bs = vec![];
        for _ in 0..n {
            let nm = self.fresh();
            if k == 0 { let vt = *self.r.pick(&[T::Int, T::Str, T::Bool, T::Num, T::Seq]); let e = self.gen(vt, d - 1); bs.push((nm.clone(), e)); self.vars.push((nm, vt)); }
            else if self.r.chance(1, 4) && self.ctx == Some(T::Nodes) { let e = self.path(d - 1); bs.push((nm.clone(), e)); self.vars.push((nm, T::Nodes)); }
            else { let e = self.intseq(d - 1); bs.push((nm.clone(), e)); self.vars.push((nm, T::Int)); }
        }
        let body = self.gen(if k == 2 && t != T::Bool { T::Seq } else { t }, d - 1);
        self.vars.truncate(depth);
        Bind(if k == 0 { Bk::Let } else { Bk::For }, bs, b(body))
    }
    pub fn quant(&mut self, d: usize) -> E {
        let n = 1 + self.c(2); let depth = self.vars.len(); let mut bs = vec![];
        for _ in 0..n { let nm = self.fresh(); let e = self.intseq(d.saturating_sub(1)); bs.push((nm.clone(), e)); self.vars.push((nm, T::Int)); }
        let body = self.gen(T::Bool, d.saturating_sub(1)); self.vars.truncate(depth);
        Bind(if self.r.chance(1, 2) { Bk::Some } else { Bk::Every }, bs, b(body))
    }
    pub fn intseq(&mut self, d: usize) -> E {
        match self.c(4) {
            0 => { let i = self.r.range(-1, 3); let j = i + self.r.range(-1, 4); Par(b(bin("to", int(i), int(j)))) }
            1 if d > 0 => { let v = (0..self.c(3) + 1).map(|_| self.gen(T::Int, d - 1)).collect(); seq(v) }
            _ => { let n = self.c(4); let v = (0..n).map(|_| self.intlit()).collect(); seq(v) }
        }
    }
    pub fn gen(&mut self, t: T, d: usize) -> E {
        if self.r.chance(1, 4) { if let Some(v) = self.var(t) { return v; } }
        if d == 0 { return self.lit(t); }
        let d1 = d - 1;
        if t != T::Nodes && self.r.chance(1, 9) { return self.binder(t, d); }
        if self.r.chance(1, 10) { let c = self.gen(T::Bool, d1); let x = self.gen(t, d1); let y = self.gen(t, d1); return If(b(c), b(x), b(y)); }
        match t {
            T::Int => match self.c(10) {
                0..=3 => { let o = *self.r.pick(&["+", "-", "*", "idiv", "mod"]); let x = self.gen(T::Int, d1); let y = self.gen(T::Int, d1); bin(o, x, y) }
                4 => { let x = self.gen(T::Int, d1); Un(if self.r.chance(3, 4) { '-' } else { '+' }, b(x)) }
                5 => { let x = self.gen(T::Seq, d1); call("count", vec![x]) }
                6 => { let x = self.intseq(d1); call("sum", vec![x]) }
                7 => { let x = self.gen(T::Str, d1); call("string-length", vec![x]) }
                8 => if self.posfun { call(*self.r.pick(&["position", "last"]), vec![]) } else { let x = self.path(d1); call("count", vec![x]) },
                _ => { let x = self.gen(T::Int, d1); Arrow(b(x), "abs".into(), vec![]) }
            },
            T::Num => match self.c(8) {
                0..=3 => { let o = *self.r.pick(&["+", "-", "*", "div", "mod"]); let x = self.gen(T::Num, d1); let y = self.gen(T::Num, d1); bin(o, x, y) }
                4 => { let x = self.gen(T::Num, d1); Un('-', b(x)) }
                5 => { let x = self.gen(T::Num, d1); call(*self.r.pick(&["abs", "floor", "ceiling", "round"]), vec![x]) }
                6 => self.gen(T::Int, d1),
                _ => { let x = self.gen(T::Num, d1); Cast(b(x), self.r.pick(&["xs:integer", "xs:double", "xs:decimal"]).to_string(), false) }
            },
            T::Str => match self.c(8) {
                0 | 1 => { let x = self.gen(T::Str, d1); let y = if self.r.chance(1, 3) { self.gen(T::Int, d1) } else { self.gen(T::Str, d1) }; bin("||", x, y) }
                2 => { let x = self.gen(T::Str, d1); let y = self.gen(T::Str, d1); call("concat", vec![x, y]) }
                3 => { let x = self.gen(T::Str, d1); let y = self.gen(T::Int, d1); call("substring", vec![x, y]) }
                4 => { let x = self.gen(T::Int, d1); Cast(b(x), "xs:string".into(), false) }
                5 => { let x = self.gen(T::Str, d1); let y = self.gen(T::Str, d1); call(*self.r.pick(&["substring-before", "substring-after"]), vec![x, y]) }
                6 => { let x = self.gen(T::Int, d1); Arrow(b(x), "string".into(), vec![]) }
                _ => self.strlit(),
            },
            T::Bool => match self.c(12) {
                0 | 1 => { let o = *self.r.pick(&["and", "or"]); let x = self.gen(T::Bool, d1); let y = self.gen(T::Bool, d1); bin(o, x, y) }
                2 => { let o = *self.r.pick(&["eq", "ne", "lt", "le", "gt", "ge"]); let k = *self.r.pick(&[T::Int, T::Num, T::Str, T::Bool]); let x = self.gen(k, d1); let y = self.gen(k, d1); bin(o, x, y) }
                3 | 4 => { let o = *self.r.pick(&["=", "!=", "<", "<=", ">", ">="]); let x = self.intseq(d1); let y = self.gen(T::Num, d1); bin(o, x, y) }
                5 => { let x = self.gen(T::Any, d1); call("not", vec![x]) }
                6 => self.quant(d1),
                7 => { let x = self.gen(T::Seq, d1); call(*self.r.pick(&["empty", "exists"]), vec![x]) }
                8 => { let x = self.gen(T::Any, d1); let t = self.ty(); Inst(b(x), t) }
                9 => { let x = self.gen(T::Str, d1); let t = self.atomty(); let q = self.r.chance(1, 3); Castable(b(x), t, q) }
                10 => { let x = self.gen(T::Str, d1); let y = self.gen(T::Str, d1); call(*self.r.pick(&["contains", "starts-with", "ends-with"]), vec![x, y]) }
                _ => { let x = self.path(d1); let y = self.gen(T::Str, d1); bin("=", x, y) }
            },
            T::Nodes => match self.c(8) {
                0 | 1 => { let o = *self.r.pick(&["union", "|", "intersect", "except"]); let x = self.gen(T::Nodes, d1); let y = self.gen(T::Nodes, d1); bin(o, x, y) }
                2 => { let x = self.gen(T::Nodes, d1); let n = 1 + self.c(2); let p = self.preds(n, T::Nodes, d1); Filter(b(Par(b(x))), p) }
                _ => self.path(d),
            },
            T::Seq => match self.c(12) {
                0 | 1 => { let v = (0..self.c(3) + 1).map(|_| { let k = *self.r.pick(&[T::Int, T::Num, T::Str, T::Seq, T::Bool]); self.gen(k, d1) }).collect(); seq(v) }
                2 => self.intseq(d1),
                3 => { let x = self.gen(T::Seq, d1); let n = 1 + self.c(2); let p = self.preds(n, T::Any, d1); Filter(b(Par(b(x))), p) }
                4 => { let x = self.intseq(d1); let p = self.preds(1, T::Int, d1); Filter(b(Par(b(x))), p) }
                5 => { let x = self.intseq(d1); let (c, p) = (self.ctx, self.posfun); self.ctx = Some(T::Int); self.posfun = true; let kk = *self.r.pick(&[T::Int, T::Str, T::Seq]); let y = self.gen(kk, d1); self.ctx = c; self.posfun = p; let y = if self.r.chance(1, 3) { bin("+", Dot, Lit(V::Int(1))) } else { y }; bin("!", x, Par(b(y))) }
                6 => { let x = self.gen(T::Seq, d1); call(*self.r.pick(&["reverse", "tail", "head"]), vec![x]) }
                7 => { let x = self.gen(T::Seq, d1); let i = self.gen(T::Int, d1); call(*self.r.pick(&["remove", "subsequence"]), vec![x, i]) }
                8 => { let x = self.gen(T::Seq, d1); let i = self.gen(T::Int, d1); let y = self.gen(T::Seq, d1); call("insert-before", vec![x, i, y]) }
                9 => { let x = self.gen(T::Nodes, d1); if self.ctx == Some(T::Nodes) { Path(Root::Slash2, vec![(false, Step::Ax("child", Test::Star, vec![])), (false, Step::Ex(call("name", vec![])))]) } else { x } }
                _ => self.gen(T::Int, d1),
            },
            T::Any => { let k = *self.r.pick(&[T::Int, T::Num, T::Str, T::Bool, T::Nodes, T::Seq]); self.gen(k, d) }
        }
    }
    pub fn atomty(&mut self) -> String { self.r.pick(&["xs:string", "xs:integer", "xs:decimal", "xs:double", "xs:boolean"]).to_string() }
    pub fn it(&mut self) -> It {
        let n = self.r.pick(self.names).to_string();
        match self.c(14) {
            0..=4 => It::Atom(self.r.pick(&["xs:string", "xs:integer", "xs:decimal", "xs:double", "xs:boolean", "xs:anyAtomicType"]).to_string()),
            5 => It::Item, 6 => It::Node, 7 => It::El(if self.r.chance(1, 2) { Some(n) } else { None }), 8 => It::At(if self.r.chance(1, 2) { Some(n) } else { None }),
            9 => It::Text, 10 => It::Comment, 11 => It::Pi, 12 => It::Par(Box::new(self.it())), _ => match self.c(5) { 0 => It::MapAny, 1 => It::ArrAny, 2 => It::FunAny, 3 => It::Arr(Box::new(self.ty())), _ => { let t = self.r.pick(&["xs:string", "xs:integer", "xs:anyAtomicType"]).to_string(); It::Map(t, Box::new(self.ty())) } },
        }
    }
    pub fn ty(&mut self) -> Ty { if self.r.chance(1, 14) { Ty::Empty } else { let i = self.it(); Ty::Of(i, *self.r.pick(&[' ', ' ', '?', '*', '+'])) } }
}
impl Test { fn fix(self) -> Test { match self { Test::PStar(p) if p.is_empty() => Test::Star, t => t } } }

/// A document for the XPath properties.
pub fn gen_xml(r: &mut Rng, size: usize) -> String {
    let mut left = size as i64;
    let mut s = String::new();
    if r.chance(1, 6) { s += "<!--top-->"; }
    if r.chance(1, 6) { s += "<?pi t?>"; }
    el(r, &mut s, &mut left, 0);
    if r.chance(1, 6) { s += "<?pj u?>"; }
    s
}
fn el(r: &mut Rng, s: &mut String, left: &mut i64, depth: usize) {
    let n = *r.pick(NAMES);
    *left -= 1;
    *s += "<"; *s += n;
    if depth == 0 { *s += " xmlns:p='u' xmlns:q='v'"; }
    let k = r.below(3); let off = r.below(4);
    for i in 0..k { *s += &format!(" {}='{}'", ["x", "a", "p:a", "y", "q:b", "x2"][off + i], *r.pick(&["1", "2", "ab", "", "true"])); }
    *s += ">";
    let kids = if depth > 5 { 0 } else { r.below(5) };
    for _ in 0..kids {
        if *left <= 0 { break; }
        *left -= 1;
        match r.below(10) { 0 => *s += "<!--c-->", 1 => *s += "<?pi d?>", 2 => *s += "<?pj d?>", 3 | 4 => { if !s.ends_with(|c: char| c != '>') { *s += *r.pick(&["1", "t", "ab", "2", " x "]); } } _ => el(r, s, left, depth + 1) }
    }
    *s += "</"; *s += n; *s += ">";
}

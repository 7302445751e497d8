//! weave: extracts functions and types from /repo/src on every run and puts the contracts of a unit
//! file next to them.  The text of a function is copied from the source file; the only changes are
//! the edits listed in RULES (reported with their number of uses) and the insertion of ghost text.
//!
//!   weave UNIT.vu --repo /repo --out unit.rs --report unit.json
use proc_macro2::{LineColumn, Span};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

// ------------------------------------------------------------------ source text and edits
struct Src { text: String, lines: Vec<usize> }
impl Src {
    fn new(text: String) -> Src {
        let mut lines = vec![0];
        for (i, b) in text.bytes().enumerate() { if b == b'\n' { lines.push(i + 1); } }
        Src { text, lines }
    }
    fn off(&self, lc: LineColumn) -> usize {
        let b = self.lines[lc.line - 1];
        // proc-macro2 counts columns in characters
        let rest = &self.text[b..];
        match rest.char_indices().nth(lc.column) { Some((i, _)) => b + i, None => self.text.len() }
    }
    fn range(&self, s: Span) -> (usize, usize) { (self.off(s.start()), self.off(s.end())) }
}

#[derive(Clone, Debug)]
enum Piece { Lit(String), Src(usize, usize) }
#[derive(Clone, Debug)]
struct Edit { a: usize, b: usize, pieces: Vec<Piece>, seq: usize }

fn render(src: &Src, edits: &[Edit], a: usize, b: usize, skip: Option<usize>) -> String {
    // outermost edits inside [a, b)
    let mut inner: Vec<(usize, &Edit)> = edits.iter().enumerate()
        .filter(|(i, e)| Some(*i) != skip && e.a >= a && e.b <= b)
        .filter(|(i, e)| {
            // an edit replaced as a whole by a wider one is rendered by that one
            !edits.iter().enumerate().any(|(j, o)| Some(j) != skip && j != *i && o.a >= a && o.b <= b
                && o.a < o.b && o.a <= e.a && e.b <= o.b && (o.b - o.a > e.b - e.a || (o.b - o.a == e.b - e.a && o.seq > e.seq))
                && !(e.a == e.b && (e.a == o.a || e.a == o.b)))
        }).collect();
    inner.sort_by_key(|(_, e)| (e.a, if e.a == e.b { 0 } else { 1 }, e.seq));
    let mut out = String::new();
    let mut pos = a;
    for (i, e) in inner {
        if e.a < pos { continue; }
        out.push_str(&src.text[pos..e.a]);
        for p in &e.pieces {
            match p {
                Piece::Lit(s) => out.push_str(s),
                Piece::Src(x, y) => {
                    let sk = if *x == e.a && *y == e.b { Some(i) } else { skip };
                    out.push_str(&render(src, edits, *x, *y, sk));
                }
            }
        }
        pos = e.b;
    }
    out.push_str(&src.text[pos..b]);
    out
}

// ------------------------------------------------------------------ unit file
#[derive(Default, Clone)]
struct Ghost { anchor: String, text: String }
#[derive(Default, Clone)]
struct FnSpec {
    path: String, source: String, ret: String, contract: String, assumed: bool, imported: String, rename: Option<String>,
    attrs: String, loops: BTreeMap<usize, String>, iters: BTreeMap<usize, String>, closures: BTreeMap<usize, String>,
    ghosts: Vec<Ghost>, props: Vec<String>, extra_params: String, call_args: Vec<(String, String)>, subst: Vec<(String, String)>, sigtext: Option<String>, getitem: bool, slice: usize, heap: Option<std::rc::Rc<HeapCfg>>,
}
#[derive(Default, Clone)]
struct HeapCfg { fields: Vec<String>, cells: Vec<String>, muts: Vec<String>, refs: Vec<String> }
enum Item { Table(String, String, String), Claim(FnSpec), Raw(String), Types(String, Vec<String>, Vec<(String, String)>), Fn(FnSpec), Const(FnSpec) }

fn parse_unit(text: &str, dir: &std::path::Path, expand: &mut Vec<String>) -> (Vec<Item>, BTreeMap<String, Vec<String>>, Vec<(String, String)>, Vec<(String, String)>) {
    let mut methods = vec![];
    let mut items = vec![];
    let mut props = BTreeMap::new();
    let mut global_subst = vec![];
    let mut source = String::new();
    let mut heap = HeapCfg::default();
    let mut it = text.lines().peekable();
    // returns the lines up to the next directive
    fn body<'a, I: Iterator<Item = &'a str>>(it: &mut std::iter::Peekable<I>) -> String {
        let mut s = String::new();
        while let Some(l) = it.peek() { if l.starts_with("%%") { break; } s.push_str(l); s.push('\n'); it.next(); }
        s
    }
    let mut cur: Option<FnSpec> = None;
    while let Some(l) = it.next() {
        if !l.starts_with("%%") { if !l.trim().is_empty() { die(&format!("text outside a section: {}", l)); } continue; }
        let l = l[2..].trim();
        let (w, rest) = match l.find(char::is_whitespace) { Some(i) => (&l[..i], l[i..].trim()), None => (l, "") };
        if w == "expand" { for x in rest.split_whitespace() { expand.push(x.to_string()); } continue; }
        let starts_item = ["raw", "types", "fn", "assume", "source", "include", "props", "gsubst", "method", "import", "heap", "const", "table", "claim"].contains(&w);
        if starts_item { if let Some(f) = cur.take() { items.push(Item::Fn(f)); } }
        match w {
            "#" => { body(&mut it); }
            "source" => source = rest.to_string(),
            // interior-mutable fields, and the functions that get the heap as a further parameter
            "heap" => { let mut p = rest.split_whitespace(); let k = p.next().unwrap();
                let v = match k { "fields" => &mut heap.fields, "cells" => &mut heap.cells, "mut" => &mut heap.muts, "ref" => &mut heap.refs, _ => die("heap fields|cells|mut|ref") };
                for x in p { v.push(x.to_string()); } }
            "raw" => items.push(Item::Raw(body(&mut it))),
            "include" => items.push(Item::Raw(std::fs::read_to_string(dir.join(rest)).unwrap_or_else(|e| die(&format!("{}: {}", rest, e))))),
            // the contracts of another unit: used here, proved there
            "import" => {
                let u = std::fs::read_to_string(dir.join(rest)).unwrap_or_else(|e| die(&format!("{}: {}", rest, e)));
                let (its, pr, gs, ms) = parse_unit(&u, dir, expand);
                for i in its { match i {
                    Item::Raw(t) => if !t.contains("fn main()") && !items.iter().any(|x| matches!(x, Item::Raw(y) if *y == t || *y == proved(&t))) { items.push(Item::Raw(proved(&t))) },
                    Item::Fn(mut f) => { if f.imported.is_empty() && !f.assumed { f.imported = rest.trim_end_matches(".vu").to_string(); } f.assumed = true; f.attrs = String::new(); items.push(Item::Fn(f)) },
                    Item::Claim(_) => {}
                    x => items.push(x) } }
                props.extend(pr); global_subst.extend(gs); methods.extend(ms);
            }
            "types" => {
                let mut names = vec![]; let mut sub = vec![];
                for x in rest.split_whitespace() { names.push(x.to_string()); }
                for x in body(&mut it).lines() { if let Some((a, b)) = x.split_once("=>") { sub.push((a.trim().to_string(), b.trim().to_string())); } }
                items.push(Item::Types(source.clone(), names, sub));
            }
            "gsubst" => { if let Some((a, b)) = rest.split_once("=>") { global_subst.push((a.trim().to_string(), b.trim().to_string())); } }
            "method" => { if let Some((a, b)) = rest.split_once("=>") { methods.push((a.trim().to_string(), b.trim().to_string())); } }
            "props" => { let mut p = rest.split_whitespace(); let n = p.next().unwrap().to_string(); props.insert(n, p.map(|s| s.to_string()).collect()); }
            // a constant table: its rows as a function, and the first row with a property
            "table" => { let mut p = rest.split_whitespace(); let n = p.next().unwrap().to_string(); items.push(Item::Table(source.clone(), n, p.next().unwrap_or("").to_string())); }
            // a lemma that is an obligation of its own
            "claim" => {
                let mut f = FnSpec { source: source.clone(), ..Default::default() };
                let mut p = rest.split_whitespace();
                f.path = p.next().unwrap().to_string();
                if p.next() == Some("props") { for x in p { f.props.push(x.into()); } }
                f.contract = body(&mut it);
                items.push(Item::Claim(f));
            }
            "const" => {
                let mut f = FnSpec { source: source.clone(), ..Default::default() };
                let mut p = rest.split_whitespace();
                f.path = p.next().unwrap().to_string();
                if p.next() == Some("props") { for x in p { f.props.push(x.into()); } }
                f.contract = body(&mut it);
                items.push(Item::Const(f));
            }
            "fn" | "assume" => {
                let mut f = FnSpec { source: source.clone(), assumed: w == "assume", ..Default::default() };
                let mut p = rest.split_whitespace();
                f.path = p.next().unwrap().to_string();
                f.ret = "r".into();
                while let Some(k) = p.next() {
                    match k { "ret" => f.ret = p.next().unwrap().into(), "as" => f.rename = Some(p.next().unwrap().into()),
                              "props" => { while let Some(x) = p.next() { f.props.push(x.into()); } }
                              k => die(&format!("unknown word {} in fn", k)) }
                }
                f.contract = body(&mut it);
                if !heap.fields.is_empty() {
                    f.heap = Some(std::rc::Rc::new(heap.clone()));
                    let n = f.path.rsplit("::").next().unwrap().to_string();
                    if heap.muts.contains(&n) { f.extra_params = "h: &mut Heap".into(); }
                    if heap.refs.contains(&n) { f.extra_params = "h: &Heap".into(); }
                }
                cur = Some(f);
            }
            "getitem" => cur.as_mut().unwrap().getitem = true,
            "slice" => cur.as_mut().unwrap().slice = rest.trim().parse().unwrap_or_else(|_| die("slice")),
            "attr" => cur.as_mut().unwrap().attrs.push_str(&format!("{}\n", rest)),
            "sig" => { let b = body(&mut it); cur.as_mut().unwrap().sigtext = Some(format!("{}\n{}", rest, b)); }
            "params" => cur.as_mut().unwrap().extra_params = rest.to_string(),
            "call" => { let (a, b) = rest.split_once("=>").unwrap(); cur.as_mut().unwrap().call_args.push((a.trim().into(), b.trim().into())); }
            "subst" | "subst?" => { let (a, b) = rest.split_once("=>").unwrap(); cur.as_mut().unwrap().subst.push((a.trim().into(), format!("{}{}", b.trim(), if w == "subst?" { "\0" } else { "" }))); }
            "loop" => {
                let mut p = rest.split_whitespace();
                let k: usize = p.next().unwrap().parse().unwrap();
                if p.next() == Some("iter") { cur.as_mut().unwrap().iters.insert(k, p.next().unwrap().into()); }
                let b = body(&mut it);
                cur.as_mut().unwrap().loops.insert(k, b);
            }
            "closure" => { let k: usize = rest.trim().parse().unwrap(); let b = body(&mut it); cur.as_mut().unwrap().closures.insert(k, b); }
            "at" => { let b = body(&mut it); cur.as_mut().unwrap().ghosts.push(Ghost { anchor: rest.to_string(), text: b }); }
            _ => die(&format!("unknown directive {}", w)),
        }
    }
    if let Some(f) = cur.take() { items.push(Item::Fn(f)); }
    (items, props, global_subst, methods)
}

/// the lemmas of an imported unit: proved there
fn proved(t: &str) -> String {
    let mut o = String::new();
    let mut prev = "";
    for l in t.lines() { if (l.starts_with("proof fn ") || l.starts_with("pub proof fn ")) && !prev.starts_with("#[") { o.push_str("#[verifier::external_body] /* proved in its own unit */ "); } o.push_str(l); o.push('\n'); prev = l; }
    o
}
/// The simple macros of a source file (one rule, parameters $x: expr) named by a "expand" directive:
/// each call is replaced by the body of the macro with the arguments put in, on the line of the call.
fn expand_macros(t: &str, names: &[String]) -> String {
    let mut defs: BTreeMap<String, (Vec<String>, String)> = BTreeMap::new();
    let src = Src::new(t.to_string());
    let file = match syn::parse_file(t) { Ok(f) => f, Err(_) => return t.to_string() };
    let mut cut: Vec<(usize, usize)> = vec![];
    for i in &file.items { if let syn::Item::Macro(m) = i {
        let n = match &m.ident { Some(n) => n.to_string(), None => continue };
        if !names.contains(&n) { continue; }
        let g: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
        let (ps, body) = match (&g[0], g.get(3)) { (proc_macro2::TokenTree::Group(a), Some(proc_macro2::TokenTree::Group(b))) if g.len() <= 5 => (a, b), _ => continue };
        let v: Vec<String> = ps.stream().into_iter().map(|x| x.to_string()).collect();
        let params: Vec<String> = v.windows(2).filter(|w| w[0] == "$").map(|w| w[1].clone()).collect();
        let (a, b) = src.range(body.span());
        let text: String = src.text[a + 1..b - 1].lines().map(|l| l.split("//").next().unwrap().trim().to_string()).collect::<Vec<_>>().join(" ");
        defs.insert(n, (params, text.trim().to_string()));
        cut.push(src.range(i.span()));
    } }
    let mut o = String::new(); let b = t.as_bytes(); let mut i = 0;
    'next: while i < b.len() {
        if !cut.iter().any(|(x, y)| *x <= i && i < *y) && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            for (n, (ps, body)) in &defs {
                let h = format!("{}!(", n);
                if !t[i..].starts_with(&h) { continue; }
                // the arguments, up to the matching parenthesis
                let mut args = vec![String::new()]; let mut d = 1; let mut k = i + h.len(); let mut str_ = false; let s: Vec<char> = t[k..].chars().take(4000).collect(); let mut c = 0;
                while c < s.len() {
                    let ch = s[c];
                    if str_ { if ch == '\\' { args.last_mut().unwrap().push(ch); c += 1; args.last_mut().unwrap().push(s[c]); c += 1; continue; } if ch == '"' { str_ = false; } args.last_mut().unwrap().push(ch); }
                    else if ch == '"' { str_ = true; args.last_mut().unwrap().push(ch); }
                    else if ch == '(' || ch == '[' || ch == '{' { d += 1; args.last_mut().unwrap().push(ch); }
                    else if ch == ')' || ch == ']' || ch == '}' { d -= 1; if d == 0 { break; } args.last_mut().unwrap().push(ch); }
                    else if ch == ',' && d == 1 { args.push(String::new()); }
                    else { args.last_mut().unwrap().push(ch); }
                    c += 1;
                }
                k += s[..=c.min(s.len() - 1)].iter().map(|x| x.len_utf8()).sum::<usize>();
                if args.len() != ps.len() { continue; }
                let mut x = body.clone();
                for (p, a) in ps.iter().zip(args.iter()) { x = sub_word(&x, &format!("${}", p), a.trim()); }
                o.push_str(&x);
                for _ in 0..t[i..k].matches('\n').count() { o.push('\n'); }
                // the statement's own semicolon
                if b.get(k) == Some(&b';') { k += 1; }
                i = k;
                continue 'next;
            }
        }
        let ch = t[i..].chars().next().unwrap(); o.push(ch); i += ch.len_utf8();
    }
    o
}
fn die(m: &str) -> ! { eprintln!("weave: {}", m); std::process::exit(4); }

// ------------------------------------------------------------------ finding items
fn ty_name(t: &syn::Type) -> String {
    match t { syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), _ => String::new() }
}
enum Found<'a> { Free(&'a syn::ItemFn), Method(&'a syn::ItemImpl, &'a syn::ImplItemFn) }
fn find_fn<'a>(f: &'a syn::File, path: &str) -> Option<Found<'a>> {
    let (t, n) = match path.split_once("::") { Some((a, b)) => (Some(a), b), None => (None, path) };
    for i in &f.items {
        match i {
            syn::Item::Fn(x) if t.is_none() && x.sig.ident == n => return Some(Found::Free(x)),
            syn::Item::Impl(im) if t.is_some() => {
                // Type or Trait for Type is written Trait@Type
                let want = t.unwrap();
                let tn = ty_name(&im.self_ty);
                let name = match &im.trait_ { Some((_, p, _)) => format!("{}@{}", p.segments.last().unwrap().ident, tn), None => tn };
                if name != want { continue; }
                for m in &im.items { if let syn::ImplItem::Fn(m) = m { if m.sig.ident == n { return Some(Found::Method(im, m)); } } }
            }
            _ => {}
        }
    }
    None
}

// ------------------------------------------------------------------ rewriting
const ERR_MACROS: &[&str] = &["xml_syntax_error", "xpath_syntax_error", "static_error", "dynamic_error", "type_error", "cant_occur", "uninplemented"];

struct Rw<'a> {
    src: &'a Src, edits: Vec<Edit>, rules: BTreeMap<&'static str, usize>,
    spec: &'a FnSpec,
    loops: usize, methods: &'a [(String, String)], closures: usize, calls: BTreeMap<String, usize>, returns: usize, lets: BTreeMap<String, usize>,
    binders: Vec<String>, callees: Vec<String>, structure: String,
    used: Vec<bool>, used_loops: Vec<usize>, stmt: Vec<(usize, usize)>,
}

impl<'a> Rw<'a> {
    fn add(&mut self, a: usize, b: usize, pieces: Vec<Piece>) { let seq = self.edits.len() + 10; self.edits.push(Edit { a, b, pieces, seq }); }
    fn ins(&mut self, at: usize, s: String) { self.add(at, at, vec![Piece::Lit(s)]); }
    fn rule(&mut self, r: &'static str) { *self.rules.entry(r).or_insert(0) += 1; }
    fn ghost(&mut self, anchor: &str, at: usize) {
        for k in 0..self.spec.ghosts.len() {
            if self.spec.ghosts[k].anchor == anchor {
                self.used[k] = true;
                let t = format!("\n{}\n", self.spec.ghosts[k].text.trim_end());
                self.ins(at, t);
            }
        }
    }
    fn r(&self, s: Span) -> (usize, usize) { self.src.range(s) }
    fn loop_head(&mut self, body: &syn::Block) -> usize {
        let k = self.loops; self.loops += 1;
        let (a, b) = self.r(body.span());
        if let Some(t) = self.spec.loops.get(&k) { self.used_loops.push(k); let t = format!("\n{}", t); self.ins(a, t); }
        self.ghost(&format!("loop {} begin", k), a + 1);
        self.ghost(&format!("loop {} end", k), b - 1);
        k
    }
    fn around_loop(&mut self, k: usize, s: Span) {
        let (a, b) = self.r(s);
        let (sa, sb) = *self.stmt.last().unwrap_or(&(a, b));
        let (a, b) = if sa <= a && b <= sb && b + 1 >= sb { (sa, sb) } else { (a, b) };
        self.ghost(&format!("loop {} before", k), a);
        self.ghost(&format!("loop {} after", k), b);
    }
    fn call_anchor(&mut self, name: &str) {
        let k = *self.calls.get(name).unwrap_or(&0);
        self.calls.insert(name.to_string(), k + 1);
        self.callees.push(name.to_string());
        let _ = write!(self.structure, "{}() ", name);
        if let Some((a, b)) = self.stmt.last().cloned() {
            self.ghost(&format!("call {} {} before", name, k), a);
            self.ghost(&format!("call {} {} after", name, k), b);
        }
        for (n, extra) in self.spec.call_args.clone() { let _ = (n, extra); }
    }
    fn extra_args(&mut self, name: &str, n_args: usize, close: usize) {
        if let Some(hc) = self.spec.heap.clone() {
            let extra = if hc.muts.iter().any(|x| x == name) { "h" } else if hc.refs.iter().any(|x| x == name) { "&*h" } else { "" };
            if !extra.is_empty() { let t = if n_args == 0 { extra.to_string() } else { format!(", {}", extra) }; self.ins(close, t); self.rule("heap-argument: the functions that read or change interior-mutable fields get the heap as a further parameter h"); }
        }
        for (n, extra) in self.spec.call_args.clone() {
            if n == name { let t = if n_args == 0 { extra } else { format!(", {}", extra) }; self.ins(close, t); self.rule("ghost-argument: a ghost argument is passed on"); }
        }
    }
    /// E.f.borrow(), E.f.borrow_mut().m(x), E.c.get(), E.c.set(x) and p.borrow() in heap mode
    fn heap_call(&mut self, e: &syn::ExprMethodCall) -> bool {
        let hc = match &self.spec.heap { Some(h) => h.clone(), None => return false };
        let n = e.method.to_string();
        let field = |x: &syn::Expr, fs: &[String]| -> Option<(syn::Expr, String)> { if let syn::Expr::Field(f) = x { if let syn::Member::Named(i) = &f.member { let i = i.to_string(); if fs.contains(&i) {
            let mut b = (*f.base).clone();
            if let syn::Expr::Paren(p) = &b { if let syn::Expr::Unary(u) = &*p.expr { if matches!(u.op, syn::UnOp::Deref(_)) { b = (*u.expr).clone(); } } }
            return Some((b, i)); } } } None };
        let (a, b) = self.r(e.span());
        let (_, o) = self.r(e.paren_token.span.open());
        const RULE: &str = "heap: a read or change of an interior-mutable field (E.children.borrow(), E.children.borrow_mut().push(x), E.order.get(), ..) becomes a call of a heap operation with an assumed contract; a borrow is a copy of the list at that moment, a conflicting borrow (which would panic) is not considered";
        if n == "borrow" {
            if let Some((base, f)) = field(&e.receiver, &hc.fields) {
                self.callees.push(format!("borrow_{}", f));
                let (xa, xb) = self.r(base.span());
                self.add(a, b, vec![Piece::Src(xa, xb), Piece::Lit(format!(".hb_{}(&*h)", f))]); self.rule(RULE);
                self.visit_expr_owned(&base); return true;
            }
            let (xa, xb) = self.r(e.receiver.span());
            self.callees.push("borrow".into());
            self.add(a, b, vec![Piece::Src(xa, xb), Piece::Lit(".hb(&*h)".into())]); self.rule(RULE);
            self.visit_expr_owned(&e.receiver); return true;
        }
        if n == "get" || n == "set" { if let Some((base, f)) = field(&e.receiver, &hc.cells) {
            self.call_anchor(&format!("{}_{}", n, f));
            let (xa, xb) = self.r(base.span());
            self.add(a, b, vec![Piece::Src(xa, xb), Piece::Lit(format!(".h{}_{}({}", n, f, if n == "get" { "&*h" } else { "h, " })), Piece::Src(o, b)]); self.rule(RULE);
            self.visit_expr_owned(&base); for x in &e.args { self.visit_expr_owned(x); } return true;
        } }
        if let syn::Expr::MethodCall(m) = &*e.receiver { if m.method == "borrow_mut" { if let Some((base, f)) = field(&m.receiver, &hc.fields) {
            self.call_anchor(&format!("{}_{}", f, n));
            let (xa, xb) = self.r(base.span());
            self.add(a, b, vec![Piece::Src(xa, xb), Piece::Lit(format!(".hm_{}_{}(h{}", f, n, if e.args.is_empty() { "" } else { ", " })), Piece::Src(o, b)]); self.rule(RULE);
            self.visit_expr_owned(&base); for x in &e.args { self.visit_expr_owned(x); } return true;
        } } }
        false
    }
    fn visit_expr_owned(&mut self, e: &syn::Expr) { self.visit_expr(e); }
    fn parse_args(m: &syn::Macro) -> Option<Vec<syn::Expr>> {
        let p = Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        p.parse2(m.tokens.clone()).ok().map(|x| x.into_iter().collect())
    }
}

fn lit_str(e: &syn::Expr) -> Option<String> {
    if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = e { Some(s.value()) } else { None }
}

impl<'a, 'ast> Visit<'ast> for Rw<'a> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let r = self.r(s.span());
        self.stmt.push(r);
        match s {
            syn::Stmt::Macro(m) => { self.visit_macro(&m.mac); }
            syn::Stmt::Local(l) => {
                visit::visit_stmt(self, s);
                let mut b = Binders(vec![]); b.visit_pat(&l.pat);
                for n in b.0 {
                    let k = *self.lets.get(&n).unwrap_or(&0);
                    self.lets.insert(n.clone(), k + 1);
                    self.ghost(&format!("let {} {} after", n, k), r.1);
                    self.ghost(&format!("let {} {} before", n, k), r.0);
                }
            }
            _ => visit::visit_stmt(self, s),
        }
        self.stmt.pop();
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let n = p.ident.to_string();
        if n != "None" && n != "EOF" { self.binders.push(n); }
        visit::visit_pat_ident(self, p);
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (x, y) = self.r(a.span());
        self.add(x, y, vec![]);
        self.rule("attribute: attributes and documentation dropped");
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        self.structure.push_str("loop{ ");
        let k = self.loop_head(&e.body);
        self.around_loop(k, e.span());
        visit::visit_expr_loop(self, e);
        self.structure.push_str("} ");
    }
    fn visit_expr_field(&mut self, e: &'ast syn::ExprField) {
        // (*x).f becomes x.f
        if self.spec.heap.is_some() { if let syn::Expr::Paren(p) = &*e.base { if let syn::Expr::Unary(u) = &*p.expr { if matches!(u.op, syn::UnOp::Deref(_)) {
            let (a, b) = self.r(e.base.span()); let (xa, xb) = self.r(u.expr.span());
            self.add(a, b, vec![Piece::Src(xa, xb)]); self.rule("deref: (*x).f becomes x.f");
        } } } }
        visit::visit_expr_field(self, e);
    }
    fn visit_expr_assign(&mut self, e: &'ast syn::ExprAssign) {
        if self.spec.heap.is_some() { if let syn::Expr::Unary(u) = &*e.left { if matches!(u.op, syn::UnOp::Deref(_)) { if let syn::Expr::MethodCall(m) = &*u.expr { if m.method == "borrow_mut" {
            let (a, b) = self.r(e.span()); let (xa, xb) = self.r(m.receiver.span()); let (ra, rb) = self.r(e.right.span());
            self.callees.push("borrow_mut".into());
            self.add(a, b, vec![Piece::Src(xa, xb), Piece::Lit(".hm(h, ".into()), Piece::Src(ra, rb), Piece::Lit(")".into())]);
            self.visit_expr_owned(&m.receiver); self.visit_expr_owned(&e.right); return;
        } } } } }
        visit::visit_expr_assign(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        self.structure.push_str("while{ ");
        if let syn::Expr::Let(l) = &*e.cond {
            // while let P = E { B }  ==>  loop { match E { P => { B } _ => { break; } } }
            let (a, _) = self.r(e.span()); let (ba, bb) = self.r(e.body.span());
            let (pa, pb) = self.r(l.pat.span()); let (ea, eb) = self.r(l.expr.span());
            let k = self.loops; self.loops += 1;
            let t = match self.spec.loops.get(&k) { Some(t) => { self.used_loops.push(k); format!("\n{}", t) }, None => String::new() };
            self.add(a, ba, vec![Piece::Lit(format!("loop {}{{ match ", t)), Piece::Src(ea, eb), Piece::Lit(" { ".into()), Piece::Src(pa, pb), Piece::Lit(" => ".into())]);
            self.ins(bb, " _ => { ".into());
            self.ghost(&format!("loop {} break", k), bb);
            self.ins(bb, " break; } } }".into());
            self.ghost(&format!("loop {} begin", k), ba + 1);
            self.ghost(&format!("loop {} end", k), bb - 1);
            self.around_loop(k, e.span());
            self.rule("while-let: while let P = E { B } becomes loop { match E { P => { B } _ => { break; } } }");
            visit::visit_expr_while(self, e);
            self.structure.push_str("} ");
            return;
        }
        let k = self.loop_head(&e.body);
        self.around_loop(k, e.span());
        visit::visit_expr_while(self, e);
        self.structure.push_str("} ");
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        self.structure.push_str("for{ ");
        let k = self.loop_head(&e.body);
        // for x in f(..).iter()  ==>  let vitK = f(..); for x in vitK.iter()
        let mut hoisted = false;
        if let syn::Expr::MethodCall(m) = &*e.expr { if m.method == "iter" && matches!(&*m.receiver, syn::Expr::MethodCall(_) | syn::Expr::Call(_)) {
            let (ra, rb) = self.r(m.receiver.span());
            let (a, _) = self.r(e.span());
            self.add(a, a, vec![Piece::Lit(format!("let vit{} = ", k)), Piece::Src(ra, rb), Piece::Lit(";\n".into())]);
            let (xa, xb) = self.r(e.expr.span());
            let ghost = match self.spec.iters.get(&k) { Some(it) => format!("{}: ", it), None => String::new() };
            self.add(xa, xb, vec![Piece::Lit(format!("{}vit{}", ghost, k)), Piece::Src(rb, xb)]);
            self.rule("hoist: for x in f(..).iter() becomes let v = f(..); for x in v.iter()");
            hoisted = true;
        } }
        // for .. { a; if c { b; continue; } d }  ==>  for .. { a; if c { b; } else { d } }
        for st in &e.body.stmts {
            let x = match st { syn::Stmt::Expr(syn::Expr::If(x), _) => x, _ => continue };
            if x.else_branch.is_some() { continue; }
            let last = match x.then_branch.stmts.last() { Some(syn::Stmt::Expr(syn::Expr::Continue(c), Some(_))) if c.label.is_none() => x.then_branch.stmts.last().unwrap(), _ => continue };
            let (ca, cb) = self.r(last.span());
            let (_, ib) = self.r(st.span());
            let (_, bb) = self.r(e.body.span());
            self.add(ca, cb, vec![]);
            self.ins(ib, " else {".into());
            self.ins(bb - 1, "}".into());
            self.rule("continue: if c { continue; } rest becomes if c { } else { rest }");
        }
        self.around_loop(k, e.span());
        let (xa, xb) = self.r(e.expr.span());
        if let Some(it) = self.spec.iters.get(&k) {
            let it = it.clone();
            if !hoisted { self.ins(xa, format!("{}: ", it)); }
        }
        // for (i, x) in E.iter().enumerate()  ==>  for i in 0..E.len() { let x = &E[i]; .. }
        let mut done = false;
        if let syn::Expr::MethodCall(m) = &*e.expr {
            if m.method == "enumerate" {
                if let syn::Expr::MethodCall(m2) = &*m.receiver {
                    if m2.method == "iter" {
                        if let syn::Pat::Tuple(t) = &*e.pat { if t.elems.len() == 2 {
                            let (pa, pb) = self.r(e.pat.span());
                            let (ia, ib) = self.r(t.elems[0].span());
                            let (va, vb) = self.r(t.elems[1].span());
                            let (ra, rb) = self.r(m2.receiver.span());
                            if self.spec.heap.is_some() && matches!(&*m2.receiver, syn::Expr::MethodCall(_)) {
                                let (a, _) = self.r(e.span());
                                self.add(a, a, vec![Piece::Lit(format!("let vit{} = ", k)), Piece::Src(ra, rb), Piece::Lit(";\n".into())]);
                                self.add(pa, pb, vec![Piece::Src(ia, ib)]);
                                self.add(xa, xb, vec![Piece::Lit(format!("0 .. vit{}.len()", k))]);
                                let (ba, _) = self.r(e.body.span());
                                self.add(ba + 1, ba + 1, vec![Piece::Lit(" let ".into()), Piece::Src(va, vb), Piece::Lit(format!(" = &vit{}[", k)), Piece::Src(ia, ib), Piece::Lit("]; ".into())]);
                                let l = self.edits.len() - 1; self.edits[l].seq = 0;
                                self.rule("enumerate: for (i, x) in e.iter().enumerate() becomes an index loop over the same collection");
                                self.rule("hoist: for x in f(..).iter() becomes let v = f(..); for x in v.iter()");
                                self.visit_pat(&e.pat); self.visit_expr(&m2.receiver); self.visit_block(&e.body);
                                self.structure.push_str("} "); return;
                            }
                            self.add(pa, pb, vec![Piece::Src(ia, ib)]);
                            self.add(xa, xb, vec![Piece::Lit("0 .. ".into()), Piece::Src(ra, rb), Piece::Lit(".len()".into())]);
                            let (ba, _) = self.r(e.body.span());
                            self.add(ba + 1, ba + 1, vec![Piece::Lit(" let ".into()), Piece::Src(va, vb), Piece::Lit(if self.spec.getitem { " = ".into() } else { " = &".into() }), Piece::Src(ra, rb), Piece::Lit(if self.spec.getitem { ".get_item(".into() } else { "[".into() }), Piece::Src(ia, ib), Piece::Lit(if self.spec.getitem { "); ".into() } else { "]; ".into() })]);
                            // ghost text of the loop begin must come after this binding
                            let l = self.edits.len() - 1;
                            self.edits[l].seq = 0;
                            self.rule("enumerate: for (i, x) in e.iter().enumerate() becomes an index loop over the same collection");
                            done = true;
                        } }
                    }
                }
            }
        }
        if done { 
            // visit pieces without treating the enumerate call
            self.visit_pat(&e.pat);
            if let syn::Expr::MethodCall(m) = &*e.expr { if let syn::Expr::MethodCall(m2) = &*m.receiver { self.visit_expr(&m2.receiver); } }
            self.visit_block(&e.body);
        } else { visit::visit_expr_for_loop(self, e); }
        self.structure.push_str("} ");
    }
    fn visit_expr_if(&mut self, e: &'ast syn::ExprIf) {
        self.structure.push_str("if{ ");
        visit::visit_expr_if(self, e);
        self.structure.push_str("} ");
    }
    fn visit_expr_match(&mut self, e: &'ast syn::ExprMatch) {
        self.structure.push_str("match{ ");
        visit::visit_expr_match(self, e);
        self.structure.push_str("} ");
    }
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        let k = self.returns; self.returns += 1;
        self.structure.push_str("return ");
        let (a, b) = self.r(e.span());
        let st = self.stmt.last().cloned();
        if let Some((sa, _)) = st { if sa == a { self.ghost(&format!("return {} before", k), a); }
            else {
                let has = self.spec.ghosts.iter().any(|g| g.anchor == format!("return {} before", k));
                if has { self.ins(a, "{ ".into()); self.ghost(&format!("return {} before", k), a); self.ins(b, " }".into()); }
            } }
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) {
        let k = self.closures; self.closures += 1;
        self.structure.push_str("closure{ ");
        if let Some(t) = self.spec.closures.get(&k).cloned() {
            // text: the annotated head, with $1 $2 for the parameter names
            let mut names = vec![];
            for p in &e.inputs { let mut b = Binders(vec![]); b.visit_pat(p); names.extend(b.0); }
            let mut t = t.trim_end().to_string();
            for (i, n) in names.iter().enumerate() { t = t.replace(&format!("${}", i + 1), n); }
            let (a, _) = self.r(e.or1_token.span());
            let (ba, bb) = self.r(e.body.span());
            let is_block = matches!(&*e.body, syn::Expr::Block(_));
            let (la, lb) = (a, ba);
            self.add(la, lb, vec![Piece::Lit(format!("{}\n", t))]);
            if !is_block { self.ins(ba, "{ ".into()); self.ins(bb, " }".into()); }
            self.visit_expr(&e.body);
            self.rule("closure: parameter types and a contract added");
        } else { visit::visit_expr_closure(self, e); }
        self.structure.push_str("} ");
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        // s += &t  ==>  vpush(&mut s, &t)
        let text_call = matches!(&*e.right, syn::Expr::MethodCall(m) if m.method == "get_name" || m.method == "as_str");
        if matches!(e.op, syn::BinOp::AddAssign(_)) && (text_call || matches!(&*e.right, syn::Expr::Reference(_))) {
            let (a, b) = self.r(e.span()); let (_, lb) = self.r(e.left.span()); let (ra, _) = self.r(e.right.span());
            self.ins(a, "vpush(&mut ".into());
            self.add(lb, ra, vec![Piece::Lit(", ".into())]);
            self.ins(b, ")".into());
            self.rule("append: s += &t becomes vpush(&mut s, &t)");
        }
        // s + &t  ==>  vcat(s, &t)
        if matches!(e.op, syn::BinOp::Add(_)) && (text_call || matches!(&*e.right, syn::Expr::Reference(_))) {
            let (a, b) = self.r(e.span()); let (_, lb) = self.r(e.left.span()); let (ra, _) = self.r(e.right.span());
            self.ins(a, "vcat(".into());
            self.add(lb, ra, vec![Piece::Lit(", ".into())]);
            self.ins(b, ")".into());
            self.rule("append: s + &t becomes vcat(s, &t)");
        }
        let eq = matches!(e.op, syn::BinOp::Eq(_)); let ne = matches!(e.op, syn::BinOp::Ne(_));
        if (eq || ne) && (lit_str(&e.left).is_some() || lit_str(&e.right).is_some()) {
            let (a, b) = self.r(e.span());
            let (x, y) = if lit_str(&e.right).is_some() { (&e.left, &e.right) } else { (&e.right, &e.left) };
            let (xa, xb) = self.r(x.span()); let (ya, yb) = self.r(y.span());
            self.add(a, b, vec![Piece::Lit(if eq { "vstreq(&(".into() } else { "!vstreq(&(".into() }), Piece::Src(xa, xb), Piece::Lit("), ".into()), Piece::Src(ya, yb), Piece::Lit(")".into())]);
            self.rule("string-compare: x == \"..\" becomes vstreq(&x, \"..\"), equality of the texts");
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs == ["String", "from"] {
                let (a, b) = self.r(e.func.span());
                self.add(a, b, vec![Piece::Lit("vstring".into())]);
                self.rule("string-from: String::from(x) becomes vstring(x), the String with the same text");
            }
            self.call_anchor(&n);
            let (_, b) = self.r(e.paren_token.span.close());
            self.extra_args(&n, e.args.len(), b - 1);
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        let n = e.method.to_string();
        if self.heap_call(e) { return; }
        self.call_anchor(&n);
        let (_, b) = self.r(e.paren_token.span.close());
        self.extra_args(&n, e.args.len(), b - 1);
        for (m, f) in self.methods.iter() {
            if *m == n || *m == format!("{}/{}", n, e.args.len()) {
                // r.m(args) becomes f(&(r), args)
                let (x, y) = self.r(e.span());
                let (ra, rb) = self.r(e.receiver.span());
                let (_, o) = self.r(e.paren_token.span.open());
                let (open, refs) = if let Some(g) = f.strip_prefix("mut ") { (g, "(&mut (") } else if let Some(g) = f.strip_prefix("own ") { (g, "((") } else { (f.as_str(), "(&(") };
                self.add(x, y, vec![Piece::Lit(format!("{}{}", open, refs)), Piece::Src(ra, rb), Piece::Lit(if e.args.is_empty() { ")".into() } else { "), ".into() }), Piece::Src(o, y)]);
                self.rule("std-method: a call of a standard-library method r.m(x) becomes a call f(&r, x) of a function with an assumed contract");
                break;
            }
        }
        visit::visit_expr_method_call(self, e);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let (a, b) = self.r(m.span());
        let _ = write!(self.structure, "{}! ", n);
        if ERR_MACROS.contains(&n.as_str()) {
            self.add(a, b, vec![Piece::Lit("mk_err()".into())]);
            self.rule("error-macro: an error macro becomes mk_err(), an opaque error value (the message is dropped)");
            return;
        }
        match n.as_str() {
            "format" => {
                if let Some(args) = Self::parse_args(m) {
                    if let Some(f) = args.get(0).and_then(lit_str) {
                        // only plain {} place-holders
                        let mut pieces = vec![]; let mut lit = String::new(); let mut k = 1; let mut ok = true;
                        let cs: Vec<char> = f.chars().collect(); let mut i = 0;
                        while i < cs.len() {
                            if cs[i] == '{' && cs.get(i + 1) == Some(&'{') { lit.push('{'); i += 2; }
                            else if cs[i] == '}' && cs.get(i + 1) == Some(&'}') { lit.push('}'); i += 2; }
                            else if cs[i] == '{' && cs.get(i + 1) == Some(&'}') {
                                if !lit.is_empty() { pieces.push(Piece::Lit(format!("__s.push_str({:?}); ", lit))); lit.clear(); }
                                match args.get(k) { Some(e) => { let (x, y) = self.r(e.span());
                                    pieces.push(Piece::Lit("__s.push_str((".into())); pieces.push(Piece::Src(x, y)); pieces.push(Piece::Lit(").vdisp().as_str()); ".into())); }
                                    None => ok = false }
                                k += 1; i += 2;
                            } else if cs[i] == '{' || cs[i] == '}' { ok = false; break; }
                            else { lit.push(cs[i]); i += 1; }
                        }
                        if !lit.is_empty() { pieces.push(Piece::Lit(format!("__s.push_str({:?}); ", lit))); }
                        if ok && k == args.len() {
                            let mut v = vec![Piece::Lit("{ let mut __s = String::new(); ".into())];
                            v.extend(pieces); v.push(Piece::Lit("__s }".into()));
                            self.add(a, b, v);
                            self.rule("format: format!(\"..{}..\", x) becomes pushes of its pieces; x is shown through vdisp()");
                            for e in args.iter().skip(1) { self.visit_expr(e); }
                            return;
                        }
                    }
                }
            }
            "vec" | "assert" | "assert_eq" | "panic" | "matches" => {
                if let Some(args) = Self::parse_args(m) { for e in &args { self.visit_expr(e); } }
            }
            _ => {}
        }
    }
    fn visit_type(&mut self, t: &'ast syn::Type) {
        if let syn::Type::Path(p) = t {
            let s = p.path.segments.last().unwrap();
            if s.ident == "Box" {
                if let syn::PathArguments::AngleBracketed(ab) = &s.arguments {
                    let inner = ab.args.first().map(|x| quote::quote!(#x).to_string()).unwrap_or_default();
                    if inner == "Error" || inner == "dyn Error" || inner == "XmlError" {
                        let (a, b) = self.r(t.span());
                        self.add(a, b, vec![Piece::Lit("VErr".into())]);
                        self.rule("error-type: Box<Error> and Box<XmlError> become the opaque type VErr");
                        return;
                    }
                }
            }
        }
        visit::visit_type(self, t);
    }
}

struct Binders(Vec<String>);
impl<'ast> Visit<'ast> for Binders {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p); }
}

fn sub_word(text: &str, from: &str, to: &str) -> String { sub_word_in(text, from, to, false) }
/// `ghost`: text of an annotation, where a name that is called or qualified is a specification function
fn sub_word_in(text: &str, from: &str, to: &str, ghost: bool) -> String {
    let mut out = String::new();
    let b: Vec<char> = text.chars().collect();
    let f: Vec<char> = from.chars().collect();
    let w = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i < b.len() {
        let called = ghost && (b.get(i + f.len()) == Some(&'(') || (i >= 2 && b[i - 1] == ':' && b[i - 2] == ':'));
        if !called && i + f.len() <= b.len() && b[i..i + f.len()] == f[..] && (i == 0 || !w(b[i - 1])) && !(f.first() != Some(&'$') && i >= 1 && b[i - 1] == '.' && (i < 2 || b[i - 2] != '.')) && (i + f.len() == b.len() || !w(b[i + f.len()])) && !f.is_empty() {
            out.push_str(to); i += f.len();
        } else { out.push(b[i]); i += 1; }
    }
    out
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"'); o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or(d.to_string());
    let unit = &args[1];
    let repo = get("--repo", "/repo");
    let out = get("--out", "/dev/stdout");
    let report = get("--report", "");
    let base = get("--baseline", "");
    let give_up: Vec<String> = get("--assume", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let probe = !get("--probe", "").is_empty();
    let baseline: BTreeMap<String, Vec<String>> = if base.is_empty() { BTreeMap::new() } else {
        // one line per function: name<TAB>binder,binder,...
        std::fs::read_to_string(&base).unwrap_or_default().lines().filter_map(|l| { let v: Vec<&str> = l.split('\t').collect(); if v.len() >= 2 { Some((v[0].to_string(), v[1].split(',').map(|s| s.to_string()).collect())) } else { None } }).collect()
    };
    let text = std::fs::read_to_string(unit).unwrap_or_else(|e| die(&format!("{}: {}", unit, e)));
    let dir = std::path::Path::new(unit).parent().unwrap().to_path_buf();
    let mut expand = vec![];
    let (items, props, gsubst, methods) = parse_unit(&text, &dir, &mut expand);
    let mut files: BTreeMap<String, (Src, syn::File)> = BTreeMap::new();
    for i in &items {
        let s = match i { Item::Types(s, _, _) | Item::Table(s, _, _) => s, Item::Fn(f) | Item::Const(f) => &f.source, _ => continue };
        if files.contains_key(s) { continue; }
        let t = std::fs::read_to_string(format!("{}/{}", repo, s)).unwrap_or_else(|e| die(&format!("{}: {}", s, e)));
        let t = if expand.is_empty() { t } else { expand_macros(&t, &expand) };
        let f = syn::parse_file(&t).unwrap_or_else(|e| die(&format!("{} does not parse: {}", s, e)));
        files.insert(s.clone(), (Src::new(t), f));
    }
    let mut o = String::new();
    let mut fns: Vec<String> = vec![];
    let mut rules: BTreeMap<&'static str, usize> = BTreeMap::new();
    let mut problems: Vec<String> = vec![];
    for i in &items {
        match i {
            Item::Raw(t) => { let t = t.replace("pub open spec fn", "spec fn").replace("pub trait", "trait").replace("pub fn ", "fn ").replace("pub struct", "struct").replace("pub enum", "enum").replace("pub uninterp", "uninterp"); o.push_str(&t); o.push('\n'); }
            Item::Types(s, names, sub) => {
                let (src, file) = &files[s];
                for n in names {
                    let mut ok = false;
                    for it in &file.items {
                        let (id, span) = match it {
                            syn::Item::Struct(x) => (x.ident.to_string(), x.span()), syn::Item::Enum(x) => (x.ident.to_string(), x.span()),
                            syn::Item::Const(x) => (x.ident.to_string(), x.span()), syn::Item::Type(x) => (x.ident.to_string(), x.span()), _ => continue };
                        if id != *n { continue; }
                        ok = true;
                        let dummy = FnSpec::default();
                        let mut rw = new_rw(src, &dummy, &methods);
                        rw.visit_item(it);
                        drop_vis(src, it, &mut rw);
                        let (a, b) = src.range(span);
                        let mut t = render(src, &rw.edits, a, b, None);
                        for (x, y) in sub.iter().chain(gsubst.iter()) { t = t.replace(x.as_str(), y.as_str()); }
                        for (k, v) in rw.rules { *rules.entry(k).or_insert(0) += v; }
                        o.push_str(t.trim_start()); o.push_str("\n\n");
                    }
                    if !ok { problems.push(format!("type {} not found in {}", n, s)); }
                }
            }
            Item::Claim(f) => {
                let _ = writeln!(o, "// ---- claim {}", f.path);
                let l0 = o.matches('\n').count() + 1;
                o.push_str(&f.contract); o.push('\n');
                let l1 = o.matches('\n').count();
                fns.push(format!("{{\"name\":{},\"source\":{},\"lines\":[0,0],\"out\":[{},{}],\"assumed\":false,\"imported\":\"\",\"props\":[{}],\"structure\":\"const\",\"binders\":\"\",\"callees\":\"\"}}",
                    js(&f.path), js(&f.source), l0, l1, f.props.iter().map(|p| js(p)).collect::<Vec<_>>().join(",")));
            }
            Item::Table(s, name, en) => {
                let (src, file) = &files[s];
                let mut rows: Vec<Vec<(String, String)>> = vec![]; // exec text, spec text
                let mut tys: Vec<(String, String)> = vec![];
                let mut ok = false;
                for it in &file.items {
                    let c = match it { syn::Item::Const(c) if c.ident == name => c, _ => continue };
                    ok = true;
                    let tx = |sp: Span| { let (a, b) = src.range(sp); src.text[a..b].to_string() };
                    if let syn::Type::Array(a) = &*c.ty { if let syn::Type::Tuple(t) = &*a.elem { for e in &t.elems {
                        tys.push(match e { syn::Type::Reference(_) => ("&'static str".into(), "Seq<char>".into()), syn::Type::BareFn(_) => (en.clone(), en.clone()), x => (tx(x.span()), tx(x.span())) });
                    } } }
                    if let syn::Expr::Array(a) = &*c.expr { for e in &a.elems { if let syn::Expr::Tuple(t) = e {
                        rows.push(t.elems.iter().zip(tys.iter()).map(|(x, ty)| { let s = tx(x.span()); if ty.1 == "Seq<char>" { (s.clone(), format!("{}@", s)) } else if ty.1 == *en { (format!("{}::{}", en, s), format!("{}::{}", en, s)) } else { (s.clone(), s) } }).collect());
                    } } }
                }
                if !ok || tys.is_empty() || rows.is_empty() { problems.push(format!("table {} not found in {}", name, s)); continue; }
                let n = rows.len();
                let ety = tys.iter().map(|t| t.0.clone()).collect::<Vec<_>>().join(", "); let sty = tys.iter().map(|t| t.1.clone()).collect::<Vec<_>>().join(", ");
                let er: Vec<String> = rows.iter().map(|r| format!("({})", r.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", "))).collect();
                let sr: Vec<String> = rows.iter().map(|r| format!("({})", r.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(", "))).collect();
                let eqs: Vec<String> = tys.iter().enumerate().map(|(k, t)| format!("t[i].{}{} == {}_row(i).{}", k, if t.1 == "Seq<char>" { "@" } else { "" }, name, k)).collect();
                let _ = writeln!(o, "// ---- from {} (table {})", s, name);
                let _ = writeln!(o, "spec fn {}_is(t: Seq<({})>) -> bool {{ t.len() == {} && forall|i: int| 0 <= i < {} ==> #[trigger] t[i] == t[i] && {} }}", name, ety, n, n, eqs.join(" && "));
                let _ = writeln!(o, "exec const {}: [({}); {}]\n    ensures {}_is({}@)\n{{ [{}] }}", name, ety, n, name, name, er.join(",\n    "));
                let _ = writeln!(o, "spec fn {}_len() -> int {{ {} }}", name, n);
                let _ = writeln!(o, "spec fn {}_row(i: int) -> ({}) {{ {} {{ {} }} }}", name, sty, sr[..n - 1].iter().enumerate().map(|(k, r)| format!("if i == {} {{ {} }} else", k, r)).collect::<Vec<_>>().join("\n    "), sr[n - 1]);
                let _ = writeln!(o, "spec fn {}_find(p: spec_fn(({})) -> bool) -> int {{ {} {{ -1 }} }}", name, sty, sr.iter().enumerate().map(|(k, r)| format!("if p({}) {{ {} }} else", r, k)).collect::<Vec<_>>().join("\n    "));
                let _ = writeln!(o, "proof fn {}_found(p: spec_fn(({})) -> bool) ensures ({{ let k = {}_find(p); -1 <= k < {} && (k >= 0 ==> p({}_row(k))) && forall|j: int| 0 <= j < (if k < 0 {{ {} }} else {{ k }}) ==> !p(#[trigger] {}_row(j)) }}) {{}}\n", name, sty, name, n, name, n, name);
                *rules.entry("table: a constant array of tuples, function pointers as the variants of an enumeration").or_insert(0) += 1;
            }
            // a constant with a contract: const N: T = E becomes exec const N: T ensures .. { E }
            Item::Const(f) => {
                let (src, file) = &files[&f.source];
                let mut ok = false;
                for it in &file.items {
                    if let syn::Item::Const(c) = it {
                        if c.ident != f.path { continue; }
                        ok = true;
                        let (ta, tb) = src.range(c.ty.span()); let (ea, eb) = src.range(c.expr.span()); let sp = src.range(c.span());
                        let _ = writeln!(o, "// ---- from {} (const {})", f.source, f.path);
                        let l0 = o.matches('\n').count() + 1;
                        let _ = writeln!(o, "exec const {}: {}\n{}\n{{ {} }}\n", f.path, &src.text[ta..tb], f.contract.trim_end(), &src.text[ea..eb]);
                        let l1 = o.matches('\n').count();
                        let line = |p: usize| src.text[..p].matches('\n').count() + 1;
                        fns.push(format!("{{\"name\":{},\"source\":{},\"lines\":[{},{}],\"out\":[{},{}],\"assumed\":false,\"imported\":\"\",\"props\":[{}],\"structure\":\"const\",\"binders\":\"\",\"callees\":\"\"}}",
                            js(&f.path), js(&f.source), line(sp.0), line(sp.1), l0, l1, f.props.iter().map(|p| js(p)).collect::<Vec<_>>().join(",")));
                        *rules.entry("const: const N: T = E becomes exec const N: T ensures .. { E }").or_insert(0) += 1;
                    }
                }
                if !ok { problems.push(format!("constant {} not found in {}", f.path, f.source)); }
            }
            Item::Fn(f) => {
                let (src, file) = &files[&f.source];
                let found = match find_fn(file, &f.path) { Some(x) => x, None => { problems.push(format!("function {} not found in {}", f.path, f.source)); continue; } };
                let (sig, block, span, im) = match &found {
                    Found::Free(x) => (&x.sig, &*x.block, x.span(), None),
                    Found::Method(im, m) => (&m.sig, &m.block, m.span(), Some(*im)),
                };
                // binder renames since the contracts were written
                let mut pre = new_rw(src, f, &methods);
                pre.visit_signature(sig); let nsig = pre.binders.len(); pre.visit_block(block);
                let mut spec = f.clone();
                if give_up.contains(&f.path) { spec.assumed = true; }
                if probe && !spec.assumed { spec.ghosts.push(Ghost { anchor: "begin".into(), text: "assert(false);".into() }); }
                if let Some(b) = baseline.get(&f.path) {
                    if b.len() == pre.binders.len() && *b != pre.binders {
                        let mut m: BTreeMap<&String, &String> = BTreeMap::new();
                        let mut clash = false;
                        for (x, y) in b.iter().zip(pre.binders.iter()) { if let Some(z) = m.get(x) { if *z != y { clash = true; } } m.insert(x, y); }
                        if !clash {
                            let pairs: Vec<(String, String)> = m.iter().filter(|(x, y)| x != y).map(|(x, y)| (x.to_string(), y.to_string())).collect();
                            let ren_in = |t: &str, ghost: bool| -> String {
                                let mut t = t.to_string();
                                for (k, (x, _)) in pairs.iter().enumerate() { if ghost && t.contains(&format!("{{ {} }}", x)) { continue; } t = sub_word_in(&t, x, &format!("__ren{}__", k), ghost); }
                                for (k, (_, y)) in pairs.iter().enumerate() { t = sub_word(&t, &format!("__ren{}__", k), y); }
                                t
                            };
                            let ren = |t: &str| ren_in(t, true);
                            for (x, y) in spec.subst.iter_mut() { *x = ren_in(x, false); *y = ren_in(y, false); }
                            // the contract speaks of parameters only
                            let sigpairs: Vec<(String, String)> = b.iter().zip(pre.binders.iter()).take(nsig).filter(|(x, y)| x != y).map(|(x, y)| (x.to_string(), y.to_string())).collect();
                            for (k, (x, _)) in sigpairs.iter().enumerate() { spec.contract = sub_word_in(&spec.contract, x, &format!("__ren{}__", k), true); }
                            for (k, (_, y)) in sigpairs.iter().enumerate() { spec.contract = sub_word(&spec.contract, &format!("__ren{}__", k), y); }
                            for v in spec.loops.values_mut() { *v = ren(v); }
                            for g in spec.ghosts.iter_mut() { g.text = ren(&g.text);
                                let w: Vec<String> = g.anchor.split(' ').map(|s| s.to_string()).collect();
                                if w[0] == "let" { g.anchor = format!("let {} {}", ren(&w[1]), w[2..].join(" ")); } }
                            for v in spec.closures.values_mut() { *v = ren(v); }
                        }
                    }
                }
                let spec = &spec;
                let mut rw = new_rw(src, spec, &methods);
                rw.visit_signature(sig);
                let (ba, bb) = src.range(block.span());
                rw.ghost("begin", ba + 1);
                rw.visit_block(block);
                rw.ghost("end", bb - 1);
                for k in 0..spec.ghosts.len() { if !rw.used[k] && !spec.assumed { problems.push(format!("{}: anchor '{}' not found", f.path, spec.ghosts[k].anchor)); } }
                for k in spec.loops.keys() { if !rw.used_loops.contains(k) && !spec.assumed { problems.push(format!("{}: loop {} not found", f.path, k)); } }
                for k in spec.closures.keys() { if *k >= rw.closures && !spec.assumed { problems.push(format!("{}: closure {} not found", f.path, k)); } }
                // the match of a function that is checked a group of its arms at a time
                let mut bodies: Vec<String> = Vec::new();
                if spec.slice > 0 && !spec.assumed {
                    let mut arms: Vec<(usize, usize)> = Vec::new();
                    for st in &block.stmts {
                        if let syn::Stmt::Expr(syn::Expr::Match(m), _) = st {
                            if m.arms.len() > arms.len() { arms = m.arms.iter().map(|a| src.range(a.body.span())).collect(); }
                        }
                    }
                    if arms.is_empty() { problems.push(format!("{}: no match to slice", f.path)); }
                    let n = (arms.len() + spec.slice - 1) / spec.slice;
                    for g in 0..n {
                        let cut: Vec<(usize, usize)> = arms.iter().enumerate().filter(|(k, _)| k / spec.slice != g).map(|(_, r)| *r).collect();
                        let mut ed: Vec<Edit> = rw.edits.iter().filter(|e| !cut.iter().any(|(a, b)| e.a >= *a && e.b <= *b)).cloned().collect();
                        for (a, b) in cut { let seq = ed.len() + 10; let lit = "{ assume(false); return Err(mk_err()); }".to_string(); ed.push(Edit { a, b, pieces: vec![Piece::Lit(lit)], seq }); }
                        bodies.push(render(src, &ed, ba, bb, None));
                    }
                    rw.rule("slice: a function is checked once per group of arms of its match, the other arms cut off");
                }
                let body_text = render(src, &rw.edits, ba, bb, None);
                // signature
                let (sa, _) = src.range(sig.fn_token.span());
                let sig_end = match &sig.output { syn::ReturnType::Default => src.range(sig.paren_token.span.close()).1, syn::ReturnType::Type(_, t) => src.range(t.span()).1 };
                if let syn::ReturnType::Type(_, t) = &sig.output {
                    let (ta, tb) = src.range(t.span());
                    rw.ins(ta, format!("({}: ", spec.ret));
                    let seq = rw.edits.len() + 10;
                    rw.edits.push(Edit { a: tb, b: tb, pieces: vec![Piece::Lit(")".into())], seq });
                }
                if !spec.extra_params.is_empty() {
                    let (_, c) = src.range(sig.paren_token.span.close());
                    let t = if sig.inputs.is_empty() { spec.extra_params.clone() } else { format!(", {}", spec.extra_params) };
                    rw.ins(c - 1, t);
                    rw.rule("ghost-parameter: a ghost parameter is added");
                }
                if let Some(n) = &spec.rename { let (x, y) = src.range(sig.ident.span()); rw.add(x, y, vec![Piece::Lit(n.clone())]); }
                let sig_end = match &sig.generics.where_clause { Some(w) => src.range(w.span()).1, None => sig_end };
                let sig_text = match &spec.sigtext { Some(t) => t.clone(), None => render(src, &rw.edits, sa, sig_end, None) };
                for (k, v) in &rw.rules { *rules.entry(k).or_insert(0) += v; }
                let mut w = String::new();
                let _ = writeln!(w, "// ---- {} {} ({})", if !spec.imported.is_empty() { "PROVED IN ANOTHER UNIT" } else if spec.assumed { "ASSUMED" } else { "from" }, f.source, f.path);
                let mut head = String::new();
                if let Some(im) = im {
                    let (a, _) = src.range(im.impl_token.span());
                    let (e, _) = src.range(im.brace_token.span.open());
                    let h = src.text[a..e].to_string();
                    head = match &im.trait_ { Some(_) => format!("impl {} ", ty_name(&im.self_ty)), None => h };
                }
                if !head.is_empty() { let _ = writeln!(w, "{}{{", head.trim_end().to_string() + " "); }
                if spec.assumed { w.push_str(&if spec.imported.is_empty() { "#[verifier::external_body]\n".to_string() } else { format!("#[verifier::external_body] // its contract is proved in unit {}\n", spec.imported) }); }
                w.push_str(&spec.attrs);
                let mut fnt = format!("{}\n{}{}", sig_text, spec.contract.trim_end(), if spec.contract.trim().is_empty() { "" } else { "\n" });
                if spec.assumed { fnt.push_str("{ unimplemented!() }"); } else if bodies.is_empty() { fnt.push_str(&body_text); } else {
                    let nm = format!("fn {}", spec.rename.clone().unwrap_or(sig.ident.to_string())); let hd = fnt.clone(); fnt.clear();
                    for (k, b) in bodies.iter().enumerate() { if k > 0 { fnt.push('\n'); fnt.push_str(&spec.attrs); } fnt.push_str(&hd.replacen(&nm, &format!("{}__{}", nm, k), 1)); fnt.push_str(b); }
                }
                for (x, y) in spec.subst.iter() {
                    let (y, optional) = match y.strip_suffix('\0') { Some(z) => (z.to_string(), true), None => (y.clone(), false) };
                    if fnt.contains(x.as_str()) && !spec.assumed { let k: &'static str = Box::leak(format!("substitution in {}: {} becomes {}", f.path, x, y).into_boxed_str()); *rules.entry(k).or_insert(0) += 1; }
                    if fnt.contains(x.as_str()) { fnt = fnt.replace(x.as_str(), y.as_str()); } else if !spec.assumed && !optional { problems.push(format!("{}: substitution '{}' not applicable", f.path, x)); }
                }
                for (x, y) in gsubst.iter() { fnt = fnt.replace(x.as_str(), y.as_str()); }
                let l0 = o.matches('\n').count() + w.matches('\n').count() + 1;
                w.push_str(&fnt);
                w.push('\n');
                if !head.is_empty() { w.push_str("}\n"); }
                w.push('\n');
                o.push_str(&w);
                let l1 = l0 + fnt.matches('\n').count();
                let (s0, s1) = (span.start().line, span.end().line);
                fns.push(format!("{{\"name\":{},\"source\":{},\"lines\":[{},{}],\"out\":[{},{}],\"assumed\":{},\"imported\":{},\"props\":[{}],\"structure\":{},\"binders\":{},\"callees\":{}}}",
                    js(&f.path), js(&f.source), s0, s1, l0, l1, spec.assumed, js(&spec.imported),
                    spec.props.iter().map(|p| js(p)).collect::<Vec<_>>().join(","), js(&rw.structure), js(&rw.binders.join(",")), js(&rw.callees.join(","))));
            }
        }
    }
    std::fs::write(&out, &o).unwrap();
    let rp = format!("{{\"functions\":[{}],\n\"rules\":{{{}}},\n\"problems\":[{}],\n\"props\":{{{}}}}}\n",
        fns.join(",\n"), rules.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        problems.iter().map(|p| js(p)).collect::<Vec<_>>().join(","),
        props.iter().map(|(k, v)| format!("{}:[{}]", js(k), v.iter().map(|p| js(p)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    if !report.is_empty() { std::fs::write(&report, rp).unwrap(); } else { eprintln!("{}", rp); }
}

fn new_rw<'a>(src: &'a Src, spec: &'a FnSpec, methods: &'a [(String, String)]) -> Rw<'a> {
    Rw { src, methods, edits: vec![], rules: BTreeMap::new(), spec, loops: 0, closures: 0, calls: BTreeMap::new(), returns: 0, lets: BTreeMap::new(),
         binders: vec![], callees: vec![], structure: String::new(), used: vec![false; spec.ghosts.len()], used_loops: vec![], stmt: vec![] }
}

fn drop_vis(src: &Src, it: &syn::Item, rw: &mut Rw) {
    let mut ed = vec![];
    struct W<'a> { src: &'a Src, out: &'a mut Vec<(usize, usize)> }
    impl<'a, 'ast> Visit<'ast> for W<'a> {
        fn visit_visibility(&mut self, v: &'ast syn::Visibility) {
            if let syn::Visibility::Inherited = v { return; }
            self.out.push(self.src.range(v.span()));
        }
    }
    W { src, out: &mut ed }.visit_item(it);
    for (a, b) in ed { rw.add(a, b, vec![]); }
}

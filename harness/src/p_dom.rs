//! C05-C10: the document tree.
use crate::core::*;
use crate::p_sax::gen_doc;
use crate::rxml::*;
use amxml::dom::*;
use std::collections::{BTreeMap, BTreeSet};

/// The real tree, read through the public interface.
pub fn read(n: &NodePtr) -> Vec<N> {
    n.children().iter().map(read1).collect()
}
fn read1(n: &NodePtr) -> N {
    match n.node_type() {
        NodeType::Element => N::El(n.name(), n.attributes().iter().map(|a| (a.name(), a.value())).collect(), read(n)),
        NodeType::Text => N::Tx(n.value()),
        NodeType::Comment => N::Co(n.value()),
        _ => N::Pi(n.name(), n.value()),
    }
}
fn doc(s: &str) -> Result<NodePtr, String> { new_document(s).map_err(|e| format!("{:?} is rejected: {}", s, e)) }
/// serialising leaves out carriage returns inside comments, instructions and CDATA (none are generated there)
fn c05_one(text: &str) -> Result<(), String> {
    let toks = match ref_tokens(text) { Some(t) => t, None => return Ok(()) };
    let want = match ref_tree(&toks) { Some(t) => t, None => return Ok(()) };
    let d = doc(text)?;
    if read(&d) != want { return Err(format!("read as {:?}, expected {:?}", read(&d), want)); }
    let s1 = d.to_string();
    let d2 = doc(&s1)?;
    if merge(&read(&d2)) != merge(&want) { return Err(format!("serialised as {:?}, which reads back as {:?}", s1, read(&d2))); }
    let s2 = d2.to_string();
    if s1 != s2 { return Err(format!("not stable: {:?} then {:?}", s1, s2)); }
    // no white space of its own: the text content is the document's own
    if ser(&want) != s1 { return Err(format!("compact form {:?}, expected {:?}", s1, ser(&want))); }
    let inner: String = d.inner_xml();
    if inner != s1 { return Err(format!("inner_xml {:?} differs from the parts' serialisation {:?}", inner, s1)); }
    let p = d.to_pretty_string();
    let toks = ref_tokens(&p).ok_or(format!("pretty form is not well-formed: {:?}", p))?;
    let t = ref_tree(&toks).ok_or(format!("pretty form does not balance: {:?}", p))?;
    if trimmed(&t) != trimmed(&want) && !has_edge_ws(&want) { return Err(format!("pretty form {:?} differs in more than white space", p)); }
    Ok(())
}
/// neighbouring texts: pretty printing puts white space between them
fn has_edge_ws(v: &[N]) -> bool {
    v.windows(2).any(|w| matches!((&w[0], &w[1]), (N::Tx(_), N::Tx(_)))) || v.iter().any(|n| if let N::El(_, _, c) = n { has_edge_ws(c) } else { false })
}

pub fn c05(c: &mut Ctx) {
    c.part("small");
    for s in &["<a/>", "<a></a>", "<a> </a>", "<a>x<b/>y</a>", "<a b='1' c=\"&quot;'\"/>", "<?xml version=\"1.0\"?><a/>", "<a><?p q?><!--c--></a>", "<a>&amp;lt;</a>", "<a>&#13;</a>", "<a b='&#10;&#9;&#13;'/>", "<a><![CDATA[]]></a>", "<a>x<![CDATA[]]>y</a>", "<a><b/><![CDATA[]]><!--c--></a>"] {
        c.case(s, true, || c05_one(s));
    }
    c.part("documents");
    while c.more(0.9) {
        let (_, s) = gen_doc(&mut c.rng);
        c.case(&s, true, || c05_one(&s));
    }
}

// ---------------------------------------------------------------------
#[derive(Clone)]
struct M { kind: char, name: String, value: String, parent: Option<usize>, ch: Vec<usize>, at: Vec<usize> }

pub struct H { m: BTreeMap<usize, M>, h: BTreeMap<usize, NodePtr>, next: usize, log: Vec<String> }

fn kind(n: &NodePtr) -> char {
    match n.node_type() { NodeType::DocumentRoot => 'D', NodeType::Element => 'E', NodeType::Text => 'T', NodeType::Comment => 'C', NodeType::Attribute => 'A', _ => 'P' }
}

impl H {
    fn new() -> H { H { m: BTreeMap::new(), h: BTreeMap::new(), next: 0, log: vec![] } }
    /// registers a real subtree
    fn take(&mut self, n: &NodePtr, parent: Option<usize>) -> usize {
        let id = self.next; self.next += 1;
        self.m.insert(id, M { kind: kind(n), name: n.name(), value: n.value(), parent, ch: vec![], at: vec![] });
        self.h.insert(id, n.rc_clone());
        let at: Vec<usize> = n.attributes().iter().map(|a| self.take(a, Some(id))).collect();
        let ch: Vec<usize> = n.children().iter().map(|a| self.take(a, Some(id))).collect();
        let m = self.m.get_mut(&id).unwrap();
        m.at = at; m.ch = ch;
        id
    }
    fn find(&self, n: &NodePtr) -> Option<usize> { self.h.iter().find(|(_, x)| *x == n).map(|(i, _)| *i) }
    fn root(&self, mut i: usize) -> usize { while let Some(p) = self.m[&i].parent { i = p; } i }
    fn anc_or_self(&self, a: usize, mut i: usize) -> bool { loop { if a == i { return true; } match self.m[&i].parent { Some(p) => i = p, None => return false } } }
    fn show(&self, i: usize) -> String {
        let m = &self.m[&i];
        match m.kind { 'E' => format!("{}#{}", m.name, i), 'D' => format!("doc#{}", i), 'A' => format!("@{}#{}", m.name, i), k => format!("{}{:?}#{}", k, m.value, i) }
    }
    fn content(&self, i: usize) -> N {
        let m = &self.m[&i];
        match m.kind {
            'E' | 'D' => N::El(m.name.clone(), m.at.iter().map(|a| (self.m[a].name.clone(), self.m[a].value.clone())).collect(), m.ch.iter().map(|x| self.content(*x)).collect()),
            'T' => N::Tx(m.value.clone()), 'C' => N::Co(m.value.clone()), _ => N::Pi(m.name.clone(), m.value.clone()),
        }
    }
    fn detach(&mut self, i: usize) {
        if let Some(p) = self.m[&i].parent { self.m.get_mut(&p).unwrap().ch.retain(|x| *x != i); }
        self.m.get_mut(&i).unwrap().parent = None;
    }
    /// takes over the copy that an insertion made at position k of p
    fn adopt(&mut self, p: usize, k: usize, src: &N) -> Result<(), String> {
        let rp = self.h.get(&p).cloned();
        match rp {
            Some(rp) => {
                let real = rp.nth_child(k).ok_or(format!("no child at index {} of {}", k, self.show(p)))?;
                if self.find(&real).is_some() { return Err(format!("the child at index {} of {} is the node {} and not a new one", k, self.show(p), self.show(self.find(&real).unwrap()))); }
                let id = self.take(&real, Some(p));
                self.m.get_mut(&p).unwrap().ch.insert(k, id);
                if &self.content(id) != src { return Err(format!("the node inserted in {} is {:?}, expected {:?}", self.show(p), self.content(id), src)); }
                Ok(())
            }
            None => Err("internal: no handle".into()),
        }
    }
}

pub const LINKS: u8 = 1; pub const LISTS: u8 = 2; pub const ATTRS: u8 = 4; pub const ORDER: u8 = 8; pub const NS: u8 = 16;

fn preorder(n: &NodePtr, out: &mut Vec<NodePtr>) {
    out.push(n.rc_clone());
    for a in n.attributes() { out.push(a); }
    for ch in n.children() { preorder(&ch, out); }
}

impl H {
    fn check(&self, mode: u8) -> Result<(), String> {
        if mode & LINKS != 0 {
            let mut seen: Vec<(NodePtr, NodePtr)> = vec![];
            for (i, n) in &self.h {
                let p = n.parent();
                match (p, self.m[i].parent) {
                    (None, None) => {}
                    (Some(ref rp), Some(mp)) if self.h.get(&mp).map_or(true, |x| x == rp) => {}
                    (rp, mp) => return Err(format!("the parent of {} is {:?}, expected {:?}", self.show(*i), rp.map(|x| x.to_string()), mp.map(|x| self.show(x)))),
                }
                for ch in n.children().iter().chain(n.attributes().iter()) {
                    match ch.parent() { Some(ref q) if q == n => {}, q => return Err(format!("{} lists a child {:?} whose parent is {:?}", self.show(*i), ch.to_string(), q.map(|x| x.to_string()))) }
                    if let Some(x) = seen.iter().find(|x| x.0 == *ch) { return Err(format!("{:?} occurs in two child lists ({:?} and {:?})", ch.to_string(), x.1.to_string(), n.to_string())); }
                    seen.push((ch.rc_clone(), n.rc_clone()));
                }
                // navigation must not panic or loop
                let r = n.root();
                if r.parent().is_some() { return Err(format!("the root of {} has a parent", self.show(*i))); }
                let _ = (n.root_element(), n.namespace_uri(), n.first_child(), n.local_name());
                let mr = self.root(*i);
                if let Some(x) = self.h.get(&mr) { if *x != r { return Err(format!("the root of {} is {:?}, expected {}", self.show(*i), r.to_string(), self.show(mr))); } }
            }
        }
        if mode & LISTS != 0 {
            for (i, n) in &self.h {
                let m = &self.m[i];
                let real = n.children();
                let bad = real.len() != m.ch.len() || real.iter().zip(m.ch.iter()).any(|(r, k)| match self.h.get(k) { Some(x) => x != r, None => false });
                if bad { return Err(format!("the children of {} are [{}], expected [{}]", self.show(*i),
                    real.iter().map(|r| self.find(r).map_or("?".into(), |k| self.show(k))).collect::<Vec<_>>().join(", "),
                    m.ch.iter().map(|k| self.show(*k)).collect::<Vec<_>>().join(", "))); }
                if n.name() != m.name || n.value() != m.value { return Err(format!("{} is now named {:?} with value {:?}", self.show(*i), n.name(), n.value())); }
                if m.kind != 'A' {
                    let at: Vec<(String, String)> = n.attributes().iter().map(|a| (a.name(), a.value())).collect();
                    let want: Vec<(String, String)> = m.at.iter().map(|a| (self.m[a].name.clone(), self.m[a].value.clone())).collect();
                    if at != want { return Err(format!("the attributes of {} are {:?}, expected {:?}", self.show(*i), at, want)); }
                }
            }
        }
        if mode & ATTRS != 0 {
            for (i, n) in &self.h {
                let m = &self.m[i];
                let at: Vec<(String, String)> = n.attributes().iter().map(|a| (a.name(), a.value())).collect();
                let want: Vec<(String, String)> = m.at.iter().map(|a| (self.m[a].name.clone(), self.m[a].value.clone())).collect();
                if at != want { return Err(format!("the attributes of {} are {:?}, expected {:?}", self.show(*i), at, want)); }
                for k in KEYS.iter().chain(["", "K", "p", ":k", "k:", "xmlns:", ":"].iter()) {
                    let w = want.iter().find(|a| a.0 == *k).map(|a| a.1.clone());
                    if n.attribute_value(k) != w { return Err(format!("{} has {:?} = {:?}, expected {:?}", self.show(*i), k, n.attribute_value(k), w)); }
                }
            }
        }
        if mode & NS != 0 {
            for (i, n) in &self.h {
                if self.m[i].kind != 'E' { continue; }
                let name = &self.m[i].name;
                let (p, l) = match name.find(':') { Some(i) => (&name[..i], &name[i + 1..]), None => ("", &name[..]) };
                if n.space_name() != p || n.local_name() != l || n.name() != *name { return Err(format!("{} splits into {:?} and {:?}", self.show(*i), n.space_name(), n.local_name())); }
                let key = if p == "" { "xmlns".to_string() } else { format!("xmlns:{}", p) };
                let mut want = String::new(); let mut k = Some(*i);
                while let Some(j) = k { let m = &self.m[&j]; if let Some(a) = m.at.iter().find(|a| self.m[a].name == key) { want = self.m[a].value.clone(); break; } k = m.parent; }
                if n.namespace_uri() != want { return Err(format!("the namespace of {} is {:?}, expected {:?}", self.show(*i), n.namespace_uri(), want)); }
            }
        }
        if mode & ORDER != 0 {
            let roots: BTreeSet<usize> = self.h.keys().filter(|i| self.m[i].parent.is_none()).cloned().collect();
            for r in roots {
                let mut v = vec![];
                preorder(&self.h[&r], &mut v);
                // query in an arbitrary order: last first
                let o: Vec<i64> = v.iter().rev().map(|n| n.document_order()).collect::<Vec<_>>().into_iter().rev().collect();
                for k in 1..o.len() { if o[k - 1] >= o[k] {
                    return Err(format!("in the tree {:?} the node {:?} has order {} and the next one {:?} has {}", self.h[&r].rc_clone().inner_xml(), v[k - 1].to_string(), o[k - 1], v[k].to_string(), o[k])); } }
            }
        }
        Ok(())
    }

    fn pick(&self, r: &mut Rng, kinds: &str) -> Option<usize> {
        let v: Vec<usize> = self.h.keys().filter(|i| kinds.contains(self.m[i].kind)).cloned().collect();
        if v.is_empty() { None } else { Some(*r.pick(&v)) }
    }

    /// One random step; the model follows the statement of the property.
    fn step(&mut self, r: &mut Rng, drops: bool, w: &[usize]) -> Result<(), String> {
        let tot: usize = w.iter().sum();
        let mut x = r.below(tot);
        let mut op = 0;
        while x >= w[op] { x -= w[op]; op += 1; }
        match op {
            0 => { // append
                let (kp, kn) = (if r.chance(1, 20) { "A" } else { "DE" }, if r.chance(1, 12) { "DA" } else { "ETCP" });
                let (p, n) = match (self.pick(r, kp), self.pick(r, kn)) { (Some(p), Some(n)) => (p, n), _ => return Ok(()) };
                self.log.push(format!("{}.append_child({})", self.show(p), self.show(n)));
                self.h[&p].append_child(&self.h[&n]);
                if self.anc_or_self(n, p) || "DA".contains(self.m[&n].kind) || self.m[&p].kind == 'A' { return Ok(()); }
                self.detach(n);
                self.m.get_mut(&p).unwrap().ch.push(n);
                self.m.get_mut(&n).unwrap().parent = Some(p);
            }
            1 | 2 => { // insert before / after
                let (s, n) = match (self.pick(r, "ETCP"), self.pick(r, "ETCP")) { (Some(p), Some(n)) => (p, n), _ => return Ok(()) };
                self.log.push(format!("{}.insert_as_{}_sibling({})", self.show(s), if op == 1 { "previous" } else { "next" }, self.show(n)));
                let src = self.content(n);
                if op == 1 { self.h[&s].insert_as_previous_sibling(&self.h[&n]); } else { self.h[&s].insert_as_next_sibling(&self.h[&n]); }
                if let Some(p) = self.m[&s].parent {
                    let k = self.m[&p].ch.iter().position(|x| *x == s).unwrap();
                    self.reach(p);
                    self.adopt(p, if op == 1 { k } else { k + 1 }, &src)?;
                }
            }
            3 => { // delete
                let (p, n) = match (self.pick(r, "DE"), self.pick(r, "ETCP")) { (Some(p), Some(n)) => (p, n), _ => return Ok(()) };
                let p = if r.chance(3, 4) { match self.m[&n].parent { Some(q) if self.h.contains_key(&q) => q, _ => p } } else { p };
                self.log.push(format!("{}.delete_child({})", self.show(p), self.show(n)));
                self.h[&p].delete_child(&self.h[&n]);
                if self.m[&n].parent == Some(p) { self.detach(n); }
            }
            4 => { // replace
                let (s, n) = match (self.pick(r, "ETCP"), self.pick(r, "ETCP")) { (Some(p), Some(n)) => (p, n), _ => return Ok(()) };
                self.log.push(format!("{}.replace_with({})", self.show(s), self.show(n)));
                let src = self.content(n);
                self.h[&s].replace_with(&self.h[&n]);
                if let Some(p) = self.m[&s].parent {
                    let k = self.m[&p].ch.iter().position(|x| *x == s).unwrap();
                    self.detach(s);
                    self.reach(p);
                    self.adopt(p, k, &src)?;
                }
            }
            5 => { // set attribute
                let e = match self.pick(r, "E") { Some(e) => e, None => return Ok(()) };
                let (k, v) = (key(r), r.pick::<&str>(&["", "1", "v<", "k"]).to_string());
                self.log.push(format!("{}.set_attribute({:?}, {:?})", self.show(e), k, v));
                self.h[&e].rc_clone().set_attribute(&k, &v);
                let real = self.h[&e].attributes();
                let pos = self.m[&e].at.iter().position(|a| self.m[a].name == k);
                let at = pos.unwrap_or(self.m[&e].at.len());
                if real.len() <= at { return Err(format!("after setting {:?} {} has {} attributes", k, self.show(e), real.len())); }
                if real[at].name() != k || real[at].value() != v { return Err(format!("after setting {:?} to {:?} the attribute at index {} of {} is {:?}", k, v, at, self.show(e), real[at].to_string())); }
                if let Some(p) = pos { let old = self.m[&e].at[p]; self.m.get_mut(&old).unwrap().parent = None; self.m.get_mut(&e).unwrap().at.remove(p); }
                // the node may be new or the same
                let id = match self.find(&real[at]) { Some(id) => { let m = self.m.get_mut(&id).unwrap(); m.parent = Some(e); m.value = v; id }, None => self.take(&real[at], Some(e)) };
                self.m.get_mut(&e).unwrap().at.insert(at, id);
            }
            6 => { // delete attribute
                let e = match self.pick(r, "E") { Some(e) => e, None => return Ok(()) };
                let k = key(r);
                self.log.push(format!("{}.delete_attribute({:?})", self.show(e), k));
                self.h[&e].rc_clone().delete_attribute(&k);
                if let Some(p) = self.m[&e].at.iter().position(|a| self.m[a].name == k) {
                    let old = self.m.get_mut(&e).unwrap().at.remove(p);
                    self.m.get_mut(&old).unwrap().parent = None;
                }
            }
            7 => { // order query
                if let Some(n) = self.pick(r, "DETCPA") { self.log.push(format!("{}.document_order()", self.show(n))); self.h[&n].document_order(); }
            }
            _ => { // drop handles
                if !drops { return Ok(()); }
                let i = match self.pick(r, "DETCPA") { Some(i) => i, None => return Ok(()) };
                let root = self.root(i);
                let all: Vec<usize> = self.h.keys().cloned().filter(|k| self.root(*k) == root).collect();
                let mut gone = vec![];
                for k in all { if k == root || r.chance(1, 3) { gone.push(k); } }
                self.log.push(format!("drop handles [{}]", gone.iter().map(|k| self.show(*k)).collect::<Vec<_>>().join(", ")));
                for k in &gone { self.h.remove(k); }
                self.sweep();
            }
        }
        Ok(())
    }
    /// makes sure a handle for p exists when it is reachable
    fn reach(&mut self, p: usize) {
        if self.h.contains_key(&p) { return; }
        let c = self.m[&p].ch.iter().chain(self.m[&p].at.iter()).find(|k| self.h.contains_key(k)).cloned();
        if let Some(c) = c { if let Some(n) = self.h[&c].parent() { self.h.insert(p, n); } }
        else if let Some(gp) = self.m[&p].parent { self.reach(gp); if let Some(x) = self.h.get(&gp) {
            let k = self.m[&gp].ch.iter().position(|y| *y == p);
            if let Some(k) = k { if let Some(n) = x.nth_child(k) { self.h.insert(p, n); } } } }
    }
    /// a node lives as long as a handle or a living parent holds it
    fn sweep(&mut self) {
        loop {
            let dead: Vec<usize> = self.m.keys().cloned().filter(|k| !self.h.contains_key(k) && self.m[k].parent.is_none()).collect();
            if dead.is_empty() { return; }
            for d in dead {
                let m = self.m.remove(&d).unwrap();
                for x in m.ch.iter().chain(m.at.iter()) { if let Some(y) = self.m.get_mut(x) { y.parent = None; } }
            }
        }
    }
}

const KEYS: &[&str] = &["k", "x", "kk", "xk", "id", "y", "p:k", "q:k", "p:x", "xmlns", "xmlns:p", "xmlns:k", "xml:id", "xml:lang", "_k", "k.", "k-1", "é", "name", "class", "key", "kkk"];
/// mostly the first few, so that names meet
fn key(r: &mut Rng) -> String { if r.chance(1, 2) { r.pick::<&str>(&KEYS[..6]).to_string() } else { r.pick::<&str>(KEYS).to_string() } }
const DOCS: &[&str] = &["<e xmlns='u' xmlns:p='v' p:k='1' k='2' xml:id='3'><p:f p:k='5' xmlns:k='6'/><g>t</g></e>", "<p:a><p:b q:k='1' k='2'/><k x='3' p:x='4'/></p:a>", "<a x='1' k='2'><b y='1'/>t<c><d/><!--z--></c></a>", "<r><s><u/></s></r>", "<r/>", "<a><b/><b/><b/></a>", "<p k='1' x='2' kk='3' id='4'>q<?i j?></p>"];

fn history(c: &mut Ctx, mode: u8, drops: bool, w: &[usize]) {
    while c.more(if mode == NS { 0.5 } else { 0.9 }) {
        let seed = c.rng.next();
        let steps = 1 + c.rng.below(14);
        c.case(&format!("history seed={} steps={} weights={:?} drops={}", seed, steps, w, drops), true, || run_history(seed, steps, mode, drops, w));
    }
}
/// wide or deep
fn big_doc(r: &mut Rng) -> String {
    let mut s = String::from("<a>");
    if r.chance(1, 2) { let n = 5 + r.below(40); for i in 0..n { s.push_str(&if i % 3 == 0 { format!("<b k='{}' p:k='x'/>", i) } else if i % 3 == 1 { format!("<c>{}</c>", i) } else { "<!--z-->t".to_string() }); } }
    else { let n = 5 + r.below(25); for i in 0..n { s.push_str(&format!("<d{}{}>", i % 4, if i % 2 == 0 { " x='1' xmlns:q='u'" } else { "" })); } for i in (0..n).rev() { s.push_str(&format!("</d{}>", i % 4)); } }
    if r.chance(1, 3) { s.push_str("<w"); for i in 0..10 + r.below(15) { s.push_str(&format!(" k{}='{}'", i, i)); } s.push_str("/>"); }
    s.push_str("</a>"); s
}
pub fn run_history(seed: u64, steps: usize, mode: u8, drops: bool, w: &[usize]) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let mut h = H::new();
    for _ in 0..1 + r.below(3) {
        let s = if r.chance(1, 12) { big_doc(&mut r) } else if r.chance(2, 3) { r.pick::<&str>(DOCS).to_string() } else { let e = gen_el(&mut r, 2); ser(&[e]) };
        let d = doc(&s)?;
        h.log.push(format!("new_document({:?})", s));
        h.take(&d, None);
    }
    for _ in 0..steps {
        let before = h.log.len();
        let rr = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { h.step(&mut r, drops, w)?; h.check(mode) }));
        let e = match rr { Ok(Ok(())) => continue, Ok(Err(e)) => e, Err(p) => format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) };
        let _ = before;
        return Err(format!("{}; history: {}", e, h.log.join("; ")));
    }
    Ok(())
}

pub fn c06(c: &mut Ctx) { c.part("histories"); history(c, LINKS, true, &[6, 3, 3, 5, 3, 2, 2, 1, 2]); }
pub fn c07(c: &mut Ctx) { c.part("histories"); history(c, LISTS, false, &[4, 5, 5, 5, 4, 1, 1, 1]); }
pub fn c08(c: &mut Ctx) { c.part("histories"); history(c, ATTRS, false, &[1, 1, 1, 1, 0, 12, 6, 1]); }
pub fn c09(c: &mut Ctx) { c.part("histories"); history(c, ORDER, true, &[5, 4, 4, 4, 2, 5, 3, 5, 1]); }

// ---------------------------------------------------------------------
/// nearest declaration, walking the source tree
fn ns_check(v: &[N], decl: &mut Vec<(String, String)>, real: &[NodePtr]) -> Result<(), String> {
    if real.len() != v.len() { return Err("tree shape".into()); }
    for (n, r) in v.iter().zip(real) {
        if let N::El(name, at, ch) = n {
            let mark = decl.len();
            for (k, x) in at {
                if k == "xmlns" { decl.push((String::new(), x.clone())); }
                else if let Some(p) = k.strip_prefix("xmlns:").filter(|p| !p.is_empty()) { decl.push((p.to_string(), x.clone())); }
            }
            let (p, l) = match name.find(':') { Some(i) => (name[..i].to_string(), name[i + 1..].to_string()), None => (String::new(), name.clone()) };
            if r.space_name() != p { return Err(format!("prefix of {:?} is {:?}, expected {:?}", name, r.space_name(), p)); }
            if r.local_name() != l { return Err(format!("local name of {:?} is {:?}, expected {:?}", name, r.local_name(), l)); }
            let want = decl.iter().rev().find(|d| d.0 == p).map(|d| d.1.clone()).unwrap_or_default();
            let got = r.namespace_uri();
            if got != want { return Err(format!("namespace of {:?} (attributes {:?}) is {:?}, expected {:?}", name, at, got, want)); }
            ns_check(ch, decl, &r.children())?;
            decl.truncate(mark);
        }
    }
    Ok(())
}
fn gen_ns(r: &mut Rng, depth: usize) -> N {
    let nm = r.pick::<&str>(&["a", "p:a", "q:b", "p:", ":x", "p:a:b", "x", "xmlns", "xmlns:p", "pp:a", "pq:z", ":", "::"]).to_string();
    let mut at: Vec<(String, String)> = vec![];
    for _ in 0..r.below(4) {
        let k = r.pick::<&str>(&["xmlns", "xmlns:p", "xmlns:q", "xmlns:pp", "xmlns:", "p", "q", "xmlns:pq", "xmlns:a", "Xmlns", "xmlns:xmlns"]).to_string();
        if at.iter().any(|a| a.0 == k) { continue; }
        at.push((k, r.pick::<&str>(&["u1", "u2", "u3", "", "u 4"]).to_string()));
    }
    let mut ch = vec![];
    if depth > 0 { for _ in 0..r.below(4) { ch.push(gen_ns(r, depth - 1)); } }
    N::El(nm, at, ch)
}
pub fn c10(c: &mut Ctx) {
    c.part("names");
    let parts = [":", "a", "b", ".", "é", "-"];
    for len in 1..=5usize {
        let mut ix = vec![0usize; len];
        'o: loop {
            let s: String = ix.iter().map(|i| parts[*i]).collect();
            let f = s.chars().next().unwrap();
            if f != '.' && f != '-' {
                c.case(&format!("name {}", s), true, || {
                    let d = doc(&format!("<{} {}='1'/>", s, s))?;
                    let e = d.root_element();
                    let a = &e.attributes()[0];
                    for n in [&e, a].iter() {
                        let (p, l) = match s.find(':') { Some(i) => (s[..i].to_string(), s[i + 1..].to_string()), None => (String::new(), s.clone()) };
                        if n.name() != s || n.space_name() != p || n.local_name() != l { return Err(format!("{:?} splits into {:?} and {:?}", s, n.space_name(), n.local_name())); }
                    }
                    Ok(())
                });
                if c.stop() { return; }
            }
            let mut k = 0;
            loop { if k == len { break 'o; } ix[k] += 1; if ix[k] < parts.len() { break; } ix[k] = 0; k += 1; }
        }
    }
    c.note("all names of up to 5 characters over ':ab.é-'");
    c.part("histories");
    history(c, NS, false, &[4, 2, 2, 2, 1, 12, 4, 1]);
    c.part("nesting");
    while c.more(0.9) {
        let t = gen_ns(&mut c.rng, 4);
        let s = ser(&[t.clone()]);
        // ':' or xmlns-looking element names are legal at token level
        c.case(&s, true, || { let d = doc(&s)?; ns_check(&[t], &mut vec![], &d.children()) });
    }
}

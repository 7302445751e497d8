//! A reference reading of XML markup, written from the XML 1.0 productions and independent of the
//! code under test: tokens, tree, serialiser, generator.
use crate::core::Rng;
use crate::xmlchars::*;

#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Start(String, Vec<(String, String)>),
    End(String),
    Text(String),
    Pi(String, String),
    Comment(String),
    Directive(String),
}

pub fn is_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }

/// Characters a document may contain (XML production 2).
pub fn is_xml_char(c: char) -> bool {
    let u = c as u32;
    u == 9 || u == 10 || u == 13 || (0x20..=0xD7FF).contains(&u) || (0xE000..=0xFFFD).contains(&u) || u >= 0x10000
}

/// One left-to-right pass; None when the text holds something that is not a reference.
pub fn ref_decode(s: &[char]) -> Option<String> {
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] != '&' { o.push(s[i]); i += 1; continue; }
        let mut j = i + 1;
        while j < s.len() && s[j] != ';' { j += 1; }
        if j >= s.len() { return None; }
        let name: String = s[i + 1..j].iter().collect();
        let c = match name.as_str() {
            "lt" => '<', "gt" => '>', "amp" => '&', "quot" => '"', "apos" => '\'',
            n if n.starts_with("#x") => {
                let d = &n[2..];
                if d.is_empty() || !d.chars().all(|c| c.is_ascii_hexdigit()) { return None; }
                let mut v: u64 = 0;
                for c in d.chars() { v = (v * 16 + c.to_digit(16).unwrap() as u64).min(1 << 40); }
                char::from_u32(u32::try_from(v).ok()?)?
            }
            n if n.starts_with('#') => {
                let d = &n[1..];
                if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) { return None; }
                let mut v: u64 = 0;
                for c in d.chars() { v = (v * 10 + c.to_digit(10).unwrap() as u64).min(1 << 40); }
                char::from_u32(u32::try_from(v).ok()?)?
            }
            _ => return None,
        };
        o.push(c);
        i = j + 1;
    }
    Some(o)
}

fn find(s: &[char], from: usize, pat: &str) -> Option<usize> {
    let p: Vec<char> = pat.chars().collect();
    let mut i = from;
    while i + p.len() <= s.len() { if s[i..i + p.len()] == p[..] { return Some(i); } i += 1; }
    None
}

fn name_at(s: &[char], i: usize) -> usize {
    if i >= s.len() || !name_start(s[i]) { return i; }
    let mut j = i + 1;
    while j < s.len() && name_char(s[j]) { j += 1; }
    j
}

fn st(s: &[char]) -> String { s.iter().collect() }

/// The tokens of a text, or None where the text is not well-formed at token level (no claim there).
pub fn ref_tokens(text: &str) -> Option<Vec<Tok>> {
    if text.chars().any(|c| c == '\0') { return None; }
    let s: Vec<char> = text.chars().filter(|c| *c != '\r').collect();
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] != '<' {
            let mut j = i;
            while j < s.len() && s[j] != '<' { j += 1; }
            out.push(Tok::Text(ref_decode(&s[i..j])?));
            i = j;
            continue;
        }
        match s.get(i + 1)? {
            '/' => {
                let j = name_at(&s, i + 2);
                if j == i + 2 { return None; }
                let n = st(&s[i + 2..j]);
                let mut k = j;
                while k < s.len() && is_ws(s[k]) { k += 1; }
                if s.get(k) != Some(&'>') { return None; }
                out.push(Tok::End(n));
                i = k + 1;
            }
            '?' => {
                let j = name_at(&s, i + 2);
                if j == i + 2 { return None; }
                let n = st(&s[i + 2..j]);
                let mut k = j;
                while k < s.len() && is_ws(s[k]) { k += 1; }
                let e = find(&s, k, "?>")?;
                if k == j && e != k { return None; }
                out.push(Tok::Pi(n, st(&s[k..e])));
                i = e + 2;
            }
            '!' => {
                if s[i + 2..].starts_with(&['-', '-']) {
                    let e = find(&s, i + 4, "-->")?;
                    out.push(Tok::Comment(st(&s[i + 4..e])));
                    i = e + 3;
                } else if s[i + 2..].starts_with(&['[', 'C', 'D', 'A', 'T', 'A', '[']) {
                    let e = find(&s, i + 9, "]]>")?;
                    out.push(Tok::Text(st(&s[i + 9..e])));
                    i = e + 3;
                } else {
                    if !s.get(i + 2)?.is_ascii_alphabetic() { return None; }
                    let mut depth = 1;
                    let mut j = i + 2;
                    loop {
                        match s.get(j)? { '<' => depth += 1, '>' => { depth -= 1; if depth == 0 { break; } } _ => {} }
                        j += 1;
                    }
                    out.push(Tok::Directive(st(&s[i..=j])));
                    i = j + 1;
                }
            }
            _ => {
                let mut j = name_at(&s, i + 1);
                if j == i + 1 { return None; }
                let n = st(&s[i + 1..j]);
                let mut at: Vec<(String, String)> = vec![];
                loop {
                    let w = j;
                    while j < s.len() && is_ws(s[j]) { j += 1; }
                    match s.get(j)? {
                        '>' => { out.push(Tok::Start(n, at)); i = j + 1; break; }
                        '/' => {
                            if s.get(j + 1) != Some(&'>') { return None; }
                            out.push(Tok::Start(n.clone(), at)); out.push(Tok::End(n)); i = j + 2; break;
                        }
                        _ => {}
                    }
                    if w == j { return None; }
                    let e = name_at(&s, j);
                    if e == j { return None; }
                    let an = st(&s[j..e]);
                    j = e;
                    while j < s.len() && is_ws(s[j]) { j += 1; }
                    if s.get(j)? != &'=' { return None; }
                    j += 1;
                    while j < s.len() && is_ws(s[j]) { j += 1; }
                    let q = *s.get(j)?;
                    if q != '"' && q != '\'' { return None; }
                    let b = j + 1;
                    let mut e = b;
                    while *s.get(e)? != q { e += 1; }
                    at.push((an, ref_decode(&s[b..e])?));
                    j = e + 1;
                }
            }
        }
    }
    Some(out)
}

// ---------------------------------------------------------------------
#[derive(Debug, Clone, PartialEq)]
pub enum N { El(String, Vec<(String, String)>, Vec<N>), Tx(String), Co(String), Pi(String, String) }

/// Tree of a token list; None when tags do not balance.
pub fn ref_tree(toks: &[Tok]) -> Option<Vec<N>> {
    let mut stack: Vec<(String, Vec<(String, String)>, Vec<N>)> = vec![(String::new(), vec![], vec![])];
    for t in toks {
        match t {
            Tok::Start(n, a) => stack.push((n.clone(), a.clone(), vec![])),
            Tok::End(n) => {
                if stack.len() < 2 || stack.last().unwrap().0 != *n { return None; }
                let (n, a, c) = stack.pop().unwrap();
                stack.last_mut().unwrap().2.push(N::El(n, a, c));
            }
            Tok::Text(s) => if !s.is_empty() { stack.last_mut().unwrap().2.push(N::Tx(s.clone())) },
            Tok::Comment(s) => stack.last_mut().unwrap().2.push(N::Co(s.clone())),
            Tok::Pi(a, b) => stack.last_mut().unwrap().2.push(N::Pi(a.clone(), b.clone())),
            Tok::Directive(_) => {}
        }
    }
    if stack.len() != 1 { return None; }
    Some(stack.pop().unwrap().2)
}

/// Adjacent text merged, empty text dropped.
pub fn merge(v: &[N]) -> Vec<N> {
    let mut o: Vec<N> = vec![];
    for n in v {
        match n {
            N::Tx(s) => {
                if s.is_empty() { continue; }
                if let Some(N::Tx(p)) = o.last_mut() { p.push_str(s); continue; }
                o.push(n.clone());
            }
            N::El(n, a, c) => o.push(N::El(n.clone(), a.clone(), merge(c))),
            _ => o.push(n.clone()),
        }
    }
    o
}

/// Text trimmed and white-space-only text dropped (what pretty printing may change).
pub fn trimmed(v: &[N]) -> Vec<N> {
    merge(v).iter().filter_map(|n| match n {
        N::Tx(s) => { let t = s.trim_matches(is_ws); if t.is_empty() { None } else { Some(N::Tx(t.to_string())) } }
        N::El(n, a, c) => Some(N::El(n.clone(), a.clone(), trimmed(c))),
        _ => Some(n.clone()),
    }).collect()
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '&' => o.push_str("&amp;"), '<' => o.push_str("&lt;"), '>' => o.push_str("&gt;"),
                  '"' => o.push_str("&quot;"), '\'' => o.push_str("&apos;"), '\r' => o.push_str("&#13;"), c => o.push(c) }
    }
    o
}

/// Source text of a tree (plain style).
pub fn ser(v: &[N]) -> String {
    let mut o = String::new();
    for n in v {
        match n {
            N::El(n, a, c) => {
                o.push('<'); o.push_str(n);
                for (k, x) in a { o.push(' '); o.push_str(k); o.push_str("=\""); o.push_str(&esc(x)); o.push('"'); }
                if c.is_empty() { o.push_str("/>"); } else { o.push('>'); o.push_str(&ser(c)); o.push_str("</"); o.push_str(n); o.push('>'); }
            }
            N::Tx(s) => o.push_str(&esc(s)),
            N::Co(s) => { o.push_str("<!--"); o.push_str(s); o.push_str("-->"); }
            N::Pi(a, b) => { o.push_str("<?"); o.push_str(a); o.push(' '); o.push_str(b); o.push_str("?>"); }
        }
    }
    o
}

// ---------------------------------------------------------------------
pub const NAMES: &[&str] = &["a", "b", "c", "ns:a", "x:b", "p.q-r_1", "段落", "é", "_u"];
pub const TEXTS: &[&str] = &["", " ", "x", "]]", "]]>", "--", "?>", "<", "&", "\"", "'", "amp;", "&lt;", "#38;", "&#38;", "\r", "\n ", "a\tb", "語", "\u{1F600}", "gt", ";", ">", "0", "12"];

pub fn gen_text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(4) { s.push_str(r.pick::<&str>(TEXTS)); }
    s
}
fn avoid(mut s: String, pats: &[&str]) -> String { for p in pats { while s.contains(p) { s = s.replace(p, ""); } } s }

pub fn gen_node(r: &mut Rng, depth: usize) -> N {
    match r.below(if depth == 0 { 6 } else { 10 }) {
        0 | 1 => N::Tx(gen_text(r)),
        2 => N::Co(avoid(gen_text(r), &["\r", "-->"])),
        3 => N::Pi(r.pick::<&str>(&["pi", "t", "xm"]).to_string(), avoid(gen_text(r), &["\r", "?>"]).trim_start_matches(is_ws).to_string()),
        _ => gen_el(r, depth),
    }
}
pub fn gen_el(r: &mut Rng, depth: usize) -> N {
    let n = r.pick::<&str>(NAMES).to_string();
    let mut at: Vec<(String, String)> = vec![];
    for _ in 0..r.below(4) {
        let k = r.pick::<&str>(NAMES).to_string();
        if at.iter().any(|x| x.0 == k) { continue; }
        at.push((k, gen_text(r)));
    }
    let mut c = vec![];
    if depth > 0 { for _ in 0..r.below(5) { c.push(gen_node(r, depth - 1)); } }
    N::El(n, at, c)
}

/// A source text for the tree in a randomly chosen style (references, CDATA, quotes, white space, directives).
pub fn ser_any(r: &mut Rng, v: &[N]) -> String {
    let mut o = String::new();
    for n in v {
        if r.chance(1, 12) { o.push_str(r.pick::<&str>(&["<!DOCTYPE r>", "<!DOCTYPE r [<!ELEMENT a (b)> <!ENTITY x \"y\">]>", "<!E <<>> >"])); }
        match n {
            N::El(n, a, c) => {
                o.push('<'); o.push_str(n);
                for (k, x) in a {
                    o.push_str(ws1(r)); o.push_str(k); o.push_str(ws0(r)); o.push('='); o.push_str(ws0(r));
                    let q = if r.chance(1, 2) { '"' } else { '\'' };
                    o.push(q); o.push_str(&esc_any(r, x, Some(q))); o.push(q);
                }
                o.push_str(ws0(r));
                if c.is_empty() && r.chance(1, 2) { o.push_str("/>"); }
                else { o.push('>'); o.push_str(&ser_any(r, c)); o.push_str("</"); o.push_str(n); o.push_str(ws0(r)); o.push('>'); }
            }
            N::Tx(s) => {
                if r.chance(1, 3) && !s.contains("]]>") && !s.contains('\r') { o.push_str("<![CDATA["); o.push_str(s); o.push_str("]]>"); }
                else { o.push_str(&esc_any(r, s, None)); }
            }
            N::Co(s) => { o.push_str("<!--"); o.push_str(s); o.push_str("-->"); }
            N::Pi(a, b) => { o.push_str("<?"); o.push_str(a); o.push_str(ws1(r)); o.push_str(b); o.push_str("?>"); }
        }
    }
    o
}
fn ws0(r: &mut Rng) -> &'static str { *r.pick(&["", "", " ", "\n", "\t ", " \r\n"]) }
fn ws1(r: &mut Rng) -> &'static str { *r.pick(&[" ", " ", "\n", "\t", "  ", "\r\n "]) }
fn esc_any(r: &mut Rng, s: &str, q: Option<char>) -> String {
    let mut o = String::new();
    for c in s.chars() {
        let must = c == '&' || c == '<' || c == '\r' || Some(c) == q;
        if must || r.chance(1, 8) {
            let named = match c { '&' => Some("amp"), '<' => Some("lt"), '>' => Some("gt"), '"' => Some("quot"), '\'' => Some("apos"), _ => None };
            match (named, r.below(3)) {
                (Some(n), 0) => o.push_str(&format!("&{};", n)),
                (_, 1) => o.push_str(&format!("&#x{:X};", c as u32)),
                _ => o.push_str(&format!("&#{};", c as u32)),
            }
        } else { o.push(c); }
    }
    o
}

//! C01-C04: the token reader.
use crate::core::*;
use crate::rxml::*;
use crate::xmlchars::*;
use amxml::dom::*;
use amxml::sax::*;

pub fn real_tokens(text: &str, limit: usize) -> Result<Vec<Tok>, String> {
    let mut d = SaxDecoder::new(text).map_err(|e| format!("new: {}", e))?;
    let mut out = vec![];
    for _ in 0..limit {
        match d.raw_token() {
            Ok(XmlToken::EOF) => return Ok(out),
            Ok(XmlToken::StartElement { name, attr }) =>
                out.push(Tok::Start(name, attr.iter().map(|a| (a.name().to_string(), a.value().to_string())).collect())),
            Ok(XmlToken::EndElement { name }) => out.push(Tok::End(name)),
            Ok(XmlToken::CharData { chardata }) => out.push(Tok::Text(chardata)),
            Ok(XmlToken::ProcInst { target, inst }) => out.push(Tok::Pi(target, inst)),
            Ok(XmlToken::Comment { comment }) => out.push(Tok::Comment(comment)),
            Ok(XmlToken::Directive { directive }) => out.push(Tok::Directive(directive)),
            Err(e) => return Err(format!("error: {}", e)),
        }
    }
    Err("LIMIT".into())
}

/// Reads on after errors, as a caller may; the number of calls is bounded by the text.
fn drain(text: &str) -> Result<(), String> {
    let n = text.chars().count();
    let mut d = SaxDecoder::new(text).map_err(|e| format!("{}", e))?;
    // every call but the last consumes a character or delivers a pending end tag
    let mut calls = 0;
    let mut eof = false;
    while calls <= 2 * n + 4 {
        calls += 1;
        if let Ok(XmlToken::EOF) = d.raw_token() { if !text.contains('\0') { eof = true; break; } }
    }
    if !eof && !text.contains('\0') { return Err(format!("no end of input after {} calls on {} characters", calls, n)); }
    let _ = new_document(text).map(|d| d.to_string());
    Ok(())
}

const FRAG: &[&str] = &["<", ">", "/", "!", "-", "--", "[", "]", "?", "a", "=", "\"", "'", "&", ";", "#", " ", "CDATA[", "x", "<!", "<?", "</"];

fn product(frag: &[&str], len: usize, f: &mut dyn FnMut(&str) -> bool) {
    let mut ix = vec![0usize; len];
    loop {
        let s: String = ix.iter().map(|i| frag[*i]).collect();
        if !f(&s) { return; }
        let mut k = 0;
        loop {
            if k == len { return; }
            ix[k] += 1;
            if ix[k] < frag.len() { break; }
            ix[k] = 0; k += 1;
        }
    }
}

pub fn gen_doc(r: &mut Rng) -> (Vec<N>, String) {
    let mut v = vec![];
    for _ in 0..1 + r.below(3) { v.push(gen_node(r, 3)); }
    let s = ser_any(r, &v);
    (v, s)
}

pub fn c01(c: &mut Ctx) {
    c.part("fragments");
    let depth = c.n(4, 5);
    for len in 0..=depth {
        let mut todo = vec![];
        product(FRAG, len, &mut |s| { todo.push(s.to_string()); true });
        for s in todo { c.case(&s, true, || drain(&s)); if c.stop() { return; } }
    }
    c.note(&format!("all sequences of up to {} of {} markup fragments", depth, FRAG.len()));
    c.part("truncations");
    let n = c.n(150, 1500);
    for _ in 0..n {
        if c.stop() { return; }
        let (_, s) = gen_doc(&mut c.rng);
        let cs: Vec<char> = s.chars().take(400).collect();
        for k in 0..=cs.len() {
            let t: String = cs[..k].iter().collect();
            c.case(&t, true, || drain(&t));
        }
    }
    c.part("mutations");
    while c.more(0.9) {
        let (_, s) = gen_doc(&mut c.rng);
        let mut cs: Vec<char> = s.chars().collect();
        for _ in 0..1 + c.rng.below(4) {
            let i = c.rng.below(cs.len() + 1);
            match c.rng.below(3) {
                0 => { if i < cs.len() { cs.remove(i); } }
                1 => { let x = *c.rng.pick(&['<', '>', '/', '&', ';', '"', '\'', '=', '\0', '!', '-', ']', '?', '\u{10FFFF}', '\u{FFFE}', '\r', '#']); cs.insert(i, x); }
                _ => { if i < cs.len() { cs[i] = char::from_u32((c.rng.next() % 0x11_0000) as u32).unwrap_or('<'); } }
            }
        }
        let t: String = cs.iter().collect();
        c.case(&t, true, || drain(&t));
    }
}

fn check_tokens(text: &str) -> Result<(), String> {
    let want = match ref_tokens(text) { Some(w) => w, None => return Ok(()) };
    let got = real_tokens(text, 4 * text.len() + 8)?;
    if got != want {
        let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
        return Err(format!("token {}: expected {:?}, got {:?}", i, want.get(i), got.get(i)));
    }
    Ok(())
}

pub fn c02(c: &mut Ctx) {
    c.part("delimiters");
    // everything between an opening and a closing delimiter
    let kinds: &[(&str, &str, &[&str])] = &[
        ("<!--", "-->", &["-", "--", ">", "a", "<", "]", "&amp;", "?", " "]),
        ("<![CDATA[", "]]>", &["]", "]]", ">", "a", "<", "-", "&lt;", "?", " "]),
        ("<?t ", "?>", &["?", "??", ">", "a", "<", "-", "&lt;", "]", " "]),
        ("<a b=\"", "\"/>", &["'", "a", ">", "/", "&quot;", " ", "=", "\n", "-"]),
        ("<a b='", "'/>", &["\"", "a", ">", "/", "&apos;", " ", "=", "\n", "-"]),
        ("<!D", ">", &["<", ">", "a", "[", "]", "-", "\"", " ", "<!-- x -->"]),
        ("<a>", "</a>", &["]]>", ">", "a", "/", "&lt;", "-", "\"", " ", "="]),
        ("<a", "/>", &[" ", "b='1'", "c=\"2\"", "/", "a", "-", ".", "\n", ":"]),
        ("</a", ">", &[" ", "b", "\t", "a", "-", ".", "\n", ":", "1"]),
    ];
    let len = c.n(4, 5);
    for (o, cl, fr) in kinds {
        for l in 0..=len {
            let mut todo = vec![];
            product(fr, l, &mut |s| { todo.push(format!("{}{}{}z<!--e-->", o, s, cl)); true });
            for t in todo {
                let nt = ref_tokens(&t).is_some();
                c.case(&t, nt, || check_tokens(&t));
                if c.stop() { return; }
            }
        }
    }
    c.note(&format!("every sequence of up to {} near-delimiter fragments inside each of the 9 token kinds", len));
    c.part("documents");
    while c.more(0.9) {
        let (_, s) = gen_doc(&mut c.rng);
        let nt = ref_tokens(&s).is_some();
        c.case(&s, nt, || check_tokens(&s));
    }
}

fn attr_of(text: &str) -> Result<(String, String), String> {
    // the same text as character data and as an attribute value
    let a = real_tokens(&format!("<a b=\"{}\"/>", text.replace('"', "&quot;")), 10)?;
    let v = match &a[0] { Tok::Start(_, at) if at.len() == 1 => at[0].1.clone(), t => return Err(format!("attribute lost: {:?}", t)) };
    let t = real_tokens(&format!("<a>{}</a>", text), 10)?;
    let x = match &t[1] { Tok::Text(s) => s.clone(), Tok::End(_) => String::new(), t => return Err(format!("text lost: {:?}", t)) };
    Ok((v, x))
}

pub fn c03(c: &mut Ctx) {
    fn dec(text: &str) -> Result<(), String> {
        let cs: Vec<char> = text.chars().filter(|c| *c != '\r').collect();
        let want = match ref_decode(&cs) { Some(w) => w, None => return Ok(()) };
        let (v, x) = attr_of(text)?;
        if x != want { return Err(format!("character data: expected {:?}, got {:?}", want, x)); }
        if v != want { return Err(format!("attribute value: expected {:?}, got {:?}", want, v)); }
        let raw: String = cs.iter().collect();
        if !raw.contains("]]>") {
            // a CDATA section holds no references
            let mut d = SaxDecoder::new(&format!("<![CDATA[{}]]>", text)).map_err(|e| format!("{}", e))?;
            match d.raw_token() { Ok(XmlToken::CharData { chardata }) => if chardata != raw { return Err(format!("CDATA section: expected {:?}, got {:?}", raw, chardata)); }, _ => return Err("CDATA section: no character data".into()) }
        }
        Ok(())
    }
    fn inv(text: &str) -> Result<(), String> {
        // set as an attribute (and as text), serialise, read again
        let doc = new_document("<a/>").map_err(|e| format!("{}", e))?;
        let mut r = doc.root_element();
        r.set_attribute("k", text);
        let s = doc.to_string();
        let d2 = new_document(&s).map_err(|e| format!("{} does not read back: {}", s, e))?;
        match d2.root_element().attribute_value("k") { Some(ref t) if t == text => {}, o => return Err(format!("written as {:?}, read back as {:?}", s, o)) }
        Ok(())
    }
    c.part("all-scalars");
    for u in 1..0x11_0000u32 {
        if let Some(ch) = char::from_u32(u) {
            if !c.thorough && u > 0x3100 && u % 29 != 0 { continue; }
            let t = format!("&#{};&#x{:x};&#x{:X};", u, u, u);
            c.case(&t, true, || {
                let (v, x) = attr_of(&t)?;
                let want: String = vec![ch, ch, ch].into_iter().collect();
                if v != want || x != want { return Err(format!("expected {:?}, got {:?} / {:?}", want, v, x)); }
                Ok(())
            });
            if is_xml_char(ch) { let t = ch.to_string(); c.case(&format!("escape {}", t), true, || inv(&t)); }
            if c.stop() { return; }
        }
    }
    if c.thorough { c.note("every Unicode scalar value as decimal, lower and upper hexadecimal reference"); }
    c.part("adjacent");
    let fr = &["&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#38;", "&#x26;", "#38;", "#", "x26;", "amp;", "lt;", "quot;", ";", "a", "1", "&#60;", "&#x3C;", "apos;"];
    let len = c.n(3, 4);
    for l in 0..=len {
        let mut todo = vec![];
        product(fr, l, &mut |s| { todo.push(s.to_string()); true });
        for t in todo { c.case(&t, true, || dec(&t)); if c.stop() { return; } }
    }
    c.note(&format!("all sequences of up to {} of {} reference fragments", len, fr.len()));
    c.part("inverse");
    let fr = &["&", "<", ">", "\"", "'", "\r", "amp;", "lt;", "#38;", "gt;", "quot;", ";", "a", "&amp;", "\n"];
    for l in 0..=len {
        let mut todo = vec![];
        product(fr, l, &mut |s| { todo.push(s.to_string()); true });
        for t in todo { c.case(&format!("escape {}", t), true, || inv(&t)); if c.stop() { return; } }
    }
    c.part("random");
    while c.more(0.9) {
        let mut t = String::new();
        for _ in 0..c.rng.below(12) { if c.rng.chance(1, 2) { t.push_str(c.rng.pick::<&str>(TEXTS)); } else { t.push_str(&esc(&gen_text(&mut c.rng))); } }
        let t2 = t.clone();
        c.case(&t, true, || { if !t2.contains('<') { dec(&t2)?; } inv(&t2) });
    }
}

pub fn c04(c: &mut Ctx) {
    c.part("all-scalars");
    for u in 1..0x11_0000u32 {
        let ch = match char::from_u32(u) { Some(x) => x, None => continue };
        if ch == '\r' { continue; }
        let d = format!("character U+{:04X}", u);
        c.case(&d, true, || {
            // first character of an element name: otherwise the reader sees an empty name
            if !['/', '?', '!', '>', '<'].contains(&ch) {
                let t = real_tokens(&format!("<{}/>", ch), 8);
                let first = match t { Ok(ref v) => match v.get(0) { Some(Tok::Start(n, _)) => *n == ch.to_string(), _ => false }, _ => false };
                if first != name_start(ch) { return Err(format!("as first name character: accepted = {}, XML 1.0 says {}", first, name_start(ch))); }
            }
            // later character: of an element, an end tag, an attribute and an instruction name
            let t = real_tokens(&format!("<?a{}?>", ch), 8);
            let pi = match t { Ok(ref v) => match v.get(0) { Some(Tok::Pi(n, _)) => *n == format!("a{}", ch), _ => false }, _ => false };
            if ch != '?' && pi != name_char(ch) { return Err(format!("inside an instruction name: accepted = {}, XML 1.0 says {}", pi, name_char(ch))); }
            let t = real_tokens(&format!("</a{}>", ch), 8);
            let et = match t { Ok(ref v) => match v.get(0) { Some(Tok::End(n)) => *n == format!("a{}", ch), _ => false }, _ => false };
            if et != name_char(ch) { return Err(format!("inside an end-tag name: accepted = {}, XML 1.0 says {}", et, name_char(ch))); }
            let t = real_tokens(&format!("<a{}b/>", ch), 8);
            let el = match t { Ok(ref v) => match v.get(0) { Some(Tok::Start(n, _)) => *n == format!("a{}b", ch), _ => false }, _ => false };
            if el != name_char(ch) { return Err(format!("inside an element name: accepted = {}, XML 1.0 says {}", el, name_char(ch))); }
            // white space around '=' in a tag
            let t = real_tokens(&format!("<a b{}=\"1\"/>", ch), 8);
            let ws = match t { Ok(ref v) => match v.get(0) { Some(Tok::Start(_, at)) => at.len() == 1 && at[0] == ("b".to_string(), "1".to_string()), _ => false }, _ => false };
            if ws != is_ws(ch) && ch != '=' { return Err(format!("before '=': taken as white space = {}, XML 1.0 says {}", ws, is_ws(ch))); }
            let t = real_tokens(&format!("<?a {}1?>", ch), 8);
            let ws = match t { Ok(ref v) => match v.get(0) { Some(Tok::Pi(_, i)) => i == "1", _ => false }, _ => false };
            if ws != is_ws(ch) { return Err(format!("after an instruction target: skipped = {}, XML 1.0 says {}", ws, is_ws(ch))); }
            Ok(())
        });
        if c.stop() { return; }
    }
    c.note("every Unicode scalar value but NUL, as first name character, later name character (element, end tag, instruction) and white space");
}

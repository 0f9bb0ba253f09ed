//! A small independent XML tokenizer: well-formedness of the subset used by XMP and removal of EXIF content
use crate::img::R;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok { Start(String, Vec<(String, String)>), End(String), Empty(String, Vec<(String, String)>), Text(String), Other(String) }
fn name_end(s: &str) -> usize { s.find(|c: char| c.is_ascii_whitespace() || matches!(c, '=' | '/' | '>' | '<' | '"' | '\'')).unwrap_or(s.len()) }
pub fn tokens(x: &str) -> R<Vec<Tok>> {
    let mut v = vec![]; let mut s = x; let mut stack: Vec<String> = vec![];
    while !s.is_empty() {
        if let Some(r) = s.strip_prefix("<!--") { let e = r.find("-->").ok_or("comment not closed")?; v.push(Tok::Other(s[..e + 7].into())); s = &s[e + 7..]; continue; }
        if let Some(r) = s.strip_prefix("<![CDATA[") { let e = r.find("]]>").ok_or("cdata not closed")?; v.push(Tok::Other(s[..e + 12].into())); s = &s[e + 12..]; continue; }
        if let Some(r) = s.strip_prefix("<?") { let e = r.find("?>").ok_or("processing instruction not closed")?; v.push(Tok::Other(s[..e + 4].into())); s = &s[e + 4..]; continue; }
        if let Some(r) = s.strip_prefix("<!") { let e = r.find('>').ok_or("declaration not closed")?; if r[..e].contains(['[', '<', '"', '\'']) { return Err("declaration out of the subset".into()); } v.push(Tok::Other(s[..e + 3].into())); s = &s[e + 3..]; continue; }
        if let Some(r) = s.strip_prefix("</") {
            let e = r.find('>').ok_or("end tag not closed")?; let n = r[..e].trim_end().to_string();
            if stack.pop().as_deref() != Some(&n) { return Err(format!("end tag {} does not match", n)); }
            v.push(Tok::End(n)); s = &r[e + 1..]; continue;
        }
        if let Some(r) = s.strip_prefix('<') {
            let n = name_end(r); if n == 0 { return Err("empty element name".into()); }
            let name = r[..n].to_string(); let mut r = &r[n..]; let mut at: Vec<(String, String)> = vec![];
            loop {
                let t = r.trim_start(); let ws = t.len() != r.len(); r = t;
                if let Some(q) = r.strip_prefix("/>") { v.push(Tok::Empty(name, at)); s = q; break; }
                if let Some(q) = r.strip_prefix('>') { stack.push(name.clone()); v.push(Tok::Start(name, at)); s = q; break; }
                if r.starts_with('<') { return Err("< inside a tag".into()); }
                let n = name_end(r); if n == 0 || !ws { return Err("bad attribute".into()); }
                let an = r[..n].to_string(); let q = r[n..].trim_start().strip_prefix('=').ok_or("attribute without value")?.trim_start();
                let qc = q.chars().next().filter(|c| matches!(c, '"' | '\'')).ok_or("attribute value not quoted")?;
                let e = q[1..].find(qc).ok_or("attribute value not closed")?;
                if at.iter().any(|a| a.0 == an) { return Err("duplicate attribute".into()); }
                at.push((an, q[..e + 2].to_string())); r = &q[e + 2..];
            }
            continue;
        }
        let e = s.find('<').unwrap_or(s.len());
        v.push(Tok::Text(s[..e].into())); s = &s[e..];
    }
    if !stack.is_empty() { return Err(format!("element {} not closed", stack.last().unwrap())); }
    Ok(v)
}
/// the document with EXIF elements and attributes removed, as a list of (optional, text): whitespace with one line break right after a removed element may go with it
pub fn without_exif(x: &[u8]) -> R<Vec<(bool, String)>> {
    let x = std::str::from_utf8(x).map_err(|_| "not UTF-8")?;
    let t = tokens(x)?;
    let ex = |n: &str| n.starts_with("exif:");
    let mut out = vec![]; let mut depth = 0usize; let mut after = false;
    let ser = |k: Tok| format!("\u{1}{:?}\u{2}", k);
    for k in t {
        let aft = std::mem::take(&mut after);
        match k {
            Tok::Start(n, at) => if depth > 0 || ex(&n) { depth += 1; } else { out.push((false, ser(Tok::Start(n, at.into_iter().filter(|a| !ex(&a.0)).collect())))); },
            Tok::Empty(n, at) => if depth == 0 { if ex(&n) { after = true; } else { out.push((false, ser(Tok::Empty(n, at.into_iter().filter(|a| !ex(&a.0)).collect())))); } },
            Tok::End(n) => if depth > 0 { depth -= 1; after = depth == 0; } else { out.push((false, ser(Tok::End(n)))); },
            Tok::Text(s) => if depth == 0 { out.push((aft && s.matches('\n').count() == 1 && s.trim().is_empty(), s)); },
            Tok::Other(s) => if depth == 0 { out.push((false, ser(Tok::Other(s)))); },
        }
    }
    Ok(out)
}
/// the same as one byte string without whitespace-only texts with line breaks (C21 compares these as well)
pub fn loose(x: &[u8]) -> R<Vec<u8>> { Ok(without_exif(x)?.into_iter().filter(|s| !(s.1.contains('\n') && s.1.trim().is_empty())).map(|s| s.1).collect::<String>().into_bytes()) }
/// is `got` the document `want` with some of its optional parts left out?
pub fn same(want: &[(bool, String)], got: &[(bool, String)]) -> bool {
    fn m(w: &[(bool, String)], g: &str) -> bool {
        match w.first() { None => g.is_empty(), Some((o, s)) => g.strip_prefix(s.as_str()).is_some_and(|r| m(&w[1..], r)) || (*o && m(&w[1..], g)) }
    }
    m(want, &got.iter().map(|g| g.1.as_str()).collect::<String>())
}
pub fn has_exif(x: &[u8]) -> bool {
    match std::str::from_utf8(x).ok().and_then(|s| tokens(s).ok()) { Some(t) => t.iter().any(|k| match k { Tok::Start(n, a) | Tok::Empty(n, a) => n.starts_with("exif:") || a.iter().any(|q| q.0.starts_with("exif:")), _ => false }), None => false }
}

//! A small strict XML reader: well-formedness of what the renderer emits, and the element tree.
use std::collections::BTreeMap;
#[derive(Debug, Clone, PartialEq)]
pub enum X { El(El), Text(String) }
#[derive(Debug, Clone, PartialEq)]
pub struct El { pub name: String, pub attrs: BTreeMap<String, String>, pub kids: Vec<X> }
impl El {
    pub fn a(&self, k: &str) -> &str { self.attrs.get(k).map(|s| s.as_str()).unwrap_or("") }
    pub fn f(&self, k: &str) -> Option<f32> { self.attrs.get(k).and_then(|s| s.parse().ok()) }
    pub fn els(&self) -> impl Iterator<Item = &El> { self.kids.iter().filter_map(|k| if let X::El(e) = k { Some(e) } else { None }) }
    pub fn text(&self) -> String { self.kids.iter().filter_map(|k| if let X::Text(t) = k { Some(t.as_str()) } else { None }).collect() }
}
pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\u{9}' | '\u{A}' | '\u{D}' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
struct P<'a> { s: &'a str, i: usize }
impl<'a> P<'a> {
    fn rest(&self) -> &'a str { &self.s[self.i..] }
    fn peek(&self) -> Option<char> { self.rest().chars().next() }
    fn bump(&mut self) -> Option<char> { let c = self.peek()?; self.i += c.len_utf8(); Some(c) }
    fn ws(&mut self) { while matches!(self.peek(), Some(' ' | '\n' | '\t' | '\r')) { self.bump(); } }
    fn name(&mut self) -> Result<String, String> {
        let st = self.i;
        while let Some(c) = self.peek() { if c.is_alphanumeric() || matches!(c, '-' | '_' | ':' | '.') { self.bump(); } else { break } }
        if st == self.i { return Err(format!("name expected at byte {}", st)); }
        let n = &self.s[st..self.i];
        if !n.chars().next().unwrap().is_alphabetic() && !n.starts_with('_') { return Err(format!("bad name {:?}", n)); }
        Ok(n.to_string())
    }
    fn entity(&mut self) -> Result<char, String> {
        // at '&'
        let r = self.rest();
        let e = r.find(';').ok_or_else(|| format!("unterminated entity at byte {}", self.i))?;
        let b = &r[1..e];
        self.i += e + 1;
        let c = match b {
            "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'',
            _ => {
                let n = if let Some(h) = b.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() }
                    else if let Some(d) = b.strip_prefix('#') { d.parse().ok() } else { None };
                n.and_then(char::from_u32).filter(|c| is_xml_char(*c)).ok_or_else(|| format!("bad entity &{};", b))?
            }
        };
        Ok(c)
    }
    fn el(&mut self) -> Result<El, String> {
        if self.bump() != Some('<') { return Err("'<' expected".into()); }
        let name = self.name()?;
        let mut attrs = BTreeMap::new();
        loop {
            let before = self.i;
            self.ws();
            match self.peek() {
                Some('/') => { self.bump(); if self.bump() != Some('>') { return Err("'>' expected".into()); } return Ok(El { name, attrs, kids: vec![] }); }
                Some('>') => { self.bump(); break; }
                Some(_) => {
                    if before == self.i { return Err(format!("whitespace expected before attribute at {}", self.i)); }
                    let k = self.name()?;
                    if self.bump() != Some('=') { return Err("'=' expected".into()); }
                    let q = self.bump().ok_or("eof")?;
                    if q != '"' && q != '\'' { return Err("quote expected".into()); }
                    let mut v = String::new();
                    loop {
                        match self.peek() {
                            None => return Err("eof in attribute".into()),
                            Some(c) if c == q => { self.bump(); break; }
                            Some('<') => return Err("'<' in attribute".into()),
                            Some('&') => v.push(self.entity()?),
                            Some(c) => { if !is_xml_char(c) { return Err(format!("illegal character {:?}", c)); } v.push(c); self.bump(); }
                        }
                    }
                    if attrs.insert(k.clone(), v).is_some() { return Err(format!("duplicate attribute {}", k)); }
                }
                None => return Err("eof in tag".into()),
            }
        }
        let mut kids = vec![];
        let mut t = String::new();
        loop {
            match self.peek() {
                None => return Err(format!("eof inside <{}>", name)),
                Some('<') => {
                    if !t.is_empty() { kids.push(X::Text(std::mem::take(&mut t))); }
                    if self.rest().starts_with("</") {
                        self.i += 2;
                        let n = self.name()?;
                        if n != name { return Err(format!("</{}> closes <{}>", n, name)); }
                        self.ws();
                        if self.bump() != Some('>') { return Err("'>' expected".into()); }
                        return Ok(El { name, attrs, kids });
                    }
                    if self.rest().starts_with("<!") || self.rest().starts_with("<?") { return Err(format!("unexpected markup at byte {}", self.i)); }
                    kids.push(X::El(self.el()?));
                }
                Some('&') => t.push(self.entity()?),
                Some(c) => {
                    if !is_xml_char(c) { return Err(format!("illegal character {:?}", c)); }
                    if self.rest().starts_with("]]>") { return Err("]]> in text".into()); }
                    t.push(c);
                    self.bump();
                }
            }
        }
    }
}
pub fn parse(s: &str) -> Result<El, String> {
    let mut p = P { s, i: 0 };
    p.ws();
    let e = p.el()?;
    p.ws();
    if p.i != s.len() { return Err(format!("trailing content at byte {}", p.i)); }
    Ok(e)
}

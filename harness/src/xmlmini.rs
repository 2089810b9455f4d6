//! A small strict XML 1.0 parser and a serializer with many legal layouts. No DTDs, no namespaces.

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Node {
    El(El),
    Text(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
    /// Plain content still to be encrypted with the inner stream (see `xmlmap::seal`).
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub secret: Option<crate::model::Bytes>,
}

impl El {
    pub fn new(name: &str) -> El {
        El { name: name.into(), ..El::default() }
    }
    pub fn text(name: &str, text: &str) -> El {
        let mut e = El::new(name);
        if !text.is_empty() {
            e.kids.push(Node::Text(text.into()));
        }
        e
    }
    pub fn attr(mut self, k: &str, v: &str) -> El {
        self.attrs.push((k.into(), v.into()));
        self
    }
    pub fn push(&mut self, e: El) {
        self.kids.push(Node::El(e));
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|n| match n {
            Node::El(e) => Some(e),
            _ => None,
        })
    }
    /// Text of an element that has only text; None if it has child elements.
    pub fn only_text(&self) -> Option<String> {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::El(_) => return None,
            }
        }
        Some(s)
    }
    pub fn get_attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
    }
    pub fn has_els(&self) -> bool {
        self.els().next().is_some()
    }
}

pub fn legal(c: char) -> bool {
    matches!(c, '\u{9}' | '\u{A}' | '\u{D}' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

pub fn legal_text(s: &str) -> bool {
    s.chars().all(legal)
}

// ---------------------------------------------------------------- parser

struct P<'a> {
    s: &'a [char],
    i: usize,
}

pub fn parse(bytes: &[u8]) -> Result<El, String> {
    let text = std::str::from_utf8(bytes).map_err(|e| format!("XML is not UTF-8: {}", e))?;
    let text = text.strip_prefix('\u{feff}').unwrap_or(text);
    // line end normalisation (XML 1.0, 2.11)
    let mut norm: Vec<char> = Vec::with_capacity(text.len());
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\r' {
            if it.peek() == Some(&'\n') {
                it.next();
            }
            norm.push('\n');
        } else {
            if !legal(c) {
                return Err(format!("character U+{:04X} is not allowed in XML", c as u32));
            }
            norm.push(c);
        }
    }
    let mut p = P { s: &norm, i: 0 };
    p.document()
}

fn name_start(c: char) -> bool {
    c == ':' || c == '_' || c.is_ascii_alphabetic() || (c as u32) >= 0xC0
}
fn name_char(c: char) -> bool {
    name_start(c) || c == '-' || c == '.' || c.is_ascii_digit() || c == '\u{B7}'
}
fn space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

impl P<'_> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let around: String = self.s[self.i.saturating_sub(20)..(self.i + 20).min(self.s.len())].iter().collect();
        Err(format!("XML offset {}: {} near {:?}", self.i, m, around))
    }
    fn looking(&self, t: &str) -> bool {
        t.chars().enumerate().all(|(k, c)| self.s.get(self.i + k) == Some(&c))
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.looking(t) {
            self.i += t.chars().count();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) -> bool {
        let s = self.i;
        while self.peek().is_some_and(space) {
            self.i += 1;
        }
        self.i > s
    }
    fn name(&mut self) -> Result<String, String> {
        let s = self.i;
        if !self.peek().is_some_and(name_start) {
            return self.err("name expected");
        }
        while self.peek().is_some_and(name_char) {
            self.i += 1;
        }
        Ok(self.s[s..self.i].iter().collect())
    }
    fn until(&mut self, end: &str) -> Result<String, String> {
        let s = self.i;
        while self.i < self.s.len() {
            if self.looking(end) {
                let r = self.s[s..self.i].iter().collect();
                self.i += end.chars().count();
                return Ok(r);
            }
            self.i += 1;
        }
        self.err("unterminated construct")
    }
    fn misc(&mut self) -> Result<bool, String> {
        if self.eat("<!--") {
            let c = self.until("-->")?;
            if c.contains("--") || c.ends_with('-') {
                return self.err("'--' in comment");
            }
            Ok(true)
        } else if self.looking("<?") {
            self.eat("<?");
            let n = self.name()?;
            if n.eq_ignore_ascii_case("xml") {
                return self.err("misplaced XML declaration");
            }
            self.until("?>")?;
            Ok(true)
        } else {
            Ok(false)
        }
    }
    fn document(&mut self) -> Result<El, String> {
        if self.looking("<?xml") && self.s.get(self.i + 5).copied().is_some_and(space) {
            self.eat("<?xml");
            let decl = self.until("?>")?;
            if !decl.contains("version=\"1.") && !decl.contains("version='1.") {
                return self.err("XML declaration without version");
            }
            let l = decl.to_lowercase();
            if l.contains("encoding") && !l.contains("utf-8") {
                return self.err("encoding is not UTF-8");
            }
        }
        loop {
            if self.ws() {
                continue;
            }
            if !self.misc()? {
                break;
            }
        }
        let root = self.element(0)?;
        loop {
            if self.ws() {
                continue;
            }
            if self.i == self.s.len() {
                return Ok(root);
            }
            if !self.misc()? {
                return self.err("content after the root element");
            }
        }
    }
    fn reference(&mut self) -> Result<char, String> {
        // after '&'
        let body = self.until(";")?;
        let c = match body.as_str() {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            b => {
                let n = if let Some(h) = b.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = b.strip_prefix('#') {
                    d.parse::<u32>().ok()
                } else {
                    None
                };
                match n.and_then(char::from_u32) {
                    Some(c) if legal(c) => c,
                    _ => return self.err("bad reference"),
                }
            }
        };
        Ok(c)
    }
    fn element(&mut self, depth: usize) -> Result<El, String> {
        if depth > 2000 {
            return self.err("too deep");
        }
        if !self.eat("<") {
            return self.err("'<' expected");
        }
        let mut el = El::new(&self.name()?);
        loop {
            let had = self.ws();
            if self.eat("/>") {
                return Ok(el);
            }
            if self.eat(">") {
                break;
            }
            if !had {
                return self.err("space expected before attribute");
            }
            let n = self.name()?;
            self.ws();
            if !self.eat("=") {
                return self.err("'=' expected");
            }
            self.ws();
            let q = match self.peek() {
                Some(c) if c == '"' || c == '\'' => c,
                _ => return self.err("quote expected"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.peek() {
                    None => return self.err("unterminated attribute"),
                    Some(c) if c == q => {
                        self.i += 1;
                        break;
                    }
                    Some('<') => return self.err("'<' in attribute"),
                    Some('&') => {
                        self.i += 1;
                        v.push(self.reference()?);
                    }
                    Some(c) => {
                        // attribute value normalisation
                        v.push(if space(c) { ' ' } else { c });
                        self.i += 1;
                    }
                }
            }
            if el.attrs.iter().any(|(k, _)| *k == n) {
                return self.err("duplicate attribute");
            }
            el.attrs.push((n, v));
        }
        let mut text = String::new();
        loop {
            match self.peek() {
                None => return self.err("unclosed element"),
                Some('<') => {
                    if self.eat("<![CDATA[") {
                        text.push_str(&self.until("]]>")?);
                        continue;
                    }
                    if self.looking("<!--") || self.looking("<?") {
                        self.misc()?;
                        continue;
                    }
                    if !text.is_empty() {
                        el.kids.push(Node::Text(std::mem::take(&mut text)));
                    }
                    if self.eat("</") {
                        let n = self.name()?;
                        if n != el.name {
                            return self.err("mismatched end tag");
                        }
                        self.ws();
                        if !self.eat(">") {
                            return self.err("'>' expected");
                        }
                        return Ok(el);
                    }
                    el.kids.push(Node::El(self.element(depth + 1)?));
                }
                Some('&') => {
                    self.i += 1;
                    text.push(self.reference()?);
                }
                Some(c) => {
                    if c == ']' && self.looking("]]>") {
                        return self.err("']]>' in text");
                    }
                    text.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- serializer

/// Layout choices; every per-node choice is a function of `seed` and the node's position.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Style {
    pub seed: u64,
    /// 0 none, 1 version only, 2 encoding, 3 standalone, 4 single quotes
    pub decl: u8,
    pub bom: bool,
    /// 0 no indentation, 1 "\n\t", 2 "\r\n  ", 3 "\n"
    pub indent: u8,
    /// percentages
    pub cdata: u8,
    pub charref: u8,
    pub comment: u8,
    pub selfclose: u8,
    pub spacing: u8,
    pub squote: u8,
    /// comments and processing instructions inside text
    pub split: u8,
}

impl Default for Style {
    fn default() -> Self {
        Style { seed: 0, decl: 3, bom: false, indent: 1, cdata: 0, charref: 0, comment: 0, selfclose: 50, spacing: 0, squote: 0, split: 0 }
    }
}

struct W<'a> {
    out: String,
    st: &'a Style,
    n: u64,
}

pub fn serialize(root: &El, st: &Style) -> Vec<u8> {
    let mut w = W { out: String::new(), st, n: 0 };
    if st.bom {
        w.out.push('\u{feff}');
    }
    w.out.push_str(match st.decl {
        0 => "",
        1 => "<?xml version=\"1.0\"?>",
        2 => "<?xml version=\"1.0\" encoding=\"utf-8\"?>",
        3 => "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>",
        _ => "<?xml version='1.0' encoding='UTF-8'?>",
    });
    if w.roll(st.comment) {
        w.out.push_str("\n<!-- written by the harness -->\n");
    } else if st.decl > 0 && st.indent > 0 {
        w.out.push('\n');
    }
    w.el(root, 0);
    if w.roll(st.comment) {
        w.out.push_str("<!-- end -->");
    }
    if w.roll(50) {
        w.out.push('\n');
    }
    w.out.into_bytes()
}

impl W<'_> {
    fn rnd(&mut self) -> u64 {
        self.n += 1;
        crate::rng::mix(self.st.seed ^ crate::rng::mix(self.n))
    }
    fn roll(&mut self, pct: u8) -> bool {
        pct > 0 && self.rnd() % 100 < pct as u64
    }
    fn nl(&mut self, depth: usize) {
        match self.st.indent {
            0 => {}
            1 => {
                self.out.push('\n');
                for _ in 0..depth {
                    self.out.push('\t');
                }
            }
            2 => {
                self.out.push_str("\r\n");
                for _ in 0..depth {
                    self.out.push_str("  ");
                }
            }
            _ => self.out.push('\n'),
        }
    }
    fn el(&mut self, e: &El, depth: usize) {
        self.out.push('<');
        self.out.push_str(&e.name);
        for (k, v) in &e.attrs {
            let pad = self.roll(self.st.spacing);
            self.out.push_str(if pad { "\n  " } else { " " });
            self.out.push_str(k);
            let eq = if self.roll(self.st.spacing) { " = " } else { "=" };
            self.out.push_str(eq);
            let q = if self.roll(self.st.squote) { '\'' } else { '"' };
            self.out.push(q);
            for c in v.chars() {
                match c {
                    '&' => self.out.push_str("&amp;"),
                    '<' => self.out.push_str("&lt;"),
                    '\t' | '\n' | '\r' => self.out.push_str(&format!("&#{};", c as u32)),
                    c if c == q => self.out.push_str(if q == '"' { "&quot;" } else { "&apos;" }),
                    c if self.st.charref > 0 && self.roll(self.st.charref) => self.out.push_str(&format!("&#x{:X};", c as u32)),
                    c => self.out.push(c),
                }
            }
            self.out.push(q);
        }
        if e.kids.is_empty() && self.roll(self.st.selfclose) {
            let close = if self.roll(50) { " />" } else { "/>" };
            self.out.push_str(close);
            return;
        }
        if self.roll(self.st.spacing) {
            self.out.push(' ');
        }
        self.out.push('>');
        let els = e.has_els();
        for k in &e.kids {
            match k {
                Node::Text(t) => self.text(t),
                Node::El(c) => {
                    if els {
                        self.nl(depth + 1);
                        if self.roll(self.st.comment) {
                            let c = if self.roll(50) { "<!-- <Name>not this</Name> & that -->" } else { "<?pi some data?>" };
                            self.out.push_str(c);
                            self.nl(depth + 1);
                        }
                    }
                    self.el(c, depth + 1);
                }
            }
        }
        if els {
            self.nl(depth);
        }
        self.out.push_str("</");
        self.out.push_str(&e.name);
        if self.roll(self.st.spacing) {
            self.out.push(' ');
        }
        self.out.push('>');
    }
    fn text(&mut self, t: &str) {
        if t.is_empty() {
            return;
        }
        // CDATA cannot hold "]]>" nor a carriage return
        if !t.contains("]]>") && !t.contains('\r') && self.roll(self.st.cdata) {
            if t.chars().count() > 1 && self.roll(40) {
                let mid = t.char_indices().nth(t.chars().count() / 2).map(|(i, _)| i).unwrap();
                let (a, b) = t.split_at(mid);
                // half text, half CDATA
                self.plain(a);
                self.out.push_str("<![CDATA[");
                self.out.push_str(b);
                self.out.push_str("]]>");
            } else {
                self.out.push_str("<![CDATA[");
                self.out.push_str(t);
                self.out.push_str("]]>");
            }
            return;
        }
        self.plain(t);
    }
    fn plain(&mut self, t: &str) {
        let split = self.st.split;
        let refs = self.st.charref;
        let mut prev = [' '; 2];
        for c in t.chars() {
            match c {
                '&' => self.out.push_str("&amp;"),
                '<' => self.out.push_str("&lt;"),
                '>' if prev == [']', ']'] || self.roll(50) => self.out.push_str("&gt;"),
                '\r' => self.out.push_str("&#xD;"),
                '"' if self.roll(refs) => self.out.push_str("&quot;"),
                '\'' if self.roll(refs) => self.out.push_str("&apos;"),
                c if refs > 0 && self.roll(refs) => {
                    let r = if self.roll(50) { format!("&#x{:x};", c as u32) } else { format!("&#{};", c as u32) };
                    self.out.push_str(&r);
                }
                c => self.out.push(c),
            }
            prev = [prev[1], c];
            if split > 0 && self.roll(split) {
                let c = if self.roll(50) { "<!-- inside -->" } else { "<?inside text?>" };
                self.out.push_str(c);
                prev = [' '; 2];
            }
        }
    }
}

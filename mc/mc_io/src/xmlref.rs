//! An XML parser with namespaces, and an RDF/XML processor over it, both written from the
//! specifications.

use crate::refs::R;
use mcrdf::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct El {
    pub ns: String,
    pub local: String,
    /// (namespace, local name, value)
    pub attrs: Vec<(String, String, String)>,
    pub kids: Vec<Node>,
    /// prefixes declared on the element
    pub decls: Vec<(String, String)>,
    pub raw: String,
}

#[derive(Clone, Debug)]
pub enum Node {
    El(El),
    Text(String),
}

pub struct Xml {
    pub root: El,
    pub encoding: Option<String>,
    pub version11: bool,
}

const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";
const XMLNS_NS: &str = "http://www.w3.org/2000/xmlns/";

fn name_start(c: char) -> bool {
    matches!(c, 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}'
        | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
        | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}
fn name_char(c: char) -> bool {
    name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}
pub fn ncname(s: &str) -> bool {
    let mut i = s.chars();
    i.next().is_some_and(name_start) && i.all(name_char)
}
fn space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

struct P {
    cs: Vec<char>,
    i: usize,
    v11: bool,
    /// what a forgiving parser takes: `<` in attribute values, and any name characters in prefixes
    lenient: bool,
}

impl P {
    fn err<T>(&self, what: &str) -> R<T> {
        let near: String = self.cs[self.i.saturating_sub(10)..(self.i + 10).min(self.cs.len())].iter().collect();
        Err(format!("{what} near {near:?}"))
    }
    fn peek(&self) -> Option<char> {
        self.cs.get(self.i).copied()
    }
    fn looking(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, c)| self.cs.get(self.i + k) == Some(&c))
    }
    fn eat(&mut self, s: &str) -> bool {
        let y = self.looking(s);
        if y {
            self.i += s.chars().count();
        }
        y
    }
    fn want(&mut self, s: &str) -> R<()> {
        if self.eat(s) {
            Ok(())
        } else {
            self.err(&format!("expected {s:?}"))
        }
    }
    fn ws(&mut self) -> bool {
        let b = self.i;
        while self.peek().is_some_and(space) {
            self.i += 1;
        }
        self.i > b
    }
    fn until(&mut self, s: &str) -> R<String> {
        let b = self.i;
        while self.i < self.cs.len() {
            if self.looking(s) {
                let t: String = self.cs[b..self.i].iter().collect();
                self.eat(s);
                if let Some(c) = t.chars().find(|c| !self.plain_char(*c)) {
                    return self.err(&format!("character {c:?}"));
                }
                return Ok(t);
            }
            self.i += 1;
        }
        self.err(&format!("no {s:?}"))
    }
    fn char_ok(&self, c: char) -> bool {
        match self.v11 {
            true => !matches!(c, '\0' | '\u{fffe}' | '\u{ffff}'),
            false => matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..),
        }
    }
    /// may be present without a reference
    fn plain_char(&self, c: char) -> bool {
        self.char_ok(c) && !(self.v11 && matches!(c, '\u{1}'..='\u{8}' | '\u{b}'..='\u{c}' | '\u{e}'..='\u{1f}' | '\u{7f}'..='\u{84}' | '\u{86}'..='\u{9f}'))
    }
    fn name(&mut self) -> R<String> {
        let b = self.i;
        if !self.peek().is_some_and(|c| name_start(c) || c == ':') {
            return self.err("name");
        }
        while self.peek().is_some_and(|c| name_char(c) || c == ':') {
            self.i += 1;
        }
        Ok(self.cs[b..self.i].iter().collect())
    }
    fn qname(&mut self) -> R<(String, String)> {
        let n = self.name()?;
        match n.split_once(':') {
            None => Ok((String::new(), n)),
            Some((p, l)) if ncname(p) && ncname(l) || self.lenient && !p.is_empty() && !l.is_empty() && !l.contains(':') => Ok((p.to_string(), l.to_string())),
            _ => self.err("qualified name"),
        }
    }
    fn reference(&mut self) -> R<char> {
        self.want("&")?;
        let b = self.i;
        while self.peek().is_some_and(|c| c != ';' && c != '<' && !space(c)) {
            self.i += 1;
        }
        let n: String = self.cs[b..self.i].iter().collect();
        self.want(";")?;
        let code = |d: &str, radix| if d.is_empty() || !d.chars().all(|c| c.is_digit(radix)) { None } else { u32::from_str_radix(d, radix).ok().and_then(char::from_u32) };
        let c = match n.as_str() {
            "lt" => Some('<'),
            "gt" => Some('>'),
            "amp" => Some('&'),
            "quot" => Some('"'),
            "apos" => Some('\''),
            _ => match (n.strip_prefix("#x"), n.strip_prefix('#')) {
                (Some(h), _) => code(h, 16),
                (_, Some(d)) => code(d, 10),
                _ => None,
            },
        };
        match c {
            Some(c) if self.char_ok(c) => Ok(c),
            _ => self.err(&format!("reference {n:?}")),
        }
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.looking("<!--") {
                self.comment()?;
            } else if self.looking("<?") {
                self.pi()?;
            } else {
                return Ok(());
            }
        }
    }
    fn comment(&mut self) -> R<String> {
        self.want("<!--")?;
        let t = self.until("-->")?;
        if t.contains("--") || t.ends_with('-') {
            return self.err("-- in comment");
        }
        Ok(t)
    }
    fn pi(&mut self) -> R<()> {
        self.want("<?")?;
        if self.lenient {
            return self.until("?>").map(|_| ());
        }
        let n = self.name()?;
        if n.eq_ignore_ascii_case("xml") || n.contains(':') {
            return self.err("processing instruction");
        }
        if !self.looking("?>") && !self.ws() {
            return self.err("processing instruction");
        }
        self.until("?>")?;
        Ok(())
    }
    fn element(&mut self, scope: &BTreeMap<String, String>) -> R<El> {
        let begin = self.i;
        self.want("<")?;
        let (prefix, local) = self.qname()?;
        let mut raw: Vec<((String, String), String)> = vec![];
        let mut decls = vec![];
        let empty;
        loop {
            let sp = self.ws();
            if self.eat("/>") {
                empty = true;
                break;
            }
            if self.eat(">") {
                empty = false;
                break;
            }
            if !sp {
                return self.err("space before attribute");
            }
            let n = self.qname()?;
            self.ws();
            self.want("=")?;
            self.ws();
            let Some(q @ ('"' | '\'')) = self.peek() else { return self.err("quote") };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.peek() {
                    None => return self.err("unterminated attribute"),
                    Some(c) if c == q => break,
                    Some('<') if !self.lenient => return self.err("< in attribute"),
                    Some('&') => v.push(self.reference()?),
                    Some(c) if space(c) => {
                        v.push(' ');
                        self.i += 1;
                    }
                    Some(c) if !self.plain_char(c) => return self.err("character"),
                    Some(c) => {
                        v.push(c);
                        self.i += 1;
                    }
                }
            }
            self.i += 1;
            if n.0 == "xmlns" || n.0.is_empty() && n.1 == "xmlns" {
                decls.push((if n.0.is_empty() { String::new() } else { n.1.clone() }, v.clone()));
            }
            if raw.iter().any(|r| r.0 == n) {
                return self.err("attribute given twice");
            }
            raw.push((n, v));
        }
        let mut scope = scope.clone();
        for (p, v) in &decls {
            let bad = p == "xmlns" || (p == "xml") != (v == XML_NS) || v == XMLNS_NS || (!p.is_empty() && v.is_empty() && !self.v11);
            if bad {
                return self.err("namespace declaration");
            }
            scope.insert(p.clone(), v.clone());
        }
        let look = |p: &str| -> R<String> {
            match scope.get(p) {
                Some(v) if p.is_empty() || !v.is_empty() => Ok(v.clone()),
                None if p.is_empty() => Ok(String::new()),
                _ => Err(format!("prefix {p:?} is not declared")),
            }
        };
        let ns = look(&prefix)?;
        if prefix == "xmlns" {
            return self.err("prefix xmlns");
        }
        let mut attrs: Vec<(String, String, String)> = vec![];
        for ((p, l), v) in raw {
            if p == "xmlns" || p.is_empty() && l == "xmlns" {
                continue;
            }
            let n = if p.is_empty() { String::new() } else { look(&p)? };
            if attrs.iter().any(|a| a.0 == n && a.1 == l) {
                return self.err("attribute given twice");
            }
            attrs.push((n, l, v));
        }
        let mut kids: Vec<Node> = vec![];
        let push = |kids: &mut Vec<Node>, c: char| match kids.last_mut() {
            Some(Node::Text(t)) => t.push(c),
            _ => kids.push(Node::Text(c.to_string())),
        };
        if !empty {
            loop {
                if self.eat("</") {
                    let end = self.qname()?;
                    if end != (prefix.clone(), local.clone()) {
                        return self.err("end of another element");
                    }
                    self.ws();
                    self.want(">")?;
                    break;
                }
                if self.looking("<!--") {
                    self.comment()?;
                } else if self.looking("<?") {
                    self.pi()?;
                } else if self.eat("<![CDATA[") {
                    for c in self.until("]]>")?.chars() {
                        push(&mut kids, c);
                    }
                } else if self.looking("<") {
                    kids.push(Node::El(self.element(&scope)?));
                } else if self.looking("&") {
                    let c = self.reference()?;
                    push(&mut kids, c);
                } else if self.looking("]]>") {
                    return self.err("]]> in text");
                } else {
                    match self.peek() {
                        None => return self.err("unterminated element"),
                        Some(c) if !self.plain_char(c) => return self.err("character"),
                        Some(c) => {
                            push(&mut kids, c);
                            self.i += 1;
                        }
                    }
                }
            }
        }
        Ok(El { ns, local, attrs, kids, decls, raw: self.cs[begin..self.i].iter().collect() })
    }
}

pub fn parse_xml(text: &str) -> R<Xml> {
    parse_xml_as(text, false)
}
pub fn parse_xml_as(text: &str, lenient: bool) -> R<Xml> {
    let text = text.strip_prefix('\u{feff}').unwrap_or(text);
    let mut p = P { cs: text.chars().collect(), i: 0, v11: false, lenient };
    let mut encoding = None;
    if p.looking("<?xml") && p.cs.get(5).copied().is_some_and(space) {
        p.eat("<?xml");
        let d = p.until("?>")?;
        // name="value" pairs in the fixed order
        let mut rest = d.as_str();
        let mut seen = 0;
        while !rest.trim().is_empty() {
            if !rest.starts_with(space) {
                return Err(format!("XML declaration {d:?}"));
            }
            let (n, v) = rest.split_once('=').ok_or("XML declaration")?;
            let v = v.trim_start();
            let q = v.chars().next().filter(|c| *c == '"' || *c == '\'').ok_or("XML declaration")?;
            let (v, r) = v[1..].split_once(q).ok_or("XML declaration")?;
            rest = r;
            let k = match n.trim() {
                "version" if v == "1.1" || v == "1.0" => {
                    p.v11 = v == "1.1";
                    1
                }
                "encoding" if v.chars().next().is_some_and(|c| c.is_ascii_alphabetic()) && v.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c)) => {
                    encoding = Some(v.to_string());
                    2
                }
                "standalone" if v == "yes" || v == "no" => 3,
                _ => return Err(format!("XML declaration {d:?}")),
            };
            if k <= seen || (seen == 0 && k != 1) {
                return Err(format!("XML declaration {d:?}"));
            }
            seen = k;
        }
        if seen == 0 {
            return Err("XML declaration without a version".into());
        }
    }
    // line ends
    let v11 = p.v11;
    let mut cs = vec![];
    let mut i = 0;
    while i < p.cs.len() {
        match p.cs[i] {
            '\r' => {
                i += matches!(p.cs.get(i + 1), Some('\n')) as usize + (v11 && matches!(p.cs.get(i + 1), Some('\u{85}'))) as usize;
                cs.push('\n');
            }
            '\u{85}' | '\u{2028}' if v11 => cs.push('\n'),
            c => cs.push(c),
        }
        i += 1;
    }
    // the declaration has no line ends that change its length here
    let start = if p.i == 0 { 0 } else { let s: String = cs.iter().collect(); let at = s.find("?>").unwrap_or(0); s[..at].chars().count() + 2 };
    let mut p = P { cs, i: start, v11, lenient };
    p.misc()?;
    if p.looking("<!DOCTYPE") {
        return p.err("document type declarations are not supported");
    }
    let scope: BTreeMap<String, String> = [("xml".to_string(), XML_NS.to_string())].into();
    let root = p.element(&scope)?;
    p.misc()?;
    if p.i < p.cs.len() {
        return p.err("text after the document");
    }
    Ok(Xml { root, encoding, version11: v11 })
}

// ------------------------------------------------------------------------------------------------
// RDF/XML
// ------------------------------------------------------------------------------------------------

struct Rdf {
    lenient: bool,
    out: Vec<Triple>,
    n: usize,
    ids: BTreeSet<String>,
}

#[derive(Clone, Default)]
struct Ctx {
    lang: Option<String>,
    base: Option<String>,
}

const CORE: [&str; 7] = ["RDF", "ID", "about", "parseType", "resource", "nodeID", "datatype"];
const OLD: [&str; 3] = ["aboutEach", "aboutEachPrefix", "bagID"];

/// The statements of an RDF/XML document.
pub fn parse_rdf(text: &str) -> R<Vec<Triple>> {
    parse_rdf_from(text, None, false)
}
/// The statements of a text as one that overlooks what `parse_xml_as` may overlook, and white space
/// in empty property elements, would see them.
pub fn parse_rdf_leniently(text: &str) -> R<Vec<Triple>> {
    parse_rdf_from(text, None, true)
}
/// The statements of an RDF/XML document that was retrieved from somewhere.
pub fn parse_rdf_at(text: &str, base: &str) -> R<Vec<Triple>> {
    parse_rdf_from(text, Some(base), false)
}
fn parse_rdf_from(text: &str, base: Option<&str>, lenient: bool) -> R<Vec<Triple>> {
    let x = parse_xml_as(text, lenient)?;
    let mut r = Rdf { lenient, out: vec![], n: 0, ids: BTreeSet::new() };
    let c = Ctx { lang: None, base: base.map(str::to_string) };
    if (x.root.ns.as_str(), x.root.local.as_str()) == (RDF, "RDF") {
        let c = r.ctx(&c, &x.root);
        if let Some(a) = x.root.attrs.iter().find(|a| a.0 != XML_NS) {
            return Err(format!("attribute {} on rdf:RDF", a.1));
        }
        for k in r.elements(&x.root)? {
            r.node(k, &c)?;
        }
    } else {
        r.node(&x.root, &c)?;
    }
    Ok(r.out)
}

impl Rdf {
    fn ctx(&self, c: &Ctx, e: &El) -> Ctx {
        let mut c = c.clone();
        for (ns, l, v) in &e.attrs {
            if ns == XML_NS && l == "lang" {
                c.lang = (!v.is_empty()).then(|| v.clone());
            }
            if ns == XML_NS && l == "base" {
                // a base may itself be relative to the one around it
                c.base = Some(match &c.base {
                    Some(b) => crate::refs::resolve(b.split('#').next().unwrap(), v).unwrap_or_else(|_| v.clone()),
                    None => v.clone(),
                });
            }
        }
        c
    }
    /// only elements and white space
    fn elements<'a>(&self, e: &'a El) -> R<Vec<&'a El>> {
        let mut v = vec![];
        for k in &e.kids {
            match k {
                Node::El(k) => v.push(k),
                Node::Text(t) if t.chars().all(space) => {}
                Node::Text(t) => return Err(format!("text {t:?} in {}", e.local)),
            }
        }
        Ok(v)
    }
    fn fresh(&mut self) -> T {
        self.n += 1;
        T::Blank(format!("genid {}", self.n))
    }
    fn iri(&self, v: &str, c: &Ctx) -> R<T> {
        Ok(T::Iri(match &c.base {
            Some(b) => crate::refs::resolve(b.split('#').next().unwrap(), v)?,
            None if v.contains(':') => v.to_string(),
            None => return Err(format!("relative reference {v:?} without a base")),
        }))
    }
    fn label(&self, v: &str) -> R<T> {
        if ncname(v) {
            Ok(T::Blank(v.to_string()))
        } else {
            Err(format!("rdf:nodeID {v:?}"))
        }
    }
    fn id(&mut self, v: &str, c: &Ctx) -> R<T> {
        if !ncname(v) {
            return Err(format!("rdf:ID {v:?}"));
        }
        let t = self.iri(&format!("#{v}"), c)?;
        let T::Iri(i) = &t else { unreachable!() };
        if !self.ids.insert(i.clone()) {
            return Err(format!("rdf:ID {v:?} is used twice"));
        }
        Ok(t)
    }
    fn text(&self, v: &str, c: &Ctx) -> T {
        match &c.lang {
            Some(l) => lang(v, l),
            None => plain(v),
        }
    }
    fn property_attrs(&mut self, e: &El, s: &T, c: &Ctx) -> R<()> {
        for (ns, l, v) in &e.attrs {
            let known = ns == RDF && CORE.contains(&l.as_str()) && l != "RDF";
            if ns == XML_NS || known {
                continue;
            }
            if ns.is_empty() {
                return Err(format!("attribute {l} without a namespace"));
            }
            if ns == RDF && (l == "li" || l == "RDF" || l == "Description" || OLD.contains(&l.as_str())) {
                return Err(format!("attribute rdf:{l}"));
            }
            let o = if ns == RDF && l == "type" { self.iri(v, c)? } else { self.text(v, c) };
            self.out.push((s.clone(), format!("{ns}{l}"), o));
        }
        Ok(())
    }
    fn has_property_attrs(&self, e: &El) -> bool {
        e.attrs.iter().any(|(ns, l, _)| ns != XML_NS && !(ns == RDF && CORE.contains(&l.as_str()) && l != "RDF"))
    }
    fn rdf_attr<'a>(&self, e: &'a El, n: &str) -> Option<&'a str> {
        e.attrs.iter().find(|a| a.0 == RDF && a.1 == n).map(|a| a.2.as_str())
    }
    fn node(&mut self, e: &El, c: &Ctx) -> R<T> {
        let c = self.ctx(c, e);
        if e.ns.is_empty() || e.ns == RDF && (CORE.contains(&e.local.as_str()) || OLD.contains(&e.local.as_str()) || e.local == "li") {
            return Err(format!("node element {}", e.local));
        }
        let who = ["about", "nodeID", "ID"].iter().filter(|n| self.rdf_attr(e, n).is_some()).count();
        if who > 1 || ["resource", "parseType", "datatype"].iter().any(|n| self.rdf_attr(e, n).is_some()) {
            return Err("attributes of a node element".into());
        }
        let s = if let Some(v) = self.rdf_attr(e, "about") {
            self.iri(v, &c)?
        } else if let Some(v) = self.rdf_attr(e, "nodeID") {
            self.label(v)?
        } else if let Some(v) = self.rdf_attr(e, "ID") {
            self.id(v, &c)?
        } else {
            self.fresh()
        };
        if (e.ns.as_str(), e.local.as_str()) != (RDF, "Description") {
            self.out.push((s.clone(), rdf("type"), T::Iri(format!("{}{}", e.ns, e.local))));
        }
        self.property_attrs(e, &s, &c)?;
        self.properties(e, &s, &c)?;
        Ok(s)
    }
    fn properties(&mut self, e: &El, s: &T, c: &Ctx) -> R<()> {
        let mut li = 0;
        for k in self.elements(e)? {
            let mut local = k.local.clone();
            if k.ns == RDF {
                if local == "li" {
                    li += 1;
                    local = format!("_{li}");
                } else if CORE.contains(&local.as_str()) || OLD.contains(&local.as_str()) || local == "Description" {
                    return Err(format!("property element rdf:{local}"));
                }
            }
            if k.ns.is_empty() {
                return Err(format!("property element {local} without a namespace"));
            }
            self.property(k, s, format!("{}{local}", k.ns), c)?;
        }
        Ok(())
    }
    fn property(&mut self, e: &El, s: &T, p: String, c: &Ctx) -> R<()> {
        let c = self.ctx(c, e);
        if self.rdf_attr(e, "about").is_some() {
            return Err("rdf:about on a property element".into());
        }
        let (resource, node_id, data_type, parse_type) = (self.rdf_attr(e, "resource"), self.rdf_attr(e, "nodeID"), self.rdf_attr(e, "datatype"), self.rdf_attr(e, "parseType"));
        let attrs = self.has_property_attrs(e);
        let kids: Vec<&El> = e.kids.iter().filter_map(|k| if let Node::El(k) = k { Some(k) } else { None }).collect();
        let text: String = e.kids.iter().filter_map(|k| if let Node::Text(k) = k { Some(k.as_str()) } else { None }).collect();
        let o = if let Some(pt) = parse_type {
            if resource.is_some() || node_id.is_some() || data_type.is_some() || attrs {
                return Err("attributes besides rdf:parseType".into());
            }
            match pt {
                "Resource" => {
                    let n = self.fresh();
                    self.out.push((s.clone(), p.clone(), n.clone()));
                    self.properties(e, &n, &c)?;
                    return self.reify(e, s, p, n, &c);
                }
                "Collection" => {
                    let mut items = vec![];
                    for k in self.elements(e)? {
                        items.push(self.node(k, &c)?);
                    }
                    T::Coll(items)
                }
                _ => {
                    // the content as it stands
                    let b = e.raw.find('>').map_or(0, |i| i + 1);
                    let t = e.raw.rfind("</").unwrap_or(b).max(b);
                    typed(&e.raw[b..t], &rdf("XMLLiteral"))
                }
            }
        } else if resource.is_some() || node_id.is_some() || attrs {
            if resource.is_some() && node_id.is_some() || data_type.is_some() {
                return Err("attributes of a property element".into());
            }
            if !kids.is_empty() || !text.is_empty() && !(self.lenient && text.chars().all(space)) {
                return Err("content of an empty property element".into());
            }
            let n = match (resource, node_id) {
                (Some(v), _) => self.iri(v, &c)?,
                (_, Some(v)) => self.label(v)?,
                _ => self.fresh(),
            };
            self.property_attrs(e, &n, &c)?;
            n
        } else if kids.is_empty() {
            match data_type {
                Some(d) => {
                    let T::Iri(d) = self.iri(d, &c)? else { unreachable!() };
                    typed(&text, &d)
                }
                None => self.text(&text, &c),
            }
        } else {
            if kids.len() > 1 || !text.chars().all(space) || data_type.is_some() {
                return Err("content of a property element".into());
            }
            self.node(kids[0], &c)?
        };
        // both statements have the one list as their object
        let o = match o {
            T::Coll(items) if self.rdf_attr(e, "ID").is_some() => {
                let mut list = T::Iri(rdf("nil"));
                for item in items.into_iter().rev() {
                    let cell = self.fresh();
                    self.out.push((cell.clone(), rdf("first"), item));
                    self.out.push((cell.clone(), rdf("rest"), list));
                    list = cell;
                }
                list
            }
            o => o,
        };
        self.out.push((s.clone(), p.clone(), o.clone()));
        self.reify(e, s, p, o, &c)
    }
    fn reify(&mut self, e: &El, s: &T, p: String, o: T, c: &Ctx) -> R<()> {
        if let Some(v) = self.rdf_attr(e, "ID") {
            let r = self.id(v, c)?;
            for (q, x) in [("type", T::Iri(rdf("Statement"))), ("subject", s.clone()), ("predicate", T::Iri(p)), ("object", o)] {
                self.out.push((r.clone(), rdf(q), x));
            }
        }
        Ok(())
    }
}

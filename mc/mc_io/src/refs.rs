//! Independent reference parsers: N-Triples and N-Quads (strict and lenient) and Turtle/TriG, written
//! from the W3C grammars, sharing nothing with the code under test.

use mcrdf::*;
use std::collections::BTreeMap;

pub type Quad = (Option<T>, Triple);
pub type R<X> = Result<X, String>;

// ------------------------------------------------------------------------------------------------
// Characters
// ------------------------------------------------------------------------------------------------

pub fn pn_chars_base(c: char) -> bool {
    matches!(c, 'A'..='Z' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
        | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
        | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
        | '\u{10000}'..='\u{EFFFF}')
}
pub fn pn_chars_u(c: char) -> bool {
    pn_chars_base(c) || c == '_'
}
pub fn pn_chars(c: char) -> bool {
    pn_chars_u(c) || matches!(c, '-' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}
/// characters that may not stand for themselves in an IRIREF
pub fn iriref_forbidden(c: char) -> bool {
    c <= ' ' || matches!(c, '<' | '>' | '"' | '{' | '}' | '|' | '^' | '`' | '\\')
}

pub struct Cur {
    cs: Vec<char>,
    i: usize,
}

impl Cur {
    pub fn new(s: &str) -> Self {
        Cur { cs: s.chars().collect(), i: 0 }
    }
    fn peek(&self) -> Option<char> {
        self.cs.get(self.i).copied()
    }
    fn at(&self, n: usize) -> Option<char> {
        self.cs.get(self.i + n).copied()
    }
    fn bump(&mut self) -> Option<char> {
        let c = self.peek();
        self.i += c.is_some() as usize;
        c
    }
    fn eat(&mut self, s: &str) -> bool {
        let n = s.chars().count();
        if self.cs.len() >= self.i + n && s.chars().enumerate().all(|(k, c)| self.cs[self.i + k] == c) {
            self.i += n;
            true
        } else {
            false
        }
    }
    fn eat_ci(&mut self, s: &str) -> bool {
        let n = s.len();
        if self.cs.len() >= self.i + n && s.chars().enumerate().all(|(k, c)| self.cs[self.i + k].eq_ignore_ascii_case(&c)) {
            self.i += n;
            true
        } else {
            false
        }
    }
    fn want(&mut self, s: &str) -> R<()> {
        if self.eat(s) { Ok(()) } else { Err(self.err(&format!("expected {s:?}"))) }
    }
    fn err(&self, m: &str) -> String {
        let from = self.i.saturating_sub(12);
        let ctx: String = self.cs[from..(self.i + 24).min(self.cs.len())].iter().collect();
        format!("{m} at {} near {ctx:?}", self.i)
    }
    fn end(&self) -> bool {
        self.i >= self.cs.len()
    }
    fn hex(&mut self, n: usize) -> R<char> {
        let mut v = 0u32;
        for _ in 0..n {
            let d = self.bump().and_then(|c| c.to_digit(16)).ok_or_else(|| self.err("hex digit"))?;
            v = v.checked_mul(16).ok_or("overflow")? + d;
        }
        char::from_u32(v).ok_or_else(|| self.err("not a scalar value"))
    }

    /// the inside of `<...>`
    fn iriref(&mut self) -> R<String> {
        self.want("<")?;
        let mut s = String::new();
        loop {
            match self.bump().ok_or("unterminated IRI")? {
                '>' => return Ok(s),
                '\\' => match self.bump() {
                    Some('u') => s.push(self.hex(4)?),
                    Some('U') => s.push(self.hex(8)?),
                    _ => return Err(self.err("escape in IRI")),
                },
                c if iriref_forbidden(c) => return Err(self.err("character in IRI")),
                c => s.push(c),
            }
        }
    }
    /// a blank node label, after which the cursor is at the first character that is not part of it
    fn label(&mut self) -> R<String> {
        self.want("_:")?;
        let c = self.peek().ok_or("blank node label")?;
        if !(pn_chars_u(c) || c.is_ascii_digit()) {
            return Err(self.err("blank node label"));
        }
        let start = self.i;
        self.i += 1;
        self.tail(|c| pn_chars(c));
        Ok(self.cs[start..self.i].iter().collect())
    }
    /// (chars | '.')* chars
    fn tail(&mut self, ok: impl Fn(char) -> bool) {
        let mut last = self.i;
        while let Some(c) = self.peek() {
            if ok(c) {
                self.i += 1;
                last = self.i;
            } else if c == '.' {
                self.i += 1;
            } else {
                break;
            }
        }
        self.i = last;
    }
    fn string_in(&mut self, q: &str, long: bool) -> R<String> {
        let mut s = String::new();
        loop {
            if self.eat(q) {
                return Ok(s);
            }
            match self.bump().ok_or("unterminated string")? {
                '\\' => {
                    let c = self.bump().ok_or("unterminated string")?;
                    s.push(match c {
                        't' => '\t',
                        'b' => '\u{8}',
                        'n' => '\n',
                        'r' => '\r',
                        'f' => '\u{c}',
                        '"' | '\'' | '\\' => c,
                        'u' => self.hex(4)?,
                        'U' => self.hex(8)?,
                        _ => return Err(self.err("escape")),
                    })
                }
                '\n' | '\r' if !long => return Err(self.err("line end in string")),
                c => s.push(c),
            }
        }
    }
    fn langtag(&mut self) -> R<String> {
        self.want("@")?;
        let mut s = String::new();
        while let Some(c) = self.peek().filter(char::is_ascii_alphabetic) {
            s.push(c);
            self.i += 1;
        }
        if s.is_empty() {
            return Err(self.err("language tag"));
        }
        while self.peek() == Some('-') && self.at(1).is_some_and(|c| c.is_ascii_alphanumeric()) {
            s.push('-');
            self.i += 1;
            while let Some(c) = self.peek().filter(char::is_ascii_alphanumeric) {
                s.push(c);
                self.i += 1;
            }
        }
        Ok(s)
    }
}

/// xsd:string and no data type are the same thing
pub fn lit(lex: String, dt: Option<String>, lang: Option<String>) -> T {
    T::Lit { lex, dt: dt.filter(|d| *d != xsd("string")), lang }
}
pub fn norm(t: &T) -> T {
    match t {
        T::Lit { lex, dt, lang } => lit(lex.clone(), dt.clone(), lang.clone()),
        T::Coll(v) => T::Coll(v.iter().map(norm).collect()),
        T::Quote(q) => T::Quote(Box::new(norm3(q))),
        o => o.clone(),
    }
}
pub fn norm3(t: &Triple) -> Triple {
    (norm(&t.0), t.1.clone(), norm(&t.2))
}

// ------------------------------------------------------------------------------------------------
// N-Triples and N-Quads
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Layout {
    /// one statement per line, as the recommendations have it
    Strict,
    /// white space, line ends and comments anywhere between two tokens
    Free,
}

fn skip(c: &mut Cur, l: Layout) {
    while let Some(x) = c.peek() {
        match x {
            ' ' | '\t' => c.i += 1,
            '\n' | '\r' if l == Layout::Free => c.i += 1,
            '#' if l == Layout::Free => comment(c),
            _ => return,
        }
    }
}
fn comment(c: &mut Cur) {
    while !c.end() && !matches!(c.peek(), Some('\n' | '\r')) {
        c.i += 1;
    }
}

fn nt_resource(c: &mut Cur) -> R<T> {
    if c.peek() == Some('<') { Ok(T::Iri(c.iriref()?)) } else { Ok(T::Blank(c.label()?)) }
}

pub fn parse_nq(text: &str, quads: bool, l: Layout) -> R<Vec<Quad>> {
    let mut c = Cur::new(text);
    let mut out = vec![];
    let mut fresh_line = true;
    loop {
        skip(&mut c, l);
        match c.peek() {
            None => return Ok(out),
            Some('\n' | '\r') => {
                c.i += 1;
                fresh_line = true;
                continue;
            }
            Some('#') => {
                comment(&mut c);
                continue;
            }
            Some(_) if !fresh_line && l == Layout::Strict => return Err(c.err("end of line expected")),
            _ => {}
        }
        let s = nt_resource(&mut c)?;
        skip(&mut c, l);
        let p = c.iriref()?;
        skip(&mut c, l);
        let o = if c.eat("\"") {
            let lex = c.string_in("\"", false)?;
            // white space may stand between any two tokens
            skip(&mut c, l);
            if c.eat("^^") {
                skip(&mut c, l);
                let d = c.iriref()?;
                lit(lex, Some(d), None)
            } else if c.peek() == Some('@') {
                let g = c.langtag()?;
                lit(lex, None, Some(g))
            } else {
                lit(lex, None, None)
            }
        } else {
            nt_resource(&mut c)?
        };
        skip(&mut c, l);
        let g = if quads && c.peek() != Some('.') {
            let g = nt_resource(&mut c)?;
            skip(&mut c, l);
            Some(g)
        } else {
            None
        };
        c.want(".")?;
        fresh_line = false;
        out.push((g, (s, p, o)));
    }
}

// ------------------------------------------------------------------------------------------------
// IRI resolution (RFC 3986, section 5)
// ------------------------------------------------------------------------------------------------

fn split_iri(s: &str) -> (Option<&str>, Option<&str>, &str, Option<&str>, Option<&str>) {
    let (s, frag) = match s.split_once('#') {
        Some((a, f)) => (a, Some(f)),
        None => (s, None),
    };
    let (s, query) = match s.split_once('?') {
        Some((a, q)) => (a, Some(q)),
        None => (s, None),
    };
    let (scheme, s) = match s.find([':', '/']) {
        Some(i) if s.as_bytes()[i] == b':' && s.starts_with(|c: char| c.is_ascii_alphabetic()) => (Some(&s[..i]), &s[i + 1..]),
        _ => (None, s),
    };
    let (auth, path) = match s.strip_prefix("//") {
        Some(r) => {
            let e = r.find('/').unwrap_or(r.len());
            (Some(&r[..e]), &r[e..])
        }
        None => (None, s),
    };
    (scheme, auth, path, query, frag)
}

fn remove_dots(p: &str) -> String {
    let mut input = p.to_string();
    let mut out = String::new();
    while !input.is_empty() {
        if let Some(r) = input.strip_prefix("../").or(input.strip_prefix("./")) {
            input = r.to_string();
        } else if input.starts_with("/./") {
            input = input[2..].to_string();
        } else if input == "/." {
            input = "/".into();
        } else if input.starts_with("/../") || input == "/.." {
            input = if input == "/.." { "/".into() } else { input[3..].to_string() };
            out.truncate(out.rfind('/').unwrap_or(0));
        } else if input == "." || input == ".." {
            input.clear();
        } else {
            let e = input[1..].find('/').map_or(input.len(), |i| i + 1);
            out.push_str(&input[..e]);
            input = input[e..].to_string();
        }
    }
    out
}

pub fn resolve(base: &str, r: &str) -> R<String> {
    let (rs, ra, rp, rq, rf) = split_iri(r);
    let (bs, ba, bp, bq, _) = split_iri(base);
    let (s, a, p, q);
    if rs.is_some() {
        return Ok(r.to_string());
    }
    if bs.is_none() {
        return Err(format!("relative IRI <{r}> without a base"));
    }
    s = bs;
    if ra.is_some() {
        (a, p, q) = (ra, remove_dots(rp), rq);
    } else {
        a = ba;
        if rp.is_empty() {
            p = bp.to_string();
            q = if rq.is_some() { rq } else { bq };
        } else {
            q = rq;
            p = if rp.starts_with('/') {
                remove_dots(rp)
            } else if ba.is_some() && bp.is_empty() {
                remove_dots(&format!("/{rp}"))
            } else {
                remove_dots(&format!("{}{rp}", &bp[..bp.rfind('/').map_or(0, |i| i + 1)]))
            };
        }
    }
    let mut o = format!("{}:", s.unwrap());
    if let Some(a) = a {
        o.push_str("//");
        o.push_str(a);
    }
    o.push_str(&p);
    for (c, x) in [('?', q), ('#', rf)] {
        if let Some(x) = x {
            o.push(c);
            o.push_str(x);
        }
    }
    Ok(o)
}

// ------------------------------------------------------------------------------------------------
// Turtle and TriG
// ------------------------------------------------------------------------------------------------

pub struct Ttl {
    c: Cur,
    base: Option<String>,
    pub prefixes: BTreeMap<String, String>,
    fresh: usize,
    graph: Option<T>,
    pub out: Vec<Quad>,
    /// directives seen, in order: (keyword as written, has a dot)
    pub directives: Vec<(String, bool)>,
    /// blocks seen, in order: name, has the keyword
    pub blocks: Vec<(Option<T>, bool)>,
}

impl Ttl {
    pub fn parse(text: &str, trig: bool) -> R<Ttl> {
        let mut p = Ttl { c: Cur::new(text), base: None, prefixes: BTreeMap::new(), fresh: 0, graph: None, out: vec![], directives: vec![], blocks: vec![] };
        loop {
            p.ws();
            if p.c.end() {
                return Ok(p);
            }
            if p.directive()? {
                continue;
            }
            if trig && p.graph_block()? {
                continue;
            }
            p.triples()?;
            p.ws();
            p.c.want(".")?;
        }
    }
    fn ws(&mut self) {
        while let Some(c) = self.c.peek() {
            match c {
                ' ' | '\t' | '\n' | '\r' => self.c.i += 1,
                '#' => comment(&mut self.c),
                _ => return,
            }
        }
    }
    fn emit(&mut self, s: T, p: String, o: T) {
        self.out.push((self.graph.clone(), (s, p, o)));
    }
    fn anon(&mut self) -> T {
        self.fresh += 1;
        T::Blank(format!("~{}", self.fresh))
    }
    /// is the cursor at this keyword, not followed by a name character?
    fn keyword(&mut self, k: &str) -> bool {
        let i = self.c.i;
        if self.c.eat_ci(k) && !self.c.peek().is_some_and(|c| pn_chars(c) || c == ':' || c == '.') {
            true
        } else {
            self.c.i = i;
            false
        }
    }
    fn directive(&mut self) -> R<bool> {
        let (kind, dot) = if self.c.eat("@prefix") {
            ("prefix", true)
        } else if self.c.eat("@base") {
            ("base", true)
        } else if self.keyword("PREFIX") {
            ("prefix", false)
        } else if self.keyword("BASE") {
            ("base", false)
        } else {
            return Ok(false);
        };
        self.directives.push((format!("{}{kind}", if dot { "@" } else { "" }), dot));
        self.ws();
        if kind == "prefix" {
            let n = self.prefix()?;
            self.c.want(":")?;
            self.ws();
            let r = self.iri_ref()?;
            self.prefixes.insert(n, r);
        } else {
            let r = self.iri_ref()?;
            self.base = Some(r);
        }
        if dot {
            self.ws();
            self.c.want(".")?;
        }
        Ok(true)
    }
    fn graph_block(&mut self) -> R<bool> {
        let start = self.c.i;
        let mut keyword = false;
        let name = if self.c.peek() == Some('{') {
            None
        } else {
            let kw = self.keyword("GRAPH");
            keyword = kw;
            self.ws();
            let n = match self.c.peek() {
                Some('<') => Some(T::Iri(self.iri_ref()?)),
                Some('_') => Some(T::Blank(self.c.label()?)),
                Some('[') => {
                    self.c.i += 1;
                    self.ws();
                    if !self.c.eat("]") {
                        self.c.i = start;
                        return Ok(false);
                    }
                    Some(self.anon())
                }
                _ => match self.pname() {
                    Ok(i) => Some(T::Iri(i)),
                    Err(e) if kw => return Err(e),
                    Err(_) => None,
                },
            };
            self.ws();
            if self.c.peek() != Some('{') {
                if kw {
                    return Err(self.c.err("graph block expected"));
                }
                self.c.i = start;
                return Ok(false);
            }
            n
        };
        self.c.want("{")?;
        self.blocks.push((name.clone(), keyword));
        self.graph = name;
        loop {
            self.ws();
            if self.c.eat("}") {
                break;
            }
            self.triples()?;
            self.ws();
            if self.c.eat("}") {
                break;
            }
            self.c.want(".")?;
        }
        self.graph = None;
        Ok(true)
    }
    fn prefix(&mut self) -> R<String> {
        let start = self.c.i;
        if self.c.peek().is_some_and(pn_chars_base) {
            self.c.i += 1;
            self.c.tail(pn_chars);
        }
        Ok(self.c.cs[start..self.c.i].iter().collect())
    }
    fn iri_ref(&mut self) -> R<String> {
        let r = self.c.iriref()?;
        match &self.base {
            Some(b) => resolve(b, &r),
            None if split_iri(&r).0.is_some() => Ok(r),
            None => Err(format!("relative IRI <{r}> without a base")),
        }
    }
    fn pname(&mut self) -> R<String> {
        let n = self.prefix()?;
        self.c.want(":")?;
        let mut local = String::new();
        // dots that are only part of the name if something follows
        let mut dots = 0;
        let mut first = true;
        loop {
            let c = match self.c.peek() {
                Some(c) => c,
                None => break,
            };
            if c == '.' && !first {
                dots += 1;
                self.c.i += 1;
                continue;
            }
            let piece: String;
            if c == '%' {
                let h = |x: Option<char>| x.filter(char::is_ascii_hexdigit);
                match (h(self.c.at(1)), h(self.c.at(2))) {
                    (Some(a), Some(b)) => piece = format!("%{a}{b}"),
                    _ => return Err(self.c.err("% in local name")),
                }
                self.c.i += 3;
            } else if c == '\\' {
                match self.c.at(1) {
                    Some(e) if "_~.-!$&'()*+,;=/?#@%".contains(e) => piece = e.to_string(),
                    _ => return Err(self.c.err("escape in local name")),
                }
                self.c.i += 2;
            } else if c == ':' || pn_chars_u(c) || c.is_ascii_digit() || (!first && pn_chars(c)) {
                piece = c.to_string();
                self.c.i += 1;
            } else {
                break;
            }
            local.push_str(&".".repeat(dots));
            dots = 0;
            local.push_str(&piece);
            first = false;
        }
        self.c.i -= dots;
        let ns = self.prefixes.get(&n).ok_or_else(|| self.c.err(&format!("undeclared prefix {n:?}")))?;
        Ok(format!("{ns}{local}"))
    }
    fn iri(&mut self) -> R<String> {
        if self.c.peek() == Some('<') { self.iri_ref() } else { self.pname() }
    }
    fn triples(&mut self) -> R<()> {
        if self.c.peek() == Some('[') {
            let (s, listed) = self.bracket()?;
            self.ws();
            if listed && matches!(self.c.peek(), Some('.' | '}')) {
                return Ok(());
            }
            return self.pol(&s);
        }
        let s = match self.c.peek() {
            Some('(') => self.collection()?,
            Some('_') => T::Blank(self.c.label()?),
            _ => T::Iri(self.iri()?),
        };
        self.ws();
        self.pol(&s)
    }
    /// `[]` or `[ predicateObjectList ]`; the flag tells which
    fn bracket(&mut self) -> R<(T, bool)> {
        self.c.want("[")?;
        let b = self.anon();
        self.ws();
        if self.c.eat("]") {
            return Ok((b, false));
        }
        self.pol(&b)?;
        self.ws();
        self.c.want("]")?;
        Ok((b, true))
    }
    fn collection(&mut self) -> R<T> {
        self.c.want("(")?;
        let mut items = vec![];
        loop {
            self.ws();
            if self.c.eat(")") {
                break;
            }
            items.push(self.object()?);
        }
        let mut rest = T::Iri(rdf("nil"));
        for o in items.into_iter().rev() {
            let b = self.anon();
            self.emit(b.clone(), rdf("first"), o);
            self.emit(b.clone(), rdf("rest"), rest);
            rest = b;
        }
        Ok(rest)
    }
    fn pol(&mut self, s: &T) -> R<()> {
        loop {
            let p = if self.c.peek() == Some('a') && !self.c.at(1).is_some_and(|c| pn_chars(c) || c == ':' || c == '.') {
                self.c.i += 1;
                rdf("type")
            } else {
                self.iri()?
            };
            loop {
                self.ws();
                let o = self.object()?;
                self.emit(s.clone(), p.clone(), o);
                self.ws();
                if !self.c.eat(",") {
                    break;
                }
            }
            if self.c.peek() != Some(';') {
                return Ok(());
            }
            while self.c.eat(";") {
                self.ws();
            }
            if matches!(self.c.peek(), Some('.' | ']' | '}') | None) {
                return Ok(());
            }
        }
    }
    fn object(&mut self) -> R<T> {
        match self.c.peek().ok_or("object expected")? {
            '<' => Ok(T::Iri(self.iri_ref()?)),
            '_' if self.c.at(1) == Some(':') => Ok(T::Blank(self.c.label()?)),
            '[' => Ok(self.bracket()?.0),
            '(' => self.collection(),
            q @ ('"' | '\'') => {
                let long = q.to_string().repeat(3);
                let lex = if self.c.eat(&long) {
                    self.c.string_in(&long, true)?
                } else {
                    self.c.i += 1;
                    self.c.string_in(&q.to_string(), false)?
                };
                self.ws();
                if self.c.eat("^^") {
                    self.ws();
                    let d = self.iri()?;
                    Ok(lit(lex, Some(d), None))
                } else if self.c.peek() == Some('@') {
                    let g = self.c.langtag()?;
                    Ok(lit(lex, None, Some(g)))
                } else {
                    Ok(lit(lex, None, None))
                }
            }
            '0'..='9' | '+' | '-' | '.' => self.number(),
            _ => {
                for b in ["true", "false"] {
                    let i = self.c.i;
                    if self.c.eat(b) && !self.c.peek().is_some_and(|c| pn_chars(c) || c == ':') {
                        return Ok(lit(b.into(), Some(xsd("boolean")), None));
                    }
                    self.c.i = i;
                }
                Ok(T::Iri(self.pname()?))
            }
        }
    }
    fn number(&mut self) -> R<T> {
        let start = self.c.i;
        if matches!(self.c.peek(), Some('+' | '-')) {
            self.c.i += 1;
        }
        let digits = |c: &mut Cur| {
            let s = c.i;
            while c.peek().is_some_and(|x| x.is_ascii_digit()) {
                c.i += 1;
            }
            c.i - s
        };
        let whole = digits(&mut self.c);
        let mut kind = "integer";
        let mut frac = 0;
        let dot_at = self.c.i;
        if self.c.peek() == Some('.') {
            self.c.i += 1;
            frac = digits(&mut self.c);
            // `1.` is the integer 1 and the end of the statement, unless an exponent follows
            if frac == 0 && !(whole > 0 && matches!(self.c.peek(), Some('e' | 'E'))) {
                self.c.i = dot_at;
            } else {
                kind = "decimal";
            }
        }
        if whole + frac == 0 {
            return Err(self.c.err("number"));
        }
        let before = self.c.i;
        if matches!(self.c.peek(), Some('e' | 'E')) {
            self.c.i += 1;
            if matches!(self.c.peek(), Some('+' | '-')) {
                self.c.i += 1;
            }
            if digits(&mut self.c) == 0 {
                self.c.i = before;
                return Err(self.c.err("exponent"));
            }
            kind = "double";
        }
        let lex: String = self.c.cs[start..self.c.i].iter().collect();
        Ok(lit(lex, Some(xsd(kind)), None))
    }
}

pub fn triples(q: &[Quad]) -> Vec<Triple> {
    q.iter().map(|q| q.1.clone()).collect()
}

/// Quads as triples whose subject carries the graph name, so that `isomorphic` applies to data sets.
pub fn quads_iso(a: &[Quad], b: &[Quad]) -> bool {
    let enc = |q: &Quad| {
        let g = q.0.clone().unwrap_or(T::Iri("urn:default-graph".into()));
        (T::Coll(vec![g, q.1.0.clone()]), q.1.1.clone(), q.1.2.clone())
    };
    isomorphic(&a.iter().map(enc).collect::<Vec<_>>(), &b.iter().map(enc).collect::<Vec<_>>())
}

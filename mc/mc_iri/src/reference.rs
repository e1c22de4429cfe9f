//! Reference models, written from the specification text and independent of the code under test.
//!
//! The grammar is the SPARQL 1.0 grammar quoted in the crate documentation:
//!   PNAME_NS      ::= PN_PREFIX? ':'
//!   PNAME_LN      ::= PNAME_NS PN_LOCAL
//!   PN_CHARS_BASE ::= [A-Z] | [a-z] | [#x00C0-#x00D6] | [#x00D8-#x00F6] | [#x00F8-#x02FF]
//!                   | [#x0370-#x037D] | [#x037F-#x1FFF] | [#x200C-#x200D] | [#x2070-#x218F]
//!                   | [#x2C00-#x2FEF] | [#x3001-#xD7FF] | [#xF900-#xFDCF] | [#xFDF0-#xFFFD]
//!                   | [#x10000-#xEFFFF]
//!   PN_CHARS_U    ::= PN_CHARS_BASE | '_'
//!   PN_CHARS      ::= PN_CHARS_U | '-' | [0-9] | #x00B7 | [#x0300-#x036F] | [#x203F-#x2040]
//!   PN_PREFIX     ::= PN_CHARS_BASE ((PN_CHARS|'.')* PN_CHARS)?
//!   PN_LOCAL      ::= ( PN_CHARS_U | [0-9] ) ((PN_CHARS|'.')* PN_CHARS)?

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Class {
    Base,
    Under,
    Digit,
    /// '-', U+B7, combining marks, tie characters
    Inner,
    Dot,
    Colon,
    Other,
}

pub const BASE_RANGES: &[(u32, u32)] = &[
    (0x41, 0x5A),
    (0x61, 0x7A),
    (0xC0, 0xD6),
    (0xD8, 0xF6),
    (0xF8, 0x2FF),
    (0x370, 0x37D),
    (0x37F, 0x1FFF),
    (0x200C, 0x200D),
    (0x2070, 0x218F),
    (0x2C00, 0x2FEF),
    (0x3001, 0xD7FF),
    (0xF900, 0xFDCF),
    (0xFDF0, 0xFFFD),
    (0x10000, 0xEFFFF),
];
pub const INNER_RANGES: &[(u32, u32)] = &[(0x2D, 0x2D), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)];

pub fn class(c: char) -> Class {
    let u = c as u32;
    if BASE_RANGES.iter().any(|(l, h)| *l <= u && u <= *h) {
        Class::Base
    } else if u == 0x5F {
        Class::Under
    } else if (0x30..=0x39).contains(&u) {
        Class::Digit
    } else if INNER_RANGES.iter().any(|(l, h)| *l <= u && u <= *h) {
        Class::Inner
    } else if u == 0x2E {
        Class::Dot
    } else if u == 0x3A {
        Class::Colon
    } else {
        Class::Other
    }
}

/// States of the product recogniser for PN_LOCAL / PN_PREFIX.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum St {
    Start,
    /// last symbol was a PN_CHARS: accepting
    Body,
    /// last symbol was a '.'
    AfterDot,
    Dead,
}

pub fn step(prefix: bool, s: St, c: Class) -> St {
    match (s, c) {
        (St::Start, Class::Base) => St::Body,
        (St::Start, Class::Under | Class::Digit) if !prefix => St::Body,
        (St::Start, _) => St::Dead,
        (St::Body | St::AfterDot, Class::Base | Class::Under | Class::Digit | Class::Inner) => St::Body,
        (St::Body | St::AfterDot, Class::Dot) => St::AfterDot,
        _ => St::Dead,
    }
}

fn run(prefix: bool, s: &str) -> St {
    let mut st = St::Start;
    for c in s.chars() {
        st = step(prefix, st, class(c));
        if st == St::Dead {
            break;
        }
    }
    st
}

pub fn is_local(s: &str) -> bool {
    run(false, s) == St::Body
}
pub fn is_prefix(s: &str) -> bool {
    run(true, s) == St::Body
}
/// PNAME_NS
pub fn is_ns(s: &str) -> bool {
    match s.strip_suffix(':') {
        Some("") => true,
        Some(p) => is_prefix(p),
        None => false,
    }
}
/// PNAME_LN
pub fn is_ln(s: &str) -> bool {
    match s.split_once(':') {
        Some((p, n)) => (p.is_empty() || is_prefix(p)) && is_local(n),
        None => false,
    }
}

/// Percent-encode the non-ASCII characters (names contain no ASCII character that needs it).
pub fn pct(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b < 0x80 {
            o.push(b as char)
        } else {
            o.push_str(&format!("%{b:02X}"))
        }
    }
    o
}

/// A serialized IRI seen as text, cut at the first '#' and before it the first '?'.
pub struct Parts<'a> {
    /// scheme ':' ['//' authority] path
    pub head: &'a str,
    pub path: &'a str,
    pub query: Option<&'a str>,
    pub fragment: Option<&'a str>,
}

pub fn parts(text: &str) -> Parts<'_> {
    let (rest, fragment) = match text.split_once('#') {
        Some((r, f)) => (r, Some(f)),
        None => (text, None),
    };
    let (head, query) = match rest.split_once('?') {
        Some((r, q)) => (r, Some(q)),
        None => (rest, None),
    };
    let after = &head[head.find(':').map(|i| i + 1).unwrap_or(0)..];
    let path = match after.strip_prefix("//") {
        Some(a) => &a[a.find('/').unwrap_or(a.len())..],
        None => after,
    };
    Parts { head, path, query, fragment }
}

/// An IRI that can have a name appended to it.
pub fn is_namespace(text: &str) -> bool {
    let p = parts(text);
    match p.fragment {
        Some(f) => f.is_empty(),
        None => p.query.is_none() && p.path.ends_with('/'),
    }
}

/// (namespace text, name)
pub fn split(text: &str) -> Option<(String, String)> {
    let p = parts(text);
    match p.fragment {
        Some(f) if is_local(f) => Some((text[..text.len() - f.len()].to_string(), f.to_string())),
        Some(_) => None,
        None => {
            if p.query.is_some() {
                return None;
            }
            let i = p.path.rfind('/')?;
            let n = &p.path[i + 1..];
            if is_local(n) {
                Some((text[..text.len() - n.len()].to_string(), n.to_string()))
            } else {
                None
            }
        }
    }
}

/// namespace + name
pub fn join(ns: &str, name: &str) -> Option<String> {
    if is_namespace(ns) {
        Some(format!("{ns}{}", pct(name)))
    } else {
        None
    }
}

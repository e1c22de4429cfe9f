//! The bounded input spaces that the checks enumerate.

/// One representative (or more) of every character class of the grammar and of every UTF-8 length.
pub const CLASS_ALPHABET: &[char] = &[
    'a', 'Z', '\u{E9}', '\u{4E2D}', '\u{10000}', '_', '5', '-', '\u{B7}', '\u{301}', '\u{203F}', '.', ':', ' ', '/',
    '#', '%', '\u{D7}',
];

/// Fewer symbols, for deeper words.
pub const SMALL_ALPHABET: &[char] = &['a', '_', '5', '-', '.', ':', ' '];

pub fn word(alpha: &[char], w: &[usize]) -> String {
    w.iter().map(|i| alpha[*i]).collect()
}

pub fn all_words(alpha: &[char], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut layer = vec![String::new()];
    for _ in 0..max {
        let mut next = Vec::new();
        for w in &layer {
            for c in alpha {
                let mut v = w.clone();
                v.push(*c);
                next.push(v);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}

/// Both ends of every range of the grammar, one inside and one outside.
pub fn boundary_chars() -> Vec<char> {
    let mut v: Vec<u32> = Vec::new();
    for (l, h) in crate::reference::BASE_RANGES.iter().chain(crate::reference::INNER_RANGES) {
        v.extend([l.wrapping_sub(1), *l, *h, h + 1]);
    }
    v.extend([0x2E, 0x2F, 0x30, 0x39, 0x3A, 0x5F, 0x60, 0xD800 - 1, 0xE000, 0x10FFFF, 0, 0xFFFE, 0xFFFF]);
    v.sort();
    v.dedup();
    v.into_iter().filter_map(char::from_u32).collect()
}

pub const REAL_WORDS: &[&str] = &[
    "rdf", "rdfs", "owl", "xsd", "xml", "xmlns", "skos", "dc", "dcterms", "foaf", "void", "type", "subClassOf",
    "label", "first", "rest", "nil", "_1", "Name", "Thing", "genid", "a", "true", "false", "base", "prefix", "BASE",
    "PREFIX", "1st", "v1.0", "x-y_z.9", "_", "__", "b0", "null", "None", "default", "http", "https", "urn",
    "ThisThing", "www.w3.org", "a..b", "a-", "a--b", "9", "99",
];

/// u v^k w
pub fn pumped(quick: bool) -> Vec<(String, String, usize, String)> {
    let alpha = ['a', '_', '5', '-', '.', ':', '\u{E9}', ' '];
    let ends = all_words(&alpha, 1);
    let mids: Vec<String> = all_words(&alpha, 2).into_iter().filter(|w| !w.is_empty()).collect();
    let mut ks: Vec<usize> = (1..=34).collect();
    ks.extend([50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 512]);
    if !quick {
        ks.extend((35..=130).filter(|k| ![50, 63, 64, 65, 99, 100, 101, 127, 128, 129].contains(k)));
        ks.extend([1000, 1023, 1024, 1025, 4096, 65535, 65536]);
    }
    let mut out = Vec::new();
    for u in &ends {
        for v in &mids {
            for w in &ends {
                for k in &ks {
                    if *k > 300 && (u.len() > 1 || w.len() > 1) {
                        continue;
                    }
                    out.push((u.clone(), v.clone(), *k, w.clone()));
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------------------------------------
// IRIs
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Abs {
    pub scheme: &'static str,
    pub authority: Option<&'static str>,
    pub path: &'static str,
    pub query: Option<&'static str>,
    pub fragment: Option<&'static str>,
}

impl Abs {
    pub fn text(&self) -> String {
        let mut s = format!("{}:", self.scheme);
        if let Some(a) = self.authority {
            s.push_str("//");
            s.push_str(a);
        }
        s.push_str(self.path);
        if let Some(q) = self.query {
            s.push('?');
            s.push_str(q);
        }
        if let Some(f) = self.fragment {
            s.push('#');
            s.push_str(f);
        }
        s
    }
}

pub const HIER_SCHEMES: &[&str] = &["http", "https", "ftp", "file", "ws", "ex", "web+demo"];
pub const AUTHORITIES: &[Option<&str>] = &[
    None,
    Some(""),
    Some("example.org"),
    Some("example.org:8080"),
    Some("example.org:443"),
    Some("user@example.org"),
    Some("u:p@h.example:123"),
    Some("127.0.0.1"),
    Some("[::1]"),
    Some("xn--bcher-kva.example"),
];
pub const PATHS: &[&str] = &[
    "", "/", "/ns", "/ns/", "/ns/Name", "/a/b/c", "/a//b", "//", "/a//", "/ns/1st", "/ns/_x", "/ns/a.b", "/ns/a.",
    "/ns/a-", "/ns/-a", "/ns/a%20b", "/ns/a%41", "/ns/\u{E9}", "/ns/a:b", "/ns/a;b", "/ns/a=b", "/~u/", "/ns/a@b/", "/C:/x", "/ns/x.ttl",
    "/..a/b", "/a/./b", "/a/../b", "/ns/%2e", "/ns/1.0/",
];
pub const OPAQUE_SCHEMES: &[&str] = &["urn", "mailto", "data", "tag", "x", "http", "file"];
pub const OPAQUE_PATHS: &[&str] = &[
    "", "a", "isbn:123", "a/b", "a/", "a/b/", "x:y/z", "x:y/", "a@b.example", "a.b", "a.", "text/plain,x", "a%20b", "1", "-", "_", "uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6",
    "ex.org,2020:n", "ex.org,2020:n/m", "a b", "\u{E9}", "a//b", "a/../b",
];
pub const QUERIES: &[Option<&str>] = &[None, Some(""), Some("q"), Some("q=1&r=a/b"), Some("/"), Some("q=/ns/Name")];
pub const FRAGMENTS: &[Option<&str>] = &[
    None,
    Some(""),
    Some("N"),
    Some("Name"),
    Some("a.b"),
    Some("a."),
    Some(".a"),
    Some("1"),
    Some("_"),
    Some("-a"),
    Some("a/b"),
    Some("a/"),
    Some("/"),
    Some("a:b"),
    Some("a%20b"),
    Some("a%41"),
    Some("\u{E9}"),
    Some("a?b"),
    Some("a#b"),
    Some("?"),
];

pub fn grid() -> Vec<Abs> {
    let mut v = Vec::new();
    for scheme in HIER_SCHEMES {
        for authority in AUTHORITIES {
            for path in PATHS {
                for query in QUERIES {
                    for fragment in FRAGMENTS {
                        v.push(Abs { scheme, authority: *authority, path, query: *query, fragment: *fragment });
                    }
                }
            }
        }
    }
    for scheme in OPAQUE_SCHEMES {
        for path in OPAQUE_PATHS {
            for query in QUERIES {
                for fragment in FRAGMENTS {
                    v.push(Abs { scheme, authority: None, path, query: *query, fragment: *fragment });
                }
            }
        }
    }
    v
}

/// Every combination of a few representatives per component: small enough for pairs.
pub fn small_grid(thorough: bool) -> Vec<Abs> {
    let mut v = Vec::new();
    let hs: &[&str] = if thorough { &["http", "https", "ftp", "ex"] } else { &["http", "ex"] };
    let aus: &[Option<&str>] = if thorough {
        &[None, Some("example.org"), Some("example.org:8080"), Some("user@example.org"), Some("u:p@h.example:123"), Some("[::1]")]
    } else {
        &[Some("example.org"), Some("example.org:8080"), Some("u:p@example.org")]
    };
    let ps: &[&str] = &["", "/", "/ns", "/ns/", "/ns/Name", "/ns/a%20b", "/ns/\u{E9}", "//a"];
    let qs = &[None, Some(""), Some("q"), Some("q=/ns/Name")];
    let fs = &[None, Some(""), Some("N"), Some("a/b"), Some("\u{E9}")];
    for scheme in hs {
        for authority in aus {
            for path in ps {
                for query in qs {
                    for fragment in fs {
                        v.push(Abs { scheme, authority: *authority, path, query: *query, fragment: *fragment });
                    }
                }
            }
        }
    }
    for scheme in ["urn", "mailto"] {
        for path in ["a", "isbn:123", "a/b", "a/", "\u{E9}"] {
            for query in qs {
                for fragment in fs {
                    v.push(Abs { scheme, authority: None, path, query: *query, fragment: *fragment });
                }
            }
        }
    }
    v
}

/// Names used when an operation needs one: every class in every position, plus real ones.
pub fn names_ascii() -> Vec<String> {
    let alpha = ['a', 'Z', '_', '5', '-', '.'];
    let mut v: Vec<String> = all_words(&alpha, 3).into_iter().filter(|w| crate::reference::is_local(w)).collect();
    v.extend(REAL_WORDS.iter().filter(|w| crate::reference::is_local(w)).map(|s| s.to_string()));
    v.push("a".repeat(64));
    v.push("Ab_9-x.y".repeat(40));
    v.sort();
    v.dedup();
    v
}

pub fn names_unicode() -> Vec<String> {
    let alpha = ['a', '\u{E9}', '\u{4E2D}', '\u{10000}', '\u{B7}', '\u{301}', '\u{203F}', '.'];
    all_words(&alpha, 3)
        .into_iter()
        .filter(|w| crate::reference::is_local(w) && !w.is_ascii())
        .collect()
}

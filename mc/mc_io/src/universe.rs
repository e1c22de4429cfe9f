//! Bounded universes of graphs to write.

use mcrdf::*;
use rdftk_core::model::graph::Graph;
use std::collections::BTreeSet;

pub const EX: &str = "http://example.org/";
pub fn ex(s: &str) -> String {
    format!("{EX}{s}")
}
pub fn ns(s: &str) -> String {
    format!("http://example.org/ns#{s}")
}
pub const RDFS_LABEL: &str = "http://www.w3.org/2000/01/rdf-schema#label";

/// Every subset of `u` of at most `k` members, smallest first.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for s in &layer {
            for i in s.last().map_or(0, |l| l + 1)..n {
                let mut t = s.clone();
                t.push(i);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}

pub fn pick(u: &[Triple], ix: &[usize]) -> Vec<Triple> {
    ix.iter().map(|i| u[*i].clone()).collect()
}

/// The statements whose combinations exercise grouping, ordering, nesting and term kinds.
pub fn mixed() -> Vec<Triple> {
    let mut v = vec![];
    for s in [iri(&ex("a")), blank("x"), blank("y")] {
        for p in [ns("p"), rdf("type"), RDFS_LABEL.to_string()] {
            for o in [iri(&ex("a")), iri(&ns("b")), blank("x"), blank("y"), plain("t"), lang("t", "en"), typed("5", &xsd("integer"))] {
                v.push((s.clone(), p.clone(), o));
            }
        }
    }
    v
}

/// Every relation over the nodes: all graphs with one predicate, as bit sets of edges.
pub fn relation(nodes: &[T], bits: u32) -> Vec<Triple> {
    let n = nodes.len();
    let mut v = vec![];
    for i in 0..n {
        for j in 0..n {
            if bits >> (i * n + j) & 1 == 1 {
                v.push((nodes[i].clone(), ns("p"), nodes[j].clone()));
            }
        }
    }
    v
}

/// Statements with collections and quoted statements, one or two levels deep.
pub fn compound(levels: usize) -> Vec<Triple> {
    let leaves = vec![iri(&ex("a")), blank("x"), plain("t")];
    let mut objs: Vec<T> = vec![T::Coll(vec![])];
    for a in &leaves {
        objs.push(T::Coll(vec![a.clone()]));
        for b in &leaves {
            objs.push(T::Coll(vec![a.clone(), b.clone()]));
        }
        for s in [iri(&ex("a")), blank("y")] {
            objs.push(quote((s, ns("q"), a.clone())));
        }
    }
    for _ in 1..levels {
        let inner = objs.clone();
        for o in inner {
            objs.push(T::Coll(vec![o.clone()]));
            objs.push(T::Coll(vec![o.clone(), plain("u")]));
            objs.push(T::Coll(vec![blank("x"), o.clone()]));
            objs.push(quote((iri(&ex("a")), ns("q"), o.clone())));
            if let T::Quote(_) = o {
                objs.push(quote((o.clone(), ns("q"), plain("v"))));
            }
        }
    }
    let objs: BTreeSet<T> = objs.into_iter().collect();
    let mut v: Vec<Triple> = vec![];
    for o in objs {
        for s in [iri(&ex("a")), blank("x")] {
            v.push((s, ns("p"), o.clone()));
        }
        if let T::Quote(_) = o {
            v.push((o, ns("p"), plain("w")));
        }
    }
    v
}

pub const CHARS: [char; 34] = [
    'a', '"', '\\', '\n', 'u', '\'', ' ', '\r', '\t', '\u{8}', '\u{c}', '\0', '\u{7f}', 'é', '😀', '<', '>', '&', ']', '{', '|', 'n',
    '.', '@', '^', '#', '_', '%', '-', '1', 'e', '+', '0', '\u{2028}',
];

/// Every text over the first `n` characters above, up to a length.
pub fn texts(n: usize, max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut layer = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for s in &layer {
            for c in &CHARS[..n] {
                next.push(format!("{s}{c}"));
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}

/// Lexical forms that a writer may be tempted to abbreviate.
pub fn forms() -> Vec<String> {
    [
        "true", "false", "TRUE", "1", "0", "-1", "+1", "01", "1.", ".5", "1.5", "-1.5", "+.5", "1.5.", "1e1", "1.e1", "1.0E10", "-1e-3", ".5e1",
        "1e", "e1", "INF", "-INF", "NaN", "abc", "", " 1", "1 ", "--1", "1,5", "2020-01-02", "2020-01-02T03:04:05Z", "P1D", "http://a.b/c",
        "<a>", "0x1f", "AQID", "1_000", "१", "²", "१.०", "1.१", "1.0e१", "१e1", "1.1e1.0", "1.0e+", "1.0e1e1", "1.0f", "1.5e1 ", "\u{feff}1", "true\n",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

pub fn data_types() -> Vec<String> {
    let mut v: Vec<String> = [
        "string", "boolean", "integer", "decimal", "double", "float", "anyURI", "date", "dateTime", "time", "duration", "hexBinary",
        "base64Binary", "long", "int", "short", "byte", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte", "nonNegativeInteger",
        "positiveInteger", "negativeInteger", "nonPositiveInteger", "QName", "language", "token", "Name", "gYear",
    ]
    .iter()
    .map(|n| xsd(n))
    .collect();
    v.push(rdf("XMLLiteral"));
    v.push(rdf("HTML"));
    v.push(ex("dt"));
    v.push("urn:x:dt".into());
    v
}

/// Every two of the terms that look alike when shown without what tells them apart.
pub fn alike() -> Vec<Vec<Triple>> {
    let u = alike_terms();
    let form = |t: &Triple| match &t.2 {
        T::Lit { lang: Some(l), lex, .. } => lang(lex, &l.to_lowercase()),
        t => crate::refs::norm3(&(iri(&ex("a")), ns("p"), t.clone())).2,
    };
    // not two ways to write the same term
    subsets(u.len(), 2).iter().filter(|s| s.len() < 2 || form(&u[s[0]]) != form(&u[s[1]])).map(|s| pick(&u, s)).collect()
}
fn alike_terms() -> Vec<Triple> {
    let mut v: Vec<T> = vec![];
    for t in ["1", "true", "a"] {
        v.extend([plain(t), blank(t), iri(&ex(t)), plain(&ex(t)), plain(&format!("<{}>", ex(t))), plain(&format!("_:{t}")), plain(&format!("\"{t}\""))]);
        v.extend(data_types().iter().map(|d| typed(t, d)));
        v.extend(LANGS.iter().map(|l| lang(t, l)));
    }
    v.into_iter().map(|o| (iri(&ex("a")), ns("p"), o)).collect()
}

pub const LANGS: [&str; 10] = ["en", "en-US", "EN", "zh-Hant-TW", "de-1996", "x-private", "i-klingon", "sl-rozaj-biske", "de-CH-1901-x-a", "es-419"];

/// IRIs in many shapes, and with each character that some place in an IRI holds as it is, among
/// them the ones that an IRIREF may only contain as escapes.
pub fn iris() -> Vec<String> {
    let mut v = vec![];
    for s in ["http://example.org/", "http://example.org/ns#", "http://example.org/d/", "https://example.org:8080/?q=", "urn:x:", "mailto:"] {
        for t in [
            "a", "a.b", "a.", ".a", "a-b", "-a", "a_b", "_a", "1a", "a1", "a/b", "a#b", "a?b", "a%20b", "a:b", "a,b", "a;b", "(a)", "a'b", "a*", "a@b", "a~b",
            "a!b", "a$b", "a&b", "a+b", "a=b", "%C3%A9", "b.c.", "a..b", "",
        ] {
            if t.is_empty() && s.ends_with(':') {
                continue;
            }
            v.push(format!("{s}{t}"));
        }
    }
    v.extend(["http://example.org/ns", "http://example.com", "http://example.org/ns#a#"].iter().map(|s| s.to_string()));
    for s in ["http://example.org/?q=/", "http://example.org/#/", "sch://h/", "sch://h/d/", "file:///", "sch:/"] {
        v.extend(["", "a", "a/b", "a:b", "/a", "//a", "?a", "#a", ":a", "./a", "../a", "a/../b", "...", "a?b/../c", "a#b:c"].iter().map(|t| format!("{s}{t}")));
    }
    for p in ["urn:x:a", "data:", "sch://h/a", "sch://a", "http://example.org/a", "http://example.org/?a", "http://example.org/#a", "http://example.org/ns#a?", "urn:x:?a", "urn:x:#a", "http://u:"] {
        v.extend((' '..='~').filter(|k| !k.is_ascii_alphanumeric()).flat_map(|k| [format!("{p}{k}b"), format!("{p}{k}"), format!("{p}{k}b@h/c")]));
    }
    // keep what is an IRI, in the form in which it is held
    let mut out: Vec<String> = v.iter().filter_map(|s| s.parse::<rdftk_iri::Iri>().ok()).map(|i| format!("{i:#}")).collect();
    out.sort();
    out.dedup();
    out
}

pub const LABELS: [&str; 16] = ["x", "x1", "0", "1x", "_1x", "__1x", "_x", "x-", "x.y", "x..y", "x-y", "x_y", "é", "x·", "X", "a1.b2.c3"];

pub fn show(ts: &[Triple]) -> String {
    fn t(x: &T) -> String {
        match x {
            T::Blank(b) => format!("_:{b}"),
            T::Iri(i) => format!("<{i}>"),
            T::Lit { lex, dt, lang } => {
                format!("{lex:?}{}{}", dt.as_ref().map(|d| format!("^^<{d}>")).unwrap_or_default(), lang.as_ref().map(|l| format!("@{l}")).unwrap_or_default())
            }
            T::Coll(v) => format!("({})", v.iter().map(t).collect::<Vec<_>>().join(" ")),
            T::Quote(q) => format!("<<{}>>", show(&[(**q).clone()])),
        }
    }
    ts.iter().map(|x| format!("{} <{}> {}", t(&x.0), x.1, t(&x.2))).collect::<Vec<_>>().join(" . ")
}

/// What a graph means once collections and quoted statements have been spelled out, as a set of
/// normalised triples, without the types of collection cells (the short syntax does not state them).
pub fn meaning(g: &Graph) -> Vec<Triple> {
    let flat = g.statements().any(|s| {
        let compound = |o: &rdftk_core::model::statement::ObjectNode| o.is_collection() || o.is_statement();
        s.subject().is_statement() || compound(s.object())
    });
    let ts = if flat { flatten(&of_graph(g)) } else { of_graph(g) };
    strip(&ts)
}
/// Cells are those with both a first and a rest; what else is said to be a list is kept.
pub fn strip(ts: &[Triple]) -> Vec<Triple> {
    let has = |p: &str| -> BTreeSet<&T> { ts.iter().filter(|t| t.1 == rdf(p)).map(|t| &t.0).collect() };
    let (first, rest) = (has("first"), has("rest"));
    let cell = |t: &Triple| t.1 == rdf("type") && t.2 == T::Iri(rdf("List")) && first.contains(&t.0) && rest.contains(&t.0);
    let s: BTreeSet<Triple> = ts.iter().filter(|t| !cell(t)).map(crate::refs::norm3).collect();
    s.into_iter().collect()
}

/// Statements in the words that the formats treat in their own way.
pub fn specials() -> Vec<Triple> {
    let (a, x, nil) = (iri(&ex("a")), blank("x"), iri(&rdf("nil")));
    let rdfs = |n: &str| format!("http://www.w3.org/2000/01/rdf-schema#{n}");
    let mut v = vec![];
    for s in [a.clone(), x.clone()] {
        for (p, os) in [
            (rdf("first"), vec![plain("t"), x.clone(), nil.clone()]),
            (rdf("rest"), vec![nil.clone(), blank("y"), x.clone()]),
            (rdf("type"), vec![iri(&rdf("List")), iri(&rdf("Statement")), iri(&rdf("Property")), iri(&rdf("Bag"))]),
            (rdf("subject"), vec![a.clone(), x.clone()]),
            (rdf("predicate"), vec![iri(&ns("p")), iri(&rdf("type"))]),
            (rdf("object"), vec![plain("t"), x.clone(), nil.clone()]),
            (rdf("_1"), vec![plain("t"), blank("y")]),
            (rdf("value"), vec![typed("1", &xsd("integer")), typed("true", &xsd("boolean"))]),
            (rdfs("subClassOf"), vec![iri(&rdfs("Class")), x.clone()]),
            ("http://www.w3.org/2002/07/owl#sameAs".into(), vec![a.clone(), blank("y")]),
            (ns("p"), vec![nil.clone(), iri(&rdf("type")), iri(&rdf("first")), typed("t", &rdf("langString")), typed("t", &xsd("string"))]),
        ] {
            for o in os {
                v.push((s.clone(), p.clone(), o));
            }
        }
    }
    v.push((nil.clone(), ns("p"), plain("t")));
    v.push((nil.clone(), rdf("type"), iri(&rdf("List"))));
    v.push((iri(&rdf("type")), rdf("type"), iri(&rdf("Property"))));
    v
}

/// Graphs in which one thing is large.
pub fn grown(n: usize, deep: usize, long: usize) -> Vec<Vec<Triple>> {
    let a = || iri(&ex("a"));
    let chain = |k: usize, f: &dyn Fn(usize) -> Triple| -> Vec<Triple> { (0..k).map(f).collect() };
    let nest = |k: usize, f: &dyn Fn(T) -> T, o: T| -> T { (0..k).fold(o, |t, _| f(t)) };
    let mut v: Vec<Vec<Triple>> = vec![
        chain(n, &|i| (a(), ns("p"), plain(&format!("{i}")))),
        chain(n, &|i| (a(), ns("p"), iri(&ex(&format!("o{i}"))))),
        chain(n, &|i| (a(), ns("p"), blank(&format!("b{i}")))),
        chain(n, &|i| (a(), ns("p"), typed(&format!("{i}"), &xsd("integer")))),
        chain(n, &|i| (a(), ns(&format!("p{i}")), plain("t"))),
        chain(n, &|i| (iri(&ex(&format!("s{i}"))), ns("p"), plain("t"))),
        chain(n, &|i| (blank(&format!("b{i}")), ns("p"), plain(&format!("{i}")))),
        chain(n, &|i| (blank("x"), ns(&format!("p{}", i % 7)), plain(&format!("{i}")))),
        chain(n, &|i| (iri(&ex(&format!("s{}", i % 7))), ns(&format!("p{}", i % 5)), lang(&format!("{i}"), "en"))),
        chain(n, &|i| (blank(&format!("b{i}")), rdf("type"), iri(&ns("C")))),
        // one blank node referred to from everywhere
        chain(n, &|i| (iri(&ex(&format!("s{i}"))), ns("p"), blank("x"))),
        vec![(a(), ns("p"), T::Coll((0..n).map(|i| plain(&format!("{i}"))).collect()))],
        vec![(a(), ns("p"), T::Coll((0..n).map(|_| plain("t")).collect()))],
        vec![(a(), ns("p"), T::Coll((0..n).map(|i| blank(&format!("b{}", i % 3))).collect()))],
        vec![(a(), ns("p"), nest(deep, &|t| T::Coll(vec![t]), plain("t")))],
        vec![(a(), ns("p"), nest(deep, &|t| T::Coll(vec![plain("u"), t]), blank("x")))],
        vec![(a(), ns("p"), nest(deep, &|t| quote((iri(&ex("b")), ns("q"), t)), plain("t")))],
        vec![(nest(deep, &|t| quote((t, ns("q"), plain("t"))), a()), ns("p"), plain("t"))],
        vec![(a(), ns("p"), plain(&"é".repeat(long)))],
        vec![(a(), ns("p"), lang(&"a\"
".repeat(long / 4), "en"))],
        vec![(a(), ns("p"), typed(&"1".repeat(long), &xsd("integer")))],
        vec![(iri(&ex(&"a".repeat(long))), ns(&"p".repeat(long)), iri(&ex(&"o/".repeat(long / 2))))],
        // long names, beside short ones and before each kind of object
        (0..6).map(|i| (a(), ns(&"p".repeat(8 << i)), plain("t"))).chain([(a(), ns("p"), plain("t"))]).collect(),
        vec![(a(), ns(&"p".repeat(70)), iri(&ns("b"))), (a(), ns("p"), plain("t"))],
        vec![(a(), ns(&"p".repeat(70)), typed("1", &xsd("integer"))), (a(), ns("p"), plain("t"))],
        vec![(a(), ns(&"p".repeat(70)), typed("true", &xsd("boolean"))), (a(), ns("p"), plain("t"))],
        vec![(a(), ns(&"p".repeat(70)), blank("x")), (a(), ns("p"), plain("t")), (blank("x"), ns(&"q".repeat(70)), iri(&ns("b")))],
        vec![(blank(&"x".repeat(long)), ns("p"), blank(&"y".repeat(long)))],
    ];
    // chains of blank nodes, from an IRI and from nothing, and closed ones
    for (head, tail) in [(true, false), (false, false), (false, true), (true, true)] {
        let mut g = chain(deep, &|i| (blank(&format!("b{i}")), ns("p"), blank(&format!("b{}", i + 1))));
        if head {
            g.push((a(), ns("p"), blank("b0")));
        }
        g.push(if tail { (blank(&format!("b{deep}")), ns("p"), blank("b0")) } else { (blank(&format!("b{deep}")), ns("q"), plain("t")) });
        v.push(g);
    }
    // a tree of blank nodes, each with two below it
    v.push(chain(deep, &|i| (blank(&format!("b{}", i / 2)), ns(if i % 2 == 0 { "p" } else { "q" }), blank(&format!("b{}", i + 1)))));
    v
}

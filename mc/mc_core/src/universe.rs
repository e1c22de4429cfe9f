//! Bounded universes of terms and triples.
use mcrdf::*;

pub const A: &str = "http://example.org/a";
pub const B: &str = "http://example.org/b";
pub const P: &str = "http://example.org/v#p";
pub const Q: &str = "http://example.org/v#q";

/// Literals that collide on any two of lexical form, data type and language.
pub fn literals() -> Vec<T> {
    let mut v = Vec::new();
    for lex in ["", "x", "1", "x\"\\\n", "http://example.org/a", "true", "é😀", "\\n"] {
        v.push(plain(lex));
        for l in ["en", "en-US", "fr"] {
            v.push(lang(lex, l));
        }
        for d in ["string", "anyURI", "integer", "int", "boolean", "double", "byte"] {
            v.push(typed(lex, &xsd(d)));
        }
        v.push(typed(lex, A));
        v.push(typed(lex, &rdf("XMLLiteral")));
        v.push(typed(lex, &rdf("langString")));
    }
    v
}

/// A triple that is quoted by other terms.
pub fn q0() -> Triple {
    tr(iri(A), P, plain("x"))
}

/// All terms up to the given nesting, from a seed of atoms.
pub fn nested_terms(atoms: &[T], depth: usize) -> Vec<T> {
    let mut all: Vec<T> = atoms.to_vec();
    for _ in 0..depth {
        let mut next = Vec::new();
        next.push(T::Coll(vec![]));
        for a in &all {
            next.push(T::Coll(vec![a.clone()]));
        }
        for a in &all {
            for b in &all {
                if !matches!(a, T::Lit { .. } | T::Coll(_)) {
                    next.push(quote((a.clone(), P.into(), b.clone())));
                }
                next.push(T::Coll(vec![a.clone(), b.clone()]));
            }
        }
        for t in next {
            if !all.contains(&t) {
                all.push(t);
            }
        }
    }
    all
}

pub fn is_subject(t: &T) -> bool {
    matches!(t, T::Blank(_) | T::Iri(_) | T::Quote(_))
}

/// IRIs that mean something to the code, as predicates, types or nodes.
pub fn special() -> Vec<String> {
    let mut v: Vec<String> = ["type", "nil", "first", "rest", "List", "Statement", "subject", "predicate", "object", "_1", "Bag", "li", "value", "Property"].iter().map(|n| rdf(n)).collect();
    v.push(xsd("string"));
    v.push("http://www.w3.org/2002/07/owl#sameAs".into());
    v.push("http://example.com/.well-known/genid/x".into());
    v.push("urn:x".into());
    v
}

/// Statements with an IRI in every kind of place, flat and nested.
pub fn placed(x: &str) -> Vec<Triple> {
    let (x1, a, n) = (iri(x), iri(A), blank("n"));
    let mut inner: Vec<Triple> = Vec::new();
    for s in [a.clone(), n.clone(), x1.clone()] {
        for p in [P, x] {
            for o in [a.clone(), n.clone(), plain("x"), x1.clone()] {
                inner.push((s.clone(), p.into(), o));
            }
        }
    }
    let mut terms: Vec<T> = vec![x1.clone()];
    for v in [vec![x1.clone()], vec![x1.clone(), x1.clone()], vec![a.clone(), x1.clone()], vec![x1.clone(), n.clone()], vec![T::Coll(vec![x1.clone()])], vec![T::Coll(vec![]), x1.clone()]] {
        terms.push(T::Coll(v));
    }
    for t in &inner {
        terms.push(quote(t.clone()));
    }
    let one = quote((a.clone(), x.into(), n.clone()));
    let nested = [
        (one.clone(), P.to_string(), plain("y")),
        (one.clone(), x.to_string(), n.clone()),
        (one.clone(), x.to_string(), one.clone()),
        (a.clone(), x.to_string(), one.clone()),
        (n.clone(), x.to_string(), T::Coll(vec![one.clone(), x1.clone()])),
    ];
    for t in &nested {
        terms.push(quote(t.clone()));
    }
    let mut out = inner;
    out.extend(nested);
    for t in &terms {
        for p in [Q, x] {
            out.push((a.clone(), p.into(), t.clone()));
            if is_subject(t) {
                out.push((t.clone(), p.into(), n.clone()));
                out.push((t.clone(), p.into(), t.clone()));
            }
        }
    }
    out
}

/// Language tags of every shape.
pub const LANGS: [&str; 12] = ["en", "fr-CA", "en-US", "zh-Hant-TW", "de-1996", "sl-rozaj-biske", "x-private", "en-x-a-b", "i-klingon", "de-DE-u-co-phonebk", "zh-Hant", "es-419"];

/// Different terms that look the same, or nearly, once they are printed.
pub fn printed_alike() -> Vec<T> {
    let int = |l: &str| typed(l, &xsd("int"));
    let long = |l: &str| typed(l, &xsd("long"));
    let q = |o: T| quote((iri(A), P.into(), o));
    vec![
        int("1"),
        long("1"),
        typed("1", &xsd("double")),
        q(int("1")),
        q(long("1")),
        T::Coll(vec![int("1")]),
        T::Coll(vec![long("1")]),
        int("( 1 )"),
        typed(A, &xsd("anyURI")),
        iri(A),
        blank("n"),
        blank("N"),
        int("_:n"),
        plain("n"),
        lang("n", "en"),
        lang("n", "en-GB"),
        typed("n", &xsd("string")),
        typed("n", A),
        iri(&A.to_uppercase().replace("HTTP://EXAMPLE.ORG", "http://example.org")),
        iri(&format!("{A}/")),
        plain("N"),
        plain("n "),
        int("01"),
    ]
}

/// Labels of blank nodes that are different but easily mixed up.
pub const LABELS: [&str; 24] = ["n", "N", "nn", "n1", "n01", "n10", "N1", "n.1", "n-1", "n_1", "n_", "_n", "1", "01", "b", "B", "e", "\u{e9}", "e\u{301}", "\u{c9}", "genid", "n\u{b7}1", "\u{10000}", "nil"];

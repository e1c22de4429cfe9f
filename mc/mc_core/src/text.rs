//! D17 What the text of a term, statement, collection or graph name shows. D18 What a type says it
//! supports.

use crate::universe::*;
use mclib::*;
use mcrdf::*;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::features::*;
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::literal::{DataType, LanguageTag};
use rdftk_core::model::statement::{Collection, ObjectNode, Statement, SubjectNode};
use rdftk_iri::{Iri, IriPrefixMap};
use serde_json::json;
use std::collections::BTreeMap;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};

macro_rules! ck {
    ($cond:expr, $($what:tt)*) => {
        if !($cond) {
            return Err(format!($($what)*));
        }
    };
}

fn run1(c: &Check, key: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
    static RUNS: AtomicU64 = AtomicU64::new(0);
    if c.saturated() {
        return;
    }
    let n = RUNS.fetch_add(1, Ordering::Relaxed);
    if n < 3 || n >= 1024 && n.is_power_of_two() {
        c.sample(json!(key()));
    }
    crate::graphs::run1(c, &key(), f)
}

// ------------------------------------------------------------------------------------------------
// Texts
// ------------------------------------------------------------------------------------------------

/// What a text shows: the term, but for the literals that are shown without their data type.
#[derive(Clone, Debug, PartialEq, Eq)]
enum V {
    Blank(String),
    Angle(String),
    Bare(String),
    Lit { lex: String, dt: Option<String>, lang: Option<String> },
    Coll(Vec<V>),
    Quote(Box<[V; 3]>),
}

const BARE: [&str; 12] = ["boolean", "long", "int", "short", "byte", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte", "float", "double", "decimal"];

fn shows(t: &T, full: bool) -> V {
    match t {
        T::Blank(b) => V::Blank(b.clone()),
        T::Iri(i) => V::Angle(i.clone()),
        T::Lit { lex, dt: Some(d), .. } if !full && *d == xsd("anyURI") => V::Angle(lex.clone()),
        T::Lit { lex, dt: Some(d), .. } if !full && BARE.iter().any(|b| *d == xsd(b)) => V::Bare(lex.clone()),
        T::Lit { lex, dt, lang } => V::Lit { lex: lex.clone(), dt: dt.clone(), lang: lang.clone() },
        T::Coll(v) => V::Coll(v.iter().map(|t| shows(t, false)).collect()),
        T::Quote(q) => V::Quote(Box::new(shows3(q))),
    }
}
fn shows3(t: &Triple) -> [V; 3] {
    [shows(&t.0, false), V::Angle(t.1.clone()), shows(&t.2, false)]
}

struct Text<'a>(&'a str);

impl<'a> Text<'a> {
    fn ws(&mut self) {
        self.0 = self.0.trim_start();
    }
    fn eat(&mut self, s: &str) -> bool {
        match self.0.strip_prefix(s) {
            Some(r) => {
                self.0 = r;
                true
            }
            None => false,
        }
    }
    fn until(&mut self, stop: impl Fn(char) -> bool) -> &'a str {
        let n = self.0.find(stop).unwrap_or(self.0.len());
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn angle(&mut self) -> Result<String, String> {
        let s = self.until(|c| c == '>');
        ck!(self.eat(">"), "no end of <{s}");
        ck!(!s.contains(|c: char| c.is_whitespace() || c == '<' || c == '"'), "not an IRI: <{s}>");
        Ok(s.into())
    }
    fn value(&mut self) -> Result<V, String> {
        self.ws();
        if self.eat("<<") {
            let v = self.three()?;
            self.ws();
            ck!(self.eat(">>"), "a quoted statement without end, before {:?}", self.0);
            Ok(V::Quote(Box::new(v)))
        } else if self.eat("<") {
            Ok(V::Angle(self.angle()?))
        } else if self.eat("_:") {
            Ok(V::Blank(self.until(char::is_whitespace).into()))
        } else if self.eat("(") {
            let mut v = Vec::new();
            loop {
                self.ws();
                if self.eat(")") {
                    return Ok(V::Coll(v));
                }
                ck!(!self.0.is_empty(), "a collection without end");
                v.push(self.value()?);
            }
        } else if self.eat("\"") {
            let (mut n, mut esc) = (None, false);
            for (i, c) in self.0.char_indices() {
                match c {
                    _ if esc => esc = false,
                    '\\' => esc = true,
                    '"' => {
                        n = Some(i);
                        break;
                    }
                    _ => {}
                }
            }
            let n = n.ok_or("a literal without end")?;
            let lex = nt_unescape(&self.0[..n])?;
            self.0 = &self.0[n + 1..];
            if self.eat("@") {
                Ok(V::Lit { lex, dt: None, lang: Some(self.until(char::is_whitespace).into()) })
            } else if self.eat("^^<") {
                Ok(V::Lit { lex, dt: Some(self.angle()?), lang: None })
            } else {
                Ok(V::Lit { lex, dt: None, lang: None })
            }
        } else {
            let s = self.until(char::is_whitespace);
            ck!(!s.is_empty(), "a term is missing");
            Ok(V::Bare(s.into()))
        }
    }
    fn three(&mut self) -> Result<[V; 3], String> {
        Ok([self.value()?, self.value()?, self.value()?])
    }
    fn end(&mut self) -> Result<(), String> {
        self.ws();
        ck!(self.0.is_empty(), "more text: {:?}", self.0);
        Ok(())
    }
}

fn one(text: &str) -> Result<V, String> {
    let mut p = Text(text);
    let v = p.value().map_err(|e| format!("{e} in {text:?}"))?;
    p.end().map_err(|e| format!("{e} in {text:?}"))?;
    Ok(v)
}

fn reads(what: &str, text: String, t: &T, full: bool) -> Result<(), String> {
    let (got, want) = (one(&text)?, shows(t, full));
    ck!(got == want, "{what} is shown as {text:?}, which is {got:?} and not {want:?}");
    Ok(())
}

fn reads3(what: &str, text: String, t: &Triple) -> Result<(), String> {
    let mut p = Text(&text);
    let got = p.three().and_then(|v| p.end().map(|_| v)).map_err(|e| format!("{e} in {text:?}"))?;
    ck!(got == shows3(t), "{what} is shown as {text:?}, which is {got:?} and not {:?}", shows3(t));
    Ok(())
}

fn term(t: &T) -> Result<(), String> {
    let o = real_object(t);
    reads("an object", o.to_string(), t, false)?;
    reads("an object in full", format!("{o:#}"), t, true)?;
    match t {
        T::Blank(b) => {
            ck!(real_blank(b).to_string() == *b, "a blank node {b:?} is shown as {:?}", real_blank(b).to_string());
        }
        T::Lit { .. } => {
            reads("a literal", real_lit(t).to_string(), t, false)?;
            reads("a literal in full", format!("{:#}", real_lit(t)), t, true)?;
        }
        T::Coll(v) => {
            let c = Collection::from(v.iter().map(real_object).collect::<Vec<_>>());
            reads("a collection", c.to_string(), t, false)?;
            reads("a collection", format!("{c:#}"), t, false)?;
        }
        _ => {}
    }
    if is_subject(t) {
        let s = real_subject(t);
        reads("a subject", s.to_string(), t, false)?;
        reads("a subject", format!("{s:#}"), t, true)?;
    }
    if let T::Blank(_) | T::Iri(_) = t {
        let n = real_name(t);
        reads("a graph name", n.to_string(), t, false)?;
        reads("a graph name", format!("{n:#}"), t, false)?;
    }
    Ok(())
}

fn statement(t: &Triple) -> Result<(), String> {
    let s = real_stmt(t);
    reads3("a statement", s.to_string(), t)?;
    reads3("a statement", format!("{s:#}"), t)
}

/// Literals of every data type that are written without it, and others like them.
fn short_literals() -> Vec<T> {
    let mut v = Vec::new();
    for d in BARE.iter().chain(["integer", "string", "dateTime", "nonNegativeInteger", "anyURI", "QName", "date"].iter()) {
        for l in ["1", "-1", "+01", "true", "false", "1.5", "-1.5E-3", "INF", "NaN", "0", "http://example.org/a", "urn:x"] {
            v.push(typed(l, &xsd(d)));
        }
    }
    v
}

pub fn d17(c: &Check) {
    let mut terms: Vec<T> = literals().into_iter().filter(|t| !matches!(t, T::Lit { lex, dt: Some(d), .. } if BARE.iter().any(|b| *d == xsd(b)) && (lex.is_empty() || lex.contains([' ', '"', '\\', '\n'])) || *d == xsd("anyURI") && !lex.starts_with("http"))).collect();
    terms.extend(short_literals());
    terms.extend(LABELS.iter().map(|l| blank(l)));
    terms.extend(special().iter().map(|i| iri(i)));
    for l in LANGS {
        terms.push(lang("x", l));
    }
    // every character of two bytes' worth in a literal, an IRI where it may be, and in between
    for n in 1..c.bound(0x1_1000u32, 0x11_0000) {
        if let Some(ch) = char::from_u32(n) {
            terms.push(plain(&ch.to_string()));
            terms.push(lang(&format!("{ch}@{ch}"), "en"));
            if c.thorough() || n < 0x300 {
                terms.push(typed(&format!("a{ch}"), A));
                terms.push(T::Coll(vec![plain(&ch.to_string()), typed(&ch.to_string(), &xsd("string"))]));
            }
        }
    }
    // every text of a few tokens that mean something in the text
    let tokens = ["\"", "\\", "@en", "^^<u:x>", "<", ">", ">>", "<<", "(", ")", " ", "_:n", "1", "\n"];
    words(tokens.len(), c.bound(4, 5), |w: &[usize]| {
        let s: String = w.iter().map(|i| tokens[*i]).collect();
        run1(c, || format!("the literal {s:?}"), || {
            for t in [plain(&s), lang(&s, "en"), typed(&s, A)] {
                term(&t)?;
                term(&T::Coll(vec![t.clone(), t.clone()]))?;
                statement(&(quote((iri(A), P.into(), t.clone())), Q.into(), t))?;
            }
            Ok(())
        });
        c.add_states(9);
    });
    par_each(&terms, |t| {
        run1(c, || format!("{t:?}"), || term(t));
        c.add_states(1);
    });
    c.outcome("flat terms", terms.len() as u64);

    // terms in each other
    let atoms = [iri(A), iri(&rdf("nil")), blank("n"), blank("1"), plain("x y"), lang("x", "en"), typed("1", &xsd("int")), typed("1", &xsd("integer")), typed(A, &xsd("anyURI")), plain("( >> \"")];
    let first = nested_terms(&atoms[..c.bound(10, 10)], 1);
    let n = AtomicU64::new(0);
    par_each(&first, |a| {
        for b in &first {
            run1(c, || format!("{a:?} and {b:?}"), || {
                let mut v = vec![T::Coll(vec![a.clone(), b.clone()]), T::Coll(vec![T::Coll(vec![a.clone()]), b.clone(), a.clone()])];
                if is_subject(a) {
                    let t = (a.clone(), P.to_string(), b.clone());
                    statement(&t)?;
                    v.push(quote(t.clone()));
                    v.push(T::Coll(vec![quote(t.clone()), quote(t.clone())]));
                    v.push(quote((quote(t.clone()), Q.into(), T::Coll(vec![quote(t)]))));
                }
                n.fetch_add(v.len() as u64 + 1, Ordering::Relaxed);
                v.iter().try_for_each(term)
            });
        }
    });
    c.add_states(n.load(Ordering::Relaxed));
    c.outcome("nested terms and statements", n.load(Ordering::Relaxed));

    // growth
    for n in 0..c.bound(300, 2000) {
        run1(c, || format!("a collection of {n}"), || term(&T::Coll((0..n).map(|i| if i % 3 == 0 { iri(A) } else { plain(&format!("{i} ")) }).collect())));
        c.add_states(1);
    }
    let mut t = (iri(A), P.to_string(), plain("x"));
    for n in 0..c.bound(60, 200) {
        t = if n % 2 == 0 { (quote(t), P.into(), T::Coll(vec![iri(A)])) } else { (iri(A), Q.into(), T::Coll(vec![quote(t)])) };
        run1(c, || format!("statements quoted to a depth of {n}"), || statement(&t));
        c.add_states(1);
    }

    // data types and language tags
    let types: Vec<(DataType, &str)> = vec![
        (DataType::Iri, "xsd:anyURI"),
        (DataType::Base64Binary, "xsd:base64Binary"),
        (DataType::Boolean, "xsd:boolean"),
        (DataType::Date, "xsd:date"),
        (DataType::DateTime, "xsd:dateTime"),
        (DataType::Decimal, "xsd:decimal"),
        (DataType::Double, "xsd:double"),
        (DataType::Duration, "xsd:duration"),
        (DataType::Float, "xsd:float"),
        (DataType::HexBinary, "xsd:hexBinary"),
        (DataType::QName, "xsd:QName"),
        (DataType::String, "xsd:string"),
        (DataType::Time, "xsd:time"),
        (DataType::Long, "xsd:long"),
        (DataType::Int, "xsd:int"),
        (DataType::Short, "xsd:short"),
        (DataType::Byte, "xsd:byte"),
        (DataType::UnsignedLong, "xsd:unsignedLong"),
        (DataType::UnsignedInt, "xsd:unsignedInt"),
        (DataType::UnsignedShort, "xsd:unsignedShort"),
        (DataType::UnsignedByte, "xsd:unsignedByte"),
        (DataType::Language, "xsd:language"),
        (DataType::Name, "xsd:Name"),
        (DataType::XmlLiteral, "rdf:XMLLiteral"),
    ];
    for (d, name) in &types {
        run1(c, || format!("the data type {name}"), || {
            ck!(d.to_string() == *name, "{name} is shown as {:?}", d.to_string());
            Ok(())
        });
    }
    let mut others: Vec<String> = special();
    others.extend([A, B, P, Q].map(String::from));
    others.extend(["integer", "strin", "gYear", "xsd:string"].iter().map(|n| xsd(n)));
    for i in others {
        if types.iter().any(|(d, _)| format!("{:#}", d.as_iri()) == i) {
            continue;
        }
        run1(c, || format!("the data type {i}"), || {
            let d = DataType::Other(real_iri(&i));
            ck!(d.to_string().trim_start_matches('<').trim_end_matches('>') == i, "the data type {i} is shown as {:?}", d.to_string());
            Ok(())
        });
        c.add_states(1);
    }
    for l in LANGS {
        run1(c, || format!("the language {l}"), || {
            let tag = LanguageTag::parse(l).map_err(|e| e.to_string())?;
            ck!(tag.to_string() == l, "{l} is shown as {:?}", tag.to_string());
            Ok(())
        });
    }
    c.add_states(types.len() as u64);
}

// ------------------------------------------------------------------------------------------------
// Features
// ------------------------------------------------------------------------------------------------

fn named() -> Vec<(&'static str, Iri)> {
    macro_rules! all { ($($n:ident)*) => { vec![$((stringify!($n), $n.clone())),*] } }
    all!(FEATURE_COMBINED_DEFAULT FEATURE_STMT_SUBJECT_COLLECTIONS FEATURE_STMT_OBJECT_COLLECTIONS FEATURE_GRAPH_ALLOWS_NAMED
        FEATURE_GRAPH_DUPLICATES FEATURE_RDF_STAR FEATURE_N3_FORMULAE FEATURE_IDX_SUBJECT FEATURE_IDX_PREDICATE FEATURE_IDX_OBJECT
        FEATURE_IDX_SUBJECT_PREDICATE FEATURE_IDX_SUBJECT_PREDICATE_OBJECT FEATURE_IDX_SUBJECT_OBJECT FEATURE_IDX_PREDICATE_OBJECT
        FEATURE_IDX_GRAPH FEATURE_IDX_SUBJECT_GRAPH FEATURE_IDX_PREDICATE_GRAPH FEATURE_IDX_OBJECT_GRAPH FEATURE_IDX_SUBJECT_PREDICATE_GRAPH
        FEATURE_IDX_SUBJECT_PREDICATE_OBJECT_GRAPH FEATURE_IDX_SUBJECT_OBJECT_GRAPH FEATURE_IDX_PREDICATE_OBJECT_GRAPH)
}

/// What a graph can do, tried on a copy of it.
fn tried(g: &Graph) -> BTreeMap<&'static str, bool> {
    let mut m = BTreeMap::new();
    let st = |o: T| real_stmt(&(iri("urn:probe:s"), "urn:probe:p".into(), o));
    let mut d = g.clone();
    let n = d.len();
    d.insert(st(plain("probe")));
    d.insert(st(plain("probe")));
    m.insert("FEATURE_GRAPH_DUPLICATES", d.len() == n + 2);
    let q = T::Quote(Box::new(q0()));
    let mut d = g.clone();
    let t = (q.clone(), "urn:probe:p".to_string(), q.clone());
    d.insert(real_stmt(&t));
    m.insert("FEATURE_RDF_STAR", of_graph(&d).contains(&t));
    let mut d = g.clone();
    let t = (iri("urn:probe:s"), "urn:probe:p".to_string(), T::Coll(vec![iri(A), q]));
    d.insert(real_stmt(&t));
    m.insert("FEATURE_STMT_OBJECT_COLLECTIONS", of_graph(&d).contains(&t));
    let mut d = g.clone();
    d.set_name(GraphName::from(real_iri(B)));
    m.insert("FEATURE_GRAPH_ALLOWS_NAMED", d.name().map(of_name) == Some(iri(B)));
    m
}

fn claims(x: &dyn Featured, feats: &[(&'static str, Iri)], can: &BTreeMap<&str, bool>, what: &str) -> Result<(), String> {
    for (n, i) in feats {
        let want = can.get(n).copied().unwrap_or(false);
        ck!(x.supports_feature(i) == want, "{what} says {} of {n}, which is {want}", !want);
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum G {
    Insert,
    Twice,
    Remove,
    Dedup,
    Clear,
    Name,
    NoName,
    Mappings,
    With,
    MergeUnique,
    MergePlain,
    ExtendTwice,
    Clone,
    InSet,
    RemoveAll,
}

const GS: [G; 15] = [G::Insert, G::Twice, G::Remove, G::Dedup, G::Clear, G::Name, G::NoName, G::Mappings, G::With, G::MergeUnique, G::MergePlain, G::ExtendTwice, G::Clone, G::InSet, G::RemoveAll];

fn apply(mut g: Graph, o: G) -> Graph {
    let s = |n: usize| real_stmt(&[tr(iri(A), P, plain("x")), tr(quote(q0()), Q, T::Coll(vec![blank("n")]))][n]);
    match o {
        G::Insert => g.insert(s(0)),
        G::Twice => {
            g.insert(s(1));
            g.insert(s(1));
        }
        G::Remove => {
            g.remove(&s(0));
        }
        G::Dedup => {
            g.dedup();
        }
        G::Clear => g.clear(),
        G::Name => g.set_name(GraphName::from(real_blank("g"))),
        G::NoName => g.unset_name(),
        G::Mappings => g = g.with_mappings(IriPrefixMap::default()),
        G::With => g = g.with_statements(vec![s(0), s(0)]),
        G::MergeUnique => {
            let mut o = Graph::unique();
            o.insert(s(1));
            g.merge(&o)
        }
        G::MergePlain => g.merge(&Graph::from(vec![s(0), s(0)])),
        G::ExtendTwice => g.extend([s(0), s(0)]),
        G::Clone => g = g.clone(),
        G::InSet => {
            let name = g.name().cloned();
            let mut d = DataSet::default();
            d.insert(g);
            g = d.graph(&name).expect("the graph is in the set").clone();
        }
        G::RemoveAll => {
            g.remove_all_for(s(0).subject());
        }
    }
    g
}

pub fn d18(c: &Check) {
    let feats = named();
    // the features are as many as their names, and those of an index are named after its parts
    run1(c, || "the features are different".into(), || {
        for (i, (n, a)) in feats.iter().enumerate() {
            for (m, b) in &feats[..i] {
                ck!(format!("{a:#}") != format!("{b:#}"), "{n} and {m} are both {a}");
            }
            if let Some(parts) = n.strip_prefix("FEATURE_IDX_") {
                ck!(format!("{a:#}").ends_with(&format!("/index/{}", parts.to_lowercase())), "{n} is {a}");
            }
        }
        Ok(())
    });
    // IRIs that are no feature, but nearly one
    let mut near: Vec<(&'static str, Iri)> = Vec::new();
    for (_, i) in &feats {
        let s = format!("{i:#}");
        let mut v: Vec<String> = vec![format!("{s}/"), format!("{s}#"), s.replace("http:", "https:"), s.to_uppercase().replace("HTTP://RUST-RDFTK.DEV", "http://rust-rdftk.dev"), s.replace('_', "-")];
        for (n, _) in s.char_indices().skip("http://rust-rdftk.dev/".len()) {
            v.push(format!("{}{}", &s[..n], &s[n + 1..]));
            v.push(format!("{}x{}", &s[..n], &s[n..]));
        }
        for x in v {
            if let Ok(x) = Iri::from_str(&x) {
                if !feats.iter().any(|(_, f)| format!("{f:#}") == format!("{x:#}")) {
                    near.push(("no feature", x));
                }
            }
        }
    }
    c.outcome("IRIs that are no feature", near.len() as u64);
    let all: Vec<(&'static str, Iri)> = feats.iter().chain(&near).cloned().collect();

    // the graphs of every constructor, after every sequence of operations
    let makers: Vec<(&str, fn() -> Graph)> = vec![
        ("default", Graph::default),
        ("unique", Graph::unique),
        ("named", || Graph::named(real_iri(A))),
        ("unique_named", || Graph::unique_named(real_iri(A))),
        ("from a list", || Graph::from(vec![real_stmt(&q0()), real_stmt(&q0())])),
        ("from a statement", || Graph::from(real_stmt(&q0()))),
        ("collected", || [real_stmt(&q0())].into_iter().collect()),
    ];
    for (name, make) in &makers {
        run1(c, || format!("{name}: all IRIs"), || claims(&make(), &all, &tried(&make()), name));
        c.add_states(all.len() as u64);
        // the kind of a graph never changes
        let unique = tried(&make())["FEATURE_GRAPH_DUPLICATES"];
        let n = words(GS.len(), c.bound(4, 5), |w: &[usize]| {
            run1(c, || format!("{name}: {:?}", w.iter().map(|i| GS[*i]).collect::<Vec<_>>()), || {
                let g = w.iter().fold(make(), |g, i| apply(g, GS[*i]));
                let can = tried(&g);
                ck!(can["FEATURE_GRAPH_DUPLICATES"] == unique, "the graph is of another kind than it was");
                ck!(unique == !name.starts_with("unique"), "{name} makes a graph of the wrong kind");
                claims(&g, &feats, &can, name)
            });
            c.add_transitions(w.len() as u64);
        });
        c.add_states(n);
        c.add_traces(n);
        c.outcome("histories of a graph", n);
    }

    // statements, their terms, and data sets
    let terms = nested_terms(&[iri(A), blank("n"), plain("x"), lang("x", "en"), typed("1", &xsd("int"))], 1);
    let obj: BTreeMap<&str, bool> = [("FEATURE_RDF_STAR", true), ("FEATURE_STMT_OBJECT_COLLECTIONS", true)].into();
    let subj: BTreeMap<&str, bool> = [("FEATURE_RDF_STAR", true)].into();
    par_each(&terms, |t| {
        run1(c, || format!("{t:?}"), || {
            let o: ObjectNode = real_object(t);
            claims(&o, &all, &obj, "an object")?;
            if is_subject(t) {
                let s: SubjectNode = real_subject(t);
                claims(&s, &all, &subj, "a subject")?;
                let st: Statement = real_stmt(&(t.clone(), P.into(), t.clone()));
                claims(&st, &all, &obj, "a statement")?;
            }
            let st = real_stmt(&(iri(A), P.into(), t.clone()));
            claims(&st, &all, &obj, "a statement")
        });
        c.add_states(1);
    });
    run1(c, || "data sets".into(), || {
        let mut d = DataSet::default();
        claims(&d, &all, &BTreeMap::new(), "an empty data set")?;
        for (n, m) in &makers {
            d.insert(m());
            claims(&d, &all, &BTreeMap::new(), n)?;
        }
        // the default graph is a graph of its own
        let mut d = DataSet::default();
        d.insert(apply(Graph::named(real_iri(A)), G::Insert));
        ck!(d.default_graph().is_none(), "a set without a default graph has one");
        d.insert(Graph::default());
        ck!(d.default_graph().is_some_and(|g| g.is_empty()), "the default graph is not the one stored");
        Ok(())
    });
}

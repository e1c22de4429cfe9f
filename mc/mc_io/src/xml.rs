//! E10 what the RDF/XML writer emits, E11 what the RDF/XML reader accepts and returns.

use crate::ck;
use crate::nt::{dressed, each_graph, out_of, run1};
use crate::refs::*;
use crate::universe::*;
use crate::xmlref::*;
use mclib::*;
use mcrdf::*;
use objio::ObjectReader;
use rdftk_core::model::graph::Graph;
use rdftk_io::xml::{XmlOptions, XmlReader, XmlWriter};
use serde_json::json;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy, Debug)]
struct Style {
    striped: bool,
    pretty: bool,
    encoding: &'static str,
}
const STYLES: [Style; 4] = [
    Style { striped: false, pretty: false, encoding: "utf-8" },
    Style { striped: false, pretty: true, encoding: "utf-8" },
    Style { striped: true, pretty: false, encoding: "UTF-8" },
    Style { striped: true, pretty: true, encoding: "utf-8" },
];

impl Style {
    fn writer(&self) -> XmlWriter {
        let o = XmlOptions::default().with_encoding(self.encoding);
        let o = if self.striped { o.striped() } else { o.flat() };
        XmlWriter::default().with_options(if self.pretty { o.pretty() } else { o.plain() })
    }
}

/// A suffix of it is an XML name, and what is left is not empty.
fn has_name(p: &str) -> bool {
    let ascii = |s: &str| s.is_ascii() && ncname(s);
    p.char_indices().skip(1).any(|(i, _)| ascii(&p[i..]))
}
/// has to be written: the predicates have names, the literals have only characters that XML allows
pub fn writable(ts: &[Triple]) -> bool {
    fn t(x: &T) -> bool {
        match x {
            T::Lit { lex, .. } => !lex.contains(['\0', '\u{fffe}', '\u{ffff}']),
            T::Coll(v) => v.iter().all(t),
            T::Quote(q) => writable(&[(**q).clone()]),
            _ => true,
        }
    }
    const SYNTAX: [&str; 12] = ["RDF", "ID", "about", "parseType", "resource", "nodeID", "datatype", "li", "Description", "aboutEach", "aboutEachPrefix", "bagID"];
    ts.iter().all(|(s, p, o)| t(s) && t(o) && has_name(p) && !p.strip_prefix(RDF).is_some_and(|n| SYNTAX.contains(&n)) && !p.starts_with("http://www.w3.org/2000/xmlns/"))
}

/// The node elements at the top, and what is below
fn shape(x: &El, st: Style, text: &str) -> Result<(), String> {
    fn below(e: &El, level: usize, f: &mut dyn FnMut(&El, usize)) {
        for k in &e.kids {
            if let Node::El(k) = k {
                f(k, level);
                below(k, level + 1, f);
            }
        }
    }
    let mut deepest = 0;
    below(x, 1, &mut |_, l| deepest = deepest.max(l));
    if !st.striped {
        ck!(deepest <= 2, "node elements are nested\n{text}");
    }
    let mut loose = false;
    below(x, 1, &mut |e, l| {
        // only the property elements hold text
        loose |= l % 2 == 1 && e.kids.iter().any(|k| matches!(k, Node::Text(_)))
    });
    ck!(st.pretty || !loose, "white space between elements\n{text}");
    Ok(())
}

fn tree_of_blanks(ts: &[Triple]) -> bool {
    // each blank node is the object of one statement, and no blank node is above itself
    let parent = |b: &str| ts.iter().filter(|t| matches!(&t.2, T::Blank(x) if x == b)).map(|t| t.0.clone()).collect::<Vec<_>>();
    ts.iter().all(|t| match &t.0 {
        T::Blank(b) => {
            let mut at = b.clone();
            for _ in 0..=ts.len() {
                match parent(&at).as_slice() {
                    [T::Blank(p)] => at = p.clone(),
                    [_] => return true,
                    _ => return false,
                }
            }
            false
        }
        _ => true,
    })
}

pub fn e10(c: &Check) {
    let one = |class: &str, ts: &[Triple]| {
        for st in STYLES {
            run1(c, || format!("{class} {st:?}: {}", show(ts)), || {
                let g = dressed(class, ts);
                let text = match (out_of(&st.writer(), &g), writable(ts)) {
                    (Ok(t), _) => t,
                    (Err(_), false) => {
                        // an error has to come from what cannot be written
                        return Ok(());
                    }
                    (Err(e), true) => return Err(e),
                };
                let x = parse_xml(&text).map_err(|e| format!("not XML: {e}\n{text}"))?;
                ck!(x.encoding.as_deref() == Some(st.encoding), "encoding {:?}", x.encoding);
                let got = parse_rdf(&text).map_err(|e| format!("not RDF/XML: {e}\n{text}"))?;
                let (got, want): (Vec<_>, Vec<_>) = (got.iter().map(norm3).collect(), meaning_all(&g));
                ck!(isomorphic(&dedup(got), &want), "the document states something else\n{text}");
                shape(&x.root, st, &text)?;
                if st.striped && tree_of_blanks(&want) {
                    let tops = x.root.kids.iter().filter_map(|k| if let Node::El(e) = k { Some(e) } else { None });
                    for t in tops {
                        ck!(t.attrs.iter().any(|a| a.1 == "about"), "a blank node at the top\n{text}");
                    }
                }
                let back = XmlReader::default().read(&mut text.as_bytes()).map_err(|e| format!("cannot be read: {e}\n{text}"))?;
                ck!(isomorphic(&dedup(of_graph(&back).iter().map(norm3).collect()), &want), "is read as something else\n{text}");
                Ok(())
            });
            c.add_transitions(1);
            c.add_traces(1);
        }
    };
    each_graph(c, &one);
    // predicates
    let mut names: Vec<String> = iris();
    names.extend(["li", "RDF", "ID", "about", "parseType", "resource", "nodeID", "datatype", "Description", "aboutEach", "aboutEachPrefix", "bagID", "type", "value", "_1", "first", "Bag"].iter().map(|n| rdf(n)));
    for v in ["http://purl.org/dc/elements/1.1/", "http://xmlns.com/foaf/0.1/", "http://www.w3.org/2003/01/geo/wgs84_pos#", "http://www.w3.org/2002/07/owl#", "http://www.w3.org/2000/01/rdf-schema#", XSD, "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/XML/1998/", "http://www.w3.org/2000/xmlns/", "http://www.w3.org/2000/xmlns/#"] {
        for n in ["a", "title", "xmlns", "xml", "xmlA", "rdf", "lang", "", "1", "a1", "a.b", "dc"] {
            names.push(format!("{v}{n}"));
        }
    }
    let names: Vec<String> = names.iter().filter_map(|s| s.parse::<rdftk_iri::Iri>().ok()).map(|i| format!("{i:#}")).collect::<BTreeSet<_>>().into_iter().collect();
    let pairs: Vec<(usize, usize)> = (0..names.len()).flat_map(|i| (i..names.len()).map(move |j| (i, j))).filter(|(i, j)| c.thorough() || i == j).collect();
    par_each(&pairs, |(i, j)| one("predicates", &[(iri(&ex("a")), names[*i].clone(), blank("x")), (blank("x"), names[*j].clone(), plain("t")), (blank("x"), names[*j].clone(), blank("y"))]));
    c.add_states(pairs.len() as u64);
    c.outcome("predicates", pairs.len() as u64);
    // every character by itself
    let chars: Vec<char> = ('\0'..='\u{3000}').chain(['\u{d7ff}', '\u{e000}', '\u{fdd0}', '\u{fefe}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{1fffe}', '\u{10ffff}']).collect();
    par_each(&chars, |ch| {
        one("characters", &[(iri(&ex("a")), ns("p"), plain(&ch.to_string())), (iri(&ex("a")), ns("q"), plain(&format!("a{ch}b"))), (iri(&ex("a")), ns("q"), lang(&format!("{ch}{ch}"), "en"))])
    });
    c.add_states(chars.len() as u64);
    c.outcome("characters", chars.len() as u64);
    let special: Vec<char> = "\r\n\t\u{85}\u{2028} a]>&<".chars().collect();
    let mut texts = vec![String::new()];
    let mut layer = vec![String::new()];
    for _ in 0..c.bound(3, 5) {
        layer = layer.iter().flat_map(|s| special.iter().map(move |d| format!("{s}{d}"))).collect();
        texts.extend(layer.iter().cloned());
    }
    par_each(&texts, |t| one("line ends", &[(iri(&ex("a")), ns("p"), plain(t)), (iri(&ex("a")), ns("q"), typed(t, &rdf("XMLLiteral")))]));
    c.add_states(texts.len() as u64);
    c.outcome("line ends", texts.len() as u64);
    // nesting of blank nodes
    let nodes = [iri(&ex("a")), blank("x"), blank("y"), blank("z")];
    if !c.thorough() {
        let rels: Vec<u32> = (0..65536).collect();
        par_each(&rels, |b| {
            // one edge at most into each node
            let g = relation(&nodes, *b);
            if (0..4).all(|j| g.iter().filter(|t| t.2 == nodes[j]).count() <= 1) {
                one("trees", &g);
                c.add_states(1);
            }
        });
    }
    suite(c);
}

fn dedup(ts: Vec<Triple>) -> Vec<Triple> {
    ts.into_iter().collect::<BTreeSet<_>>().into_iter().collect()
}

/// What a graph states, with the types of the cells of collections as they are in the graph written.
fn meaning_all(g: &Graph) -> Vec<Triple> {
    let flat = g.statements().any(|s| s.subject().is_statement() || s.object().is_collection() || s.object().is_statement());
    let ts = if flat { flatten(&of_graph(g)) } else { of_graph(g) };
    dedup(ts.iter().map(norm3).collect())
}

fn files(dir: &Path, ext: &str, out: &mut Vec<PathBuf>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for f in d.flatten() {
        let p = f.path();
        if p.is_dir() {
            files(&p, ext, out);
        } else if p.extension().is_some_and(|e| e == ext) {
            out.push(p);
        }
    }
    out.sort();
}

/// The reference processor against the W3C test suite.
fn suite(c: &Check) {
    let root = Path::new("/repo/rdftk_io/tests/w3c/xml");
    let mut fs = vec![];
    files(root, "rdf", &mut fs);
    let mut ok = 0;
    let loud = std::env::var_os("MC_LOUD").is_some();
    for f in &fs {
        let Ok(text) = std::fs::read_to_string(f) else { continue };
        let name = f.strip_prefix(root).unwrap().display().to_string();
        let got = catch(|| parse_rdf_at(&text, &format!("http://www.w3.org/2013/RDFXMLTests/{name}"))).unwrap_or_else(Err);
        let bad = name.contains("error");
        let good = match (&got, bad) {
            (Err(_), true) => true,
            (Ok(_), true) | (Err(_), false) => false,
            (Ok(ts), false) => match std::fs::read_to_string(f.with_extension("nt")) {
                Ok(nt) => parse_nq(&nt, false, Layout::Strict).is_ok_and(|q| isomorphic(&dedup(triples(&q).iter().map(norm3).collect()), &dedup(flat(ts).iter().map(norm3).collect()))),
                Err(_) => true,
            },
        };
        ok += good as usize;
        if !good && loud {
            eprintln!("reference differs: {name}: {:?}", got.as_ref().err());
        }
    }
    c.extra("reference_agrees_with_w3c_suite", json!([ok, fs.len()]));
}
fn flat(ts: &[Triple]) -> Vec<Triple> {
    let mut out = vec![];
    let mut n = 0;
    fn walk(t: &T, out: &mut Vec<Triple>, n: &mut usize) -> T {
        if let T::Coll(v) = t {
            let mut rest = T::Iri(rdf("nil"));
            for x in v.iter().rev() {
                let x = walk(x, out, n);
                *n += 1;
                let cell = T::Blank(format!("cell {n}"));
                out.push((cell.clone(), rdf("first"), x));
                out.push((cell.clone(), rdf("rest"), rest));
                rest = cell;
            }
            rest
        } else {
            t.clone()
        }
    }
    for (s, p, o) in ts {
        let o = walk(o, &mut out, &mut n);
        out.push((s.clone(), p.clone(), o));
    }
    out
}

// ------------------------------------------------------------------------------------------------
// E11
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct NodeEl {
    typed: Option<&'static str>,
    attrs: Vec<(&'static str, &'static str)>,
    props: Vec<PropEl>,
}
#[derive(Clone, Debug)]
struct PropEl {
    name: &'static str,
    attrs: Vec<(&'static str, &'static str)>,
    body: Body,
}
#[derive(Clone, Debug)]
enum Body {
    Empty,
    Text(&'static str),
    Node(Box<NodeEl>),
    Nodes(Vec<NodeEl>),
    Props(Vec<PropEl>),
}

/// How a document is laid out.
#[derive(Clone, Copy, Debug)]
struct Look {
    indent: bool,
    comments: bool,
    single: bool,
    cdata: bool,
    refs: bool,
    local: bool,
    pairs: bool,
    swap: bool,
}
const LOOKS: [Look; 5] = [
    Look { indent: false, comments: false, single: false, cdata: false, refs: false, local: false, pairs: false, swap: false },
    Look { indent: true, comments: true, single: true, cdata: false, refs: false, local: false, pairs: true, swap: true },
    Look { indent: true, comments: false, single: false, cdata: true, refs: false, local: true, pairs: false, swap: false },
    Look { indent: false, comments: true, single: false, cdata: false, refs: true, local: false, pairs: true, swap: false },
    Look { indent: true, comments: false, single: true, cdata: false, refs: true, local: true, pairs: true, swap: true },
];

struct Pr<'a> {
    s: String,
    l: &'a Look,
}
impl Pr<'_> {
    fn gap(&mut self, d: usize) {
        if self.l.indent {
            self.s.push('\n');
            self.s.push_str(&" ".repeat(d));
        }
        if self.l.comments {
            self.s.push_str("<!-- c <x> & -->");
            if self.l.swap {
                self.s.push_str("<?pi d?>");
            }
        }
    }
    fn text(&mut self, t: &str) {
        if self.l.cdata && !t.contains("]]>") && !t.contains('\r') && !t.is_empty() {
            self.s.push_str(&format!("<![CDATA[{t}]]>"));
            return;
        }
        for ch in t.chars() {
            match ch {
                '<' => self.s.push_str("&lt;"),
                '&' => self.s.push_str(if self.l.refs { "&#38;" } else { "&amp;" }),
                '>' => self.s.push_str("&gt;"),
                '\r' => self.s.push_str("&#13;"),
                c if self.l.refs && !c.is_ascii_alphanumeric() => self.s.push_str(&format!("&#x{:x};", c as u32)),
                c => self.s.push(c),
            }
        }
    }
    fn open(&mut self, name: &str, attrs: &[(&str, &str)]) {
        self.s.push('<');
        let (p, l) = name.split_once(':').unwrap();
        let plain = self.l.local && p == "ex";
        if plain {
            self.s.push_str(&format!("{l} xmlns='http://example.org/'"));
        } else {
            self.s.push_str(name);
        }
        let mut a: Vec<_> = attrs.to_vec();
        if self.l.swap {
            a.reverse();
        }
        let q = if self.l.single { '\'' } else { '"' };
        for (k, v) in a {
            let v = v.replace('&', "&amp;").replace('<', "&lt;").replace(q, if self.l.single { "&apos;" } else { "&quot;" });
            self.s.push_str(&format!(" {k}{}={0}{q}{v}{q}", if self.l.swap { " " } else { "" }));
        }
    }
    fn close(&mut self, name: &str) {
        let (p, l) = name.split_once(':').unwrap();
        let n = if self.l.local && p == "ex" { l } else { name };
        self.s.push_str(&format!("</{n}{}>", if self.l.swap { " " } else { "" }));
    }
    fn node(&mut self, n: &NodeEl, d: usize) {
        let name = n.typed.unwrap_or("rdf:Description");
        self.open(name, &n.attrs);
        if n.props.is_empty() && !self.l.pairs {
            self.s.push_str("/>");
            return;
        }
        self.s.push('>');
        self.props(&n.props, d + 1);
        self.gap(d);
        self.close(name);
    }
    fn props(&mut self, ps: &[PropEl], d: usize) {
        for p in ps {
            self.gap(d);
            self.open(p.name, &p.attrs);
            match &p.body {
                Body::Empty if !self.l.pairs => {
                    self.s.push_str("/>");
                    continue;
                }
                Body::Empty => self.s.push('>'),
                Body::Text(t) => {
                    self.s.push('>');
                    if p.attrs.iter().any(|a| a.0 == "rdf:parseType") {
                        self.s.push_str(t);
                    } else {
                        self.text(t);
                    }
                }
                Body::Node(n) => {
                    self.s.push('>');
                    self.gap(d + 1);
                    self.node(n, d + 1);
                    self.gap(d);
                }
                Body::Nodes(ns) => {
                    self.s.push('>');
                    for n in ns {
                        self.gap(d + 1);
                        self.node(n, d + 1);
                    }
                    self.gap(d);
                }
                Body::Props(ps) => {
                    self.s.push('>');
                    self.props(ps, d + 1);
                    self.gap(d);
                }
            }
            self.close(p.name);
        }
    }
}

fn document(nodes: &[NodeEl], l: &Look) -> String {
    let mut p = Pr { s: String::new(), l };
    if l.indent {
        p.s.push_str("<?xml version=\"1.0\" encoding='utf-8'?>\n");
    }
    p.s.push_str(&format!("<rdf:RDF xmlns:rdf=\"{RDF}\" xmlns:ex='http://example.org/' xmlns:n=\"http://example.org/ns#\">"));
    for n in nodes {
        p.gap(1);
        p.node(n, 1);
    }
    p.gap(0);
    p.s.push_str("</rdf:RDF>");
    if l.indent {
        p.s.push('\n');
    }
    p.s
}

fn pe(name: &'static str, attrs: &[(&'static str, &'static str)], body: Body) -> PropEl {
    PropEl { name, attrs: attrs.to_vec(), body }
}

/// Property elements without node elements in them.
fn leaves() -> Vec<PropEl> {
    let mut v = vec![];
    for t in ["t", "", " ", " a\nb ", "<&>\"']]>", "é😀\u{85}", "\t1", "a\rb"] {
        v.push(pe("ex:p", &[], if t.is_empty() { Body::Empty } else { Body::Text(t) }));
    }
    v.extend([
        pe("n:q", &[], Body::Text("t")),
        pe("ex:p", &[("rdf:datatype", "http://www.w3.org/2001/XMLSchema#integer")], Body::Text("5")),
        pe("ex:p", &[("rdf:datatype", "http://www.w3.org/2001/XMLSchema#string")], Body::Text("t")),
        pe("ex:p", &[("rdf:datatype", "http://example.org/dt")], Body::Empty),
        pe("ex:p", &[("rdf:datatype", "http://example.org/dt?a&b")], Body::Text(" ")),
        pe("ex:p", &[("xml:lang", "en")], Body::Text("t")),
        pe("ex:p", &[("xml:lang", "en-GB")], Body::Text("t")),
        pe("n:q", &[("xml:lang", "fr")], Body::Empty),
        pe("ex:p", &[("xml:lang", "en"), ("rdf:datatype", "http://example.org/dt")], Body::Text("t")),
        pe("ex:p", &[("rdf:resource", "http://example.org/a")], Body::Empty),
        pe("n:q", &[("rdf:resource", "http://example.org/?x=1&y=2")], Body::Empty),
        pe("rdf:type", &[("rdf:resource", "http://example.org/C")], Body::Empty),
        pe("rdf:_1", &[("rdf:resource", "urn:x:y")], Body::Empty),
        pe("rdf:value", &[], Body::Text("v")),
        pe("ex:p", &[("rdf:nodeID", "x")], Body::Empty),
        pe("ex:p", &[("rdf:nodeID", "y")], Body::Empty),
        pe("ex:p", &[("ex:r", "v")], Body::Empty),
        pe("ex:p", &[("ex:r", "v"), ("n:s", "<&'\"w>"), ("rdf:type", "http://example.org/C")], Body::Empty),
        pe("ex:p", &[("rdf:resource", "http://example.org/b"), ("ex:r", "v")], Body::Empty),
        pe("ex:p", &[("rdf:nodeID", "x"), ("rdf:type", "http://example.org/C"), ("ex:r", "")], Body::Empty),
        pe("ex:p", &[("rdf:parseType", "Resource")], Body::Empty),
        pe("ex:p", &[("rdf:parseType", "Collection")], Body::Empty),
        pe("ex:p", &[("rdf:parseType", "Literal")], Body::Text("plain text")),
        pe("rdf:li", &[], Body::Text("t")),
        pe("rdf:li", &[("rdf:resource", "http://example.org/a")], Body::Empty),
        pe("ex:p", &[("xml:lang", "fr"), ("ex:r", "v")], Body::Empty),
    ]);
    v
}

/// Node elements without properties in them.
fn stems() -> Vec<NodeEl> {
    let mut v = vec![];
    for typed in [None, Some("ex:C"), Some("n:D"), Some("rdf:Bag")] {
        for who in [vec![], vec![("rdf:about", "http://example.org/a")], vec![("rdf:about", "http://example.org/?x=1&y=(2)")], vec![("rdf:nodeID", "x")], vec![("rdf:nodeID", "y.1")], vec![("rdf:ID", "i"), ("xml:base", "http://example.org/doc")]] {
            for extra in [vec![], vec![("ex:r", "v")], vec![("rdf:type", "http://example.org/C"), ("n:s", "w & <x>")], vec![("rdf:value", "")]] {
                let mut attrs: Vec<_> = who.clone();
                attrs.extend(extra);
                v.push(NodeEl { typed, attrs, props: vec![] });
            }
        }
    }
    v
}

fn read(text: &str) -> Result<Vec<Triple>, String> {
    let g = XmlReader::default().read(&mut text.as_bytes()).map_err(|e| e.to_string())?;
    Ok(dedup(flat(&of_graph(&g)).iter().map(norm3).collect()))
}

pub fn e11(c: &Check) {
    let check = |class: &str, nodes: &[NodeEl], looks: &[Look]| {
        for l in looks {
            let text = document(nodes, l);
            run1(c, || format!("{class}: {text}"), || {
                let want = parse_rdf(&text).map_err(|e| format!("the reference does not accept the document: {e}"))?;
                let want = dedup(flat(&want).iter().map(norm3).collect());
                let got = read(&text).map_err(|e| format!("rejected: {e}"))?;
                ck!(isomorphic(&got, &want), "expected {}\n  returned {}", show(&want), show(&got));
                Ok(())
            });
            c.add_transitions(1);
            c.add_traces(1);
        }
    };
    let run = |class: &str, docs: Vec<Vec<NodeEl>>, looks: &[Look]| {
        par_each(&docs, |d| check(class, d, looks));
        c.add_states(docs.len() as u64);
        c.outcome(class, docs.len() as u64);
    };
    let (p0, n0) = (leaves(), stems());
    let with = |n: &NodeEl, ps: &[PropEl]| NodeEl { props: ps.to_vec(), ..n.clone() };
    // one node element with up to two (three) properties
    let mut docs = vec![vec![]];
    for n in &n0 {
        for s in subsets(p0.len(), 2) {
            let ps: Vec<_> = s.iter().map(|i| p0[*i].clone()).collect();
            docs.push(vec![with(n, &ps)]);
            if ps.len() == 1 {
                docs.push(vec![with(n, &[ps[0].clone(), ps[0].clone()])]);
            }
        }
    }
    run("one node", docs, &LOOKS);
    // what is none of the three kinds of content is as it stands
    let mut docs = vec![];
    for v in ["resource", "literal", "collection", "RESOURCE", "LITERAL", "Collections", "Res", " Literal", "Resource ", "", "x:y", "daml:collection", "Statement"] {
        for b in [Body::Empty, Body::Text("plain text"), Body::Text(" a\n"), Body::Text("5")] {
            docs.extend(n0.iter().map(|n| vec![with(n, &[pe("ex:p", &[("rdf:parseType", v)], b.clone()), p0[0].clone()])]));
        }
    }
    run("other parse types", docs, &LOOKS);
    if c.thorough() {
        let few = [0, 4, 8, 12, 16, 20].map(|i| n0[i].clone());
        run("three properties", few.iter().flat_map(|n| subsets(p0.len(), 3).into_iter().filter(|s| s.len() == 3).map(|s| vec![with(n, &s.iter().map(|i| p0[*i].clone()).collect::<Vec<_>>())])).collect(), &LOOKS[..3]);
    }
    // nodes below nodes
    let small: Vec<PropEl> = [0usize, 1, 9, 13, 17, 22, 24, 28].iter().map(|i| p0[*i].clone()).collect();
    let mut inner: Vec<NodeEl> = vec![];
    for n in n0.iter().step_by(1) {
        inner.push(n.clone());
        inner.extend(small.iter().map(|p| with(n, &[p.clone()])));
    }
    let wraps = |n: &NodeEl, p: &PropEl| -> Vec<PropEl> {
        vec![
            pe("ex:p", &[], Body::Node(Box::new(n.clone()))),
            pe("ex:p", &[("rdf:parseType", "Collection")], Body::Nodes(vec![n.clone()])),
            pe("n:q", &[("rdf:parseType", "Collection")], Body::Nodes(vec![n.clone(), with(n, &[p.clone()]), n0[0].clone()])),
            pe("ex:p", &[("rdf:parseType", "Resource")], Body::Props(vec![p.clone(), pe("n:q", &[], Body::Node(Box::new(n.clone())))])),
        ]
    };
    let hosts = [n0[0].clone(), n0[4].clone(), n0[25].clone(), n0[36].clone()];
    let no_id = |n: &NodeEl| !n.attrs.iter().any(|a| a.0 == "rdf:ID");
    let mut docs = vec![];
    for n in &inner {
        for p in &small {
            for w in wraps(n, p) {
                if !no_id(n) && matches!(&w.body, Body::Nodes(v) if v.len() > 1) {
                    continue;
                }
                for h in &hosts {
                    docs.push(vec![with(h, &[w.clone()])]);
                }
                docs.push(vec![with(&hosts[1], &[p.clone(), w.clone(), p.clone()])]);
            }
        }
    }
    run("nested", docs, &LOOKS[..c.bound(2, 5)]);
    // three levels
    let mut docs = vec![];
    let few: Vec<NodeEl> = inner.iter().filter(|n| no_id(n) && n.typed.is_none() && n.attrs.len() <= 1).cloned().collect();
    for n in &few {
        for p in &small[..c.bound(3, 8)] {
            for w in wraps(n, p) {
                for w2 in wraps(&with(&n0[4], &[w.clone()]), p) {
                    docs.push(vec![with(&hosts[0], &[w2.clone()])]);
                    if c.thorough() {
                        for w3 in wraps(&with(&n0[0], &[w2.clone()]), p) {
                            docs.push(vec![with(&hosts[2], &[w3, w2.clone()])]);
                        }
                    }
                }
            }
        }
    }
    run("deep", docs, &LOOKS[1..3]);
    // several node elements
    let tops: Vec<NodeEl> = inner.iter().filter(|n| n.attrs.iter().all(|a| a.1 != "w & <x>") && n.typed != Some("n:D")).cloned().collect();
    let mut docs = vec![];
    for a in &tops {
        for b in &tops {
            if no_id(a) || no_id(b) {
                docs.push(vec![a.clone(), b.clone()]);
            }
        }
    }
    run("two nodes", docs, &LOOKS[..c.bound(2, 5)]);
    // xml:base: declared on the root, and again below
    let mut docs: Vec<(String, Result<Vec<Triple>, String>)> = vec![];
    let bases = ["http://example.org/doc", "http://example.org/doc#frag", "http://example.org/d/", "urn:x:y"];
    for (root, node) in bases.iter().map(Some).chain([None]).flat_map(|r| bases.iter().map(Some).chain([None]).map(move |n| (r, n))) {
        let at = |b: Option<&&str>| b.map(|b| format!(" xml:base=\"{b}\"")).unwrap_or_default();
        for form in 0..4 {
            let inner = format!("<rdf:Description rdf:ID=\"i\"{}/>", at(if form == 0 { node } else { None }));
            let body = match form {
                0 => inner,
                1 => format!("<ex:C{}><ex:p>{inner}</ex:p></ex:C>", at(node)),
                2 => format!("<ex:C><ex:p{}>{inner}</ex:p></ex:C>", at(node)),
                _ => format!("<ex:C><ex:p rdf:parseType=\"Collection\"{}>{inner}</ex:p></ex:C>", at(node)),
            };
            let body = body.replace("/>", "><ex:r>t</ex:r></rdf:Description>");
            let text = format!("<rdf:RDF xmlns:rdf=\"{RDF}\" xmlns:ex=\"http://example.org/\"{}>{body}</rdf:RDF>", at(root));
            docs.push((text.clone(), parse_rdf(&text)));
        }
    }
    for (text, want) in &docs {
        run1(c, || text.clone(), || {
            match (read(text), want) {
                (Ok(got), Ok(want)) => {
                    let want = dedup(flat(want).iter().map(norm3).collect());
                    ck!(isomorphic(&got, &want), "expected {}\n  returned {}", show(&want), show(&got));
                }
                (Err(_), Err(_)) => {}
                (Ok(_), Err(e)) => return Err(format!("accepted: {e}")),
                (Err(e), Ok(_)) => return Err(format!("rejected: {e}")),
            }
            Ok(())
        });
        c.add_transitions(1);
    }
    c.outcome("bases", docs.len() as u64);
    scopes(c);
    grammar(c);
    malformed(c, &n0, &p0);
}

/// Documents in which the language, the base, the numbering of members and the identifiers of
/// statements depend on where an element is.
fn scopes(c: &Check) {
    let langs = ["", " xml:lang=\"en\"", " xml:lang=\"\"", " xml:lang='fr-CH'"];
    let mut docs: Vec<(&str, String)> = vec![];
    let root = |attrs: &str, body: &str| format!("<rdf:RDF xmlns:rdf=\"{RDF}\" xmlns:ex=\"http://example.org/\"{attrs}>{body}</rdf:RDF>");
    let alone = |n: &str| n.replacen(' ', &format!(" xmlns:rdf=\"{RDF}\" xmlns:ex=\"http://example.org/\" "), 1);
    // every language at every level
    for a in langs {
        for b in langs {
            for x in langs {
                let after = format!("<ex:D ex:r=\"after\"><ex:p>after</ex:p></ex:D>");
                for d in langs {
                    for deep in [
                        format!("<ex:p{x}><ex:C{d} ex:r=\"v\"><ex:p>t</ex:p></ex:C></ex:p>"),
                        format!("<ex:p{x} rdf:parseType=\"Resource\"><ex:p{d}>t</ex:p><ex:q>u</ex:q></ex:p>"),
                        format!("<ex:p{x} rdf:parseType=\"Collection\"><ex:C{d} ex:r=\"v\"/><ex:C ex:r=\"v\"/></ex:p>"),
                        format!("<ex:p{x} ex:r=\"v\"/><ex:q{d}>t</ex:q>"),
                        format!("<ex:p{x} rdf:datatype=\"http://example.org/dt\">t</ex:p><ex:q{d}><![CDATA[t]]></ex:q>"),
                        format!("<ex:p{x} rdf:parseType=\"Literal\">t</ex:p><ex:q{d}/>"),
                    ] {
                        let n = format!("<ex:C{b} ex:s=\"w\">{deep}<ex:q>u</ex:q></ex:C>");
                        docs.push(("languages", root(a, &format!("{n}{after}"))));
                        if a.is_empty() {
                            docs.push(("root nodes", alone(&n.replacen("<ex:C", "<ex:C ", 1))));
                        }
                    }
                }
            }
        }
    }
    // every relative reference at every place below every base
    let refs = ["", "a", "a/b", "./a", "../a", "../../../a", "/a", "/", ".", "..", "?q", "a?q#f", "#f", "#", "//example.com/a", "a%20b", "a:b/c", "urn:x:y", "http://example.org/z", "./a:b", ";a", "a/./b/../c", "x-y"];
    let bases = ["http://example.org/d/e", "http://example.org/d/", "http://example.org", "http://example.org/d/e?q#f", "http://example.com:8080/a/b/c", "sch://h/a/b", "sch:/a/b"];
    for b in bases {
        let b1 = format!(" xml:base=\"{b}\"");
        for r in refs {
            for place in ["<ex:C rdf:about=\"@\"#/>", "<ex:C><ex:p rdf:resource=\"@\"#/></ex:C>", "<ex:C><ex:p rdf:datatype=\"@\"#>t</ex:p></ex:C>", "<ex:C rdf:type=\"@\"#/>", "<ex:C><ex:p rdf:type=\"@\"#/></ex:C>", "<ex:C><ex:p rdf:resource=\"@\"# rdf:type=\"@\"/></ex:C>"] {
                docs.push(("references", root(&b1, &place.replace('@', r).replace('#', ""))));
                docs.push(("references", root("", &place.replacen('#', &b1, 1).replace('@', r))));
                docs.push(("references", root(" xml:base=\"http://example.net/\"", &place.replacen('#', &b1, 1).replace('@', r))));
            }
            // a base that is relative (what is below one without a hierarchy is not told)
            if r.contains(':') && !r.contains('/') || r.starts_with("a:") {
                continue;
            }
            docs.push(("relative bases", root(&b1, &format!("<ex:C xml:base=\"{r}\" rdf:about=\"x\"><ex:p rdf:resource=\"\"/><ex:p rdf:ID=\"i\">t</ex:p></ex:C><ex:C rdf:about=\"y\"/>"))));
        }
    }
    // members: every sequence of up to five elements, with others between them and in them
    let items = ["<rdf:li>t</rdf:li>", "<rdf:li rdf:resource=\"http://example.org/a\"/>", "<rdf:_1>t</rdf:_1>", "<rdf:_3>u</rdf:_3>", "<ex:p>t</ex:p>", "<rdf:li><rdf:Seq><rdf:li>i</rdf:li><rdf:li>j</rdf:li></rdf:Seq></rdf:li>", "<rdf:li rdf:parseType=\"Resource\"><rdf:li>k</rdf:li></rdf:li>", "<rdf:li ex:r=\"v\"/>", "<rdf:li rdf:nodeID=\"x\"/>", "<rdf:li rdf:parseType=\"Collection\"><rdf:Bag><rdf:li>l</rdf:li></rdf:Bag></rdf:li>"];
    let mut seqs: Vec<String> = vec![String::new()];
    let mut layer = seqs.clone();
    for _ in 0..c.bound(3, 4) {
        layer = layer.iter().flat_map(|s| items.iter().map(move |i| format!("{s}{i}"))).collect();
        seqs.extend(layer.iter().cloned());
    }
    seqs.push(items[0].repeat(120));
    for s in &seqs {
        docs.push(("members", root("", &format!("<rdf:Bag>{s}</rdf:Bag><rdf:Seq><rdf:li>again</rdf:li></rdf:Seq>"))));
    }
    // identified statements: every kind of property element
    for (i, k) in ["<ex:p@>t</ex:p>", "<ex:p@/>", "<ex:p@ xml:lang=\"en\">t</ex:p>", "<ex:p@ rdf:datatype=\"http://example.org/dt\">t</ex:p>", "<ex:p@ rdf:resource=\"r\"/>", "<ex:p@ rdf:nodeID=\"x\"/>", "<ex:p@ ex:r=\"v\"/>", "<ex:p@ rdf:resource=\"r\" ex:r=\"v\"/>", "<ex:p@><ex:C ex:r=\"v\"/></ex:p>", "<ex:p@ rdf:parseType=\"Resource\"/>", "<ex:p@ rdf:parseType=\"Resource\"><ex:p rdf:ID=\"j\">t</ex:p></ex:p>", "<ex:p@ rdf:parseType=\"Collection\"/>", "<ex:p@ rdf:parseType=\"Collection\"><ex:C/><ex:C rdf:about=\"a\"/></ex:p>", "<ex:p@ rdf:parseType=\"Literal\">t</ex:p>", "<rdf:li@>t</rdf:li>", "<rdf:type@ rdf:resource=\"C\"/>"].iter().enumerate() {
        for who in ["", " rdf:about=\"s\"", " rdf:nodeID=\"x\"", " rdf:ID=\"s\"", " rdf:about=\"#i\""] {
            for (a, b) in [(" xml:base=\"http://example.org/doc\"", " rdf:ID=\"i\""), (" xml:base=\"http://example.org/doc#f\"", " rdf:ID=\"i\" xml:base=\"http://example.org/e\""), ("", " rdf:ID=\"i\""), (" xml:base=\"urn:x:y\"", " rdf:ID=\"_1.a-b\"")] {
                if a.contains("urn:") && ["resource=", "about=\"s", "about=\"a"].iter().any(|x| format!("{who}{k}").contains(x)) {
                    continue;
                }
                docs.push(("identified", root(a, &format!("<ex:C{who}>{}</ex:C>", k.replace('@', b)))));
                docs.push(("identified", root(a, &format!("<ex:C{who}>{}{}</ex:C>", k.replace('@', b), k.replace('@', &format!(" rdf:ID=\"second{i}\"")).replace("\"j\"", "\"k\"")))));
            }
        }
    }
    as_the_reference(c, &docs);
}

/// Every combination of an element's name, attributes and content, whether RDF/XML or not, in
/// every kind of place.
fn grammar(c: &Check) {
    let names = ["ex:p", "p", "rdf:Description", "rdf:RDF", "rdf:ID", "rdf:about", "rdf:parseType", "rdf:resource", "rdf:nodeID", "rdf:datatype", "rdf:li", "rdf:aboutEach", "rdf:aboutEachPrefix", "rdf:bagID", "rdf:_1", "rdf:type", "rdf:Seq"];
    let attrs = [
        "rdf:about=\"http://example.org/a\"", "rdf:nodeID=\"x\"", "rdf:ID=\"i\"", "rdf:resource=\"http://example.org/a\"", "rdf:datatype=\"http://example.org/dt\"", "rdf:parseType=\"Resource\"", "rdf:parseType=\"Collection\"", "rdf:parseType=\"Literal\"", "rdf:parseType=\"other\"", "rdf:li=\"v\"", "rdf:Description=\"v\"", "rdf:RDF=\"v\"", "rdf:aboutEach=\"v\"", "rdf:aboutEachPrefix=\"v\"", "rdf:bagID=\"v\"", "rdf:_1=\"v\"", "rdf:type=\"http://example.org/a\"", "ex:about=\"v\"", "about=\"v\"", "xml:lang=\"en\"", "xml:space=\"preserve\"",
    ];
    let bodies = ["", " ", "t", "<![CDATA[t]]>", "<![CDATA[ ]]>", "&#32;", "&#97;", "<!-- t -->", "<?t t?>", "<ex:C/>", " <ex:C/>\n", "t<ex:C/>", "<ex:C/>t", "<ex:C/><![CDATA[t]]>", "<![CDATA[ ]]><ex:C/>", "<ex:C/><ex:C/>", "<ex:C/>&#32;", "<!-- t --><ex:C/><!-- t -->"];
    let places = ["@", "<ex:C>@</ex:C>", "<ex:C><ex:p>@</ex:p></ex:C>", "<ex:C><ex:p rdf:parseType=\"Resource\">@</ex:p></ex:C>", "<ex:C><ex:p rdf:parseType=\"Collection\">@</ex:p></ex:C>"];
    let key = |a: &str| a.split('=').next().unwrap().to_string();
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    let mut layer = sets.clone();
    for _ in 0..c.bound(2, 3) {
        layer = layer.iter().flat_map(|s| (s.last().map_or(0, |l| l + 1)..attrs.len()).map(move |i| s.iter().copied().chain([i]).collect::<Vec<_>>())).filter(|s| s.iter().map(|i| key(attrs[*i])).collect::<BTreeSet<_>>().len() == s.len()).collect();
        sets.extend(layer.iter().cloned());
    }
    let head = format!(" xmlns:rdf=\"{RDF}\" xmlns:ex=\"http://example.org/\" xml:base=\"http://example.org/d\"");
    let mut docs: Vec<(&str, String)> = vec![];
    for s in &sets {
        let a: String = s.iter().map(|i| format!(" {}", attrs[*i])).collect();
        for b in bodies {
            docs.push(("grammar of the root", format!("<rdf:RDF{head}{a}>{b}</rdf:RDF>")));
            for n in names {
                if s.len() == 3 && !["ex:p", "rdf:Description", "rdf:li"].contains(&n) {
                    continue;
                }
                let e = format!("<{n}{a}>{b}</{n}>");
                for p in places {
                    docs.push(("grammar", format!("<rdf:RDF{head}>{}</rdf:RDF>", p.replace('@', &e))));
                }
                docs.push(("grammar of the only node", format!("<{n}{head}{a}>{b}</{n}>")));
            }
        }
    }
    // every character at every place in an identifier
    for u in (0..0x3100).chain(0xd7f0..0xe010).chain(0xf8f0..0x10010).chain(0xeffe0..0xf0010).chain(0x10fff0..0x110000) {
        let Some(ch) = char::from_u32(u) else { continue };
        if u < 0x20 || ch == '\u{fffe}' || ch == '\u{ffff}' {
            continue;
        }
        for id in [format!("&#{u};"), format!("a&#{u};"), format!("a&#{u};b")] {
            // a blank node of the model cannot have a name that ends with a full stop
            if id == "a&#46;" {
                docs.push(("identifiers", format!("<rdf:RDF{head}><ex:C rdf:ID=\"{id}\"/></rdf:RDF>")));
                continue;
            }
            for e in [format!("<ex:C rdf:ID=\"{id}\"/>"), format!("<ex:C rdf:nodeID=\"{id}\"/>"), format!("<ex:C><ex:p rdf:nodeID=\"{id}\"/></ex:C>"), format!("<ex:C><ex:p rdf:ID=\"{id}\"/></ex:C>")] {
                docs.push(("identifiers", format!("<rdf:RDF{head}>{e}</rdf:RDF>")));
            }
        }
    }
    // the same identifier twice, at every two places, with every two bases
    let at = ["<ex:C rdf:ID=\"@\"#/>", "<ex:C><ex:p rdf:ID=\"@\"#/></ex:C>", "<ex:C><ex:p><ex:C rdf:ID=\"@\"#/></ex:p></ex:C>", "<ex:C><ex:p rdf:parseType=\"Resource\"><ex:p rdf:ID=\"@\"#/></ex:p></ex:C>", "<ex:C><ex:p rdf:parseType=\"Collection\"><ex:C rdf:ID=\"@\"#/></ex:p></ex:C>", "<ex:C rdf:about=\"#@\"#/>", "<ex:C rdf:nodeID=\"@\"#/>"];
    let bases = ["", " xml:base=\"http://example.org/d#f\"", " xml:base=\"http://example.org/e\""];
    for (x, y) in at.iter().flat_map(|x| at.iter().map(move |y| (x, y))) {
        for (b, d) in bases.iter().flat_map(|x| bases.iter().map(move |y| (x, y))) {
            for (i, j) in [("i", "i"), ("i", "j"), ("i", "I"), ("a.b", "a-b")] {
                let e = |t: &str, i: &str, b: &str| t.replace("\"#@", "\"\u{1}").replace('@', i).replace('#', b).replace('\u{1}', &format!("#{i}"));
                docs.push(("identifiers", format!("<rdf:RDF{head}>{}{}</rdf:RDF>", e(x, i, b), e(y, j, d))));
            }
        }
    }
    as_the_reference(c, &docs);
}

/// The reader reads each text as the reference does, and rejects what it rejects.
fn as_the_reference(c: &Check, docs: &[(&str, String)]) {
    let kinds: BTreeSet<&str> = docs.iter().map(|d| d.0).collect();
    for k in kinds {
        c.outcome(k, docs.iter().filter(|d| d.0 == k).count() as u64);
    }
    let norm_iri = |ts: Vec<Triple>| dedup(flat(&ts).iter().map(norm3).map(held).collect());
    par_each(docs, |(k, text)| {
        run1(c, || format!("{k}: {text}"), || {
            match (read(text), parse_rdf(text)) {
                (Ok(got), Ok(want)) => {
                    let want = norm_iri(want);
                    // (the form of XML literals with markup is not the matter here)
                    let markup = want.iter().any(|t| matches!(&t.2, T::Lit { lex, dt: Some(d), .. } if d.ends_with("XMLLiteral") && lex.contains(['<', '&'])));
                    ck!(markup || isomorphic(&got, &want), "expected {}\n  returned {}", show(&want), show(&got));
                }
                // a reference without anything it could be relative to
                (Err(_), Err(_)) => {}
                (Ok(_), Err(e)) if parse_rdf_leniently(text).is_err() => return Err(format!("accepted: {e}")),
                (Ok(_), Err(_)) => {}
                (Err(e), Ok(_)) => return Err(format!("rejected: {e}")),
            }
            Ok(())
        });
        c.add_transitions(1);
        c.add_traces(1);
    });
    c.add_states(docs.len() as u64);
}

/// With every IRI in the form in which it is held.
fn held(t: Triple) -> Triple {
    let h = |i: &str| i.parse::<rdftk_iri::Iri>().map_or(i.to_string(), |i| format!("{i:#}"));
    let n = |t: T| match t {
        T::Iri(i) => T::Iri(h(&i)),
        T::Lit { lex, dt, lang } => T::Lit { lex, dt: dt.map(|d| h(&d)), lang },
        t => t,
    };
    (n(t.0), h(&t.1), n(t.2))
}

/// The IRIs and language tags in the statements.
fn names_in(ts: &[Triple]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for t in ts {
        s.insert(t.1.clone());
        for n in [&t.0, &t.2] {
            match n {
                T::Iri(i) => s.insert(i.clone()),
                T::Lit { dt, lang, .. } => s.insert(format!("{dt:?} {lang:?}")),
                _ => false,
            };
        }
    }
    s
}

/// Documents that are not RDF/XML are rejected; nothing makes the reader panic.
fn malformed(c: &Check, n0: &[NodeEl], p0: &[PropEl]) {
    let mut bases: Vec<String> = vec![];
    for (i, p) in p0.iter().enumerate() {
        let n = NodeEl { props: vec![p.clone()], ..n0[(i * 5) % n0.len()].clone() };
        bases.push(document(&[n], &LOOKS[i % LOOKS.len()]));
    }
    let nested = NodeEl { props: vec![pe("ex:p", &[("rdf:parseType", "Collection")], Body::Nodes(vec![NodeEl { props: vec![p0[0].clone()], ..n0[4].clone() }, n0[0].clone()]))], ..n0[4].clone() };
    bases.push(document(&[nested.clone(), n0[30].clone()], &LOOKS[1]));
    // every proper prefix
    par_each(&bases, |b| {
        let b = b.trim_end();
        for i in (0..b.len()).filter(|i| b.is_char_boundary(*i)) {
            run1(c, || format!("prefix: {}", &b[..i]), || {
                ck!(read(&b[..i]).is_err(), "accepted");
                Ok(())
            });
            c.add_transitions(1);
        }
    });
    c.outcome("prefixes", bases.len() as u64);
    // every edit of one character (two, in thorough runs, for the short ones)
    let letters: Vec<char> = "<>/\"'=&;: ax!-?[]#\0é".chars().collect();
    let short: Vec<&String> = bases.iter().filter(|b| b.len() < 420).collect();
    let compared = AtomicU64::new(0);
    par_each(&short, |b| {
        let cs: Vec<char> = b.chars().collect();
        let known = parse_rdf(b).map(|t| names_in(&flat(&t))).unwrap_or_default();
        let root = b.find("<rdf:RDF").unwrap();
        let start = b[..root + b[root..].find('>').unwrap()].chars().count();
        for i in start..=cs.len() {
            let mut edits: Vec<String> = vec![];
            let make = |del: usize, ins: &str| -> String { cs[..i].iter().copied().chain(ins.chars()).chain(cs[(i + del).min(cs.len())..].iter().copied()).collect() };
            if i < cs.len() {
                edits.push(make(1, ""));
                edits.push(make(1, &format!("{0}{0}", cs[i])));
            }
            for l in &letters {
                edits.push(make(0, &l.to_string()));
                if i < cs.len() {
                    edits.push(make(1, &l.to_string()));
                }
            }
            for e in edits {
                run1(c, || format!("edit: {e}"), || {
                    let got = read(&e);
                    if let Err(x) = parse_xml_as(&e, true) {
                        ck!(got.is_err(), "accepted, but is not XML: {x}");
                    }
                    let want = parse_rdf(&e);
                    if let (Ok(_), Err(x)) = (&got, parse_rdf_leniently(&e)) {
                        // (nor is which IRIs are absolute)
                        ck!(x.contains("without a base"), "accepted, but is not RDF/XML: {x}");
                    }
                    if let (Ok(got), Ok(want)) = (&got, &want) {
                        let want = flat(want);
                        // what becomes of an edited IRI or language tag is not the matter here
                        let same = names_in(&want).is_subset(&known) && !names_in(&want).iter().any(|n| n.contains("XMLLiteral"));
                        let want = dedup(want.iter().map(norm3).collect());
                        compared.fetch_add(same as u64, Ordering::Relaxed);
                        ck!(!same || isomorphic(got, &want), "expected {}\n  returned {}", show(&want), show(got));
                    }
                    Ok(())
                });
                c.add_transitions(1);
            }
        }
    });
    c.outcome("edits", short.len() as u64);
    c.outcome("edits accepted and compared", compared.into_inner());
    // structures that are not RDF/XML
    let head = format!("xmlns:rdf=\"{RDF}\" xmlns:ex=\"http://example.org/\"");
    let bad = [
        "<RDF/>".into(), "<rdf:RDF/>".into(), String::new(), " ".into(), "text".into(),
        "<?xml version=\"1.0\"?>".into(), format!("<rdf:RDF {head}/><rdf:RDF {head}/>"),
        format!("<rdf:RDF {head}/>text"), format!("<rdf:RDF {head}><Description/></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description><p>t</p></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description r=\"v\"/></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description rdf:about=\"http://[\"/></rdf:RDF>").replace("/></rdf", "><ex:p>t</ex:p></rdf:Description></rdf"),
        format!("<rdf:RDF {head}><rdf:Description><ex:p rdf:resource=\"http://[\"/></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description><ex:p rdf:datatype=\"http://[\">t</ex:p></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description rdf:type=\"http://[\"/></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description rdf:nodeID=\"a b\"><ex:p>t</ex:p></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description><ex:p rdf:nodeID=\"\"/></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description><ex:p xml:lang=\"e n\">t</ex:p></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description><ex:p>t<ex:C/></ex:p></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description><ex:p><ex:C/>t</ex:p></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description><ex:p><ex:C/><ex:C/></ex:p></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description><ex:p rdf:parseType=\"Collection\">t</ex:p></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description><ex:p rdf:parseType=\"Collection\"><ex:C/>t</ex:p></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description><ex:p rdf:resource=\"http://example.org/\">t</ex:p></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description><ex:p rdf:nodeID=\"x\"><ex:C/></ex:p></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description><ex:p ex:r=\"v\">t</ex:p></rdf:Description></rdf:RDF>"),
        format!("<rdf:RDF {head}><rdf:Description rdf:ID=\"i\"><ex:p>t</ex:p></rdf:Description></rdf:RDF>"),
    ];
    for b in &bad {
        run1(c, || format!("not RDF/XML: {b}"), || {
            ck!(parse_rdf(b).is_err() || ["http://[", "e n"].iter().any(|x| b.contains(x)), "the reference accepts it");
            ck!(read(b).is_err(), "accepted");
            Ok(())
        });
        c.add_transitions(1);
    }
    c.outcome("not RDF/XML", bad.len() as u64);
}

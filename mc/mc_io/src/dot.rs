//! E12 what the DOT writer emits.

use crate::ck;
use crate::nt::{dressed, each_graph, out_of, run1};
use crate::turtle::{prefix_map, PREFIXES};
use crate::universe::*;
use mclib::*;
use mcrdf::*;
use objio::HasOptions;
use rdftk_core::model::graph::Graph;
use rdftk_io::dot::{DotOptions, DotWriter};
use std::collections::{BTreeMap, BTreeSet};

type R<X> = Result<X, String>;
type Attrs = BTreeMap<String, String>;

/// A DOT document: attributes of the graph, nodes, edges in order. Values are as they stand in the
/// document, except that quotes are taken off.
#[derive(Default, Debug)]
pub struct Dot {
    pub attrs: Attrs,
    pub nodes: Vec<(String, Attrs)>,
    pub edges: Vec<(String, String, Attrs)>,
}

#[derive(PartialEq, Debug, Clone)]
enum Tok {
    Id(String),
    Sym(&'static str),
}

fn lex(text: &str) -> R<Vec<Tok>> {
    let cs: Vec<char> = text.chars().collect();
    let (mut i, mut out, mut line_start) = (0, vec![], true);
    'next: while i < cs.len() {
        let c = cs[i];
        if c == '\n' {
            line_start = true;
            i += 1;
            continue;
        }
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if c == '#' && line_start || c == '/' && cs.get(i + 1) == Some(&'/') {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
            continue;
        }
        line_start = false;
        if c == '/' && cs.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < cs.len() && !(cs[i] == '*' && cs[i + 1] == '/') {
                i += 1;
            }
            i += 2;
            continue;
        }
        for s in ["->", "--", "{", "}", "[", "]", ";", ",", "=", ":"] {
            if cs[i..].iter().collect::<String>().get(..s.len()) == Some(s) && !(s == "--" && cs.get(i + 1).is_some_and(|d| d.is_ascii_digit())) {
                out.push(Tok::Sym(s));
                i += s.len();
                continue 'next;
            }
        }
        let mut id = String::new();
        if c == '"' {
            i += 1;
            loop {
                match cs.get(i) {
                    None => return Err("a string does not end".into()),
                    Some('"') => break,
                    Some('\\') => {
                        match cs.get(i + 1) {
                            None => return Err("a string does not end".into()),
                            Some('\n') => {}
                            // to the lexer only this one is an escape; a label has more of them
                            Some('"') => id.push('"'),
                            Some(d) => {
                                id.push('\\');
                                id.push(*d);
                            }
                        }
                        i += 2;
                    }
                    Some('\0') => return Err("a string with a NUL".into()),
                    Some(d) => {
                        id.push(*d);
                        i += 1;
                    }
                }
            }
            i += 1;
        } else if c.is_ascii_alphabetic() || c == '_' || c as u32 >= 0x80 {
            while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_' || cs[i] as u32 >= 0x80) {
                id.push(cs[i]);
                i += 1;
            }
        } else if c.is_ascii_digit() || c == '-' || c == '.' {
            while i < cs.len() && (cs[i].is_ascii_digit() || cs[i] == '.' || cs[i] == '-' && id.is_empty()) {
                id.push(cs[i]);
                i += 1;
            }
            if id.matches('.').count() > 1 || !id.contains(|c: char| c.is_ascii_digit()) {
                return Err(format!("not a numeral: {id}"));
            }
            if cs.get(i).is_some_and(|c| c.is_ascii_alphabetic() || *c == '_') {
                return Err(format!("not a numeral: {id}{}", cs[i]));
            }
        } else {
            return Err(format!("not DOT: {c:?}"));
        }
        out.push(Tok::Id(id));
    }
    Ok(out)
}

pub fn parse_dot(text: &str) -> R<Dot> {
    let toks = lex(text)?;
    let mut i = 0;
    let mut d = Dot::default();
    let id = |i: &mut usize| match toks.get(*i) {
        Some(Tok::Id(s)) => {
            *i += 1;
            Ok(s.clone())
        }
        t => Err(format!("expected an ID, but found {t:?}")),
    };
    let eat = |i: &mut usize, s: &'static str| {
        let y = toks.get(*i) == Some(&Tok::Sym(s));
        *i += y as usize;
        y
    };
    if id(&mut i)?.to_lowercase() != "digraph" {
        return Err("not a digraph".into());
    }
    if let Some(Tok::Id(_)) = toks.get(i) {
        i += 1;
    }
    if !eat(&mut i, "{") {
        return Err("no {".into());
    }
    loop {
        if eat(&mut i, ";") {
            continue;
        }
        if eat(&mut i, "}") {
            break;
        }
        let a = id(&mut i)?;
        if eat(&mut i, "=") {
            let v = id(&mut i)?;
            if d.attrs.insert(a.clone(), v).is_some() {
                return Err(format!("{a} is given twice"));
            }
            continue;
        }
        let b = if eat(&mut i, "->") { Some(id(&mut i)?) } else { None };
        let mut at = Attrs::new();
        while eat(&mut i, "[") {
            loop {
                if eat(&mut i, "]") {
                    break;
                }
                let k = id(&mut i)?;
                if !eat(&mut i, "=") {
                    return Err(format!("{k} has no value"));
                }
                let v = id(&mut i)?;
                if at.insert(k.clone(), v).is_some() {
                    return Err(format!("{k} is given twice"));
                }
                if !eat(&mut i, ",") {
                    eat(&mut i, ";");
                }
            }
        }
        match b {
            Some(b) => d.edges.push((a, b, at)),
            None => d.nodes.push((a, at)),
        }
    }
    if i != toks.len() {
        return Err("something follows the graph".into());
    }
    Ok(d)
}

/// The text that a label shows, where `fields` tells that it is the label of a record.
fn shown(label: &str, fields: bool) -> R<String> {
    let mut out = String::new();
    let mut cs = label.chars();
    while let Some(c) = cs.next() {
        match c {
            '\\' => match cs.next() {
                Some('n') => out.push('\n'),
                // ends a line, which is aligned to the right
                Some('r') => out.push('\r'),
                Some(d @ ('\\' | '"' | '{' | '}' | '|' | '<' | '>' | ' ')) => out.push(d),
                d => return Err(format!("the label {label:?} has the escape {d:?}")),
            },
            '{' | '}' | '|' | '<' | '>' if fields => return Err(format!("the label {label:?} has fields")),
            c => out.push(c),
        }
    }
    Ok(out)
}

#[derive(Clone, Debug)]
pub struct Look {
    pub blank: (String, String),
    pub iri: (String, String),
    pub literal: (String, String),
    pub labels: bool,
    pub prefix: String,
}

impl Default for Look {
    fn default() -> Self {
        let p = |a: &str, b: &str| (a.to_string(), b.to_string());
        Look { blank: p("circle", "green"), iri: p("ellipse", "blue"), literal: p("record", "black"), labels: false, prefix: "node_".into() }
    }
}

impl Look {
    pub fn with(&self) -> DotOptions {
        DotOptions::default()
            .with_node_prefix(self.prefix.as_str())
            .with_blank_labels(self.labels)
            .with_literal_color(self.literal.1.as_str())
            .with_literal_shape(self.literal.0.as_str())
            .with_iri_color(self.iri.1.as_str())
            .with_iri_shape(self.iri.0.as_str())
            .with_blank_color(self.blank.1.as_str())
            .with_blank_shape(self.blank.0.as_str())
    }
    fn set(&self) -> DotOptions {
        let mut o = DotOptions::default();
        o.set_blank_shape(self.blank.0.as_str());
        o.set_blank_color(self.blank.1.as_str());
        o.set_blank_labels(self.labels);
        o.set_iri_shape(self.iri.0.as_str());
        o.set_iri_color(self.iri.1.as_str());
        o.set_literal_shape(self.literal.0.as_str());
        o.set_literal_color(self.literal.1.as_str());
        o.set_node_prefix(self.prefix.as_str());
        o
    }
    fn is(&self, o: &DotOptions) -> bool {
        *o.blank_shape() == self.blank.0
            && *o.blank_color() == self.blank.1
            && *o.iri_shape() == self.iri.0
            && *o.iri_color() == self.iri.1
            && *o.literal_shape() == self.literal.0
            && *o.literal_color() == self.literal.1
            && o.blank_labels() == self.labels
            && *o.node_prefix() == self.prefix
    }
}

/// A graph as a picture: every node is a blank one that states what it shows.
///
/// `"t"` and `"t"^^xsd:string` are one term of RDF and two values here: a picture may have a node for
/// each or one for both.
fn picture_of(ts: &[Triple], one: bool) -> Vec<Triple> {
    let mut ids: BTreeMap<T, String> = BTreeMap::new();
    let mut out = vec![];
    let mut id = |t: &T| {
        let n = ids.len();
        blank(ids.entry(if one { crate::refs::norm(t) } else { t.clone() }).or_insert_with(|| format!("n{n}")))
    };
    for (s, p, o) in ts {
        out.push((id(s), p.clone(), id(o)));
    }
    for (t, i) in &ids {
        let shows = match t {
            T::Blank(_) => "blank".to_string(),
            T::Iri(i) => format!("iri {i}"),
            T::Lit { lex, .. } => format!("literal {lex}"),
            _ => unreachable!(),
        };
        out.push((blank(i), "kind".into(), plain(&shows)));
    }
    let s: BTreeSet<Triple> = out.into_iter().collect();
    s.into_iter().collect()
}

/// Is `text` a picture of the graph (its statements spelled out)?
pub fn check_dot(text: &str, flat: &[Triple], names: &BTreeMap<String, String>, look: &Look) -> R<()> {
    let d = parse_dot(text).map_err(|e| format!("not DOT: {e}\n{text}"))?;
    let mut got: Vec<Triple> = vec![];
    let known: BTreeSet<&String> = d.nodes.iter().map(|n| &n.0).collect();
    ck!(known.len() == d.nodes.len(), "a node is described twice\n{text}");
    for n in &known {
        ck!(n.starts_with(&look.prefix), "the node {n} has another prefix\n{text}");
    }
    for (a, b, at) in &d.edges {
        ck!(known.contains(a) && known.contains(b), "{a} -> {b}: a node is not described\n{text}");
        let label = at.get("label").ok_or_else(|| format!("an edge has no label\n{text}"))?;
        let label = shown(label, false)?;
        // the abbreviation of an IRI, or an IRI
        let p = match label.split_once(':') {
            Some((p, n)) if names.contains_key(p) => format!("{}{n}", names[p]),
            _ => label,
        };
        got.push((blank(a), p, blank(b)));
    }
    for (n, at) in &d.nodes {
        let a = |k: &str| at.get(k).cloned().unwrap_or_default();
        let label = a("label");
        let has = (a("shape"), a("color"));
        let (want, kind) = if at.contains_key("URL") {
            ck!(shown(&a("URL"), false)? == shown(&label, false)?, "{n}: label and URL differ\n{text}");
            (&look.iri, format!("iri {}", shown(&label, false)?))
        } else if has == look.blank {
            ck!(label == if look.labels { n.clone() } else { String::new() }, "{n}: label of a blank node\n{text}");
            (&look.blank, "blank".to_string())
        } else {
            (&look.literal, format!("literal {}", shown(&label, look.literal.0.contains("ecord"))?))
        };
        ck!(has == *want, "{n}: shape and color {has:?}, expected {want:?}\n{text}");
        got.push((blank(n), "kind".into(), plain(&kind)));
    }
    let set: BTreeSet<&Triple> = got.iter().collect();
    ck!(set.len() == got.len(), "something is stated twice\n{text}");
    ck!(isomorphic(&got, &picture_of(flat, true)) || isomorphic(&got, &picture_of(flat, false)), "the picture shows another graph\n{text}");
    Ok(())
}

pub fn flat_of(ts: &[Triple]) -> Vec<Triple> {
    flatten(ts)
}
fn flat(g: &Graph) -> Vec<Triple> {
    flatten(&of_graph(g))
}
/// no NUL, which DOT has no way to write
fn drawable(ts: &[Triple]) -> bool {
    fn t(x: &T) -> bool {
        match x {
            T::Lit { lex, .. } => !lex.contains('\0'),
            T::Coll(v) => v.iter().all(t),
            T::Quote(q) => drawable(&[(**q).clone()]),
            _ => true,
        }
    }
    ts.iter().all(|(s, _, o)| t(s) && t(o))
}

pub fn mapping(n: usize) -> BTreeMap<String, String> {
    PREFIXES[n].iter().map(|(p, i)| (p.to_string(), i.to_string())).collect()
}

fn one(c: &Check, class: &str, ts: &[Triple], prefixes: usize, look: &Look) {
    // a graph that holds a statement twice may well be drawn with two arrows
    if !drawable(ts) || class == "graph with duplicates" {
        return;
    }
    run1(c, || format!("{class} prefixes={prefixes} {look:?}: {}", show(ts)), || {
        let mut g = dressed(class, ts);
        // a graph with nested statements or collections is spelled out with nodes without a name, which
        // are different ones every time; a picture is of all of them up to renaming
        g.set_prefix_mappings(prefix_map(prefixes));
        let text = out_of(&DotWriter::new(look.with()), &g)?;
        check_dot(&text, &flat(&g), &mapping(prefixes), look)
    });
    c.add_transitions(1);
    c.add_traces(1);
}

pub fn e12(c: &Check) {
    let l = Look::default();
    each_graph(c, &|class, ts| {
        for p in 0..c.bound(2, 4) {
            one(c, class, ts, p, &l);
        }
    });
    // predicates in every shape, with every map
    par_each(&iris(), |i| {
        for p in 0..PREFIXES.len() {
            one(c, "names", &[(iri(i), i.clone(), iri(i)), (iri(i), ns("p"), plain(i))], p, &l);
        }
    });
    // nodes that look like one another
    let mut like = vec![];
    for o in [
        iri("urn:x"), plain("urn:x"), plain("<urn:x>"), typed("urn:x", &xsd("anyURI")), typed("urn:x", &ex("dt")), lang("urn:x", "en"), lang("urn:x", "de"), blank("x"), plain("x"),
        plain("_:x"), plain("\"x\""), plain("\\\"x\\\""), plain("\"x\"@en"), typed("1", &xsd("integer")), typed("1", &xsd("decimal")), typed("1", &xsd("boolean")), plain("1"), iri("http://h/1"),
    ] {
        for s in [iri("urn:x"), blank("x"), blank("y"), iri("http://h/1")] {
            for p in ["urn:x", "urn:p"] {
                like.push((s.clone(), p.to_string(), o.clone()));
            }
        }
    }
    let sets = subsets(like.len(), c.bound(2, 3));
    c.outcome("alike", sets.len() as u64);
    c.add_states(sets.len() as u64);
    par_each(&sets, |s| one(c, "alike", &pick(&like, s), 0, &l));
    // options
    let shapes = ["box", "record", "Mrecord", "circle"];
    let some = [
        (iri("urn:x"), ns("p"), blank("x")),
        (blank("x"), ns("p"), blank("y")),
        (blank("y"), ns("q"), plain("a{b|c}\"d\"\\<e>\n")),
        (blank("x"), ns("q"), iri(&ex("a"))),
    ];
    let mut looks = vec![];
    for b in 0..4 {
        for i in 0..4 {
            for t in 0..4 {
                for labels in [false, true] {
                    for prefix in ["", "n", "node_", "a b-", "é."] {
                        let p = |s: usize, c: &str| (shapes[s].to_string(), c.to_string());
                        looks.push(Look { blank: p(b, "red"), iri: p(i, "gold"), literal: p(t, "navy"), labels, prefix: prefix.into() });
                    }
                }
            }
        }
    }
    c.add_states(looks.len() as u64);
    c.outcome("looks", looks.len() as u64);
    par_each(&looks, |l| {
        for k in 0..=some.len() {
            one(c, "options", &some[..k], 1, l);
        }
        run1(c, || format!("options {l:?}"), || {
            ck!(Look::default().is(&DotOptions::default()), "other defaults: {:?}", DotOptions::default());
            ck!(l.is(&l.with()), "with_*: {:?}", l.with());
            ck!(l.is(&l.set()), "set_*: {:?}", l.set());
            let mut w = DotWriter::default();
            w.set_options(l.set());
            ck!(l.is(w.options()), "set_options: {:?}", w.options());
            ck!(l.is(DotWriter::default().with_options(l.set()).options()), "with_options");
            ck!(l.is(DotWriter::new(l.set()).options()), "new");
            Ok(())
        });
    });
    // drawn one after another by the same writer
    let gs: Vec<Vec<Triple>> = subsets(some.len(), c.bound(2, 4)).iter().map(|s| pick(&some, s)).collect();
    let mut pairs = vec![];
    for a in &gs {
        for b in &gs {
            pairs.push((a.clone(), b.clone()));
        }
    }
    c.add_states(pairs.len() as u64);
    c.outcome("again", pairs.len() as u64);
    par_each(&pairs, |(a, b)| {
        run1(c, || format!("again {} then {}", show(a), show(b)), || {
            let w = DotWriter::default();
            for ts in [a, b, a] {
                let mut g = real_graph(ts);
                g.set_prefix_mappings(prefix_map(0));
                check_dot(&out_of(&w, &g)?, &flat(&g), &mapping(0), &Look::default())?;
            }
            Ok(())
        });
    });
    c.assume("literals with a NUL, which DOT cannot express, and node prefixes with quotes or backslashes are not drawn");
}

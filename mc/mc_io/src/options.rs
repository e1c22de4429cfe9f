//! E18 What the options of a writer are after any sequence of changes, and what each of them does.

use crate::ck;
use crate::dot::parse_dot;
use crate::nt::{out_of, run1};
use crate::refs::Ttl;
use crate::xmlref::parse_xml;
use mclib::*;
use mcrdf::*;
use objio::HasOptions;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_iri::{IriPrefixMap, Namespace};
use rdftk_io::dot::{DotOptions, DotWriter};
use rdftk_io::json::{JsonOptions, JsonWriter};
use rdftk_io::nt::{NTripleWriter, NTripleWriterOptions};
use rdftk_io::trig::{TrigWriter, TrigWriterOptions};
use rdftk_io::turtle::{TurtleWriter, TurtleWriterOptions};
use rdftk_io::xml::{XmlOptions, XmlWriter};
use std::collections::HashMap;
use std::hash::Hash;
use std::str::FromStr;
use std::sync::Mutex;

type R<X> = Result<X, String>;

const E: &str = "http://example.org/";
const BASES: [&str; 2] = ["http://example.org/", "http://base.example/x/"];

/// A kind of options: a reference of them, the operations, and what is to be seen.
trait Kind {
    type M: Clone + Eq + Hash + std::fmt::Debug + Sync + Send;
    type Op: Clone + std::fmt::Debug + Sync + Send;
    type Real;
    fn name(&self) -> &'static str;
    fn start(&self) -> Self::M;
    fn real(&self) -> Self::Real;
    fn ops(&self) -> Vec<Self::Op>;
    fn step(&self, m: &Self::M, o: &Self::Op) -> Self::M;
    fn apply(&self, r: Self::Real, o: &Self::Op) -> Self::Real;
    /// what the accessors say
    fn says(&self, r: &Self::Real, m: &Self::M) -> R<()>;
    /// what is written, by way of both ways to give a writer its options
    fn written(&self, r: impl Fn() -> Self::Real) -> R<String>;
    /// what the options do to the text
    fn does(&self, m: &Self::M, text: &str) -> R<()>;
    /// the text is the same whenever it is written
    fn stable(&self) -> bool {
        true
    }
}

fn explore<K: Kind + Sync>(c: &Check, k: &K, depth: usize) {
    let ops = k.ops();
    let ex = bfs(vec![k.start()], &ops, |m, o| Some(k.step(m, o)), usize::MAX, 1_000_000);
    c.add_states(ex.states.len() as u64);
    c.add_transitions(ex.edges.len() as u64);
    c.add_traces(ex.edges.len() as u64);
    c.outcome(&format!("{}: states", k.name()), ex.states.len() as u64);
    c.outcome(&format!("{}: transitions replayed", k.name()), ex.edges.len() as u64);
    let texts: Mutex<HashMap<usize, String>> = Mutex::new(HashMap::new());
    let one = |path: &[K::Op], m: &K::M, to: Option<usize>| {
        run1(c, || format!("{}: {path:?}", k.name()), || {
            let make = || path.iter().fold(k.real(), |r, o| k.apply(r, o));
            k.says(&make(), m)?;
            let text = k.written(make)?;
            k.does(m, &text).map_err(|e| format!("{e}, with {m:?}, in\n{text}"))?;
            // however the options were reached
            if let (Some(i), true) = (to, k.stable()) {
                let t = texts.lock().unwrap().entry(i).or_insert_with(|| text.clone()).clone();
                ck!(t == text, "with the same options as before, another text\n{t}\nthen\n{text}");
            }
            Ok(())
        })
    };
    one(&[], &k.start(), Some(0));
    par_each(&ex.edges, |(from, o, to)| {
        let mut path = ex.trace(*from);
        path.push(o.clone());
        one(&path, &ex.states[*to], Some(*to));
    });
    // every sequence, whether or not it leads to where others do
    let index: HashMap<&K::M, usize> = ex.states.iter().enumerate().map(|(i, s)| (s, i)).collect();
    let n = words(ops.len(), depth, |w: &[usize]| {
        let path: Vec<K::Op> = w.iter().map(|i| ops[*i].clone()).collect();
        let m = path.iter().fold(k.start(), |m, o| k.step(&m, o));
        one(&path, &m, index.get(&m).copied());
    });
    c.add_traces(n);
    c.outcome(&format!("{}: sequences", k.name()), n);
}

/// A graph with everything that an option may touch.
fn sample() -> &'static Graph {
    static G: std::sync::OnceLock<Graph> = std::sync::OnceLock::new();
    G.get_or_init(made)
}
fn made() -> Graph {
    let (a, x) = (iri(&format!("{E}a")), blank("x"));
    let (p, l) = (format!("{E}p"), format!("{E}longer"));
    let ts = vec![
        (a.clone(), rdf("type"), iri(&format!("{E}T"))),
        (a.clone(), p.clone(), x.clone()),
        (a.clone(), l.clone(), plain("v")),
        (a.clone(), format!("{E}m"), typed("1", &xsd("int"))),
        (a.clone(), format!("{E}m"), typed("true", &xsd("boolean"))),
        (x.clone(), p.clone(), iri(&format!("{}b", BASES[1]))),
        (x, l.clone(), lang("v", "en")),
        // without a type
        (iri(&format!("{E}u")), "http://www.w3.org/2000/01/rdf-schema#label".into(), plain("u")),
        (iri(&format!("{E}w")), l, plain("w")),
    ];
    let mut g = real_graph(&ts);
    g.set_prefix_mappings(IriPrefixMap::empty().with(Namespace::from_str("ex:").unwrap(), real_iri(E)));
    g
}

// ------------------------------------------------------------------------------------------------
// Turtle
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Tm {
    base: Option<usize>,
    nest: bool,
    sparql: bool,
    intellij: bool,
    type_line: bool,
    convert: Option<usize>,
    indent: usize,
    padding: bool,
}
#[derive(Clone, Debug)]
enum To {
    WithBase(usize),
    SetBase(usize),
    NoBase,
    WithIntellij,
    SetIntellij(bool),
    WithSparql,
    SetSparql(bool),
    WithIndent(usize),
    SetIndent(usize),
    WithPadding(bool),
    SetPadding(bool),
    WithNested,
    WithoutNested,
    SetNest(bool),
    TypeLine(bool),
    Convert(usize),
    NoConvert,
    Clone,
}
struct Turtle;

impl Kind for Turtle {
    type M = Tm;
    type Op = To;
    type Real = TurtleWriterOptions;
    fn name(&self) -> &'static str {
        "Turtle"
    }
    fn start(&self) -> Tm {
        // the defaults are what the type says they are; what they do is checked as any other
        let o = TurtleWriterOptions::default();
        Tm {
            base: None,
            nest: o.nest_blank_nodes(),
            sparql: o.use_sparql_style(),
            intellij: o.use_intellij_style(),
            type_line: o.place_type_on_subject_line(),
            convert: None,
            indent: o.indent_width(),
            padding: o.predicate_padding(),
        }
    }
    fn real(&self) -> TurtleWriterOptions {
        TurtleWriterOptions::default()
    }
    fn ops(&self) -> Vec<To> {
        let mut v = vec![To::NoBase, To::WithIntellij, To::WithSparql, To::WithNested, To::WithoutNested, To::NoConvert, To::Clone];
        for i in 0..2 {
            v.extend([To::WithBase(i), To::SetBase(i), To::Convert(i)]);
        }
        for b in [false, true] {
            v.extend([To::SetIntellij(b), To::SetSparql(b), To::WithPadding(b), To::SetPadding(b), To::SetNest(b), To::TypeLine(b)]);
        }
        for n in [1, 7] {
            v.extend([To::WithIndent(n), To::SetIndent(n)]);
        }
        v
    }
    fn step(&self, m: &Tm, o: &To) -> Tm {
        let mut m = m.clone();
        match *o {
            To::WithBase(i) | To::SetBase(i) => m.base = Some(i),
            To::NoBase => m.base = None,
            To::WithIntellij => (m.intellij, m.indent) = (true, 4),
            To::SetIntellij(b) => m.intellij = b,
            To::WithSparql => m.sparql = true,
            To::SetSparql(b) => m.sparql = b,
            To::WithIndent(n) | To::SetIndent(n) => m.indent = n,
            To::WithPadding(b) | To::SetPadding(b) => m.padding = b,
            To::WithNested => m.nest = true,
            To::WithoutNested => m.nest = false,
            To::SetNest(b) => m.nest = b,
            To::TypeLine(b) => m.type_line = b,
            To::Convert(i) => m.convert = Some(i),
            To::NoConvert => m.convert = None,
            To::Clone => {}
        }
        m
    }
    fn apply(&self, mut r: TurtleWriterOptions, o: &To) -> TurtleWriterOptions {
        match *o {
            To::WithBase(i) => return r.with_id_base(real_iri(BASES[i])),
            To::SetBase(i) => r.set_id_base(real_iri(BASES[i])),
            To::NoBase => r.unset_id_base(),
            To::WithIntellij => return r.with_intellij_style(),
            To::SetIntellij(b) => r.set_use_intellij_style(b),
            To::WithSparql => return r.with_sparql_style(),
            To::SetSparql(b) => r.set_use_sparql_style(b),
            To::WithIndent(n) => return r.with_indent_width(n),
            To::SetIndent(n) => r.set_indent_width(n),
            To::WithPadding(b) => return r.with_predicate_padding(b),
            To::SetPadding(b) => r.set_predicate_padding(b),
            To::WithNested => return r.with_nested_blank_nodes(),
            To::WithoutNested => return r.without_nested_blank_nodes(),
            To::SetNest(b) => r.set_nest_blank_nodes(b),
            To::TypeLine(b) => r.set_place_type_on_subject_line(b),
            To::Convert(i) => r.set_convert_to_id_base(real_iri(BASES[i])),
            To::NoConvert => r.unset_convert_to_id_base(),
            To::Clone => return r.clone(),
        }
        r
    }
    fn says(&self, r: &TurtleWriterOptions, m: &Tm) -> R<()> {
        let which = |i: Option<&rdftk_iri::Iri>| i.map(|i| BASES.iter().position(|b| format!("{i:#}") == *b).unwrap_or(9));
        let got = Tm {
            base: which(r.id_base()),
            nest: r.nest_blank_nodes(),
            sparql: r.use_sparql_style(),
            intellij: r.use_intellij_style(),
            type_line: r.place_type_on_subject_line(),
            convert: which(r.convert_to_id_base()),
            indent: r.indent_width(),
            padding: r.predicate_padding(),
        };
        ck!(got == *m, "the options say {got:?} and were set to {m:?}");
        ck!(r.convert_base().is_empty(), "conversions out of nowhere");
        Ok(())
    }
    fn written(&self, r: impl Fn() -> TurtleWriterOptions) -> R<String> {
        let g = sample();
        let text = out_of(&TurtleWriter::default().with_options(r()), g)?;
        let mut w = TurtleWriter::default().with_options(TurtleWriterOptions::default().with_sparql_style().with_indent_width(3));
        w.set_options(r());
        let again = out_of(&w, g)?;
        ck!(text == again, "with_options and set_options differ\n{text}\n{again}");
        Ok(text)
    }
    fn does(&self, m: &Tm, text: &str) -> R<()> {
        let t = Ttl::parse(text, false)?;
        let sparql = m.sparql && !m.intellij;
        let base: Vec<bool> = t.directives.iter().filter(|d| d.0.to_lowercase().contains("base")).map(|d| d.1).collect();
        ck!(base.len() == usize::from(m.base.is_some()), "{} directives for the base", base.len());
        ck!(!t.directives.is_empty(), "the prefix is not declared");
        for (d, dot) in &t.directives {
            ck!(*dot != sparql && d.starts_with('@') != sparql, "{d:?} in the wrong style");
        }
        ck!(text.contains('[') == m.nest, "blank nodes nested: {}", text.contains('['));
        // the lines of the first subject
        let lines: Vec<&str> = text.lines().collect();
        let at = lines.iter().position(|l| !l.starts_with([' ', '@', 'B', 'P']) && !l.is_empty() && !l.starts_with('_')).ok_or("no subject")?;
        let is_type = |l: &str| l.contains("rdf-syntax-ns#type");
        ck!(is_type(lines[at]) == m.type_line, "the type is on the line of the subject: {}", is_type(lines[at]));
        let rest: Vec<&str> = lines[at + 1..].iter().copied().take_while(|l| !l.is_empty()).collect();
        let depth = |l: &str| l.len() - l.trim_start_matches(' ').len();
        for l in rest.iter().filter(|l| l.contains("longer") || l.trim_start().starts_with("ex:m") || is_type(l)) {
            ck!(depth(l) == m.indent || m.nest && l.contains("longer") && depth(l) == 2 * m.indent, "a line is indented by {}: {l:?}", depth(l));
        }
        // a subject without a type
        for l in lines.iter().filter(|l| l.starts_with("ex:u") || l.starts_with("ex:w") || l.starts_with("<u>") || l.starts_with("<w>")) {
            ck!(!l.trim().contains(' '), "more than the subject is on the line {l:?}");
        }
        // where the objects start
        let mut cols = vec![];
        for l in rest.iter().filter(|l| depth(l) == m.indent) {
            let l = &l[m.indent..];
            let Some(n) = l.find(' ') else { continue };
            if n == 0 || !(is_type(l) || l.contains("longer") || l[..n].trim_end_matches('>').ends_with('m')) {
                continue;
            }
            let spaces = l[n..].len() - l[n..].trim_start_matches(' ').len();
            ck!(m.padding || spaces == 1, "{spaces} spaces before the object, without padding: {l:?}");
            cols.push(n + spaces);
        }
        ck!(cols.len() >= 2, "too few lines: {rest:?}");
        ck!(!m.padding || cols.iter().all(|n| *n == cols[0]), "with padding the objects start at {cols:?}");
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// DOT
// ------------------------------------------------------------------------------------------------

/// shape and color of blank nodes, IRIs, literals; prefix; labels
type Dm = [usize; 8];
#[derive(Clone, Debug)]
enum Do {
    With(usize, usize),
    Set(usize, usize),
}
struct Dot {
    all: bool,
}
const VALUES: [[&str; 2]; 8] = [["box", "oval"], ["red", "gray"], ["egg", "plain"], ["pink", "navy"], ["star", "note"], ["gold", "tan"], ["n", "x_"], ["false", "true"]];

impl Kind for Dot {
    type M = Dm;
    type Op = Do;
    type Real = DotOptions;
    fn name(&self) -> &'static str {
        "DOT"
    }
    fn start(&self) -> Dm {
        [2, 2, 2, 2, 2, 2, 2, usize::from(DotOptions::default().blank_labels())]
    }
    fn real(&self) -> DotOptions {
        DotOptions::default()
    }
    fn ops(&self) -> Vec<Do> {
        (0..8).flat_map(|f| (0..if self.all || f >= 6 { 2 } else { 1 }).flat_map(move |v| [Do::With(f, v), Do::Set(f, v)])).collect()
    }
    fn step(&self, m: &Dm, o: &Do) -> Dm {
        let mut m = *m;
        match *o {
            Do::With(f, v) | Do::Set(f, v) => m[f] = v,
        }
        m
    }
    fn apply(&self, mut r: DotOptions, o: &Do) -> DotOptions {
        match *o {
            Do::With(f, v) => {
                let s = VALUES[f][v];
                match f {
                    0 => r.with_blank_shape(s),
                    1 => r.with_blank_color(s),
                    2 => r.with_iri_shape(s),
                    3 => r.with_iri_color(s),
                    4 => r.with_literal_shape(s),
                    5 => r.with_literal_color(s),
                    6 => r.with_node_prefix(s),
                    _ => r.with_blank_labels(v == 1),
                }
            }
            Do::Set(f, v) => {
                let s = VALUES[f][v];
                match f {
                    0 => r.set_blank_shape(s),
                    1 => r.set_blank_color(s),
                    2 => r.set_iri_shape(s),
                    3 => r.set_iri_color(s),
                    4 => r.set_literal_shape(s),
                    5 => r.set_literal_color(s),
                    6 => r.set_node_prefix(s),
                    _ => r.set_blank_labels(v == 1),
                }
                r
            }
        }
    }
    fn says(&self, r: &DotOptions, m: &Dm) -> R<()> {
        let got = fields(r);
        for (f, (g, w)) in got.iter().zip(wanted(m)).enumerate() {
            ck!(*g == w, "the option {f} says {g:?} and was set to {w:?}");
        }
        Ok(())
    }
    fn written(&self, r: impl Fn() -> DotOptions) -> R<String> {
        let g = sample();
        let mut w = DotWriter::new(DotOptions::default().with_blank_labels(true).with_node_prefix("other"));
        w.set_options(r());
        ck!(fields(w.options()) == fields(&r()), "the writer has other options than those given to it");
        let text = out_of(&w, g)?;
        for other in [DotWriter::new(r()), DotWriter::default().with_options(r())] {
            ck!(fields(other.options()) == fields(&r()), "the writer has other options than those given to it");
            let other = out_of(&other, g)?;
            ck!(other.len() == text.len(), "set_options and the constructors differ\n{text}\n{other}");
        }
        Ok(text)
    }
    fn does(&self, m: &Dm, text: &str) -> R<()> {
        let want = wanted(m);
        let d = parse_dot(text)?;
        ck!(!d.nodes.is_empty(), "no nodes");
        let labels: [(&str, usize); 7] = [(E, 2), (BASES[1], 2), ("v", 4), ("u", 4), ("w", 4), ("true", 4), ("1", 4)];
        for (n, a) in &d.nodes {
            ck!(n.starts_with(&want[6]), "the node {n:?} without the prefix {:?}", want[6]);
            let label = a.get("label").cloned().unwrap_or_default();
            let kind = labels.iter().find(|(l, _)| if l.len() > 5 { label.starts_with(l) } else { label == *l }).map_or(0, |(_, k)| *k);
            if kind == 0 {
                ck!(label.is_empty() != (m[7] == 1), "the label of a blank node is {label:?}");
            }
            ck!(a.get("shape") == Some(&want[kind]) && a.get("color") == Some(&want[kind + 1]), "{a:?} and not {:?}", &want[kind..kind + 2]);
        }
        Ok(())
    }
    fn stable(&self) -> bool {
        false
    }
}
fn fields(r: &DotOptions) -> [String; 8] {
    [r.blank_shape().clone(), r.blank_color().clone(), r.iri_shape().clone(), r.iri_color().clone(), r.literal_shape().clone(), r.literal_color().clone(), r.node_prefix().clone(), r.blank_labels().to_string()]
}
fn wanted(m: &Dm) -> [String; 8] {
    let d = fields(&DotOptions::default());
    std::array::from_fn(|f| if m[f] < 2 { VALUES[f][m[f]].to_string() } else { d[f].clone() })
}

// ------------------------------------------------------------------------------------------------
// RDF/XML
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Xm {
    striped: bool,
    pretty: bool,
    encoding: usize,
}
#[derive(Clone, Debug)]
enum Xo {
    Flat,
    Striped,
    Pretty,
    Plain,
    Encoding(usize),
}
struct Xml;
const ENCODINGS: [&str; 3] = ["utf-8", "UTF-8", "us-ascii"];

impl Kind for Xml {
    type M = Xm;
    type Op = Xo;
    type Real = XmlOptions;
    fn name(&self) -> &'static str {
        "RDF/XML"
    }
    fn start(&self) -> Xm {
        Xm { striped: false, pretty: false, encoding: 0 }
    }
    fn real(&self) -> XmlOptions {
        XmlOptions::default()
    }
    fn ops(&self) -> Vec<Xo> {
        vec![Xo::Flat, Xo::Striped, Xo::Pretty, Xo::Plain, Xo::Encoding(0), Xo::Encoding(1), Xo::Encoding(2)]
    }
    fn step(&self, m: &Xm, o: &Xo) -> Xm {
        let mut m = m.clone();
        match *o {
            Xo::Flat => m.striped = false,
            Xo::Striped => m.striped = true,
            Xo::Pretty => m.pretty = true,
            Xo::Plain => m.pretty = false,
            Xo::Encoding(n) => m.encoding = n,
        }
        m
    }
    fn apply(&self, r: XmlOptions, o: &Xo) -> XmlOptions {
        match *o {
            Xo::Flat => r.flat(),
            Xo::Striped => r.striped(),
            Xo::Pretty => r.pretty(),
            Xo::Plain => r.plain(),
            Xo::Encoding(n) => r.with_encoding(ENCODINGS[n]),
        }
    }
    fn says(&self, _: &XmlOptions, _: &Xm) -> R<()> {
        Ok(())
    }
    fn written(&self, r: impl Fn() -> XmlOptions) -> R<String> {
        let g = sample();
        let text = out_of(&XmlWriter::default().with_options(r()), g)?;
        let mut w = XmlWriter::default().with_options(XmlOptions::default().striped().pretty());
        w.set_options(r());
        let other = out_of(&w, g)?;
        ck!(text.len() == other.len(), "with_options and set_options differ\n{text}\n{other}");
        Ok(text)
    }
    fn does(&self, m: &Xm, text: &str) -> R<()> {
        let x = parse_xml(text)?;
        ck!(x.encoding.as_deref() == Some(ENCODINGS[m.encoding]), "the encoding is {:?}", x.encoding);
        let body = text.split_once("?>").map_or(text, |(_, b)| b).trim();
        ck!(body.contains('\n') == m.pretty, "lines: {}", body.lines().count());
        // the blank node is written where it is used, or on its own
        ck!(body.contains("nodeID") != m.striped, "references to blank nodes: {}", body.contains("nodeID"));
        Ok(())
    }
    fn stable(&self) -> bool {
        false
    }
}

// ------------------------------------------------------------------------------------------------
// The others
// ------------------------------------------------------------------------------------------------

/// TriG: (nested in what the Turtle options say, keyword left out)
#[derive(Clone, Debug)]
enum Go {
    Turtle(Option<usize>, bool),
    With(bool),
    Set(bool),
}
struct Trig;
impl Kind for Trig {
    type M = (Option<usize>, bool, bool);
    type Op = Go;
    type Real = TrigWriterOptions;
    fn name(&self) -> &'static str {
        "TriG"
    }
    fn start(&self) -> Self::M {
        (None, false, TrigWriterOptions::default().omit_graph_keyword())
    }
    fn real(&self) -> TrigWriterOptions {
        TrigWriterOptions::default()
    }
    fn ops(&self) -> Vec<Go> {
        let mut v = vec![];
        for b in [false, true] {
            v.extend([Go::With(b), Go::Set(b), Go::Turtle(None, b), Go::Turtle(Some(0), b), Go::Turtle(Some(1), b)]);
        }
        v
    }
    fn step(&self, m: &Self::M, o: &Go) -> Self::M {
        match *o {
            Go::Turtle(b, s) => (b, s, TrigWriterOptions::default().omit_graph_keyword()),
            Go::With(b) | Go::Set(b) => (m.0, m.1, b),
        }
    }
    fn apply(&self, mut r: TrigWriterOptions, o: &Go) -> TrigWriterOptions {
        match *o {
            Go::Turtle(b, s) => {
                let mut t = TurtleWriterOptions::default();
                if let Some(b) = b {
                    t.set_id_base(real_iri(BASES[b]));
                }
                t.set_use_sparql_style(s);
                t.into()
            }
            Go::With(b) => r.with_omit_graph_keyword(b),
            Go::Set(b) => {
                r.set_omit_graph_keyword(b);
                r
            }
        }
    }
    fn says(&self, r: &TrigWriterOptions, m: &Self::M) -> R<()> {
        ck!(r.omit_graph_keyword() == m.2, "the keyword is left out: {}", r.omit_graph_keyword());
        let t: &TurtleWriterOptions = r.as_ref();
        let base = t.id_base().map(|i| format!("{i:#}"));
        ck!(base.as_deref() == m.0.map(|b| BASES[b]) && t.use_sparql_style() == m.1, "the Turtle options are {t:?}");
        Ok(())
    }
    fn written(&self, r: impl Fn() -> TrigWriterOptions) -> R<String> {
        let mut d = DataSet::default();
        let mut g = sample().clone();
        g.set_name(GraphName::from(real_iri(&format!("{E}g"))));
        d.insert(g);
        let text = out_of(&TrigWriter::default().with_options(r()), &d)?;
        let mut w = TrigWriter::default().with_options(TrigWriterOptions::default().with_omit_graph_keyword(true));
        w.set_options(r());
        let other = out_of(&w, &d)?;
        ck!(text == other, "with_options and set_options differ\n{text}\n{other}");
        Ok(text)
    }
    fn does(&self, m: &Self::M, text: &str) -> R<()> {
        let t = Ttl::parse(text, true)?;
        ck!(t.blocks.len() == 1 && t.blocks[0].1 != m.2, "blocks {:?}", t.blocks);
        let base = t.directives.iter().filter(|d| d.0.to_lowercase().contains("base")).count();
        ck!(base == usize::from(m.0.is_some()), "{base} directives for the base");
        ck!(t.directives.iter().all(|d| d.1 != m.1), "the style of {:?}", t.directives);
        Ok(())
    }
}

struct Json;
impl Kind for Json {
    type M = bool;
    type Op = (bool, bool);
    type Real = JsonOptions;
    fn name(&self) -> &'static str {
        "RDF/JSON"
    }
    fn start(&self) -> bool {
        JsonOptions::default().pretty_print()
    }
    fn real(&self) -> JsonOptions {
        JsonOptions::default()
    }
    fn ops(&self) -> Vec<(bool, bool)> {
        vec![(false, false), (false, true), (true, false), (true, true)]
    }
    fn step(&self, _: &bool, o: &(bool, bool)) -> bool {
        o.1
    }
    fn apply(&self, mut r: JsonOptions, o: &(bool, bool)) -> JsonOptions {
        if o.0 {
            r.with_pretty_print(o.1)
        } else {
            r.set_pretty_print(o.1);
            r
        }
    }
    fn says(&self, r: &JsonOptions, m: &bool) -> R<()> {
        ck!(r.pretty_print() == *m, "pretty: {}", r.pretty_print());
        Ok(())
    }
    fn written(&self, r: impl Fn() -> JsonOptions) -> R<String> {
        let g = sample();
        let w = JsonWriter::default().with_options(r());
        ck!(w.options().pretty_print() == r().pretty_print(), "the writer has other options than those given to it");
        let text = out_of(&w, g)?;
        let mut w = JsonWriter::default().with_options(JsonOptions::default().with_pretty_print(!r().pretty_print()));
        w.set_options(r());
        let other = out_of(&w, g)?;
        ck!(text.len() == other.len(), "with_options and set_options differ\n{text}\n{other}");
        Ok(text)
    }
    fn does(&self, m: &bool, text: &str) -> R<()> {
        ck!(text.trim().contains('\n') == *m, "lines: {}", text.lines().count());
        Ok(())
    }
    fn stable(&self) -> bool {
        false
    }
}

struct Nt;
impl Kind for Nt {
    type M = bool;
    type Op = bool;
    type Real = NTripleWriterOptions;
    fn name(&self) -> &'static str {
        "N-Triples"
    }
    fn start(&self) -> bool {
        true
    }
    fn real(&self) -> NTripleWriterOptions {
        NTripleWriterOptions::default()
    }
    fn ops(&self) -> Vec<bool> {
        vec![false, true]
    }
    fn step(&self, _: &bool, o: &bool) -> bool {
        *o
    }
    fn apply(&self, r: NTripleWriterOptions, o: &bool) -> NTripleWriterOptions {
        r.force_string_literals(*o)
    }
    fn says(&self, _: &NTripleWriterOptions, _: &bool) -> R<()> {
        Ok(())
    }
    fn written(&self, r: impl Fn() -> NTripleWriterOptions) -> R<String> {
        let mut w = NTripleWriter::default();
        w.set_options(r());
        out_of(&w, sample())
    }
    fn does(&self, m: &bool, text: &str) -> R<()> {
        ck!(text.lines().count() == 9, "{} lines", text.lines().count());
        for n in ["1", "true"] {
            let quoted = text.contains(&format!(" \"{n}\"^^<{XSD}"));
            let bare = text.contains(&format!(" {n} .\n"));
            ck!(quoted == *m && bare != *m, "{n} is quoted: {quoted}");
        }
        Ok(())
    }
    fn stable(&self) -> bool {
        false
    }
}

pub fn e18(c: &Check) {
    explore(c, &Turtle, c.bound(3, 4));
    explore(c, &Dot { all: c.thorough() }, c.bound(2, 3));
    explore(c, &Xml, c.bound(4, 6));
    explore(c, &Trig, c.bound(4, 6));
    explore(c, &Json, c.bound(6, 8));
    explore(c, &Nt, c.bound(8, 12));
}

//! E13 writers report every failure of the output, E14 readers report every failure of the input and
//! do not depend on how it arrives, E15 a writer or reader can be used again, whatever happened before.

use crate::ck;
use crate::dot::{check_dot, mapping, Look};
use crate::json::interpret;
use crate::nt::{of_set, out_of, real_data_set, run1, strip_quads, Set};
use crate::refs::*;
use crate::turtle::{check_text, prefix_map, trig_text, Opts};
use crate::universe::*;
use crate::xmlref::parse_rdf;
use mclib::*;
use mcrdf::*;
use objio::{HasOptions, ObjectReader, ObjectWriter};
use rdftk_core::error::Error;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::Graph;
use rdftk_io::dot::DotWriter;
use rdftk_io::json::{JsonReader, JsonWriter};
use rdftk_io::nq::{NQuadReader, NQuadWriter};
use rdftk_io::nt::{NTripleReader, NTripleWriter};
use rdftk_io::trig::{TrigWriter, TrigWriterOptions};
use rdftk_io::turtle::TurtleWriter;
use rdftk_io::xml::{XmlOptions, XmlReader, XmlWriter};
use std::io::{ErrorKind, Read, Write};

type R<X> = Result<X, String>;

// ------------------------------------------------------------------------------------------------
// Outputs and inputs that fail
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// from this byte on, nothing is accepted
    Byte(usize, ErrorKind),
    /// from this byte on, `Ok(0)`
    Full(usize),
    /// only this call fails
    Call(usize, ErrorKind),
    /// every call of flush fails
    Flush,
}

struct Sink {
    out: Vec<u8>,
    fault: Fault,
    /// at most so many bytes by one call
    most: usize,
    /// every other call is interrupted
    interrupted: bool,
    calls: usize,
    /// told the writer about a failure
    told: bool,
}

impl Sink {
    fn new(fault: Fault) -> Self {
        Sink { out: vec![], fault, most: usize::MAX, interrupted: false, calls: 0, told: false }
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let call = self.calls;
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupted && call % 2 == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.most);
        match self.fault {
            Fault::Byte(k, e) => {
                n = n.min(k.saturating_sub(self.out.len()));
                if n == 0 {
                    self.told = true;
                    return Err(e.into());
                }
            }
            Fault::Full(k) => {
                n = n.min(k.saturating_sub(self.out.len()));
                if n == 0 {
                    self.told = true;
                    return Ok(0);
                }
            }
            Fault::Call(k, e) if k == call => {
                self.told = true;
                return Err(e.into());
            }
            _ => {}
        }
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        match self.fault {
            Fault::Flush => {
                self.told = true;
                Err(ErrorKind::Other.into())
            }
            Fault::Byte(k, e) if self.out.len() >= k => {
                self.told = true;
                Err(e.into())
            }
            _ => Ok(()),
        }
    }
}

pub struct Source<'a> {
    text: &'a [u8],
    at: usize,
    fault: Fault,
    /// sizes of the pieces, repeated
    sizes: &'a [usize],
    interrupted: bool,
    calls: usize,
    told: bool,
}

impl<'a> Source<'a> {
    pub fn new(text: &'a [u8], fault: Fault) -> Self {
        Source { text, at: 0, fault, sizes: &[usize::MAX], interrupted: false, calls: 0, told: false }
    }
}

impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let call = self.calls;
        self.calls += 1;
        if self.interrupted && call % 2 == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.text.len() - self.at).min(self.sizes[(call >> self.interrupted as usize) % self.sizes.len()]);
        if let Fault::Byte(k, e) = self.fault {
            n = n.min(k.saturating_sub(self.at));
            if n == 0 && !b.is_empty() && self.at >= k {
                self.told = true;
                return Err(e.into());
            }
        }
        if let Fault::Call(k, e) = self.fault {
            if k == call {
                self.told = true;
                return Err(e.into());
            }
        }
        b[..n].copy_from_slice(&self.text[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

// ------------------------------------------------------------------------------------------------
// Writers
// ------------------------------------------------------------------------------------------------

/// The layout of a document, without what depends on the order of hash sets and on generated labels.
fn layout(kind: &str, out: &[u8]) -> Vec<Vec<u8>> {
    let kept: Vec<u8> = out.iter().copied().filter(|b| !b.is_ascii_digit()).collect();
    let mut all = kept.clone();
    all.sort_unstable();
    let mut v = vec![];
    if !matches!(kind, "json" | "json pretty" | "xml flat") {
        v.extend(kept.split(|b| *b == b'\n').map(|l| l.to_vec()));
        v.sort();
    }
    v.push(all);
    v
}

/// What is written, built once: it is iterated in the same order each time.
struct Doc {
    ts: Vec<Triple>,

    graph: Graph,
    graphs: DataSet,
}

fn doc(ts: &[Triple]) -> Doc {
    let set: Set = vec![(None, ts.to_vec()), (Some(iri(&ex("g"))), ts.iter().take(1).cloned().collect())];
    let mut graph = real_graph(ts);
    graph.set_prefix_mappings(prefix_map(1));
    let mut graphs = real_data_set(&set);
    for (n, _) in &set {
        graphs.graph_mut(&n.as_ref().map(real_name)).unwrap().set_prefix_mappings(prefix_map(1));
    }
    Doc { ts: ts.to_vec(), graph, graphs }
}

enum Wr {
    Nt(NTripleWriter),
    Nq(NQuadWriter),
    Json(JsonWriter),
    Turtle(TurtleWriter, Opts),
    Trig(TrigWriter, Opts),
    Xml(XmlWriter),
    Dot(DotWriter, Look),
}

const WRITERS: [&str; 14] = [
    "nt", "nq", "json", "json pretty", "turtle", "turtle flat", "turtle styled", "turtle wide", "trig", "trig omit", "xml flat", "xml striped pretty", "dot", "dot labels",
];

fn writer(kind: &str) -> Wr {
    let opts = |flat: bool, styled: bool| Opts { base: styled.then_some("http://example.org/"), flat, sparql: styled, padding: styled, type_on_line: styled, indent: None, prefixes: 1, ..Default::default() };
    let turtle = |o: Opts| Wr::Turtle(o.writer(), o);
    let trig = |o: Opts, omit: bool| Wr::Trig(TrigWriter::default().with_options(TrigWriterOptions::from(o.real()).with_omit_graph_keyword(omit)), o);
    match kind {
        "nt" => Wr::Nt(NTripleWriter::default()),
        "nq" => Wr::Nq(NQuadWriter::default()),
        "json" => Wr::Json(crate::json::writer(false)),
        "json pretty" => Wr::Json(crate::json::writer(true)),
        "turtle" => turtle(opts(false, false)),
        "turtle flat" => turtle(opts(true, false)),
        "turtle styled" => turtle(opts(false, true)),
        "turtle wide" => turtle(Opts { indent: Some(7), ..opts(false, false) }),
        "trig" => trig(opts(false, false), false),
        "trig omit" => trig(opts(true, true), true),
        "xml flat" => Wr::Xml(XmlWriter::default().with_options(XmlOptions::default().flat().plain())),
        "xml striped pretty" => Wr::Xml(XmlWriter::default().with_options(XmlOptions::default().striped().pretty())),
        "dot" => Wr::Dot(DotWriter::default(), Look::default()),
        "dot labels" => {
            let l = Look { labels: true, prefix: "n".into(), ..Look::default() };
            Wr::Dot(DotWriter::new(l.with()), l)
        }
        _ => unreachable!(),
    }
}

impl Wr {
    fn write(&self, mut s: &mut Sink, d: &Doc) -> Result<(), Error> {
        let s = &mut s;
        match self {
            Wr::Nt(w) => w.write(s, &d.graph),
            Wr::Json(w) => w.write(s, &d.graph),
            Wr::Turtle(w, _) => w.write(s, &d.graph),
            Wr::Xml(w) => w.write(s, &d.graph),
            Wr::Dot(w, _) => w.write(s, &d.graph),
            Wr::Nq(w) => w.write(s, &d.graphs),
            Wr::Trig(w, _) => w.write(s, &d.graphs),
        }
    }
    /// the options of another writer of the same kind
    fn options_of(&mut self, o: Wr) {
        match (self, o) {
            (Wr::Turtle(w, a), Wr::Turtle(_, b)) => {
                w.set_options(b.real());
                *a = b;
            }
            (Wr::Json(w), Wr::Json(o)) => w.set_options(rdftk_io::json::JsonOptions::default().with_pretty_print(o.options().pretty_print())),
            (Wr::Xml(w), Wr::Xml(o)) => w.set_options(o.options().clone()),
            (Wr::Trig(w, a), Wr::Trig(o, b)) => {
                w.set_options(TrigWriterOptions::from(b.real()).with_omit_graph_keyword(o.options().omit_graph_keyword()));
                *a = b;
            }
            (Wr::Dot(w, a), Wr::Dot(_, b)) => {
                w.set_options(b.with());
                *a = b;
            }
            _ => unreachable!(),
        }
    }
    fn check(&self, out: &[u8], d: &Doc) -> R<()> {
        let text = std::str::from_utf8(out).map_err(|e| format!("not UTF-8: {e}"))?;
        let same = |got: &[Triple], want: &[Triple]| {
            ck!(isomorphic(&strip(got), &strip(want)), "the document states something else\n{text}");
            Ok(())
        };
        let quads = || {
            let mut v: Vec<Quad> = vec![];
            for g in d.graphs.graphs() {
                v.extend(meaning(g).into_iter().map(|t| (g.name().map(of_name), t)));
            }
            v
        };
        match self {
            Wr::Nt(_) => same(&triples(&parse_nq(text, false, Layout::Strict)?), &meaning(&d.graph)),
            Wr::Nq(_) => {
                ck!(quads_iso(&strip_quads(&parse_nq(text, true, Layout::Strict)?), &strip_quads(&quads())), "the document states something else\n{text}");
                Ok(())
            }
            Wr::Json(w) => {
                let v = serde_json::from_str(text).map_err(|e| format!("not JSON: {e}\n{text}"))?;
                ck!(w.options().pretty_print() == text.contains('\n') || d.ts.is_empty(), "pretty or not\n{text}");
                same(&interpret(&v).map_err(|e| e.1)?, &meaning(&d.graph))
            }
            Wr::Turtle(_, o) => check_text(text, &d.ts, &d.graph, o),
            Wr::Trig(w, o) => trig_text(text, &quads(), &d.graphs.graphs().map(|g| g.name().map(of_name)).collect::<Vec<_>>(), o, w.options().omit_graph_keyword()),
            Wr::Xml(_) => same(&parse_rdf(text)?, &meaning(&d.graph)),
            Wr::Dot(_, l) => check_dot(text, &flatten(&of_graph(&d.graph)), &mapping(1), l),
        }
    }
    /// written by a writer of this kind that was never used
    fn size(kind: &str, d: &Doc) -> R<(usize, usize)> {
        let mut s = Sink::new(Fault::None);
        writer(kind).write(&mut s, d).map_err(|e| format!("writing failed: {e}"))?;
        Ok((s.out.len(), s.calls))
    }
}

fn graphs(c: &Check, size: usize) -> Vec<Vec<Triple>> {
    let a = iri(&ex("a"));
    let mut v = vec![
        vec![],
        vec![(a.clone(), ns("p"), plain("é\"<\n"))],
        vec![(a.clone(), rdf("type"), iri(&ns("T"))), (a.clone(), ns("p"), blank("x")), (blank("x"), ns("q"), lang("t", "en")), (blank("x"), ns("q"), typed("5", &xsd("integer")))],
        vec![(a.clone(), ns("p"), T::Coll(vec![plain("t"), blank("x")])), (blank("x"), ns("p"), a.clone())],
        vec![(a.clone(), ns("p"), quote((a.clone(), ns("q"), plain("t"))))],
    ];
    let m = mixed();
    v.extend(subsets(m.len(), size).iter().map(|s| pick(&m, s)));
    if c.thorough() {
        v.extend(compound(2).into_iter().map(|t| vec![t]));
    }
    v
}

// ------------------------------------------------------------------------------------------------
// E13
// ------------------------------------------------------------------------------------------------

pub fn e13(c: &Check) {
    let jobs: Vec<(&str, Vec<Triple>)> = WRITERS.iter().flat_map(|w| graphs(c, c.bound(1, 2)).into_iter().map(move |g| (*w, g))).collect();
    let kinds: &[ErrorKind] = if c.thorough() { &[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WriteZero, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof] } else { &[ErrorKind::Other, ErrorKind::BrokenPipe] };
    c.add_states(jobs.len() as u64);
    par_each(&jobs, |(kind, ts)| {
        let name = || format!("{kind}: {}", show(ts));
        let d = doc(ts);
        let mut total = (0, 0);
        run1(c, || format!("{} size", name()), || {
            total = Wr::size(kind, &d)?;
            Ok(())
        });
        let mut faults = vec![Fault::None, Fault::Flush];
        for k in 0..total.0 {
            faults.extend(kinds.iter().map(|e| Fault::Byte(k, *e)));
            faults.push(Fault::Full(k));
        }
        for k in 0..total.1 {
            faults.extend(kinds.iter().map(|e| Fault::Call(k, *e)));
        }
        for f in &faults {
            run1(c, || format!("{} {f:?}", name()), || {
                let w = writer(kind);
                let mut s = Sink::new(*f);
                let r = w.write(&mut s, &d);
                if matches!(f, Fault::Byte(..) | Fault::Full(_)) {
                    ck!(s.told, "not everything was written");
                }
                ck!(r.is_err() == s.told, "the output {}, but the writer returns {r:?}; written:\n{}", if s.told { "failed" } else { "did not fail" }, String::from_utf8_lossy(&s.out));
                if r.is_ok() {
                    w.check(&s.out, &d)?;
                }
                Ok(())
            });
        }
        c.outcome(kind, faults.len() as u64);
        c.add_transitions(faults.len() as u64);
        // outputs that take little at a time
        for most in (1..=c.bound(16usize, 64usize)).chain([usize::MAX]) {
            for interrupted in [false, true] {
                run1(c, || format!("{} at most {most} interrupted {interrupted}", name()), || {
                    let w = writer(kind);
                    let mut s = Sink::new(Fault::None);
                    (s.most, s.interrupted) = (most, interrupted);
                    w.write(&mut s, &d).map_err(|e| format!("writing failed: {e}"))?;
                    w.check(&s.out, &d)
                });
                c.add_transitions(1);
                c.outcome("slow outputs", 1);
            }
        }
        c.add_traces(faults.len() as u64);
    });
}

// ------------------------------------------------------------------------------------------------
// E14
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Rd {
    Nt,
    Nq,
    Json,
    Xml,
}

fn fresh_blank(q: Vec<Quad>) -> Vec<Quad> {
    q.into_iter().map(|(g, t)| (g, norm3(&t))).collect()
}

impl Rd {
    fn read(&self, mut s: &mut Source) -> Result<Vec<Quad>, Error> {
        let s = &mut s;
        let of = |g: Graph| of_graph(&g).into_iter().map(|t| (None, t)).collect();
        Ok(fresh_blank(match self {
            Rd::Nt => of(NTripleReader::default().read(s)?),
            Rd::Json => of(JsonReader::default().read(s)?),
            Rd::Xml => of(XmlReader::default().read(s)?),
            Rd::Nq => of_set(&NQuadReader::default().read(s)?),
        }))
    }
    /// what the text states, if it is well formed
    fn states(&self, text: &str, l: Layout) -> R<Vec<Quad>> {
        let of = |t: Vec<Triple>| t.into_iter().map(|t| (None, t)).collect();
        Ok(fresh_blank(match self {
            Rd::Nt => parse_nq(text, false, l)?,
            Rd::Nq => parse_nq(text, true, l)?,
            Rd::Json => of(interpret(&serde_json::from_str(text).map_err(|e| e.to_string())?).map_err(|e| e.1)?),
            Rd::Xml => of(parse_rdf(text)?),
        }))
    }
}

fn inputs(c: &Check) -> Vec<(Rd, String)> {
    let mut v: Vec<(Rd, String)> = [
        (Rd::Nt, ""),
        (Rd::Nt, "<http://h/e> <http://h/p> \"a\\n\\u00e9😀\"@en-US . # é\n\n_:x <http://h/p> _:y.1 .\r\n<http://h/a> <http://h/p> \"5\"^^<http://h/d>\t."),
        (Rd::Nq, "<http://h/e> <http://h/p> \"a\\\"😀\"@en <http://h/g> .\n_:x <http://h/p> _:y _:g .#é\n\n<http://h/a> <http://h/p> \"5\"^^<http://h/d> .\n"),
        (Rd::Json, "{}"),
        (Rd::Json, "{ \"http://h/e\" : {\"http://h/p\":[{\"type\":\"literal\",\"value\":\"é\\u00e9😀\",\"lang\":\"en\"},\n{\"type\":\"uri\",\"value\":\"http://h/o\"}]},\"_:x\":{\"http://h/p\":[{\"type\":\"bnode\",\"value\":\"_:y\"},{\"value\":\"5\",\"type\":\"literal\",\"datatype\":\"http://h/d\"}],\"http://h/q\":[]}}\n"),
        (Rd::Xml, "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!-- é -->\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\" xmlns:n=\"http://h/n#\">\n <rdf:Description rdf:about=\"http://h/e\" n:p='a&#xe9;&amp;😀'>\n  <n:q xml:lang=\"en\">é<![CDATA[<😀>]]>&lt;</n:q>\n  <n:q rdf:resource=\"http://h/o\"/><n:r rdf:parseType=\"Collection\"><n:T rdf:nodeID=\"x\"/></n:r>\n </rdf:Description>\n</rdf:RDF>\n<!-- end -->\n"),
        (Rd::Xml, "<r:RDF xmlns:r='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:n='http://h/n#'><n:T><n:q r:datatype='http://h/d'>5</n:q><n:p r:parseType='Resource'><n:q>a</n:q></n:p></n:T></r:RDF>"),
    ]
    .iter()
    .map(|(r, t)| (*r, t.to_string()))
    .collect();
    if c.thorough() {
        for ts in graphs(c, 1) {
            let d = doc(&ts);
            v.push((Rd::Nt, out_of(&NTripleWriter::default(), &d.graph).unwrap()));
            v.push((Rd::Json, out_of(&crate::json::writer(true), &d.graph).unwrap()));
            v.push((Rd::Nq, out_of(&NQuadWriter::default(), &d.graphs).unwrap()));
            v.push((Rd::Xml, out_of(&XmlWriter::default().with_options(XmlOptions::default().striped().pretty()), &d.graph).unwrap()));
        }
    }
    v
}

pub fn e14(c: &Check) {
    let jobs = inputs(c);
    c.add_states(jobs.len() as u64);
    let kinds: &[ErrorKind] = if c.thorough() { &[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::BrokenPipe] } else { &[ErrorKind::Other, ErrorKind::UnexpectedEof] };
    par_each(&jobs, |(rd, text)| {
        let bytes = text.as_bytes();
        let key = |w: String| format!("{rd:?} {w}: {text}");
        let mut whole = vec![];
        run1(c, || key("whole".into()), || {
            whole = rd.read(&mut Source::new(bytes, Fault::None)).map_err(|e| format!("rejected: {e}"))?;
            let want = rd.states(text, Layout::Strict).map_err(|e| format!("the reference rejects it: {e}"))?;
            ck!(quads_iso(&whole, &want), "read as {whole:?}, but states {want:?}");
            Ok(())
        });
        // in pieces
        let pieces = |sizes: &[usize], interrupted: bool| {
            run1(c, || key(format!("in pieces of {sizes:?} interrupted {interrupted}")), || {
                let mut s = Source::new(bytes, Fault::None);
                (s.sizes, s.interrupted) = (sizes, interrupted);
                let got = rd.read(&mut s).map_err(|e| format!("rejected: {e}"))?;
                ck!(quads_iso(&got, &whole), "read as {got:?}, but in one piece as {whole:?}");
                Ok(())
            });
            c.outcome("pieces", 1);
            c.add_transitions(1);
        };
        for k in 1..=bytes.len().max(1) {
            pieces(&[k, usize::MAX], false);
            pieces(&[k], false);
            for interrupted in [false, true] {
                if k <= c.bound(7, 24) {
                    pieces(&[k], interrupted);
                    for l in 1..=c.bound(4, 8) {
                        pieces(&[k, l], interrupted);
                    }
                }
            }
        }
        // failures
        let calls = {
            let mut s = Source::new(bytes, Fault::None);
            s.sizes = &[3];
            let _ = rd.read(&mut s);
            s.calls
        };
        let mut faults: Vec<(Fault, &[usize])> = vec![];
        for k in 0..=bytes.len() {
            for e in kinds {
                faults.push((Fault::Byte(k, *e), &[usize::MAX]));
                faults.push((Fault::Byte(k, *e), &[1]));
            }
        }
        for k in 0..calls {
            faults.extend(kinds.iter().map(|e| (Fault::Call(k, *e), &[3usize][..])));
        }
        for (f, sizes) in faults {
            run1(c, || key(format!("{f:?} {sizes:?}")), || {
                let mut s = Source::new(bytes, f);
                s.sizes = sizes;
                let r = rd.read(&mut s);
                ck!(s.told, "the input is not read to its end");
                ck!(r.is_err(), "the input failed, but the reader returns {r:?}");
                Ok(())
            });
            c.outcome("failures", 1);
            c.add_transitions(1);
        }
        // the input ends early, or has bytes that are not UTF-8
        for k in 0..bytes.len() {
            run1(c, || key(format!("the first {k} bytes")), || {
                let r = rd.read(&mut Source::new(&bytes[..k], Fault::None));
                let want = |l| std::str::from_utf8(&bytes[..k]).map_err(|e| e.to_string()).and_then(|t| rd.states(t, l));
                // layout that the grammars do not allow may be accepted
                match (&r, want(Layout::Free), want(Layout::Strict)) {
                    (Ok(g), Ok(w), _) => ck!(quads_iso(g, &w), "read as {g:?}, but states {w:?}"),
                    (Ok(g), Err(e), _) => return Err(format!("read as {g:?}, but it is not well formed: {e}")),
                    (Err(e), _, Ok(_)) => return Err(format!("rejected, but it is well formed: {e}")),
                    _ => {}
                }
                Ok(())
            });
            c.outcome("truncated", 1);
            c.add_transitions(1);
        }
        let bad: &[&[u8]] = &[&[0xff], &[0x80], &[0xc3], &[0xc0, 0xaf], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe2, 0x82]];
        for k in 0..=bytes.len() {
            if !text.is_char_boundary(k) {
                continue;
            }
            for b in bad {
                let broken = [&bytes[..k], b, &bytes[k..]].concat();
                run1(c, || key(format!("with {b:x?} at {k}")), || {
                    let r = rd.read(&mut Source::new(&broken, Fault::None));
                    ck!(r.is_err(), "not UTF-8, but read as {r:?}");
                    Ok(())
                });
                c.outcome("not UTF-8", 1);
                c.add_transitions(1);
            }
        }
        c.add_traces(bytes.len() as u64);
    });
}

// ------------------------------------------------------------------------------------------------
// E15
// ------------------------------------------------------------------------------------------------

pub fn e15(c: &Check) {
    let a = iri(&ex("a"));
    let gs: Vec<Vec<Triple>> = vec![
        vec![(a.clone(), ns("p"), blank("x")), (blank("x"), ns("q"), blank("y")), (blank("y"), ns("q"), plain("t"))],
        vec![(blank("x"), ns("p"), plain("u")), (a.clone(), rdf("type"), blank("y"))],
        vec![(a.clone(), ns("p"), T::Coll(vec![plain("t"), blank("x")]))],
        vec![(blank("y"), ns("p"), blank("y")), (a.clone(), ns("p"), quote((a.clone(), ns("q"), plain("t"))))],
        vec![],
    ];
    let fresh = |kind: &str, d: &Doc| {
        let mut s = Sink::new(Fault::None);
        let _ = writer(kind).write(&mut s, d);
        layout(kind, &s.out)
    };
    // one past: a complete write, or one that failed at some byte; then another write
    #[derive(Clone, Copy, Debug)]
    struct Op {
        doc: usize,
        fail: Option<usize>,
    }
    let run = |kind: &str, docs: &[Doc], new: &[Vec<Vec<u8>>], past: &[Op], last: usize| {
        run1(c, || format!("{kind}: {past:?} then {last}"), || {
            let w = writer(kind);
            for o in past {
                let mut s = Sink::new(o.fail.map_or(Fault::None, |k| Fault::Byte(k, ErrorKind::Other)));
                let r = w.write(&mut s, &docs[o.doc]);
                ck!(r.is_err() == s.told, "{r:?}");
                if r.is_ok() {
                    w.check(&s.out, &docs[o.doc])?;
                }
            }
            let mut s = Sink::new(Fault::None);
            w.write(&mut s, &docs[last]).map_err(|e| format!("writing failed: {e}"))?;
            ck!(layout(kind, &s.out) == new[last], "laid out differently than by a new writer\n{}", String::from_utf8_lossy(&s.out));
            w.check(&s.out, &docs[last])
        });
        c.add_transitions(past.len() as u64 + 1);
        c.add_traces(1);
    };
    let kinds: Vec<&str> = WRITERS.to_vec();
    let mut jobs = vec![];
    for k in &kinds {
        for first in 0..gs.len() {
            jobs.push((*k, first));
        }
    }
    par_each(&jobs, |(kind, first)| {
        let docs: Vec<Doc> = gs.iter().map(|g| doc(g)).collect();
        let new: Vec<Vec<Vec<u8>>> = docs.iter().map(|d| fresh(kind, d)).collect();
        let ops = |d: usize| -> Vec<Op> {
            let n = Wr::size(kind, &docs[d]).map(|n| n.0).unwrap_or(0);
            std::iter::once(None).chain((0..n).map(Some)).map(|fail| Op { doc: d, fail }).collect()
        };
        let mut n = 0;
        for o in ops(*first) {
            for last in 0..gs.len() {
                run(kind, &docs, &new, &[o], last);
                n += 1;
                // and something complete in between
                for mid in 0..gs.len() {
                    if c.thorough() || o.fail.is_none() {
                        run(kind, &docs, &new, &[o, Op { doc: mid, fail: None }], last);
                        run(kind, &docs, &new, &[Op { doc: mid, fail: None }, o], last);
                        n += 2;
                    }
                }
            }
        }
        if c.thorough() && *first % 3 == 0 {
            // two failures
            for o in ops(*first) {
                for p in ops((*first + 1) % gs.len()) {
                    if p.fail.is_some() && o.fail.is_some() {
                        run(kind, &docs, &new, &[o, p], (*first + 2) % gs.len());
                        n += 1;
                    }
                }
            }
        }
        c.outcome(kind, n);
        c.add_states(n);
    });
    // options changed in between, after a complete write or one that failed at some byte
    let mut jobs = vec![];
    for group in [
        &["json", "json pretty"][..],
        &["turtle", "turtle flat", "turtle styled", "turtle wide"][..],
        &["trig", "trig omit"][..],
        &["xml flat", "xml striped pretty"][..],
        &["dot", "dot labels"][..],
    ] {
        for x in group {
            for y in group {
                for i in 0..gs.len() {
                    jobs.push((*x, *y, i));
                }
            }
        }
    }
    par_each(&jobs, |(x, y, i)| {
        let docs: Vec<Doc> = gs.iter().map(|g| doc(g)).collect();
        // failures of the documents with nested nodes only, unless thorough
        let size = if c.thorough() || *i == 0 || *i == 3 { Wr::size(x, &docs[*i]).map(|n| n.0).unwrap_or(0) } else { 0 };
        for (j, d) in docs.iter().enumerate() {
            let new = fresh(y, d);
            for fail in std::iter::once(None).chain((0..size).map(Some)) {
                run1(c, || format!("{x} {i} {fail:?} then {y} {j}"), || {
                    let mut w = writer(x);
                    let mut s = Sink::new(fail.map_or(Fault::None, |k| Fault::Byte(k, ErrorKind::Other)));
                    let r = w.write(&mut s, &docs[*i]);
                    ck!(r.is_err() == s.told, "{r:?}");
                    w.options_of(writer(y));
                    let mut s = Sink::new(Fault::None);
                    w.write(&mut s, d).map_err(|e| format!("writing failed: {e}"))?;
                    ck!(layout(y, &s.out) == new, "laid out differently than by a new writer\n{}", String::from_utf8_lossy(&s.out));
                    w.check(&s.out, d)
                });
                c.outcome("options", 1);
                c.add_transitions(2);
            }
        }
    });
    // readers: a failed or complete read, then another
    let ins = inputs(c).into_iter().take(7).collect::<Vec<_>>();
    let (nt, nq, json, xml) = (NTripleReader::default(), NQuadReader::default(), JsonReader::default(), XmlReader::default());
    let read = |rd: Rd, b: &[u8]| -> R<Vec<Quad>> {
        let s = &mut &b[..];
        let of = |g: Graph| of_graph(&g).into_iter().map(|t| (None, t)).collect();
        Ok(fresh_blank(match rd {
            Rd::Nt => of(nt.read(s).map_err(|e| e.to_string())?),
            Rd::Json => of(json.read(s).map_err(|e| e.to_string())?),
            Rd::Xml => of(xml.read(s).map_err(|e| e.to_string())?),
            Rd::Nq => of_set(&nq.read(s).map_err(|e| e.to_string())?),
        }))
    };
    for (rd, first) in &ins {
        for (rd2, second) in &ins {
            if rd != rd2 {
                continue;
            }
            for k in 0..=first.len() {
                run1(c, || format!("{rd:?} the first {k} bytes of {first:?}, then {second:?}"), || {
                    let _ = read(*rd, &first.as_bytes()[..k]);
                    let got = read(*rd, second.as_bytes())?;
                    let want = rd.states(second, Layout::Strict)?;
                    ck!(quads_iso(&got, &want), "read as {got:?}, but states {want:?}");
                    Ok(())
                });
                c.outcome("readers", 1);
                c.add_transitions(2);
            }
        }
    }
}

//! E16 what the formats are published as; E17 the formats which can be written but not read.

use crate::ck;
use crate::faults::{Fault, Source};
use crate::nt::{dressed, of_set, out_of, run1};
use crate::refs::*;
use crate::turtle::Opts;
use crate::universe::*;
use mclib::*;
use mcrdf::*;
use objio::ObjectReader;
use rdftk_core::error::Error;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::Graph;
use rdftk_io::dot::DotWriter;
use rdftk_io::json::JsonWriter;
use rdftk_io::n3::N3Reader;
use rdftk_io::nq::NQuadWriter;
use rdftk_io::nt::NTripleWriter;
use rdftk_io::trig::{TrigReader, TrigWriter};
use rdftk_io::turtle::{TurtleReader, TurtleWriter};
use rdftk_io::xml::XmlWriter;
use std::collections::BTreeMap;
use std::io::ErrorKind;

/// A format: its names here, what is registered for it, and how a document of it is recognised.
struct Format {
    module: &'static str,
    name: &'static str,
    extension: &'static str,
    media: &'static str,
    iri: Option<&'static str>,
    /// registered with IANA, or published by W3C
    registered: (&'static str, &'static [&'static str], &'static str),
    written: Option<fn(&Graph) -> R<String>>,
}

macro_rules! published {
    ($module:ident, $iri:expr, $registered:expr, $written:expr) => {
        Format {
            module: stringify!($module),
            name: rdftk_io::$module::NAME,
            extension: rdftk_io::$module::FILE_EXTENSION,
            media: rdftk_io::$module::MIME_TYPE,
            iri: $iri,
            registered: $registered,
            written: $written,
        }
    };
}

fn formats() -> Vec<Format> {
    vec![
        published!(nt, None, ("application/n-triples", &["nt"], "N-Triples"), Some(|g| out_of(&NTripleWriter::default(), g))),
        published!(nq, Some(rdftk_io::nq::FORMAT_IRI), ("application/n-quads", &["nq"], "N-Quads"), Some(|g| out_of(&NQuadWriter::default(), g))),
        published!(turtle, None, ("text/turtle", &["ttl"], "Turtle"), Some(|g| out_of(&TurtleWriter::default(), g))),
        published!(trig, None, ("application/trig", &["trig"], "TriG"), Some(|g| out_of(&TrigWriter::default(), g))),
        published!(n3, Some(rdftk_io::n3::FORMAT_IRI), ("text/n3", &["n3"], "N3"), None),
        published!(xml, None, ("application/rdf+xml", &["rdf"], "RDF_XML"), Some(|g| out_of(&XmlWriter::default(), g))),
        published!(json, None, ("application/rdf+json", &["rj", "json"], "RDF_JSON"), Some(|g| out_of(&JsonWriter::default(), g))),
        published!(dot, None, ("text/vnd.graphviz", &["dot", "gv"], "DOT"), Some(|g| out_of(&DotWriter::default(), g))),
    ]
}

/// The kinds of document which a text is, of those that are registered under different names.
fn kinds_of(text: &str) -> Vec<&'static str> {
    let mut v = vec![];
    if parse_nq(text, false, Layout::Strict).is_ok() {
        v.push("nt");
    }
    if parse_nq(text, true, Layout::Strict).is_ok() {
        v.push("nq");
    }
    if Ttl::parse(text, false).is_ok() {
        v.push("turtle");
    }
    if Ttl::parse(text, true).is_ok() {
        v.push("trig");
    }
    if crate::xmlref::parse_rdf(text).is_ok() {
        v.push("xml");
    }
    if serde_json::from_str(text).is_ok_and(|j| crate::json::interpret(&j).is_ok()) {
        v.push("json");
    }
    if crate::dot::parse_dot(text).is_ok() {
        v.push("dot");
    }
    v
}

pub fn e16(c: &Check) {
    let all = formats();
    let token = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || "+-.".contains(c));
    for f in &all {
        run1(c, || format!("names of {}", f.module), || {
            let (media, extensions, last) = f.registered;
            ck!(f.media == media, "the media type is {:?} and not {media:?}", f.media);
            ck!(matches!(f.media.split_once('/'), Some((a, b)) if token(a) && token(b)), "{:?} is not a media type", f.media);
            ck!(extensions.contains(&f.extension), "the extension is {:?} and not one of {extensions:?}", f.extension);
            if let Some(iri) = f.iri {
                ck!(iri == format!("http://www.w3.org/ns/formats/{last}"), "the IRI is {iri:?}");
            }
            ck!(!f.name.trim().is_empty() && f.name.trim() == f.name, "the name is {:?}", f.name);
            Ok(())
        });
        c.add_states(1);
    }
    for a in 0..all.len() {
        for b in 0..a {
            let (a, b) = (&all[a], &all[b]);
            run1(c, || format!("{} and {}", a.module, b.module), || {
                ck!(a.name != b.name && a.extension != b.extension && a.media != b.media, "are published under the same name");
                ck!(a.iri.is_none() || a.iri != b.iri, "are published under the same name");
                Ok(())
            });
            c.add_transitions(1);
        }
    }
    // what is written in a format is a document of that format
    let m = mixed();
    let mut gs: Vec<Vec<Triple>> = subsets(m.len(), c.bound(1, 2)).iter().map(|s| pick(&m, s)).collect();
    gs.extend(compound(1).into_iter().map(|t| vec![t]));
    let counted = std::sync::Mutex::new(BTreeMap::<String, u64>::new());
    par_each(&gs, |g| {
        for f in &all {
            let Some(write) = f.written else { continue };
            run1(c, || format!("{} of {}", f.module, show(g)), || {
                let Ok(text) = write(&dressed("plain", g)) else { return Ok(()) };
                let kinds = kinds_of(&text);
                ck!(kinds.contains(&f.module), "what is written is {kinds:?}:\n{text}");
                *counted.lock().unwrap().entry(f.module.into()).or_default() += 1;
                Ok(())
            });
            c.add_traces(1);
        }
    });
    for (k, n) in counted.into_inner().unwrap() {
        c.outcome(&format!("documents of {k}"), n);
    }
    c.add_states(gs.len() as u64);
}

// ------------------------------------------------------------------------------------------------
// E17
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Rd {
    Turtle,
    N3,
    Trig,
}

impl Rd {
    fn read(&self, mut s: &mut Source) -> Result<Vec<Quad>, Error> {
        let s = &mut s;
        let of = |g: Graph| of_graph(&g).into_iter().map(|t| (None, norm3(&t))).collect();
        Ok(match self {
            Rd::Turtle => of(TurtleReader::default().read(s)?),
            Rd::N3 => of(N3Reader::default().read(s)?),
            Rd::Trig => {
                let d: DataSet = TrigReader::default().read(s)?;
                of_set(&d)
            }
        })
    }
    /// what the text states; N3 has more forms than those of Turtle, which are not judged
    fn states(&self, text: &str) -> Option<R<Vec<Quad>>> {
        match Ttl::parse(text, *self == Rd::Trig) {
            Ok(t) => Some(Ok(t.out)),
            Err(_) if *self == Rd::N3 => None,
            Err(e) => Some(Err(e)),
        }
    }
}

pub fn e17(c: &Check) {
    let readers = [Rd::Turtle, Rd::N3, Rd::Trig];
    let one = |rd: Rd, text: &str| {
        run1(c, || format!("{rd:?} {text:?}"), || {
            let mut s = Source::new(text.as_bytes(), Fault::None);
            // to refuse a document is to be honest about it; to accept is to have read all of it
            if let Ok(got) = rd.read(&mut s) {
                match rd.states(text) {
                    Some(Ok(want)) => ck!(quads_iso(&strip_q(&got), &strip_q(&want)), "read as {got:?}, but states {want:?}"),
                    Some(Err(e)) => return Err(format!("accepted as {got:?}, but {e}")),
                    None => {}
                }
                c.outcome("accepted", 1);
            } else {
                c.outcome("refused", 1);
            }
            Ok(())
        });
        c.add_transitions(1);
    };
    // every text of a few tokens
    let tokens = ["", "<http://h/a> ", "<http://h/p> ", "_:x ", "\"t\" ", "5 ", "a ", "[", "]", "( ", ") ", ". ", "; ", ", ", "@prefix : <http://h/> .\n", ":n ", "{", "}", "GRAPH ", "=> ", "<<", ">>", "# c\n", "\u{feff}", "@en", "é"];
    let n = words(tokens.len(), c.bound(4, 5), |w| {
        let text: String = w.iter().map(|i| tokens[*i]).collect();
        readers.iter().for_each(|r| one(*r, &text));
    });
    c.add_states(n);
    // every document which the writers make of small graphs, and what is left of it when it is cut
    let m = mixed();
    let mut gs: Vec<Vec<Triple>> = subsets(m.len(), c.bound(1, 2)).iter().map(|s| pick(&m, s)).collect();
    gs.extend(compound(1).into_iter().map(|t| vec![t]));
    gs.extend((0..c.bound(64u32, 512)).map(|b| relation(&[iri(&ex("a")), blank("x"), blank("y")], b)));
    let opts = Opts::all(&[None, Some("http://example.org/")], &[0, 1], &[None]);
    c.add_states(gs.len() as u64);
    par_each(&gs, |g| {
        for o in &opts {
            let graph = crate::turtle::graph_with("plain", g, o);
            let Ok(text) = out_of(&o.writer(), &graph) else { continue };
            one(Rd::Turtle, &text);
            one(Rd::N3, &text);
            one(Rd::Trig, &text);
            c.add_traces(1);
        }
        let graph = dressed("plain", g);
        let Ok(text) = out_of(&TrigWriter::default(), &graph) else { return };
        one(Rd::Trig, &text);
        let Ok(text) = out_of(&TurtleWriter::default(), &graph) else { return };
        let bytes = text.as_bytes();
        for r in readers {
            for k in 0..=bytes.len() {
                if text.is_char_boundary(k) {
                    one(r, &text[..k]);
                }
                for e in [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe] {
                    run1(c, || format!("{r:?} fails with {e:?} at {k} of {text:?}"), || {
                        let got = r.read(&mut Source::new(bytes, Fault::Byte(k, e)));
                        ck!(got.is_err(), "read as {got:?}");
                        Ok(())
                    });
                    c.add_transitions(1);
                }
                for bad in [&b"\xff"[..], b"\xc3", b"\xed\xa0\x80"] {
                    let b = [&bytes[..k], bad, &bytes[k..]].concat();
                    if std::str::from_utf8(&b).is_err() {
                        run1(c, || format!("{r:?} with bytes {bad:?} at {k} of {text:?}"), || {
                            let got = r.read(&mut Source::new(&b, Fault::None));
                            ck!(got.is_err(), "read as {got:?}");
                            Ok(())
                        });
                        c.add_transitions(1);
                    }
                }
            }
        }
    });
}

fn strip_q(q: &[Quad]) -> Vec<Quad> {
    crate::nt::strip_quads(q)
}

//! F01..F03: the command line tool, run as a process on documents made here.

use crate::ck;
use crate::dot::{check_dot, flat_of, Look};
use crate::json::interpret;
use crate::nt::{data_sets, is_compound, of_set, real_set, run1, show_set, strip_quads, Set};
use crate::refs::*;
use crate::universe::*;
use crate::xml::writable;
use crate::xmlref::parse_rdf;
use mclib::*;
use mcrdf::*;
use objio::ObjectReader;
use rdftk_core::model::graph::Graph;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub const ALL: [&str; 8] = ["json", "json-ld", "n3", "n-quads", "n-triples", "trig", "turtle", "xml"];
const FROM: [&str; 3] = ["n-triples", "json", "xml"];
const TO: [&str; 6] = ["n-triples", "n-quads", "json", "trig", "turtle", "xml"];
const SETS: [&str; 2] = ["n-quads", "trig"];

// ------------------------------------------------------------------------------------------------
// Documents, written independently of the library
// ------------------------------------------------------------------------------------------------

/// The characters that are not allowed in an IRI reference are written as escapes.
fn nt_iri(i: &str) -> String {
    i.chars().map(|c| if c <= ' ' || "<>\"{}|^`\\".contains(c) { format!("\\u{:04X}", c as u32) } else { c.to_string() }).collect()
}
fn nt_term(t: &T) -> String {
    match t {
        T::Iri(i) => format!("<{}>", nt_iri(i)),
        T::Blank(b) => format!("_:{b}"),
        T::Lit { lex, dt, lang } => {
            let mut s = String::from("\"");
            for c in lex.chars() {
                match c {
                    '"' => s += "\\\"",
                    '\\' => s += "\\\\",
                    '\n' => s += "\\n",
                    '\r' => s += "\\r",
                    c => s.push(c),
                }
            }
            s.push('"');
            if let Some(d) = dt {
                s += &format!("^^<{}>", nt_iri(d));
            }
            if let Some(l) = lang {
                s += &format!("@{l}");
            }
            s
        }
        _ => unreachable!(),
    }
}
fn nt_line(t: &Triple, g: Option<&T>) -> String {
    let g = g.map(|g| format!(" {}", nt_term(g))).unwrap_or_default();
    format!("{} <{}> {}{g} .\n", nt_term(&t.0), nt_iri(&t.1), nt_term(&t.2))
}
fn json_doc(ts: &[Triple]) -> String {
    let mut m: BTreeMap<String, BTreeMap<String, Vec<Value>>> = BTreeMap::new();
    for (s, p, o) in ts {
        let s = match s {
            T::Blank(b) => format!("_:{b}"),
            T::Iri(i) => i.clone(),
            _ => unreachable!(),
        };
        let o = match o {
            T::Blank(b) => json!({"type": "bnode", "value": format!("_:{b}")}),
            T::Iri(i) => json!({"type": "uri", "value": i}),
            T::Lit { lex, dt, lang } => {
                let mut m = Map::new();
                m.insert("type".into(), json!("literal"));
                m.insert("value".into(), json!(lex));
                if let Some(d) = dt {
                    m.insert("datatype".into(), json!(d));
                }
                if let Some(l) = lang {
                    m.insert("lang".into(), json!(l));
                }
                Value::Object(m)
            }
            _ => unreachable!(),
        };
        m.entry(s).or_default().entry(p.clone()).or_default().push(o);
    }
    serde_json::to_string(&m).unwrap()
}
fn text_of_xml(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        match c {
            '&' => out += "&amp;",
            '<' => out += "&lt;",
            '>' => out += "&gt;",
            c if c.is_control() || c == '\u{2028}' => out += &format!("&#{};", c as u32),
            c => out.push(c),
        }
    }
    out
}
fn xml_doc(ts: &[Triple]) -> String {
    // every label is to be a name
    let id = |s: &str| s.bytes().fold("b".to_string(), |a, b| format!("{a}{b:02x}"));
    let q = |s: &str| text_of_xml(s).replace('"', "&quot;");
    let mut s = format!("<?xml version=\"1.1\" encoding=\"utf-8\"?>\n<rdf:RDF xmlns:rdf=\"{RDF}\">\n");
    for (a, p, o) in ts {
        let at = p.rfind(['#', '/', ':']).unwrap() + 1;
        s += &match a {
            T::Blank(b) => format!("<rdf:Description rdf:nodeID=\"{}\">", id(b)),
            T::Iri(i) => format!("<rdf:Description rdf:about=\"{}\">", q(i)),
            _ => unreachable!(),
        };
        s += &format!("<n:{} xmlns:n=\"{}\"", &p[at..], q(&p[..at]));
        s += &match o {
            T::Blank(b) => format!(" rdf:nodeID=\"{}\"/>", id(b)),
            T::Iri(i) => format!(" rdf:resource=\"{}\"/>", q(i)),
            T::Lit { lex, dt, lang } => {
                let mut a = String::new();
                if let Some(d) = dt {
                    a += &format!(" rdf:datatype=\"{}\"", q(d));
                }
                if let Some(l) = lang {
                    a += &format!(" xml:lang=\"{l}\"");
                }
                format!("{a}>{}</n:{}>", text_of_xml(lex), &p[at..])
            }
            _ => unreachable!(),
        };
        s += "</rdf:Description>\n";
    }
    s + "</rdf:RDF>\n"
}
/// A document in a format that states the triples.
fn doc(format: &str, ts: &[Triple]) -> String {
    match format {
        "json" => json_doc(ts),
        "xml" => xml_doc(ts),
        _ => ts.iter().map(|t| nt_line(t, None)).collect(),
    }
}
fn set_doc(format: &str, s: &Set) -> String {
    let mut out = String::new();
    for (n, ts) in s {
        if format == "trig" {
            out += &format!("{} {{\n{}}}\n", n.as_ref().map(nt_term).unwrap_or_default(), doc("n-triples", ts));
        } else {
            ts.iter().for_each(|t| out += &nt_line(t, n.as_ref()));
        }
    }
    out
}
fn stated(format: &str, text: &str) -> R<Vec<Quad>> {
    let named = |v: Vec<Triple>| v.into_iter().map(|t| (None, t)).collect();
    Ok(match format {
        "n-triples" => parse_nq(text, false, Layout::Strict)?,
        "n-quads" => parse_nq(text, true, Layout::Strict)?,
        "turtle" => Ttl::parse(text, false)?.out,
        "trig" => Ttl::parse(text, true)?.out,
        "json" => named(interpret(&serde_json::from_str(text).map_err(|e| e.to_string())?).map_err(|e| e.1)?),
        "xml" => named(parse_rdf(text)?.iter().map(norm3).collect()),
        f => return Err(format!("no parser for {f}")),
    })
}
/// in the form in which the library holds it
fn normal(q: &[Quad]) -> Vec<Quad> {
    let low = |t: &T| match t {
        T::Lit { lex, dt, lang } => T::Lit { lex: lex.clone(), dt: dt.clone(), lang: lang.as_ref().map(|l| l.to_lowercase()) },
        t => t.clone(),
    };
    strip_quads(&q.iter().map(|(g, t)| (g.clone(), norm3(&(t.0.clone(), t.1.clone(), low(&t.2))))).collect::<Vec<_>>())
}

// ------------------------------------------------------------------------------------------------
// Processes
// ------------------------------------------------------------------------------------------------

fn scratch_dir() -> PathBuf {
    std::env::temp_dir().join(format!("mc_cli.{}", std::process::id()))
}
/// A directory for everything that is written, removed at the end.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let p = scratch_dir();
        std::fs::create_dir_all(p.join("here")).unwrap();
        Scratch(p)
    }
    fn file(&self) -> PathBuf {
        static N: AtomicU64 = AtomicU64::new(0);
        self.0.join(format!("f {}", N.fetch_add(1, Ordering::Relaxed)))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn bin() -> PathBuf {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    Path::new(&root).join("target/debug/rdftk")
}

#[derive(Debug)]
struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}
impl Ran {
    fn text(&self) -> R<&str> {
        std::str::from_utf8(&self.out).map_err(|e| format!("output is not UTF-8: {e}"))
    }
}
fn command(program: &Path) -> Command {
    let mut c = Command::new(program);
    c.env_clear().env("PATH", "/usr/bin:/bin").env("TMPDIR", scratch_dir()).current_dir(scratch_dir().join("here"));
    c
}
fn finish(mut c: Command, input: Option<&[u8]>) -> Ran {
    c.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() }).stderr(Stdio::piped());
    run_it(c, input)
}
fn run_it(mut c: Command, input: Option<&[u8]>) -> Ran {
    let mut child = c.spawn().unwrap_or_else(|e| {
        eprintln!("cannot run {c:?}: {e}");
        std::process::exit(2)
    });
    if let (Some(mut i), Some(t)) = (child.stdin.take(), input) {
        // a process which does not read all of it is judged by what it answers
        let _ = i.write_all(t);
    }
    let o = child.wait_with_output().unwrap();
    Ran { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into() }
}
fn rdftk(args: &[&str], input: &str) -> Ran {
    let mut c = command(&bin());
    c.args(args).stdout(Stdio::piped());
    finish(c, Some(input.as_bytes()))
}
fn brief(s: &str) -> String {
    s.chars().take(600).collect()
}
fn succeeded(r: &Ran) -> Result<(), String> {
    ck!(r.code == Some(0), "exit {:?}, {}", r.code, brief(&r.err));
    ck!(r.err.is_empty(), "succeeds with a message: {}", brief(&r.err));
    Ok(())
}
/// It failed in an orderly way.
fn refused(r: &Ran) -> Result<(), String> {
    ck!(matches!(r.code, Some(1 | 2)), "exit {:?} instead of an error\n{}", r.code, brief(&r.err));
    ck!(!r.err.trim().is_empty(), "fails without a message");
    ck!(!r.err.contains("panicked at"), "panics: {}", brief(&r.err));
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// F01 convert
// ------------------------------------------------------------------------------------------------

fn xml_able(ts: &[Triple]) -> bool {
    writable(ts)
}

fn graphs(c: &Check) -> Vec<(&'static str, Vec<Triple>)> {
    let mut v: Vec<(&str, Vec<Triple>)> = vec![];
    let m = mixed();
    v.extend(subsets(m.len(), c.bound(1, 2)).iter().map(|s| ("mixed", pick(&m, s))));
    let nodes = [iri(&ex("a")), blank("x"), blank("y")];
    let n = c.bound(2usize, 3usize);
    v.extend((0..1u32 << (n * n)).map(|b| ("relation", relation(&nodes[..n], b))));
    let sp = specials();
    v.extend(subsets(sp.len(), c.bound(1, 2)).iter().map(|s| ("special words", pick(&sp, s))));
    let mut lits = vec![];
    for t in texts(CHARS.len(), c.bound(1, 2)) {
        lits.extend([plain(&t), lang(&t, "en"), typed(&t, &ex("dt"))]);
    }
    for t in forms() {
        lits.extend(["boolean", "integer", "decimal", "double", "string"].iter().map(|d| typed(&t, &xsd(d))));
    }
    lits.extend(LANGS.iter().map(|l| lang("t", l)));
    v.extend(lits.into_iter().map(|l| ("literals", vec![(iri(&ex("a")), ns("p"), l)])));
    v.extend(iris().iter().map(|i| ("iris", vec![(iri(i), ns("p"), iri(i))])));
    v.extend(LABELS.iter().map(|l| ("labels", vec![(blank(l), ns("p"), blank("x")), (blank("x"), ns("p"), blank(l))])));
    let big = if c.thorough() { grown(400, 60, 20_000) } else { grown(40, 10, 3_000) };
    // collections and quoted statements, spelled out as documents do
    v.extend(compound(c.bound(1, 2)).into_iter().map(|t| ("spelled out", flatten(&[t]).iter().map(|t| ren_triple(t, &|b| b.replace('~', "g"))).collect::<Vec<_>>())));
    // the same line twice may well be drawn as two arrows
    for (_, g) in &mut v {
        *g = g.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect();
    }
    v.extend(big.into_iter().filter(|g| !g.iter().any(is_compound)).map(|g| ("large", g)));
    v
}

pub fn f01(c: &Check) {
    let scratch = Scratch::new();
    let gs = graphs(c);
    par_each(&gs, |(class, ts)| {
        let want: Vec<Quad> = ts.iter().map(|t| (None, norm3(t))).collect();
        for from in FROM {
            // what the format itself cannot say
            if from == "xml" && !xml_able(ts) {
                continue;
            }
            let input = doc(from, ts);
            debug_assert!(from == "xml" || stated(from, &input).is_ok());
            for to in TO {
                run1(c, || format!("{class} {from} to {to}: {}", show(ts)), || {
                    let r = rdftk(&["convert", "-f", from, "-t", to], &input);
                    if to == "xml" && !xml_able(ts) && r.code != Some(0) {
                        return refused(&r);
                    }
                    succeeded(&r)?;
                    let text = r.text()?;
                    let got = stated(to, text).map_err(|e| format!("not {to}: {e}\n{text}\nfrom\n{input}"))?;
                    ck!(quads_iso(&normal(&got), &normal(&want)), "states something else\n{text}\nfrom\n{input}");
                    Ok(())
                });
                c.add_transitions(1);
                c.add_traces(1);
            }
        }
        c.add_states(1);
    });
    let mut classes: BTreeMap<&str, u64> = BTreeMap::new();
    gs.iter().for_each(|g| *classes.entry(g.0).or_default() += 1);
    classes.iter().for_each(|(k, n)| c.outcome(k, *n * 18));
    // data sets
    let mut sets: Vec<Set> = data_sets(c).into_iter().filter(|s| !s.iter().any(|g| g.1.iter().any(is_compound))).collect();
    if !c.thorough() {
        sets.retain(|s| s.iter().map(|g| g.1.len()).sum::<usize>() <= 2);
    }
    par_each(&sets, |s| {
        let input = set_doc("n-quads", s);
        let want: Vec<Quad> = s.iter().flat_map(|(n, ts)| ts.iter().map(|t| (n.clone(), norm3(t)))).collect();
        for to in SETS {
            run1(c, || format!("n-quads to {to}: {}", show_set(s)), || {
                let r = rdftk(&["convert", "-f", "n-quads", "-t", to], &input);
                succeeded(&r)?;
                let text = r.text()?;
                let got = stated(to, text).map_err(|e| format!("not {to}: {e}\n{text}"))?;
                ck!(quads_iso(&normal(&got), &normal(&want)), "states something else\n{text}\nfrom\n{input}");
                Ok(())
            });
            c.add_transitions(1);
            c.add_traces(1);
        }
        c.add_states(1);
    });
    c.outcome("data sets", sets.len() as u64 * 2);
    // every other pair of formats: an error, or the right thing
    let sets: Vec<Set> = vec![
        vec![], vec![(None, vec![(iri(&ex("a")), ns("p"), plain("t"))])], vec![(Some(iri(&ex("g"))), vec![(iri(&ex("a")), ns("p"), plain("t"))])],
        vec![(None, vec![(iri(&ex("a")), ns("p"), plain("t"))]), (Some(blank("g")), vec![(iri(&ex("a")), ns("p"), plain("u"))])],
        vec![(Some(iri(&ex("h"))), vec![(iri(&ex("a")), ns("p"), blank("x"))]), (Some(blank("g")), vec![(blank("x"), ns("p"), plain("u"))])],
    ];
    let mut others = vec![];
    for f in ALL {
        for t in ALL {
            sets.iter().for_each(|s| others.push((f, t, s.clone())));
        }
    }
    par_each(&others, |(from, to, s)| {
        if !SETS.contains(from) && s.iter().any(|g| g.0.is_some()) {
            return;
        }
        let all: Vec<Triple> = s.iter().flat_map(|g| g.1.clone()).collect();
        let input = if SETS.contains(from) { set_doc(from, s) } else { doc(from, &all) };
        run1(c, || format!("any pair, {from} to {to}: {}", show_set(s)), || {
            let r = rdftk(&["convert", "-f", from, "-t", to], &input);
            if r.code != Some(0) {
                return refused(&r);
            }
            succeeded(&r)?;
            let text = r.text()?;
            let got = stated(to, text).map_err(|e| format!("not {to}: {e}\n{text}"))?;
            let want: Vec<Quad> = s.iter().flat_map(|(n, ts)| ts.iter().map(|t| (n.clone(), norm3(t)))).collect();
            ck!(quads_iso(&normal(&got), &normal(&want)), "states something else\n{text}\nfrom\n{input}");
            Ok(())
        });
        c.add_transitions(1);
    });
    c.outcome("any pair", others.len() as u64);
    // every way to name the input, the output, the formats, and every level of logging
    let docs: Vec<Vec<Triple>> = vec![vec![], vec![(iri(&ex("a")), ns("p"), plain("é\n\"t"))], (0..c.bound(3, 2000)).map(|i| (iri(&ex("a")), ns("p"), plain(&format!("{i}")))).collect()];
    let mut ways = vec![];
    for log in ["", "none", "errors", "warnings", "information", "debugging", "tracing"] {
        for color in 0..3 {
            for input in 0..4 {
                for output in 0..5 {
                    for style in 0..3 {
                        for from in FROM.iter().chain(&["n-quads"]) {
                            for to in TO {
                                if (*from == "n-quads" && !SETS.contains(&to)) || (!c.thorough() && color + style > 1) {
                                    continue;
                                }
                                ways.push((log, color, input, output, style, *from, to));
                            }
                        }
                    }
                }
            }
        }
    }
    // the plain way, for comparison
    let mut plainly: BTreeMap<(usize, &str, &str), Vec<Quad>> = BTreeMap::new();
    for (k, ts) in docs.iter().enumerate() {
        for from in FROM.iter().chain(&["n-quads"]) {
            for to in TO {
                plainly.insert((k, from, to), normal(&ts.iter().map(|t| (None, norm3(t))).collect::<Vec<_>>()));
            }
        }
    }
    par_each(&ways, |w| {
        let (log, color, input, output, style, from, to) = *w;
        for k in 0..docs.len() - usize::from(color > 0) {
            run1(c, || format!("{w:?}, document {k}"), || {
                let text = doc(from, &docs[k]);
                let (fin, fout) = (scratch.file(), scratch.file());
                let mut cmd = command(&bin());
                if !log.is_empty() {
                    cmd.args(["--log-filter", log]);
                }
                match color {
                    1 => drop(cmd.arg("--no-color")),
                    2 => drop(cmd.env("NO_COLOR", "1")),
                    _ => {}
                }
                cmd.arg("convert");
                match style {
                    0 => drop(cmd.args(["-f", from, "-t", to])),
                    1 => drop(cmd.args(["--to", to, "--from", from])),
                    _ => drop(cmd.args([format!("-t{to}"), format!("--from={from}")])),
                }
                let mut stdin = None;
                match input {
                    0 => stdin = Some(text.as_bytes()),
                    1 => {
                        cmd.args(["-i", "-"]);
                        stdin = Some(text.as_bytes());
                    }
                    _ => {
                        std::fs::write(&fin, &text).unwrap();
                        cmd.args([if input == 2 { "-i" } else { "--input" }]).arg(&fin);
                    }
                }
                match output {
                    0 => {}
                    1 => drop(cmd.args(["--output", "-"])),
                    2 => drop(cmd.arg("-o").arg(&fout)),
                    3 => {
                        // a longer file is there
                        std::fs::write(&fout, "x".repeat(200_000)).unwrap();
                        cmd.arg("--output").arg(&fout);
                    }
                    _ => {}
                }
                cmd.stdout(if output == 4 { Stdio::from(std::fs::File::create(&fout).unwrap()) } else { Stdio::piped() });
                let r = finish(cmd, stdin);
                ck!(r.code == Some(0), "exit {:?}: {}", r.code, brief(&r.err));
                if log.is_empty() || log == "none" {
                    succeeded(&r)?;
                }
                let said = if output >= 2 {
                    ck!(r.out.is_empty(), "something else on the standard output: {}", brief(&String::from_utf8_lossy(&r.out)));
                    std::fs::read(&fout).map_err(|e| format!("no output file: {e}"))?
                } else {
                    r.out
                };
                let _ = (std::fs::remove_file(&fin), std::fs::remove_file(&fout));
                let said = String::from_utf8(said).map_err(|e| e.to_string())?;
                let got = stated(to, &said).map_err(|e| format!("not {to}: {e}\n{}", brief(&said)))?;
                ck!(quads_iso(&normal(&got), &plainly[&(k, from, to)]), "states something else\n{}", brief(&said));
                Ok(())
            });
            c.add_transitions(1);
            c.add_traces(1);
        }
        c.add_states(1);
    });
    c.outcome("ways to call it", ways.len() as u64);
    // long documents
    let mut long: Vec<(usize, &str, &str)> = vec![];
    for n in if c.thorough() { &[1_000, 10_000, 40_000][..] } else { &[1_000, 20_000] } {
        for from in FROM.iter().chain(&["n-quads"]) {
            TO.iter().filter(|to| *from != "n-quads" || SETS.contains(to)).for_each(|to| long.push((*n, from, to)));
        }
    }
    par_each(&long, |(n, from, to)| {
        run1(c, || format!("{n} statements, {from} to {to}"), || {
            let ts: Vec<Triple> = (0..*n).map(|i| (iri(&ex(&format!("s{i}"))), ns("p"), plain(&format!("the {i}th text")))).collect();
            let r = rdftk(&["convert", "-f", from, "-t", to], &doc(from, &ts));
            succeeded(&r)?;
            let got = stated(to, r.text()?).map_err(|e| format!("not {to}: {e}"))?;
            let want: BTreeSet<Quad> = ts.iter().map(|t| (None, norm3(t))).collect();
            let got: BTreeSet<Quad> = got.iter().map(|(g, t)| (g.clone(), norm3(t))).collect();
            ck!(got == want, "states {} statements, {} of them right", got.len(), got.intersection(&want).count());
            Ok(())
        });
        c.add_transitions(1);
        c.add_traces(1);
    });
    c.outcome("long documents", long.len() as u64);
    // the default format of the output is Turtle
    run1(c, || "default format".into(), || {
        let r = rdftk(&["convert", "-f", "n-triples"], &doc("n-triples", &docs[1]));
        succeeded(&r)?;
        let got = stated("turtle", r.text()?)?;
        ck!(quads_iso(&normal(&got), &plainly[&(1, "n-triples", "turtle")]), "states something else");
        ck!(r.out == rdftk(&["convert", "-f", "n-triples", "-t", "turtle"], &doc("n-triples", &docs[1])).out, "the default is not Turtle");
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------
// F02 failures
// ------------------------------------------------------------------------------------------------

/// Does the library's own reader accept the text? With what it reads.
fn library(from: &str, text: &[u8]) -> Result<Vec<Quad>, String> {
    let mut r = text;
    let g = |g: Graph| real_set(&g).into_iter().map(|t| (None, t)).collect();
    match from {
        "n-triples" => rdftk_io::nt::NTripleReader::default().read(&mut r).map(g).map_err(|e| e.to_string()),
        "json" => rdftk_io::json::JsonReader::default().read(&mut r).map(g).map_err(|e| e.to_string()),
        "xml" => rdftk_io::xml::XmlReader::default().read(&mut r).map(g).map_err(|e| e.to_string()),
        "n-quads" => rdftk_io::nq::NQuadReader::default().read(&mut r).map(|d| of_set(&d)).map_err(|e| e.to_string()),
        _ => unreachable!(),
    }
}

pub fn f02(c: &Check) {
    let scratch = Scratch::new();
    let some = vec![(iri(&ex("a")), ns("p"), lang("é\n\"t", "en")), (blank("x"), rdf("type"), typed("1", &xsd("integer"))), (blank("x"), ns("p"), iri(&ex("a")))];
    let set: Set = vec![(None, some[..1].to_vec()), (Some(blank("g")), some.clone())];
    // inputs: cut short, with one byte taken away, replaced or added
    let mut inputs: Vec<(&str, Vec<u8>)> = vec![];
    for from in ["n-triples", "json", "xml", "n-quads"] {
        let whole = if from == "n-quads" { set_doc(from, &set) } else { doc(from, &some) }.into_bytes();
        for i in 0..=whole.len() {
            inputs.push((from, whole[..i].to_vec()));
            let mut edit = |f: &dyn Fn(&mut Vec<u8>)| {
                let mut w = whole.clone();
                f(&mut w);
                inputs.push((from, w));
            };
            for b in if c.thorough() { &b"\xff<>\"{}[]:. \n\0a&'@^_\\"[..] } else { &b"\xff<\" "[..] } {
                edit(&|w| w.insert(i, *b));
                if i < whole.len() {
                    edit(&|w| w[i] = *b);
                }
            }
            if i < whole.len() {
                edit(&|w| drop(w.remove(i)));
            }
        }
    }
    let (good, bad) = (AtomicU64::new(0), AtomicU64::new(0));
    par_each(&inputs, |(from, text)| {
        let to = if *from == "n-quads" { "n-quads" } else { "n-triples" };
        let verbs: &[&[&str]] = if *from == "n-quads" { &[&["convert", "-t", "n-quads"]] } else { &[&["convert", "-t", "n-triples"], &["draw"]] };
        let lib = catch(|| library(from, text)).unwrap_or_else(Err);
        for v in verbs {
            run1(c, || format!("{v:?} of {from} {}", String::from_utf8_lossy(text)), || {
                let mut cmd = command(&bin());
                cmd.args(*v).args(["-f", from]).stdout(Stdio::piped());
                let r = finish(cmd, Some(text));
                match &lib {
                    Ok(q) => {
                        good.fetch_add(1, Ordering::Relaxed);
                        succeeded(&r)?;
                        if v.len() > 1 {
                            ck!(quads_iso(&normal(&stated(to, r.text()?)?), &normal(q)), "states something else\n{}", r.text()?);
                        }
                    }
                    Err(e) => {
                        bad.fetch_add(1, Ordering::Relaxed);
                        ck!(r.code != Some(0), "succeeds, although the input is not readable: {e}");
                        refused(&r)?;
                        ck!(r.out.is_empty(), "writes something, although the input is not readable: {}", brief(&String::from_utf8_lossy(&r.out)));
                    }
                }
                Ok(())
            });
            c.add_transitions(1);
        }
    });
    c.add_states(inputs.len() as u64);
    c.outcome("inputs accepted", good.load(Ordering::Relaxed));
    c.outcome("inputs rejected", bad.load(Ordering::Relaxed));
    // outputs: every size at which there is no more room
    let mut works: Vec<(Vec<&str>, String)> = vec![];
    for to in TO {
        works.push((vec!["convert", "-f", "n-triples", "-t", to], doc("n-triples", &some)));
    }
    for to in SETS {
        works.push((vec!["convert", "-f", "n-quads", "-t", to], set_doc("n-quads", &set)));
    }
    works.push((vec!["draw", "-f", "n-triples"], doc("n-triples", &some)));
    let mut runs = vec![];
    for (k, (args, input)) in works.iter().enumerate() {
        let full = rdftk(args, input);
        if full.code != Some(0) {
            c.fail(format!("{args:?}"), format!("exit {:?}: {}", full.code, brief(&full.err)), json!({"args": args}));
            continue;
        }
        for size in 0..=full.out.len() {
            for way in 0..4 {
                runs.push((k, size, full.out.len(), way));
            }
        }
        for way in 4..12 {
            runs.push((k, 0, full.out.len(), way));
        }
    }
    par_each(&runs, |(k, size, len, way)| {
        let (args, input) = &works[*k];
        let what = ["-o, signal ignored", "standard output, signal ignored", "-o", "standard output", "full device", "-o full device", "closed pipe", "-o a directory", "-o in no directory", "-i missing", "-i a directory", "no input"];
        run1(c, || format!("{args:?} with room for {size} of {len} bytes, {}", what[*way]), || {
            let file = scratch.file();
            let mut cmd;
            let mut stdin = Some(input.as_bytes());
            if *way < 4 {
                cmd = command(Path::new("/usr/bin/env"));
                if *way < 2 {
                    cmd.arg("--ignore-signal=XFSZ");
                }
                cmd.arg("prlimit").arg(format!("--fsize={size}:{size}")).arg("--core=0:0").arg(bin());
            } else {
                cmd = command(&bin());
            }
            cmd.args(args).stdout(Stdio::piped());
            match way {
                0 | 2 => drop(cmd.arg("-o").arg(&file)),
                1 | 3 => drop(cmd.stdout(std::fs::File::create(&file).unwrap())),
                4 => drop(cmd.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap())),
                5 => drop(cmd.args(["-o", "/dev/full"])),
                6 => {
                    let (r, w) = std::io::pipe().unwrap();
                    drop(r);
                    cmd.stdout(w);
                }
                7 => drop(cmd.arg("-o").arg(&scratch.0)),
                8 => drop(cmd.arg("-o").arg(file.join("x"))),
                9 => drop(cmd.arg("-i").arg(&file)),
                10 => drop(cmd.arg("-i").arg(&scratch.0)),
                _ => stdin = None,
            }
            let r = if *way == 11 {
                cmd.stdin(std::fs::File::open(&scratch.0).unwrap()).stderr(Stdio::piped());
                run_it(cmd, None)
            } else {
                finish(cmd, stdin)
            };
            let room = *way < 4 && size == len;
            let there = std::fs::read(&file).unwrap_or_default();
            let _ = std::fs::remove_file(&file);
            if room {
                ck!(r.code == Some(0) && there.len() == *len, "exit {:?} with {} bytes: {}", r.code, there.len(), brief(&r.err));
            } else if matches!(way, 2 | 3) {
                // ended by the signal, or by itself
                ck!(r.code != Some(0) && r.code != Some(101), "exit {:?} with {} bytes: {}", r.code, there.len(), brief(&r.err));
            } else {
                ck!(r.code != Some(0), "succeeds");
                refused(&r)?;
            }
            Ok(())
        });
        c.add_transitions(1);
        c.add_traces(1);
    });
    c.add_states(runs.len() as u64);
    c.outcome("outputs that fail", runs.len() as u64);
    // every short sequence of arguments
    let words_: Vec<&str> = vec![
        "convert", "draw", "namespace", "-f", "-t", "-i", "-o", "-n", "n-triples", "n-quads", "rdf", "skos", "-", "--log-filter", "none", "--no-color", "json-ld", "turtle", "trig", "n3", "", "/", "--from=xml", "--to=json",
    ];
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut layer = seqs.clone();
    for _ in 0..c.bound(2, 3) {
        layer = layer.iter().flat_map(|s| (0..words_.len()).map(move |w| s.iter().copied().chain([w]).collect())).collect();
        seqs.extend(layer.iter().cloned());
    }
    // those that get past the parser
    for tail in seqs.clone().iter().filter(|s| s.len() <= c.bound(1, 2)) {
        for head in [["convert", "-f", "n-triples"], ["convert", "-f", "n3"], ["convert", "-f", "trig"], ["draw", "-f", "xml"], ["draw", "-f", "turtle"], ["draw", "-f", "n-quads"], ["draw", "-f", "json-ld"], ["namespace", "-n", "rdf"], ["namespace", "-n", "owl"]] {
            let ix = |w: &str| words_.iter().position(|x| *x == w);
            if let Some(h) = head.iter().map(|w| ix(w)).collect::<Option<Vec<_>>>() {
                seqs.push(h.into_iter().chain(tail.iter().copied()).collect());
            }
        }
    }
    par_each(&seqs, |s| {
        let args: Vec<&str> = s.iter().map(|i| words_[*i]).collect();
        run1(c, || format!("arguments {args:?}"), || {
            // some of the words name a file
            let dir = scratch.file();
            std::fs::create_dir(&dir).unwrap();
            let mut cmd = command(&bin());
            cmd.args(&args).stdout(Stdio::piped()).current_dir(&dir);
            let r = finish(cmd, Some(b""));
            let _ = std::fs::remove_dir_all(&dir);
            if r.code == Some(0) {
                return succeeded(&r);
            }
            refused(&r)
        });
        c.add_transitions(1);
    });
    c.add_states(seqs.len() as u64);
    c.outcome("sequences of arguments", seqs.len() as u64);
}

// ------------------------------------------------------------------------------------------------
// F03 draw
// ------------------------------------------------------------------------------------------------

pub fn f03(c: &Check) {
    let _scratch = Scratch::new();
    let look = Look::default();
    let gs = graphs(c);
    let names: BTreeMap<String, String> = {
        let g = Graph::default();
        let m = g.prefix_mappings();
        m.mappings().map(|(p, i)| (p.as_ref().trim_end_matches(':').to_string(), format!("{i:#}"))).collect()
    };
    par_each(&gs, |(class, ts)| {
        for from in FROM {
            if ts.iter().any(|t| matches!(&t.2, T::Lit { lex, .. } if lex.contains('\0'))) || (from == "xml" && !xml_able(ts)) {
                continue;
            }
            run1(c, || format!("{class} draw {from}: {}", show(ts)), || {
                let r = rdftk(&["draw", "-f", from], &doc(from, ts));
                succeeded(&r)?;
                let set: BTreeSet<&Triple> = ts.iter().collect();
                check_dot(r.text()?, &flat_of(&set.into_iter().cloned().collect::<Vec<_>>()), &names, &look)
            });
            c.add_transitions(1);
            c.add_traces(1);
        }
        c.add_states(1);
    });
    c.outcome("graphs", gs.len() as u64 * 3);
}

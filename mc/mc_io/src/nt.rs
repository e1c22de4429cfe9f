//! E01/E03 what the N-Triples and N-Quads writers emit, E02/E04 what the readers accept and return.

use crate::refs::*;
use crate::universe::*;
use mclib::*;
use mcrdf::*;
use objio::{ObjectReader, ObjectWriter};
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::Graph;
use rdftk_core::model::literal::LanguageTag;
use rdftk_io::nq::{NQuadReader, NQuadWriter};
use rdftk_io::nt::{NTripleReader, NTripleWriter};
use rdftk_iri::Iri;
use serde_json::json;
use std::collections::BTreeSet;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};

#[macro_export]
macro_rules! ck {
    ($cond:expr, $($what:tt)*) => {
        if !($cond) {
            return Err(format!($($what)*));
        }
    };
}

pub fn run1(c: &Check, key: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
    if c.saturated() {
        return;
    }
    // some of what is checked, for the evidence: the first ones, and then fewer and fewer
    static RUNS: AtomicU64 = AtomicU64::new(0);
    let n = RUNS.fetch_add(1, Ordering::Relaxed);
    if n < 3 || n >= 64 && n.is_power_of_two() {
        c.sample(json!(key().chars().take(400).collect::<String>()));
    }
    at(&key);
    match catch(f) {
        Ok(Ok(())) => {}
        Ok(Err(m)) => {
            let k = key();
            c.fail(k.clone(), m.clone(), json!({"input": k, "what": m}))
        }
        Err(p) => {
            let k = key();
            c.fail(k.clone(), format!("panicked: {p}"), json!({"input": k, "panic": p}))
        }
    }
}

pub fn out_of<T>(w: &impl ObjectWriter<T, Error = rdftk_core::error::Error>, t: &T) -> R<String> {
    let mut v = vec![];
    w.write(&mut v, t).map_err(|e| format!("writing failed: {e}"))?;
    String::from_utf8(v).map_err(|e| format!("output is not UTF-8: {e}"))
}

pub fn real_set(g: &Graph) -> Vec<Triple> {
    of_graph(g).iter().map(norm3).collect()
}

/// The quads of a data set, each graph under the name it carries.
pub fn of_set(d: &DataSet) -> Vec<Quad> {
    let mut v = vec![];
    for g in d.graphs() {
        for t in real_set(g) {
            v.push((g.name().map(of_name), t));
        }
    }
    v
}

// ------------------------------------------------------------------------------------------------
// The graphs to write
// ------------------------------------------------------------------------------------------------

/// The kinds of graph: one that cannot hold duplicates, named ones, one to which every statement was
/// added twice (those without collections and quoted statements, which are spelled out anew each time),
/// one that has been changed.
pub const DRESSES: [&str; 5] = ["unique graph", "named graph", "blank named graph", "graph with duplicates", "changed graph"];

/// The graph of these statements, of the kind that the class asks for.
pub fn dressed(class: &str, ts: &[Triple]) -> Graph {
    let mut g = real_graph(ts);
    match class {
        "unique graph" => {
            g = Graph::unique();
            ts.iter().for_each(|t| g.insert(real_stmt(t)));
        }
        "named graph" => g.set_name(real_name(&iri(&ex("a")))),
        "blank named graph" => g.set_name(real_name(&blank("x"))),
        "graph with duplicates" if !ts.iter().any(is_compound) => ts.iter().for_each(|t| g.insert(real_stmt(t))),
        "changed graph" => {
            let other: Vec<Triple> = vec![(iri(&ex("a")), ns("p"), blank("gone")), (blank("gone"), ns("gone"), iri(&ex("a"))), (iri(&ex("gone")), ns("gone"), plain("t"))];
            g = Graph::unique_named(real_name(&iri(&ex("gone"))));
            other.iter().chain(ts).for_each(|t| g.insert(real_stmt(t)));
            other.iter().for_each(|t| g.remove(&real_stmt(t)));
            g.unset_name();
        }
        _ => {}
    }
    g
}
pub fn is_compound(t: &Triple) -> bool {
    let c = |t: &T| matches!(t, T::Coll(_) | T::Quote(_));
    c(&t.0) || c(&t.2)
}

/// Calls `f` with (class, statements) for every graph of the universe shared by the line formats,
/// RDF/JSON and RDF/XML.
pub fn each_graph(c: &Check, f: &(dyn Fn(&str, &[Triple]) + Sync)) {
    let run = |class: &str, gs: &[Vec<Triple>]| {
        par_each(gs, |g| f(class, g));
        c.add_states(gs.len() as u64);
        c.outcome(class, gs.len() as u64);
    };
    let m = mixed();
    run("mixed", &subsets(m.len(), c.bound(2, 3)).iter().map(|s| pick(&m, s)).collect::<Vec<_>>());
    let nodes = [iri(&ex("a")), blank("x"), blank("y"), blank("z")];
    let n = c.bound(3usize, 4usize);
    run("relation", &(0..1u32 << (n * n)).map(|b| relation(&nodes[..n], b)).collect::<Vec<_>>());
    let k = compound(2);
    run("compound", &k.iter().map(|t| vec![t.clone()]).collect::<Vec<_>>());
    let k1 = compound(1);
    run("compound pairs", &subsets(k1.len(), 2).iter().map(|s| pick(&k1, s)).collect::<Vec<_>>());
    if c.thorough() {
        let k3 = compound(3);
        run("compound deep", &k3.iter().map(|t| vec![t.clone()]).collect::<Vec<_>>());
    }
    let mut lits: Vec<T> = vec![];
    for t in texts(CHARS.len(), 2) {
        lits.extend([plain(&t), lang(&t, "en"), typed(&t, &ex("dt"))]);
    }
    for t in texts(c.bound(6, CHARS.len()), c.bound(4, 3)) {
        lits.push(plain(&t));
    }
    if c.thorough() {
        for t in texts(5, 6) {
            lits.push(plain(&t));
        }
    }
    for t in forms() {
        lits.push(plain(&t));
        lits.extend(data_types().iter().map(|d| typed(&t, d)));
        lits.extend(LANGS.iter().map(|l| lang(&t, l)));
    }
    run("literals", &lits.iter().map(|l| vec![(iri(&ex("a")), ns("p"), l.clone())]).collect::<Vec<_>>());
    // literals that only differ in one respect, together
    let mut near = vec![plain("1"), plain("a"), plain("")];
    for t in ["1", "a"] {
        near.extend([lang(t, "en"), lang(t, "en-US"), lang(t, "fr"), typed(t, &xsd("integer")), typed(t, &xsd("decimal")), typed(t, &ex("dt")), iri(&ex(t)), blank(&format!("n{t}"))]);
    }
    let near: Vec<Triple> = near.into_iter().map(|o| (iri(&ex("a")), ns("p"), o)).collect();
    run("near literals", &subsets(near.len(), c.bound(3, 5)).iter().map(|s| pick(&near, s)).collect::<Vec<_>>());
    // every two of the terms that may share a text
    run("alike", &alike());
    let names = iris();
    run("iris", &names.iter().flat_map(|i| [vec![(iri(i), ns("p"), plain("t"))], vec![(iri(&ex("a")), ns("p"), iri(i))], vec![(blank("x"), ns("p"), typed("t", i))]]).collect::<Vec<_>>());
    run("labels", &LABELS.iter().flat_map(|l| LABELS.iter().map(move |m| vec![(blank(l), ns("p"), blank(m)), (blank(m), ns("p"), plain(l))])).collect::<Vec<_>>());
    let mut small: Vec<Vec<Triple>> = subsets(m.len(), c.bound(1, 2)).iter().map(|s| pick(&m, s)).collect();
    small.extend((0..512).map(|b| relation(&nodes[..3], b)));
    small.extend(k1.iter().map(|t| vec![t.clone()]));
    small.extend(subsets(near.len(), 2).iter().map(|s| pick(&near, s)));
    for d in DRESSES {
        run(d, &small);
    }
    let sp = specials();
    run("special words", &subsets(sp.len(), c.bound(2, 3)).iter().map(|s| pick(&sp, s)).collect::<Vec<_>>());
    run("large", &grown(40, 10, 5_000));
    if c.thorough() {
        run("larger", &grown(400, 60, 100_000));
    }
}

// ------------------------------------------------------------------------------------------------
// E01
// ------------------------------------------------------------------------------------------------

pub fn e01(c: &Check) {
    let (w, r) = (NTripleWriter::default(), NTripleReader::default());
    let _ = (&w, &r);
    let one = |class: &str, ts: &[Triple]| {
        run1(c, || format!("{class}: {}", show(ts)), || {
            let g = dressed(class, ts);
            let text = out_of(&NTripleWriter::default(), &g)?;
            let want = meaning(&g);
            let got = parse_nq(&text, false, Layout::Strict).map_err(|e| format!("not N-Triples: {e}\n{text}"))?;
            ck!(isomorphic(&strip(&triples(&got)), &want), "the document states something else\n{text}");
            let back = NTripleReader::default().read(&mut text.as_bytes()).map_err(|e| format!("its own reader rejects it: {e}\n{text}"))?;
            ck!(isomorphic(&strip(&of_graph(&back)), &want), "its own reader reads {:?} from\n{text}", of_graph(&back));
            Ok(())
        });
        c.add_transitions(2);
        c.add_traces(1);
    };
    each_graph(c, &one);
    // every predicate
    par_each(&iris(), |i| one("predicates", &[(blank("x"), i.clone(), plain("t"))]));
}

// ------------------------------------------------------------------------------------------------
// E03
// ------------------------------------------------------------------------------------------------

/// Data sets to write: graph name (None: default graph) and statements.
pub type Set = Vec<(Option<T>, Vec<Triple>)>;

pub fn data_sets(c: &Check) -> Vec<Set> {
    let names = [None, Some(iri(&ex("g"))), Some(blank("g")), Some(iri(&ex("a"))), Some(blank("x"))];
    let u = [
        (iri(&ex("a")), ns("p"), blank("x")),
        (blank("x"), ns("p"), plain("t")),
        (blank("x"), ns("q"), iri(&ex("g"))),
        (iri(&ex("a")), ns("p"), lang("a\"b\n", "en")),
    ];
    let contents: Vec<Vec<Triple>> = subsets(u.len(), c.bound(2, 4)).iter().map(|s| pick(&u, s)).collect();
    // every subset of names, each with any of the contents
    let mut out: Vec<Set> = vec![];
    for s in subsets(names.len(), c.bound(2, 3)) {
        let mut part: Vec<Set> = vec![vec![]];
        for i in &s {
            let mut next = vec![];
            for p in &part {
                for k in &contents {
                    let mut q = p.clone();
                    q.push((names[*i].clone(), k.clone()));
                    next.push(q);
                }
            }
            part = next;
        }
        out.extend(part);
    }
    // all names at once
    for k in &contents {
        out.push(names.iter().map(|n| (n.clone(), k.clone())).collect());
    }
    // compound terms, in a named graph and in the default one
    for t in compound(2) {
        out.push(vec![(Some(iri(&ex("g"))), vec![t.clone()]), (None, vec![t])]);
    }
    // graphs named like what they and the others are about
    let many = c.bound(40, 200);
    out.push((0..many).map(|i| (Some(if i % 2 == 0 { iri(&ex(&format!("g{i}"))) } else { blank(&format!("g{i}")) }), vec![(iri(&ex("a")), ns("p"), blank("x"))])).collect());
    out.push((0..many).map(|i| (Some(blank(&format!("g{i}"))), vec![(blank(&format!("g{}", (i + 1) % many)), ns("p"), blank(&format!("g{i}")))])).collect());
    for g in grown(12, 4, 200) {
        out.push(vec![(Some(iri(&ex("g"))), g.clone()), (None, g.clone()), (Some(blank("b1")), g)]);
    }
    for t in specials() {
        out.push(vec![(Some(blank("x")), vec![t.clone()]), (None, vec![t])]);
    }
    for n in LABELS {
        for l in LABELS.iter().filter(|l| **l != n) {
            out.push(vec![(Some(blank(n)), vec![(blank(l), ns("p"), plain("t"))]), (Some(blank(l)), vec![(blank(l), ns("p"), blank(n))])]);
        }
    }
    for l in LANGS {
        out.push(vec![(Some(iri(&ex("g"))), vec![(iri(&ex("a")), ns("p"), lang("t", l))])]);
    }
    for l in LABELS {
        out.push(vec![(Some(blank(l)), vec![(blank(l), ns("p"), plain(l))]), (None, vec![(iri(&ex("a")), ns("p"), blank(l))])]);
    }
    for i in iris() {
        out.push(vec![(Some(iri(&i)), vec![(iri(&i), i.clone(), iri(&i)), (iri(&i), ns("p"), typed("t", &i))])]);
    }
    for t in texts(CHARS.len(), c.bound(1, 2)) {
        out.push(vec![(Some(iri(&ex("g"))), vec![(iri(&ex("a")), ns("p"), plain(&t)), (iri(&ex("a")), ns("p"), typed(&t, &ex("dt"))), (iri(&ex("a")), ns("p"), lang(&t, "fr"))])]);
    }
    out
}

pub fn real_data_set(s: &Set) -> DataSet {
    let mut d = DataSet::default();
    for (n, ts) in s {
        let mut g = real_graph(ts);
        if let Some(n) = n {
            g.set_name(real_name(n));
        }
        d.insert(g);
    }
    d
}
pub fn show_set(s: &Set) -> String {
    s.iter().map(|(n, ts)| format!("{} {{ {} }}", n.as_ref().map(|n| format!("{n:?}")).unwrap_or_default(), show(ts))).collect::<Vec<_>>().join("  ")
}

fn set_meaning(s: &Set) -> Vec<Quad> {
    let mut v = vec![];
    for (n, ts) in s {
        for t in meaning(&real_graph(ts)) {
            v.push((n.clone(), t));
        }
    }
    v
}
pub fn strip_quads(q: &[Quad]) -> Vec<Quad> {
    let names: BTreeSet<&Option<T>> = q.iter().map(|x| &x.0).collect();
    let mut v = vec![];
    for n in names {
        let ts: Vec<Triple> = q.iter().filter(|x| x.0 == *n).map(|x| x.1.clone()).collect();
        v.extend(strip(&ts).into_iter().map(|t| (n.clone(), t)));
    }
    v
}

pub fn e03(c: &Check) {
    let sets = data_sets(c);
    par_each(&sets, |s| {
        run1(c, || show_set(s), || {
            let d = real_data_set(s);
            let text = out_of(&NQuadWriter::default(), &d)?;
            let want = set_meaning(s);
            let got = parse_nq(&text, true, Layout::Strict).map_err(|e| format!("not N-Quads: {e}\n{text}"))?;
            ck!(quads_iso(&strip_quads(&got), &want), "the document states something else\n{text}");
            let back = NQuadReader::default().read(&mut text.as_bytes()).map_err(|e| format!("its own reader rejects it: {e}\n{text}"))?;
            ck!(quads_iso(&strip_quads(&of_set(&back)), &want), "its own reader reads {:?} from\n{text}", of_set(&back));
            Ok(())
        });
    });
    c.outcome("data sets", sets.len() as u64);
    c.add_states(sets.len() as u64);
    c.add_transitions(2 * sets.len() as u64);
    c.add_traces(sets.len() as u64);
    // single graphs, named and not
    let one = |class: &str, ts: &[Triple]| {
        for name in [None, Some(iri(&ex("g"))), Some(blank("g"))] {
            run1(c, || format!("{class} {name:?}: {}", show(ts)), || {
                let mut g = dressed(class, ts);
                match &name {
                    Some(n) => g.set_name(real_name(n)),
                    None => g.unset_name(),
                }
                let text = out_of::<Graph>(&NQuadWriter::default(), &g)?;
                let got = parse_nq(&text, true, Layout::Strict).map_err(|e| format!("not N-Quads: {e}\n{text}"))?;
                let want: Vec<Quad> = meaning(&g).into_iter().map(|t| (name.clone(), t)).collect();
                ck!(quads_iso(&strip_quads(&got), &want), "the document states something else\n{text}");
                let back = NQuadReader::default().read(&mut text.as_bytes()).map_err(|e| format!("its own reader rejects it: {e}\n{text}"))?;
                ck!(quads_iso(&strip_quads(&of_set(&back)), &want), "its own reader reads {:?} from\n{text}", of_set(&back));
                Ok(())
            });
            c.add_transitions(2);
            c.add_traces(1);
        }
    };
    each_graph(c, &one);
}

// ------------------------------------------------------------------------------------------------
// E02, E04: the readers
// ------------------------------------------------------------------------------------------------

/// Terms as the library holds them: IRIs and language tags in their parsed form. None where the
/// library's own parsers do not take one of the components.
fn held(t: &T) -> Option<T> {
    Some(match t {
        T::Iri(i) => T::Iri(format!("{:#}", Iri::from_str(i).ok()?)),
        T::Blank(_) => t.clone(),
        T::Lit { lex, dt, lang } => T::Lit {
            lex: lex.clone(),
            dt: match dt {
                Some(d) => Some(format!("{:#}", Iri::from_str(d).ok()?)),
                None => None,
            },
            lang: match lang {
                Some(l) => Some(LanguageTag::parse(l).ok()?.to_string()),
                None => None,
            },
        },
        _ => unreachable!(),
    })
}

fn held_quads(q: &[Quad]) -> Option<BTreeSet<Quad>> {
    q.iter()
        .map(|(g, (s, p, o))| {
            let g = match g {
                Some(g) => Some(held(g)?),
                None => None,
            };
            let p = match held(&T::Iri(p.clone()))? {
                T::Iri(i) => i,
                _ => unreachable!(),
            };
            Some((g, norm3(&(held(s)?, p, held(o)?))))
        })
        .collect()
}

pub struct Tally {
    ok: AtomicU64,
    err: AtomicU64,
    open: AtomicU64,
}

/// The verdict on one document: valid documents are read as what they state, documents that are not
/// even a sequence of statements in free layout are rejected, and nothing else may be read from those
/// in between.
fn reads(c: &Check, quads: bool, text: &str, tally: &Tally) {
    let read = |t: &str| -> R<Vec<Quad>> {
        if quads {
            NQuadReader::default().read(&mut t.as_bytes()).map(|d| of_set(&d)).map_err(|e| e.to_string())
        } else {
            NTripleReader::default().read(&mut t.as_bytes()).map(|g| real_set(&g).into_iter().map(|t| (None, t)).collect()).map_err(|e| e.to_string())
        }
    };
    run1(c, || format!("{text:?}"), || {
        let free = parse_nq(text, quads, Layout::Free);
        let strict = parse_nq(text, quads, Layout::Strict);
        match read(text) {
            Ok(got) => {
                tally.ok.fetch_add(1, Ordering::Relaxed);
                let q = free.map_err(|e| format!("accepted, although {e}"))?;
                let want = held_quads(&q).ok_or("accepted, although a term is not valid")?;
                let got: BTreeSet<Quad> = got.into_iter().collect();
                ck!(got == want, "read as {got:?}, but states {want:?}");
            }
            Err(e) => {
                if let Ok(q) = &strict {
                    ck!(held_quads(q).is_none(), "rejected, although it is valid: {e}");
                }
                if free.is_ok() { tally.open.fetch_add(1, Ordering::Relaxed) } else { tally.err.fetch_add(1, Ordering::Relaxed) };
            }
        }
        Ok(())
    });
    c.add_states(1);
}

fn readers(c: &Check, quads: bool) {
    let t = Tally { ok: AtomicU64::new(0), err: AtomicU64::new(0), open: AtomicU64::new(0) };
    // 1. token sequences
    let tokens: Vec<&str> = if quads {
        vec!["<http://h/a>", "_:x", "\"t\"", "@en", "^^", "<u:d>", " .", "\n", " ", "#c", "[]", ".", "_:g"]
    } else {
        vec!["<http://h/a>", "_:x", "\"t\"", "@en", "^^", "<u:d>", " .", "\n", " ", "#c", "[]", ".", "<b>", "'t'", "5"]
    };
    let n = words(tokens.len(), c.bound(6, 7), |w| {
        let text: String = w.iter().map(|i| tokens[*i]).collect();
        reads(c, quads, &text, &t);
    });
    // 2. sequences of whole and partial statements
    let lines: Vec<&str> = if quads {
        vec![
            "<u:a> <u:p> <u:b> .\n", "<u:a> <u:p> <u:b> <u:g> .\n", "_:x <u:p> \"t\" _:x .\n", "<u:a> <u:p> \"t\"@en <u:g> .\n", "<u:a> <u:p> \"t\"^^<u:d> .\n",
            "<u:a><u:p>\"t\"<u:g>.", "# c\n", "\n", "<u:a> <u:p> <u:b> <u:g> <u:h> .\n", "<u:a> <u:p> .\n", "<u:a> <u:p> <u:b> \"g\" .\n", "<u:a> <u:p> <u:b> <u:g> . # c",
        ]
    } else {
        vec![
            "<u:a> <u:p> <u:b> .\n", "_:x <u:p> \"t\" .\n", "<u:a> <u:p> \"t\"@en .\n", "<u:a> <u:p> \"t\"^^<u:d> .\n", "<u:a><u:p>_:x.", "# c\n", "\n",
            "<u:a> <u:p> <u:b> <u:c> .\n", "<u:a> <u:p> .\n", "<u:a> _:x <u:b> .\n", "\"t\" <u:p> <u:b> .\n", "<u:a> <u:p> <u:b> . # c", "@prefix u: <u:> .\n", "<u:a> <u:p> <u:b> , <u:c> .\n",
        ]
    };
    words(lines.len(), c.bound(5, 6), |w| {
        let text: String = w.iter().map(|i| lines[*i]).collect();
        reads(c, quads, &text, &t);
    });
    // 3. the inside of every kind of token
    let inside = |alphabet: &[&str], max: usize, f: &(dyn Fn(&str) -> String + Sync)| {
        words(alphabet.len(), max, |w| {
            let s: String = w.iter().map(|i| alphabet[*i]).collect();
            reads(c, quads, &f(&s), &t);
        });
    };
    let tail = if quads { " <u:g> .\n" } else { " .\n" };
    let d = c.bound(1usize, 2usize);
    inside(&["a", "\\", "\"", "u", "U", "0", "D800", "41", "000000", "n", "'", "\n", "é", "\r", "t"], 4 + d, &|s| format!("<u:a> <u:p> \"{s}\"{tail}"));
    inside(&["\\t", "\\b", "\\n", "\\r", "\\f", "\\\"", "\\'", "\\\\", "\\u00e9", "\\U0001F600", "a", "n", "\\"], 3 + d, &|s| format!("<u:a> <u:p> \"{s}\"{tail}"));
    inside(&["a", "\\", "u", "U", "003E", "0041", "00000041", " ", "<", ">", "{", "|", "^", "`", "\"", "é", "\u{1}"], 3 + d, &|s| format!("<u:a{s}> <u:p> <u:o>{tail}"));
    inside(&["a", "\\u0062", "/", "?", "#", ":", "%41", "b", ".", "h", "1"], 4 + d, &|s| format!("<u:a> <{s}> <u:o>{tail}"));
    inside(&["a", ".", "-", "_", "0", "é", "·", "\u{300}", "\u{d7}", "%", "A", ":"], 4 + d, &|s| format!("_:{s} <u:p> _:{s}{tail}"));
    inside(&["a", "en", "-", "1", "_", "x", "US", "Hant", "abcdefgh", " "], 4 + d, &|s| format!("<u:a> <u:p> \"t\"@{s}{tail}"));
    inside(&["^", "^^", "@", "<u:d>", "<d>", "en", " ", "\t", "_:x", "\"u\"", "u:d"], 4 + d, &|s| format!("<u:a> <u:p> \"t\"{s}{tail}"));
    inside(&[" ", "\t", "\n", "\r", "#", "# c\n", "\u{a0}", "\u{c}", "\u{feff}"], 4 + d, &|s| format!("{s}<u:a> <u:p>{s}<u:o>{tail}{s}"));
    if quads {
        inside(&["<u:g>", "_:g", "\"g\"", "<g>", ".", " ", "\n", "[]", "#", "@en", "_:", "<u:g\\u0041>"], 4 + d, &|s| format!("<u:a> <u:p> <u:o>{s} .\n"));
    }
    // every scalar value, as each kind of character
    let all: Vec<u32> = (0..0x11_0000u32).filter(|u| c.thorough() || *u < 0x3000 || u & 0xff < 2 || u & 0xfff > 0xffc || (0xfd00..0x10010).contains(u)).collect();
    let chunks: Vec<&[u32]> = all.chunks(512).collect();
    par_each(&chunks, |us| {
        for u in us.iter() {
            let Some(x) = char::from_u32(*u) else {
                reads(c, quads, &format!("<u:a> <u:p> \"\\U{u:08X}\"{tail}"), &t);
                continue;
            };
            reads(c, quads, &format!("<u:a> <u:p> \"{x}\"{tail}"), &t);
            reads(c, quads, &format!("<u:a> <u:p> \"\\{x}\"{tail}"), &t);
            reads(c, quads, &format!("<u:a> <u:p\\{x}> <u:o>{tail}"), &t);
            reads(c, quads, &format!("<u:a> <u:p> \"\\U{u:08x}\"{tail}"), &t);
            if *u < 0x10000 {
                reads(c, quads, &format!("<u:a> <u:p> \"\\u{u:04X}\"{tail}"), &t);
            }
            reads(c, quads, &format!("_:{x} <u:p> <u:o>{tail}"), &t);
            reads(c, quads, &format!("<u:a> <u:p> _:a{x}{tail}"), &t);
            reads(c, quads, &format!("_:a{x}b <u:p> <u:o>{tail}"), &t);
            reads(c, quads, &format!("<u:a> <u:p> <u:{x}>{tail}"), &t);
        }
    });
    // 4. every edit of a valid document
    let base = if quads {
        "_:a.b <u:p> \"x\\u0041\\n\"@en-US <u:g> .\n<u:a> <u:p> \"1\"^^<u:d> _:g . # c\n<u:a> <u:p> <u:b> .\n"
    } else {
        "_:a.b <u:p> \"x\\u0041\\n\"@en-US .\n<u:a> <u:p> \"1\"^^<u:d> . # c\n<u:a> <u:p> _:c .\n"
    };
    let cs: Vec<char> = base.chars().collect();
    let subst: Vec<char> = "a<>\"\\.:_@^#- \n1[u\u{0}é".chars().collect();
    let edit1 = |cs: &[char]| -> Vec<Vec<char>> {
        let mut v = vec![];
        for i in 0..=cs.len() {
            if i < cs.len() {
                let mut d = cs.to_vec();
                d.remove(i);
                v.push(d);
            }
            for x in &subst {
                let mut d = cs.to_vec();
                d.insert(i, *x);
                v.push(d.clone());
                if i < cs.len() {
                    d.remove(i + 1);
                    v.push(d);
                }
            }
            v.push(cs[..i].to_vec());
        }
        v
    };
    let edits = edit1(&cs);
    par_each(&edits, |e| {
        reads(c, quads, &e.iter().collect::<String>(), &t);
        // two edits, on a short document (thorough)
    });
    let short: Vec<char> = if quads { "_:a <u:p> \"x\\n\"@en <u:g>." } else { "_:a <u:p> \"x\\n\"@en ." }.chars().collect();
    if c.thorough() {
        par_each(&edit1(&short), |e| {
            for f in edit1(e) {
                reads(c, quads, &f.iter().collect::<String>(), &t);
            }
        });
    } else {
        par_each(&edit1(&short), |e| reads(c, quads, &e.iter().collect::<String>(), &t));
    }
    // 5. bytes that are not text
    for bad in [&b"\xff"[..], &b"<u:a> <u:p> \"\xc3\" .\n"[..], &b"<u:a> <u:p> \"\xed\xa0\x80\" .\n"[..], &b"<u:a> <u:p> <u:b> .\n# \xc0\x80"[..]] {
        run1(c, || format!("{bad:?}"), || {
            let ok = if quads { NQuadReader::default().read(&mut &bad[..]).is_ok() } else { NTripleReader::default().read(&mut &bad[..]).is_ok() };
            ck!(!ok, "read from bytes that are not UTF-8");
            Ok(())
        });
    }
    c.extra("token_words", json!(n));
    for (k, v) in [("accepted", &t.ok), ("rejected", &t.err), ("free layout, rejected", &t.open)] {
        c.outcome(k, v.load(Ordering::Relaxed));
    }
    c.add_transitions(t.ok.load(Ordering::Relaxed) + t.err.load(Ordering::Relaxed) + t.open.load(Ordering::Relaxed));
    c.add_traces(t.ok.load(Ordering::Relaxed));
}

pub fn e02(c: &Check) {
    readers(c, false);
}
pub fn e04(c: &Check) {
    readers(c, true);
}

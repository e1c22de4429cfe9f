//! E07 Turtle writer, E08 TriG writer, E09 Turtle output does not depend on the history of the graph.

use crate::ck;
use crate::nt::{data_sets, dressed, is_compound, out_of, real_data_set, run1, show_set, strip_quads, Set, DRESSES};
use crate::refs::*;
use crate::universe::*;
use mclib::*;
use mcrdf::*;
use rdftk_core::model::graph::Graph;
use rdftk_io::trig::{TrigWriter, TrigWriterOptions};
use rdftk_io::turtle::{TurtleWriter, TurtleWriterOptions};
use rdftk_iri::{IriPrefixMap, Namespace};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub base: Option<&'static str>,
    pub convert: Option<&'static str>,
    pub flat: bool,
    pub sparql: bool,
    pub intellij: bool,
    pub type_on_line: bool,
    pub padding: bool,
    pub indent: Option<usize>,
    pub prefixes: usize,
}

/// The prefix maps a graph may come with.
pub const PREFIXES: [&[(&str, &str)]; 4] = [
    &[],
    &[("ex", "http://example.org/"), ("ns", "http://example.org/ns#"), ("rdf", RDF), ("xsd", XSD), ("rdfs", "http://www.w3.org/2000/01/rdf-schema#")],
    &[("", "http://example.org/"), ("d", "http://example.org/d/"), ("x", "urn:x:"), ("m", "mailto:"), ("q", "https://example.org:8080/?q=")],
    &[("", "http://example.org/ns#"), ("e.x-1", "http://example.org/"), ("é", "http://example.org/d/")],
];

impl Opts {
    pub fn real(&self) -> TurtleWriterOptions {
        let mut o = TurtleWriterOptions::default();
        if let Some(b) = self.base {
            o = o.with_id_base(real_iri(b));
        }
        if let Some(b) = self.convert {
            o.set_convert_to_id_base(real_iri(b));
        }
        if self.flat {
            o = o.without_nested_blank_nodes();
        }
        if self.sparql {
            o = o.with_sparql_style();
        }
        if self.intellij {
            o = o.with_intellij_style();
        }
        o.set_place_type_on_subject_line(self.type_on_line);
        if self.padding {
            o = o.with_predicate_padding(true);
        }
        if let Some(i) = self.indent {
            o = o.with_indent_width(i);
        }
        o
    }
    pub fn writer(&self) -> TurtleWriter {
        TurtleWriter::default().with_options(self.real())
    }
    /// every combination of the switches
    pub fn all(bases: &[Option<&'static str>], prefixes: &[usize], indents: &[Option<usize>]) -> Vec<Opts> {
        let mut v = vec![];
        for b in 0..32u32 {
            for base in bases {
                for p in prefixes {
                    for i in indents {
                        v.push(Opts {
                            base: *base,
                            convert: None,
                            flat: b & 1 > 0,
                            sparql: b & 2 > 0,
                            intellij: b & 4 > 0,
                            type_on_line: b & 8 > 0,
                            padding: b & 16 > 0,
                            indent: *i,
                            prefixes: *p,
                        });
                    }
                }
            }
        }
        v
    }
}

pub fn prefix_map(n: usize) -> IriPrefixMap {
    prefix_map_of(PREFIXES[n].iter())
}
fn prefix_map_of<'a>(of: impl Iterator<Item = &'a (&'a str, &'a str)>) -> IriPrefixMap {
    let mut m = IriPrefixMap::empty();
    for (p, i) in of {
        let prefix = if p.is_empty() { Namespace::new_default() } else { Namespace::from_str(&format!("{p}:")).unwrap() };
        m = m.with(prefix, real_iri(i));
    }
    m
}

/// `convert`: IRIs below that one are to be written as if they were below the base
fn converted(t: &Triple, o: &Opts) -> Triple {
    let (Some(base), Some(from)) = (o.base, o.convert) else { return t.clone() };
    let (base, from) = (format!("{:#}", real_iri(base)), format!("{:#}", real_iri(from)));
    let ci = |i: &str| match i.strip_prefix(&from) {
        Some(r) => format!("{:#}", real_iri(&format!("{base}{r}"))),
        None => i.to_string(),
    };
    let ct = |t: &T| match t {
        T::Iri(i) => T::Iri(ci(i)),
        T::Lit { lex, dt, lang } => T::Lit { lex: lex.clone(), dt: dt.as_ref().map(|d| ci(d)), lang: lang.clone() },
        o => o.clone(),
    };
    (ct(&t.0), ci(&t.1), ct(&t.2))
}

/// Is the text a correct rendering of the graph under the options?
pub fn check_text(text: &str, ts: &[Triple], g: &Graph, o: &Opts) -> Result<(), String> {
    let doc = Ttl::parse(text, false).map_err(|e| format!("not Turtle: {e}\n{text}"))?;
    let mut got = strip(&triples(&doc.out));
    if let (Some(_), Some(_)) = (o.base, o.convert) {
        // the IRI that a conversion makes is held in normal form
        got = got.iter().map(|t| converted(t, &Opts { convert: o.base, ..o.clone() })).collect();
    }
    let want: Vec<Triple> = strip(&meaning(g).iter().map(|t| converted(t, o)).collect::<Vec<_>>());
    if o.flat && !ts.iter().any(is_compound) {
        let (a, b): (BTreeSet<_>, BTreeSet<_>) = (got.iter().collect(), want.iter().collect());
        ck!(a == b, "the document states something else, or has other blank node labels\n{text}");
    } else {
        ck!(isomorphic(&got, &want), "the document states something else\n{text}");
    }
    check_directives(&doc, o, text)
}

fn check_directives(doc: &Ttl, o: &Opts, text: &str) -> Result<(), String> {
    let sparql = o.sparql && !o.intellij;
    for (k, dot) in &doc.directives {
        ck!(*dot != sparql, "directive {k} in the other style\n{text}");
    }
    ck!(doc.directives.iter().any(|(k, _)| k.ends_with("base")) == o.base.is_some(), "base directive\n{text}");
    let want: BTreeMap<String, String> = PREFIXES[o.prefixes].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    ck!(doc.prefixes == want, "declares {:?}\n{text}", doc.prefixes);
    Ok(())
}

pub fn graph_with(class: &str, ts: &[Triple], o: &Opts) -> Graph {
    let mut g = dressed(class, ts);
    g.set_prefix_mappings(prefix_map(o.prefixes));
    g
}

fn one(c: &Check, class: &str, ts: &[Triple], o: &Opts) {
    run1(c, || format!("{class} {o:?}: {}", show(ts)), || {
        let g = graph_with(class, ts, o);
        let text = out_of(&o.writer(), &g)?;
        check_text(&text, ts, &g, o)
    });
    c.add_transitions(1);
    c.add_traces(1);
}

const B: Option<&str> = Some("http://example.org/");

fn group_predicates() -> Vec<String> {
    let rdfs = |n: &str| format!("http://www.w3.org/2000/01/rdf-schema#{n}");
    let skos = |n: &str| format!("http://www.w3.org/2004/02/skos/core#{n}");
    vec![
        rdf("type"), rdfs("subClassOf"), rdfs("subPropertyOf"), "http://www.w3.org/2002/07/owl#equivalentClass".into(), rdfs("label"), skos("prefLabel"), skos("altLabel"),
        skos("hiddenLabel"), "http://xmlns.com/foaf/0.1/name".into(), "http://purl.org/dc/elements/1.1/title".into(), rdfs("comment"), "http://purl.org/dc/elements/1.1/description".into(),
        skos("definition"), skos("note"), skos("scopeNote"), skos("editorialNote"), ns("p"), ex("a"), rdf("value"), ex("a/b"),
    ]
}

pub fn e07(c: &Check) {
    let all = Opts::all(&[None, B], &[0, 1], &[None]);
    let few = [Opts::default(), Opts { flat: true, ..Default::default() }, Opts { base: B, prefixes: 1, ..Default::default() }, Opts { prefixes: 2, sparql: true, ..Default::default() }];
    let run = |class: &str, gs: &[Vec<Triple>], opts: &[Opts]| {
        par_each(gs, |g| opts.iter().for_each(|o| one(c, class, g, o)));
        c.add_states(gs.len() as u64);
        c.outcome(class, gs.len() as u64 * opts.len() as u64);
    };
    let m = mixed();
    run("mixed", &subsets(m.len(), 2).iter().map(|s| pick(&m, s)).collect::<Vec<_>>(), &all);
    let nodes = [iri(&ex("a")), blank("x"), blank("y"), blank("z")];
    run("relation of 3", &(0..512).map(|b| relation(&nodes[..3], b)).collect::<Vec<_>>(), &Opts::all(&[None, B], &[0, 1], &[None, Some(1), Some(3)]));
    let big: Vec<u32> = (0..65536).collect();
    let big: Vec<Vec<Triple>> = big.into_iter().map(|b| relation(&nodes, b)).collect();
    if c.thorough() {
        run("mixed of 3", &subsets(m.len(), 3).iter().map(|s| pick(&m, s)).collect::<Vec<_>>(), &Opts::all(&[None], &[0], &[None]));
        run("relation of 4", &big, &Opts::all(&[None], &[0], &[None]));
    } else {
        run("relation of 4", &big, &few[..2]);
    }
    run("alike", &alike(), &few);
    let k = compound(2);
    run("compound", &k.iter().map(|t| vec![t.clone()]).collect::<Vec<_>>(), &all);
    // a collection together with statements about, and other references to, what is in it
    let around = [(blank("x"), ns("p"), plain("t")), (iri(&ex("a")), ns("q"), blank("x")), (blank("y"), ns("q"), blank("x")), (blank("x"), ns("q"), blank("y"))];
    let mut with: Vec<Vec<Triple>> = vec![];
    let k1 = compound(1);
    for t in if c.thorough() { &k } else { &k1 } {
        for s in subsets(around.len(), around.len()) {
            let mut g = pick(&around, &s);
            g.push(t.clone());
            with.push(g);
        }
    }
    run("compound and others", &with, if c.thorough() { &all } else { &few });
    let k1 = compound(1);
    run("compound pairs", &subsets(k1.len(), c.bound(2, 3)).iter().map(|s| pick(&k1, s)).collect::<Vec<_>>(), &few);
    run("compound deep", &compound(3).iter().map(|t| vec![t.clone()]).collect::<Vec<_>>(), if c.thorough() { &all } else { &few });
    // chains, trees and shared nodes below one another, with several predicates each
    let mut deep: Vec<Vec<Triple>> = vec![];
    let bs = ["x", "y", "z", "w"];
    for shape in 0..5usize.pow(4) {
        // each blank node hangs below one of: nothing, the IRI, or another blank node
        let mut g = vec![];
        let mut s = shape;
        for (i, b) in bs.iter().enumerate() {
            match s % 5 {
                0 => {}
                1 => g.push((iri(&ex("a")), ns("p"), blank(b))),
                n => g.push((blank(bs[(i + n - 1) % 4]), if i % 2 == 0 { ns("p") } else { rdf("type") }, blank(b))),
            }
            s /= 5;
        }
        for (i, b) in bs.iter().enumerate() {
            let mut h = g.clone();
            h.push((blank(b), RDFS_LABEL.into(), plain("t")));
            if i % 2 == 0 {
                h.push((blank(b), ns("z"), plain("u")));
            }
            deep.push(h);
        }
        deep.push(g);
    }
    run("forests", &deep, if c.thorough() { &all } else { &few });
    let mut lits: Vec<T> = vec![];
    for t in texts(CHARS.len(), 2) {
        lits.extend([plain(&t), lang(&t, "en"), typed(&t, &ex("dt"))]);
    }
    for t in texts(c.bound(6, CHARS.len()), c.bound(4, 3)) {
        lits.push(plain(&t));
    }
    for t in forms() {
        lits.push(plain(&t));
        lits.extend(data_types().iter().map(|d| typed(&t, d)));
        lits.extend(LANGS.iter().map(|l| lang(&t, l)));
    }
    for t in texts(CHARS.len(), c.bound(1, 2)) {
        for d in ["boolean", "integer", "decimal", "double", "string", "anyURI"] {
            lits.push(typed(&t, &xsd(d)));
        }
    }
    // all numbers
    let digits = ["1", "0", ".", "e", "E", "+", "-"];
    let mut nums = vec![String::new()];
    let mut layer = vec![String::new()];
    for _ in 0..c.bound(4, 6) {
        layer = layer.iter().flat_map(|s| digits.iter().map(move |d| format!("{s}{d}"))).collect();
        nums.extend(layer.iter().cloned());
    }
    for t in nums {
        lits.extend(["integer", "decimal", "double"].iter().map(|d| typed(&t, &xsd(d))));
    }
    run("literals", &lits.iter().map(|l| vec![(iri(&ex("a")), ns("p"), l.clone())]).collect::<Vec<_>>(), &[few[0].clone(), few[2].clone()]);
    run("literals in lists", &lits.iter().map(|l| vec![(iri(&ex("a")), ns("p"), T::Coll(vec![l.clone(), l.clone()])), (iri(&ex("a")), ns("p"), l.clone())]).collect::<Vec<_>>(), &few[..1]);
    // IRIs, in each position, under every base and prefix map
    let mut io = vec![];
    for base in [None, B, Some("http://example.org/d/"), Some("http://example.org/ns#"), Some("http://example.org/ns"), Some("urn:x:"), Some("https://example.org:8080/?q="), Some("http://example.com"), Some("mailto:"), Some("http://example.org/?q=/"), Some("http://example.org/#/"), Some("sch://h/"), Some("sch://h/d/"), Some("file:///"), Some("sch:/")] {
        for p in 0..PREFIXES.len() {
            io.push(Opts { base, prefixes: p, ..Default::default() });
            io.push(Opts { base, prefixes: p, sparql: true, ..Default::default() });
            for convert in ["http://example.org/d/", "http://example.org/ns#", "http://example.org/", "urn:x:"] {
                if base.is_some() {
                    io.push(Opts { base, convert: Some(convert), prefixes: p, ..Default::default() });
                }
            }
        }
    }
    let names = iris();
    run("iris", &names.iter().map(|i| vec![(iri(i), i.clone(), iri(i)), (iri(i), i.clone(), typed("1", i)), (iri(i), i.clone(), T::Coll(vec![iri(i)]))]).collect::<Vec<_>>(), &io);
    run("labels", &LABELS.iter().flat_map(|l| LABELS.iter().map(move |m| vec![(blank(l), ns("p"), blank(m)), (blank(m), ns("p"), plain(l)), (blank(m), ns("p"), blank(l))])).collect::<Vec<_>>(), &few);
    // groups of predicates
    let gp = group_predicates();
    let u: Vec<Triple> = gp.iter().map(|p| (iri(&ex("a")), p.clone(), plain("t"))).collect();
    run("groups", &subsets(u.len(), c.bound(3, 5)).iter().map(|s| pick(&u, s)).collect::<Vec<_>>(), &few);
    let u: Vec<Triple> = gp.iter().flat_map(|p| [(blank("x"), p.clone(), blank("y")), (blank("y"), p.clone(), plain("t")), (iri(&ex("a")), p.clone(), blank("x"))]).collect();
    run("nested groups", &subsets(u.len(), 3).iter().map(|s| pick(&u, s)).collect::<Vec<_>>(), &few[..c.bound(1, 4)]);
    let mut small: Vec<Vec<Triple>> = subsets(m.len(), 1).iter().map(|s| pick(&m, s)).collect();
    small.extend((0..512).map(|b| relation(&nodes[..3], b)));
    small.extend(k1.iter().map(|t| vec![t.clone()]));
    for d in DRESSES {
        run(d, &small, &few);
    }
    let sp = specials();
    run("special words", &subsets(sp.len(), c.bound(2, 3)).iter().map(|s| pick(&sp, s)).collect::<Vec<_>>(), &few);
    run("large", &grown(40, 10, 5_000), &all);
    if c.thorough() {
        run("larger", &grown(400, 60, 100_000), &few);
    }
    options(c);
    w3c(c);
}

/// Options are kept, and what the builders set is what the accessors say.
fn options(c: &Check) {
    run1(c, || "options".into(), || {
        let b = real_iri("http://example.org/");
        let mut o = TurtleWriterOptions::default();
        ck!(o.nest_blank_nodes() && o.id_base().is_none() && !o.use_sparql_style() && !o.use_intellij_style() && !o.place_type_on_subject_line(), "defaults");
        ck!(o.convert_to_id_base().is_none() && o.convert_base().is_empty() && o.indent_width() > 0, "defaults");
        o.set_id_base(b.clone());
        ck!(o.id_base() == Some(&b), "base");
        o.unset_id_base();
        ck!(o.id_base().is_none(), "base");
        o.set_convert_to_id_base(b.clone());
        ck!(o.convert_to_id_base() == Some(&b), "conversion base");
        o.unset_convert_to_id_base();
        ck!(o.convert_to_id_base().is_none(), "conversion base");
        for f in [true, false] {
            o.set_nest_blank_nodes(f);
            o.set_use_sparql_style(!f);
            o.set_use_intellij_style(f);
            o.set_place_type_on_subject_line(!f);
            o.set_predicate_padding(f);
            o.set_indent_width(if f { 3 } else { 7 });
            ck!(o.nest_blank_nodes() == f && o.use_sparql_style() != f && o.use_intellij_style() == f && o.place_type_on_subject_line() != f && o.predicate_padding() == f, "switches");
            ck!(o.indent_width() == if f { 3 } else { 7 }, "indent");
        }
        let o = TurtleWriterOptions::default().with_id_base(b.clone()).with_sparql_style().without_nested_blank_nodes().with_indent_width(2).with_predicate_padding(true).with_intellij_style();
        ck!(o.id_base() == Some(&b) && o.use_sparql_style() && !o.nest_blank_nodes() && o.predicate_padding() && o.use_intellij_style(), "builders");
        ck!(o.with_nested_blank_nodes().nest_blank_nodes(), "builders");
        Ok(())
    });
}

/// The reference parser against the W3C test suite: (files parsed as expected, files).
fn w3c(c: &Check) {
    let dir = std::path::Path::new("/repo/rdftk_io/tests/w3c/turtle");
    let (mut ok, mut n) = (0, 0);
    if let Ok(d) = std::fs::read_dir(dir) {
        for f in d.flatten() {
            let p = f.path();
            let name = f.file_name().to_string_lossy().to_string();
            if !name.ends_with(".ttl") || name == "manifest.ttl" || name.contains("eval-bad") {
                continue;
            }
            let Ok(text) = std::fs::read_to_string(&p) else { continue };
            n += 1;
            let text = format!("@base <http://www.w3.org/2013/TurtleTests/{name}> .\n{text}");
            let got = catch(|| Ttl::parse(&text, false)).unwrap_or_else(|e| Err(e));
            let good = match (&got, name.contains("bad")) {
                (Ok(_), true) | (Err(_), false) => false,
                (Err(_), true) => true,
                (Ok(d), false) => match std::fs::read_to_string(p.with_extension("nt")) {
                    Ok(nt) => parse_nq(&nt, false, Layout::Strict).is_ok_and(|q| isomorphic(&triples(&q), &triples(&d.out))),
                    Err(_) => true,
                },
            };
            ok += good as usize;
            if !good && std::env::var_os("MC_LOUD").is_some() {
                eprintln!("reference differs: {name}: {:?}", got.as_ref().err());
            }
        }
    }
    c.extra("reference_agrees_with_w3c_suite", json!([ok, n]));
}

// ------------------------------------------------------------------------------------------------
// E08
// ------------------------------------------------------------------------------------------------

pub fn e08(c: &Check) {
    let sets = data_sets(c);
    let mut opts = vec![];
    for o in Opts::all(&[None, B], &[0, 1], &[None]) {
        for omit in [false, true] {
            opts.push((o.clone(), omit));
        }
    }
    let few: Vec<(Opts, bool)> = opts.iter().filter(|(o, _)| !o.type_on_line && !o.padding && !o.intellij && (o.base.is_some() == (o.prefixes == 1))).cloned().collect();
    let one = |s: &Set, o: &Opts, omit: bool| {
        run1(c, || format!("{o:?} omit={omit}: {}", show_set(s)), || {
            let mut d = real_data_set(s);
            for (n, _) in s {
                let n = n.as_ref().map(real_name);
                d.graph_mut(&n).ok_or("graph lost")?.set_prefix_mappings(prefix_map(o.prefixes));
            }
            let w = TrigWriter::default().with_options(TrigWriterOptions::from(o.real()).with_omit_graph_keyword(omit));
            let text = out_of(&w, &d)?;
            let mut want: Vec<Quad> = vec![];
            for g in d.graphs() {
                want.extend(meaning(g).into_iter().map(|t| (g.name().map(of_name), t)));
            }
            trig_text(&text, &want, &d.graphs().map(|g| g.name().map(of_name)).collect::<Vec<_>>(), o, omit)?;
            Ok(())
        });
        c.add_transitions(1);
        c.add_traces(1);
    };
    let big = sets.len() > 5000;
    par_each(&sets, |s| {
        let o = if big || !c.thorough() { &few } else { &opts };
        o.iter().for_each(|(o, omit)| one(s, o, *omit));
    });
    let small: Vec<&Set> = sets.iter().filter(|s| s.iter().map(|g| g.1.len()).sum::<usize>() <= 2).collect();
    par_each(&small, |s| opts.iter().for_each(|(o, omit)| one(s, o, *omit)));
    c.add_states(sets.len() as u64);
    c.outcome("data sets", sets.len() as u64);
    // one graph at a time
    let m = mixed();
    let gs: Vec<Vec<Triple>> = subsets(m.len(), c.bound(1, 2)).iter().map(|s| pick(&m, s)).chain((0..512).map(|b| relation(&[iri(&ex("a")), blank("x"), blank("y")], b))).chain(compound(2).into_iter().map(|t| vec![t])).collect();
    par_each(&gs, |ts| {
        for name in [None, Some(iri(&ex("g"))), Some(blank("g"))] {
            for (o, omit) in &few {
                run1(c, || format!("{o:?} omit={omit} {name:?}: {}", show(ts)), || {
                    let mut g = graph_with("", ts, o);
                    if let Some(n) = &name {
                        g.set_name(real_name(n));
                    }
                    let w = TrigWriter::default().with_options(TrigWriterOptions::from(o.real()).with_omit_graph_keyword(*omit));
                    let text = out_of::<Graph>(&w, &g)?;
                    let want: Vec<Quad> = meaning(&g).into_iter().map(|t| (name.clone(), t)).collect();
                    trig_text(&text, &want, &[name.clone()], o, *omit)
                });
                c.add_transitions(1);
                c.add_traces(1);
            }
        }
    });
    c.add_states(gs.len() as u64);
    c.outcome("graphs", gs.len() as u64 * 3);
    run1(c, || "options".into(), || {
        let mut o = TrigWriterOptions::from(TurtleWriterOptions::default().with_indent_width(9));
        ck!(o.as_ref().indent_width() == 9 && !o.omit_graph_keyword(), "options from Turtle options");
        o.set_omit_graph_keyword(true);
        ck!(o.omit_graph_keyword() && !o.with_omit_graph_keyword(false).omit_graph_keyword(), "option not kept");
        Ok(())
    });
}

pub fn trig_text(text: &str, want: &[Quad], names: &[Option<T>], o: &Opts, omit: bool) -> Result<(), String> {
    let doc = Ttl::parse(text, true).map_err(|e| format!("not TriG: {e}\n{text}"))?;
    ck!(quads_iso(&strip_quads(&doc.out), &strip_quads(want)), "the document states something else\n{text}");
    for (k, dot) in &doc.directives {
        ck!(*dot != (o.sparql && !o.intellij), "directive {k} in the other style\n{text}");
    }
    for (name, keyword) in &doc.blocks {
        ck!(*keyword == (name.is_some() && !omit), "the block of {name:?} has {} GRAPH keyword\n{text}", if *keyword { "a" } else { "no" });
    }
    // a graph is there even if it states nothing; blank nodes are told apart, but their labels are free
    let sort = |ns: BTreeSet<Option<T>>| -> (BTreeSet<T>, usize) {
        let blank = ns.iter().flatten().filter(|n| matches!(n, T::Blank(_))).count();
        (ns.into_iter().flatten().filter(|n| !matches!(n, T::Blank(_))).collect(), blank)
    };
    let (got, want) = (sort(doc.blocks.into_iter().map(|b| b.0).collect()), sort(names.iter().cloned().collect()));
    ck!(got == want, "the graphs are named {got:?} and not {want:?}\n{text}");
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// E09
// ------------------------------------------------------------------------------------------------

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

pub fn e09(c: &Check) {
    let perms: Vec<Vec<Vec<usize>>> = (0..=6).map(permutations).collect();
    let opts = [
        Opts::default(), Opts { flat: true, ..Default::default() }, Opts { base: B, prefixes: 1, type_on_line: true, ..Default::default() },
        Opts { prefixes: 2, sparql: true, padding: true, ..Default::default() }, Opts { intellij: true, flat: true, prefixes: 3, ..Default::default() },
    ];
    let run = |class: &str, gs: &[Vec<Triple>], opts: &[Opts]| {
        par_each(gs, |ts| {
            for o in opts {
                run1(c, || format!("{class} {o:?}: {}", show(ts)), || {
                    let mut first: Option<String> = None;
                    for p in &perms[ts.len()] {
                        let order: Vec<Triple> = p.iter().map(|i| ts[*i].clone()).collect();
                        let mut again = order.clone();
                        again.extend(order.iter().cloned());
                        for (how, list) in [("once", &order), ("twice", &again)] {
                            let text = out_of(&o.writer(), &graph_with(class, list, o))?;
                            match &first {
                                None => first = Some(text),
                                Some(f) => ck!(*f == text, "statements in the order {p:?}, {how}, are written differently:\n{f}\n----\n{text}"),
                            }
                        }
                        c.add_transitions(2);
                    }
                    // a graph from which something else was removed
                    let mut g = graph_with(class, ts, o);
                    let extra = real_stmt(&(iri(&ex("zz")), ns("zz"), plain("zz")));
                    g.insert(extra.clone());
                    g.remove(&extra);
                    let text = out_of(&o.writer(), &g)?;
                    ck!(first.as_ref() == Some(&text), "a graph that held something else before is written differently:\n{}\n----\n{text}", first.unwrap_or_default());
                    // other kinds of graph, and prefixes declared in the other order
                    for d in DRESSES {
                        let text = out_of(&o.writer(), &graph_with(d, ts, o))?;
                        ck!(first.as_ref() == Some(&text), "the same statements in a {d} are written differently:\n{}\n----\n{text}", first.unwrap_or_default());
                    }
                    let mut g = real_graph(ts);
                    g.set_prefix_mappings(prefix_map_of(PREFIXES[o.prefixes].iter().rev()));
                    let text = out_of(&o.writer(), &g)?;
                    ck!(first.as_ref() == Some(&text), "with the prefixes declared in another order:\n{}\n----\n{text}", first.unwrap_or_default());
                    c.add_traces(1);
                    Ok(())
                });
            }
        });
        c.add_states(gs.len() as u64);
        c.outcome(class, gs.len() as u64 * opts.len() as u64);
    };
    let m = mixed();
    run("mixed", &subsets(m.len(), c.bound(2, 3)).iter().map(|s| pick(&m, s)).collect::<Vec<_>>(), &opts);
    let nodes = [iri(&ex("a")), blank("x"), blank("y"), blank("z")];
    let rel: Vec<Vec<Triple>> = (0..512).map(|b| relation(&nodes[..3], b)).filter(|g| g.len() <= c.bound(4, 5)).collect();
    run("relation", &rel, &opts);
    // objects and subjects that are easily confused
    let mut near: Vec<T> = vec![plain("1"), plain("a"), typed("1", &xsd("integer")), typed("1", &xsd("decimal")), typed("1", &xsd("string")), lang("a", "en"), lang("a", "fr")];
    near.extend([typed("a", &ex("a")), iri(&ex("a")), blank("a"), blank("x"), T::Coll(vec![]), T::Coll(vec![plain("a")]), T::Coll(vec![blank("x")]), typed("true", &xsd("boolean")), plain("true")]);
    let near: Vec<Triple> = near.into_iter().map(|o| (iri(&ex("a")), ns("p"), o)).chain([(blank("x"), ns("p"), plain("a")), (blank("a"), ns("p"), plain("a")), (iri(&ex("b")), ns("p"), plain("a"))]).collect();
    run("alike", &alike(), &opts[..1]);
    run("near", &subsets(near.len(), c.bound(4, 5)).iter().map(|s| pick(&near, s)).collect::<Vec<_>>(), &opts);
    let gp = group_predicates();
    let u: Vec<Triple> = gp.iter().map(|p| (iri(&ex("a")), p.clone(), plain("t"))).collect();
    run("groups", &subsets(u.len(), c.bound(3, 4)).iter().map(|s| pick(&u, s)).collect::<Vec<_>>(), &opts);
    let names: Vec<Triple> = iris().iter().map(|i| (iri(i), ns("p"), plain("t"))).chain(iris().iter().map(|i| (iri(&ex("a")), i.clone(), plain("t")))).collect();
    run("names", &subsets(names.len(), 2).iter().filter(|s| s.len() < 2 || c.thorough() || s[1] - s[0] < 12).map(|s| pick(&names, s)).collect::<Vec<_>>(), &opts[..c.bound(1, 4)]);
    // names that differ in case only, or far from their beginnings
    let far = "a".repeat(70);
    let mut cases: Vec<Triple> = vec![];
    for (x, y) in [("p".to_string(), "P".to_string()), (format!("{far}x"), format!("{far}y"))] {
        for n in [x, y] {
            cases.extend([(iri(&ex(&n)), ns("p"), plain("t")), (iri(&ex("a")), ns(&n), plain("t")), (iri(&ex("a")), ns("q"), iri(&ex(&n)))]);
            cases.extend([(blank(&n), ns("p"), plain("t")), (iri(&ex("a")), ns("p"), plain(&n)), (iri(&ex("a")), ns("p"), lang(&n, "en"))]);
        }
    }
    run("cases", &subsets(cases.len(), c.bound(3, 4)).iter().map(|s| pick(&cases, s)).collect::<Vec<_>>(), &opts[..2]);
    c.assume("The iteration order of hash sets is not controlled; it is different in each run of the writer.");
}

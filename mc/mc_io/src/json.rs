//! E05 RDF/JSON writer, E06 RDF/JSON reader.

use crate::ck;
use crate::nt::{dressed, each_graph, out_of, real_set, run1};
use crate::refs::*;
use crate::universe::*;
use mclib::*;
use mcrdf::*;
use objio::{HasOptions, ObjectReader};
use rdftk_core::model::literal::LanguageTag;
use rdftk_io::json::{JsonOptions, JsonReader, JsonWriter};
use rdftk_iri::Iri;
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};

fn valid_label(s: &str) -> bool {
    let cs: Vec<char> = s.chars().collect();
    let Some(f) = cs.first() else { return false };
    (pn_chars_u(*f) || f.is_ascii_digit()) && cs.iter().all(|c| pn_chars(*c) || *c == '.') && *cs.last().unwrap() != '.'
}

/// What an RDF/JSON document states. `Err((true, _))`: certainly not RDF/JSON; `Err((false, _))`: the
/// note leaves it open.
pub fn interpret(v: &Value) -> Result<Vec<Triple>, (bool, String)> {
    let bad = |m: &str| Err((true, m.to_string()));
    // the worst defect decides: a document with one certain error is certainly wrong
    let mut open: Option<String> = None;
    let mut out = vec![];
    let held = |s: &str| Iri::from_str(s).ok().map(|i| format!("{i:#}"));
    let Value::Object(g) = v else { return bad("not an object") };
    for (s, ps) in g {
        let subject = match s.strip_prefix("_:") {
            Some(l) if valid_label(l) => blank(l),
            Some(_) => return bad("subject label"),
            None => match held(s) {
                Some(i) => T::Iri(i),
                None => return bad("subject IRI"),
            },
        };
        let Value::Object(ps) = ps else { return bad("predicates") };
        for (p, os) in ps {
            let Value::Array(os) = os else { return bad("objects") };
            let Some(predicate) = held(p) else { return bad("predicate IRI") };
            for o in os {
                let Value::Object(o) = o else { return bad("object") };
                let Some(Value::String(ty)) = o.get("type") else { return bad("type") };
                let Some(Value::String(value)) = o.get("value") else { return bad("value") };
                let object = match ty.as_str() {
                    "uri" => match held(value) {
                        Some(i) => T::Iri(i),
                        None => return bad("object IRI"),
                    },
                    "bnode" => {
                        let l = match value.strip_prefix("_:") {
                            Some(l) => l,
                            None => {
                                open = Some("label without _:".into());
                                value
                            }
                        };
                        if !valid_label(l) {
                            return bad("object label");
                        }
                        blank(l)
                    }
                    "literal" => {
                        let language = match o.get("lang") {
                            None => None,
                            Some(Value::String(l)) => match LanguageTag::parse(l) {
                                Ok(l) => Some(l.to_string()),
                                Err(_) => return bad("language tag"),
                            },
                            Some(_) => return bad("language tag"),
                        };
                        let dt = match o.get("datatype") {
                            None => None,
                            Some(Value::String(d)) => match held(d) {
                                Some(d) => Some(d),
                                None => return bad("data type IRI"),
                            },
                            Some(_) => return bad("data type"),
                        };
                        if dt.is_some() && language.is_some() {
                            open = Some("language and data type".into());
                        }
                        lit(value.clone(), dt, language)
                    }
                    _ => return bad("unknown type"),
                };
                if ty != "literal" && (o.contains_key("lang") || o.contains_key("datatype")) {
                    open = Some("language or data type of a node".into());
                }
                if o.keys().any(|k| !matches!(k.as_str(), "type" | "value" | "lang" | "datatype")) {
                    open = Some("unknown key".into());
                }
                out.push((subject.clone(), predicate.clone(), object));
            }
        }
    }
    match open {
        Some(m) => Err((false, m)),
        None => Ok(out),
    }
}

pub fn writer(pretty: bool) -> JsonWriter {
    JsonWriter::default().with_options(JsonOptions::default().with_pretty_print(pretty))
}

pub fn e05(c: &Check) {
    let one = |class: &str, ts: &[Triple]| {
        for pretty in [false, true] {
            run1(c, || format!("{class} pretty={pretty}: {}", show(ts)), || {
                let g = dressed(class, ts);
                let want = meaning(&g);
                let text = out_of(&writer(pretty), &g)?;
                let v: Value = serde_json::from_str(&text).map_err(|e| format!("not JSON: {e}\n{text}"))?;
                let got = interpret(&v).map_err(|e| format!("not RDF/JSON: {}\n{text}", e.1))?;
                ck!(isomorphic(&strip(&got), &want), "the document states something else\n{text}");
                // nothing is stated twice
                ck!(got.len() == got.iter().collect::<BTreeSet<_>>().len(), "something is stated twice\n{text}");
                ck!(pretty == text.contains('\n') || ts.is_empty(), "pretty={pretty}, but\n{text}");
                let back = JsonReader::default().read(&mut text.as_bytes()).map_err(|e| format!("its own reader rejects it: {e}\n{text}"))?;
                ck!(isomorphic(&strip(&of_graph(&back)), &want), "its own reader reads {:?} from\n{text}", of_graph(&back));
                Ok(())
            });
            c.add_transitions(2);
            c.add_traces(1);
        }
    };
    each_graph(c, &one);
    par_each(&iris(), |i| one("predicates", &[(blank("x"), i.clone(), plain("t"))]));
    // options
    run1(c, || "options".into(), || {
        for p in [false, true] {
            let mut o = JsonOptions::default();
            ck!(!o.pretty_print(), "pretty by default");
            o.set_pretty_print(p);
            ck!(o.pretty_print() == p && o.with_pretty_print(!p).pretty_print() != p, "option not kept");
            let mut w = JsonWriter::default();
            w.set_options(o);
            ck!(w.options().pretty_print() == p, "options not kept by the writer");
        }
        Ok(())
    });
}

pub fn e06(c: &Check) {
    let n = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
    let reads = |text: &str| {
        run1(c, || text.to_string(), || {
            let want = match serde_json::from_str::<Value>(text) {
                Ok(v) => interpret(&v),
                Err(e) => Err((true, format!("not JSON: {e}"))),
            };
            match JsonReader::default().read(&mut text.as_bytes()) {
                Ok(g) => {
                    n[0].fetch_add(1, Ordering::Relaxed);
                    match want {
                        Ok(w) => {
                            let (w, g): (BTreeSet<_>, BTreeSet<_>) = (w.into_iter().collect(), real_set(&g).into_iter().collect());
                            ck!(w == g, "read as {g:?}, but states {w:?}");
                        }
                        Err((true, e)) => return Err(format!("accepted, although it is not RDF/JSON: {e}")),
                        Err((false, _)) => {}
                    }
                }
                Err(e) => {
                    n[1].fetch_add(1, Ordering::Relaxed);
                    ck!(want.is_err(), "rejected, although it is valid: {e}");
                }
            }
            Ok(())
        });
        n[2].fetch_add(1, Ordering::Relaxed);
    };
    let opt = |vs: &[Value]| -> Vec<Option<Value>> { std::iter::once(None).chain(vs.iter().cloned().map(Some)).collect() };
    // every object description
    let mut objects: Vec<Value> = vec![];
    for ty in opt(&[json!("literal"), json!("bnode"), json!("uri"), json!("Literal"), json!(""), json!(5), json!(null)]) {
        for value in opt(&[json!("t"), json!(""), json!("_:x"), json!("x"), json!("_:"), json!("_:a b"), json!("http://h/o"), json!("a \"b\"\n\\u"), json!(5), json!(null), json!(["t"])]) {
            for l in opt(&[json!("en"), json!("zh-Hant-TW"), json!(""), json!("a b"), json!(7), json!(null)]) {
                for d in opt(&[json!("http://h/d"), json!("http://www.w3.org/2001/XMLSchema#integer"), json!("http://www.w3.org/2001/XMLSchema#string"), json!("rel"), json!(1), json!(null)]) {
                    let mut o = Map::new();
                    for (k, x) in [("type", &ty), ("value", &value), ("lang", &l), ("datatype", &d)] {
                        if let Some(x) = x {
                            o.insert(k.into(), x.clone());
                        }
                    }
                    objects.push(Value::Object(o));
                }
            }
        }
    }
    objects.extend([json!([]), json!("t"), json!(null), json!(1), json!({"type": "literal", "value": "t", "extra": 1})]);
    par_each(&objects, |o| {
        reads(&json!({"http://h/s": {"http://h/p": [o]}}).to_string());
        reads(&json!({"_:s": {"http://h/p": [{"type": "literal", "value": "first"}, o]}}).to_string());
        reads(&serde_json::to_string_pretty(&json!({"_:s": {"http://h/p": [o, {"type": "uri", "value": "http://h/last"}]}})).unwrap());
    });
    // every small structure
    let vo = json!([{"type": "literal", "value": "t"}]);
    let subjects = ["http://h/s", "_:x", "_:1", "_:x.y", "_:", "_:x.", "rel", "", "http://h/a b", "urn:x:y", "HTTP://H/s", "_:http://h/s", "<http://h/s>"];
    let predicates = ["http://h/p", "_:p", "rel", "", "urn:p:q", "http://h/é"];
    let mut docs = vec![json!({}), json!([]), json!(null), json!("s"), json!(1), json!(true)];
    for s in subjects {
        for v in [json!({}), json!([]), json!(null), json!("s"), json!([{}])] {
            docs.push(json!({s: v}));
        }
        for p in predicates {
            for v in [vo.clone(), json!([]), json!({}), json!(null), json!("t"), json!({"type": "literal", "value": "t"}), json!([[]])] {
                docs.push(json!({s: {p: v.clone()}}));
                for s2 in subjects {
                    for p2 in predicates {
                        docs.push(json!({s: {p: v.clone()}, s2: {p2: vo.clone()}}));
                        docs.push(json!({s: {p: v.clone(), p2: vo.clone()}}));
                    }
                }
            }
        }
    }
    par_each(&docs, |d| reads(&d.to_string()));
    // lists of objects
    let some = [
        json!({"type": "literal", "value": "t"}), json!({"type": "literal", "value": "t", "lang": "en"}), json!({"type": "literal", "value": "t", "datatype": "http://h/d"}),
        json!({"type": "bnode", "value": "_:t"}), json!({"type": "uri", "value": "http://h/t"}), json!({"type": "uri", "value": "t"}), json!({"type": "literal"}),
    ];
    words(some.len(), c.bound(4, 6), |w| {
        let os: Vec<&Value> = w.iter().map(|i| &some[*i]).collect();
        reads(&json!({"http://h/s": {"http://h/p": os}}).to_string());
    });
    // every sequence of JSON tokens
    let tokens = ["{", "}", "[", "]", ":", ",", "\"http://h/s\"", "\"_:x\"", "\"type\":\"literal\"", "\"value\":\"t\"", "1", "null", "\"", " "];
    words(tokens.len(), c.bound(5, 7), |w| reads(&w.iter().map(|i| tokens[*i]).collect::<String>()));
    // texts in each position, raw and escaped
    let inside = ["a", "\\", "\"", "u", "0041", "\\u0041", "d83d", "n", "\n", "é", "\\ude00", "\\ud83d", "/", "\u{0}"];
    words(inside.len(), c.bound(4, 5), |w| {
        let s: String = w.iter().map(|i| inside[*i]).collect();
        reads(&format!("{{\"u:s\":{{\"u:p\":[{{\"type\":\"literal\",\"value\":\"{s}\"}}]}}}}"));
    });
    // names in each position
    let inside = ["_:", "_", ":", "a", ".", "-", "1", "é", " ", "http:", "//h", "<", ">"];
    words(inside.len(), c.bound(4, 5), |w| {
        let s: String = w.iter().map(|i| inside[*i]).collect();
        for o in [
            json!({s.as_str(): {"http://h/p": vo}}), json!({"http://h/s": {s.as_str(): vo}}), json!({"http://h/s": {"http://h/p": [{"type": "bnode", "value": s}]}}),
            json!({"http://h/s": {"http://h/p": [{"type": "uri", "value": s}]}}), json!({"http://h/s": {"http://h/p": [{"type": "literal", "value": "t", "datatype": s}]}}),
            json!({"http://h/s": {"http://h/p": [{"type": "literal", "value": "t", "lang": s}]}}), json!({"http://h/s": {"http://h/p": [{"type": s, "value": "a"}]}}),
        ] {
            reads(&o.to_string());
        }
    });
    let inside = ["en", "a", "-", "1", "x", "US", "Hant", "abcdefgh", "_", " "];
    words(inside.len(), c.bound(4, 5), |w| {
        let s: String = w.iter().map(|i| inside[*i]).collect();
        reads(&json!({"http://h/s": {"http://h/p": [{"type": "literal", "value": "t", "lang": s}]}}).to_string());
    });
    // every edit of a valid document
    let base = "{\"_:s\":{\"http://h/p\":[{\"type\":\"literal\",\"value\":\"x\\n\",\"lang\":\"en\"},{\"type\":\"bnode\",\"value\":\"_:o\"},{\"value\":\"1\",\"type\":\"literal\",\"datatype\":\"u:d\"},{\"type\":\"uri\",\"value\":\"http://h/o\"}]}}";
    let cs: Vec<char> = base.chars().collect();
    let subst: Vec<char> = "a{}[]:,\"\\1 n_u.\n\u{0}é".chars().collect();
    let edit1 = |cs: &[char]| {
        let mut v: Vec<String> = vec![];
        for i in 0..=cs.len() {
            v.push(cs[..i].iter().collect());
            if i < cs.len() {
                let mut d = cs.to_vec();
                d.remove(i);
                v.push(d.iter().collect());
            }
            for x in &subst {
                let mut d = cs.to_vec();
                d.insert(i, *x);
                v.push(d.iter().collect());
                if i < cs.len() {
                    d.remove(i + 1);
                    v.push(d.iter().collect());
                }
            }
        }
        v
    };
    par_each(&edit1(&cs), |t| reads(t));
    if c.thorough() {
        par_each(&edit1(&cs), |t| {
            for t in edit1(&t.chars().collect::<Vec<_>>()) {
                reads(&t);
            }
        });
    }
    // depth beyond any sensible document
    for open in ["[", "{\"a\":"] {
        reads(&open.repeat(10_000));
    }
    run1(c, || "bytes".into(), || {
        ck!(JsonReader::default().read(&mut &b"{\"_:x\":{\"u:p\":[{\"type\":\"literal\",\"value\":\"\xff\"}]}}"[..]).is_err(), "read bytes that are not UTF-8");
        Ok(())
    });
    for (i, k) in ["accepted", "rejected"].iter().enumerate() {
        c.outcome(k, n[i].load(Ordering::Relaxed));
    }
    c.add_states(n[2].load(Ordering::Relaxed));
    c.add_transitions(n[2].load(Ordering::Relaxed));
    c.add_traces(n[0].load(Ordering::Relaxed));
    c.sample(json!({"document": base}));
}

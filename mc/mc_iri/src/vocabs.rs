//! C13 vocabulary constants and predefined maps.

use crate::iris::run1;
use crate::reference as r;
use mclib::*;
use rdftk_iri::vocab::*;
use rdftk_iri::{Iri, IriPrefixMap, Name, Namespace};
use serde_json::json;
use std::collections::BTreeSet;
use std::str::FromStr;

macro_rules! ck {
    ($cond:expr, $($what:tt)*) => {
        if !($cond) {
            return Err(format!($($what)*));
        }
    };
}

/// (documented prefix, constant, published namespace IRI)
pub fn table() -> Vec<(&'static str, Vocabulary, &'static str)> {
    vec![
        ("cal", VOCABULARY_CAL, "http://www.w3.org/2002/12/cal/ical#"),
        ("dbpedia", VOCABULARY_DBPEDIA, "http://dbpedia.org/ontology/"),
        ("dc", VOCABULARY_DC_ELEMENTS, "http://purl.org/dc/elements/1.1/"),
        ("dcterms", VOCABULARY_DC_TERMS, "http://purl.org/dc/terms/"),
        ("doap", VOCABULARY_DOAP, "http://usefulinc.com/ns/doap#"),
        ("foaf", VOCABULARY_FOAF, "http://xmlns.com/foaf/0.1/"),
        ("geonames", VOCABULARY_GEO_NAMES, "http://www.geonames.org/ontology#"),
        ("isothes", VOCABULARY_ISO_SKOS, "http://purl.org/iso25964/skos-thes#"),
        ("opengis", VOCABULARY_OPEN_GIS, "http://www.opengis.net/ont/geosparql#"),
        ("org", VOCABULARY_ORG, "http://www.w3.org/ns/org#"),
        ("owl", VOCABULARY_OWL, "http://www.w3.org/2002/07/owl#"),
        ("rdf", VOCABULARY_RDF, "http://www.w3.org/1999/02/22-rdf-syntax-ns#"),
        ("rdfs", VOCABULARY_RDF_SCHEMA, "http://www.w3.org/2000/01/rdf-schema#"),
        ("sioc", VOCABULARY_SIOC, "http://rdfs.org/sioc/ns#"),
        ("skos", VOCABULARY_SKOS, "http://www.w3.org/2004/02/skos/core#"),
        ("skosxl", VOCABULARY_SKOS_XL, "http://www.w3.org/2008/05/skos-xl#"),
        ("vann", VOCABULARY_VANN, "http://purl.org/vocab/vann/"),
        ("void", VOCABULARY_VOID, "http://rdfs.org/ns/void#"),
        ("wot", VOCABULARY_WOT, "http://xmlns.com/wot/0.1/"),
        ("xml", VOCABULARY_XML, ""),
        ("xsd", VOCABULARY_XML_SCHEMA, "http://www.w3.org/2001/XMLSchema#"),
    ]
}

const DEFAULT: &[&str] = &["owl", "rdf", "rdfs", "xsd"];
const COMMON: &[&str] = &["owl", "rdf", "rdfs", "xsd", "dcterms", "skos", "void"];

fn is_exactly(m: &IriPrefixMap, want: &[&str]) -> Result<(), String> {
    let t = table();
    ck!(m.len() == want.len(), "has {} mappings, documented {}", m.len(), want.len());
    for w in want {
        let (_, _, iri) = t.iter().find(|x| x.0 == *w).unwrap();
        let g = m.get_namespace(&Namespace::from_str(&format!("{w}:")).unwrap());
        ck!(g == Some(&Iri::from_str(iri).unwrap()), "{w}: is {g:?}");
    }
    ck!(m.get_default_namespace().is_none(), "a default namespace appeared");
    Ok(())
}

pub fn c13(c: &Check) {
    let t = table();
    for (p, v, iri) in &t {
        run1(c, p, || {
            ck!(v.prefix() == *p, "prefix {:?}", v.prefix());
            // the XML namespace is published without a '#' but is a legacy constant with one; its
            // text is only required to be stable under the conversions
            ck!(iri.is_empty() || v.iri() == *iri, "namespace {:?}, published {iri:?}", v.iri());
            ck!(*p != "xml" || v.iri().trim_end_matches('#') == "http://www.w3.org/XML/1998/namespace", "namespace {:?}", v.iri());
            let ns = v.prefix_as_namespace();
            ck!(r::is_ns(ns.as_ref()) && ns.to_string() == format!("{p}:"), "prefix as namespace {ns}");
            let i = v.iri_as_iri();
            ck!(format!("{i:#}") == v.iri(), "as an IRI {i}");
            ck!(i.looks_like_namespace(), "{i} cannot be used as a namespace");
            for n in ["type", "Name", "a.b-c_9"] {
                let made = i.make_name(Name::from_str(n).unwrap());
                ck!(made.map(|m| format!("{m:#}")) == Some(format!("{}{n}", v.iri())), "{n} in {i}");
            }
            ck!(Vocabulary::new(v.prefix(), v.iri()).prefix() == v.prefix() && Vocabulary::new(v.prefix(), v.iri()).iri() == v.iri(), "constructor");
            let d = Vocabulary::new(v.prefix(), v.iri());
            ck!(d.description().is_none(), "a description appeared");
            let d = d.with_description("text");
            ck!(d.description() == Some(&"text") && d.prefix() == v.prefix() && d.iri() == v.iri(), "adding a description changed something");
            Ok(())
        });
    }
    c.add_states(t.len() as u64);
    let ps: BTreeSet<&str> = t.iter().map(|x| x.1.prefix()).collect();
    let is: BTreeSet<&str> = t.iter().map(|x| x.1.iri()).collect();
    c.expect(ps.len() == t.len() && is.len() == t.len(), || "distinct".into(), || "two vocabularies share a prefix or an IRI".into());
    // the predefined maps hold exactly what they document, on every call
    for round in 0..4 {
        run1(c, &format!("default map {round}"), || is_exactly(&IriPrefixMap::default(), DEFAULT));
        run1(c, &format!("common map {round}"), || is_exactly(&IriPrefixMap::common(), COMMON));
        run1(c, &format!("empty map {round}"), || is_exactly(&IriPrefixMap::empty(), &[]));
        c.add_transitions(3);
        // mutating one instance does not leak into the next
        let mut m = IriPrefixMap::common();
        m.clear();
        let mut m = IriPrefixMap::default().with_default(Iri::from_str("http://h/").unwrap());
        m.remove(&Namespace::new_unchecked("rdf"));
    }
    // every single vocabulary, and every pair, added to each predefined map
    for (name, base, contents) in [("empty", IriPrefixMap::empty(), &[][..]), ("default", IriPrefixMap::default(), DEFAULT), ("common", IriPrefixMap::common(), COMMON)] {
        for (pa, a, _) in &t {
            for (pb, b, _) in &t {
                run1(c, &format!("{name} + {pa} + {pb}"), || {
                    let mut x = base.clone().with_vocabulary(a);
                    x.insert_vocabulary(b);
                    let set: BTreeSet<&str> = contents.iter().copied().chain([*pa, *pb]).collect();
                    ck!(x.len() == set.len(), "{} mappings, expected {}", x.len(), set.len());
                    for p in &set {
                        let v = &t.iter().find(|e| e.0 == *p).unwrap().1;
                        ck!(x.get_namespace(&v.prefix_as_namespace()) == Some(&v.iri_as_iri()), "{p} is lost");
                        ck!(x.get_prefix(&v.iri_as_iri()) == Some(&v.prefix_as_namespace()), "{p} is lost (reverse)");
                    }
                    Ok(())
                });
                c.add_transitions(2);
            }
        }
    }
    c.outcome("vocabularies", t.len() as u64);
    c.sample(json!({"prefix": "xsd", "iri": VOCABULARY_XML_SCHEMA.iri()}));
    c.sample(json!({"default": IriPrefixMap::default().to_string()}));
    c.assume("published namespace IRIs transcribed by hand from the constants' documentation and the W3C/DCMI documents");
}

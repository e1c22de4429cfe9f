//! Prints one line per observation of the IRI library. Built once per feature configuration; every
//! configuration must print the same lines (those of optional features where present).

use rdftk_iri::vocab::*;
use rdftk_iri::*;
use std::str::FromStr;

fn words(alpha: &[char], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut layer = vec![String::new()];
    for _ in 0..max {
        let mut next = Vec::new();
        for w in &layer {
            for c in alpha {
                let mut v = w.clone();
                v.push(*c);
                next.push(v);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}

fn main() {
    let mut o = String::new();
    macro_rules! p { ($($t:tt)*) => { o.push_str(&format!($($t)*)); o.push('\n'); } }
    let alpha = ['a', '_', '5', '-', '.', ':', ' ', '\u{E9}', '\u{10000}'];
    for w in words(&alpha, 4) {
        let n = Name::from_str(&w).map(|x| x.to_string()).map_err(|e| e.to_string());
        let s = Namespace::from_str(&w).map(|x| (x.to_string(), x.is_default(), x.name_string().map(str::to_string))).map_err(|e| e.to_string());
        let l = LocalName::from_str(&w).map(|x| (x.to_string(), x.as_curie())).map_err(|e| e.to_string());
        p!("name {w:?} {n:?}");
        p!("namespace {w:?} {s:?} {:?}", Namespace::new_named(w.as_str()).map_err(|e| e.to_string()));
        p!("local {w:?} {l:?}");
    }
    // every character, alone and inside a name and a prefix: runs of characters treated alike
    let mut run: Option<(char, [bool; 4])> = None;
    for c in ('\0'..=char::MAX).chain(['\0']) {
        let mut t = String::from(c);
        let a = Name::from_str(&t).is_ok();
        t.insert(0, 'a');
        let b = Name::from_str(&t).is_ok();
        t.push('b');
        let n = Name::from_str(&t).is_ok();
        t.push(':');
        let k = [a, b, n, Namespace::from_str(&t).is_ok()];
        if run.map(|r| r.1) != Some(k) || c == char::MAX {
            p!("characters from {:?} {k:?}", c);
            run = Some((c, k));
        }
    }
    let map = IriPrefixMap::common().with_default(Iri::from_str("http://h/n/").unwrap()).with(Namespace::new_unchecked("u"), Iri::from_str("urn:x#").unwrap());
    p!("map {map} {} {:?}", map.len(), map.prefixes().collect::<Vec<_>>());
    let u = ['a', '1', ':', '/', '?', '#', '.', '%', ' ', '\u{E9}', '-'];
    for pre in ["", "http://h/", "http://h/n#", "urn:", "file:///", "x:/", "https://u:p@[::1]:8/"] {
        for w in words(&u, 3) {
            let t = format!("{pre}{w}");
            match Iri::from_str(&t) {
                Err(e) => { p!("iri {t:?} rejected {e}"); }
                Ok(i) => {
                    p!("iri {t:?} {i} {i:#} {} {:?}", i.looks_like_namespace(), i.split());
                    p!("with {t:?} {} {} {} {}", i.with_new_path("/x y"), i.with_new_fragment("f"), i.with_no_fragment(), i.with_empty_fragment());
                    p!("join {t:?} {:?}", i.make_name(Name::new_unchecked("n.\u{E9}")));
                    p!("compress {t:?} {:?} {}", map.compress(&i), map.compress_to_iriref(&i));
                    #[cfg(feature = "serde")]
                    { p!("[serde] {t:?} {}", serde_json::to_string(&i).unwrap()); }
                    #[cfg(feature = "genid")]
                    {
                        let g = i.genid().map(|g| { let s: &str = g.as_ref(); (s[..s.len() - 32].to_string(), s[s.len() - 32..].bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c))) }).map_err(|e| e.to_string());
                        p!("[genid] {t:?} {g:?}");
                    }
                }
            }
        }
    }
    // a small machine over the map
    for a in ["", "a", "b"] {
        for x in ["http://h/", "http://h/n#", "urn:x:"] {
            for b in ["", "a", "b"] {
                for y in ["http://h/", "http://h/n#", "urn:x:"] {
                    for r in ["", "a", "b"] {
                        let ns = |p: &str| Namespace::new_unchecked(p);
                        let iri = |t: &str| Iri::from_str(t).unwrap();
                        let mut m = IriPrefixMap::empty().with(ns(a), iri(x));
                        m.insert(ns(b), iri(y));
                        p!("machine {a} {x} {b} {y} {m} {:?} {:?}", m.get_namespace(&ns(a)), m.get_prefix(&iri(x)));
                        #[cfg(feature = "serde")]
                        { p!("[serde] {a} {x} {b} {y} {r} {}", serde_json::to_string(&m).unwrap()); }
                        m.remove(&ns(r));
                        p!("machine {a} {x} {b} {y} -{r} {m} {} {:?}", m.is_empty(), m.get_default_namespace());
                        p!("expand {a} {x} {b} {y} -{r} {:?} {:?}", m.expand(&LocalName::new_unchecked(a, "n")), m.expand(&LocalName::new_unchecked(b, "n")));
                    }
                }
            }
        }
    }
    for v in [
        VOCABULARY_CAL, VOCABULARY_DBPEDIA, VOCABULARY_DC_ELEMENTS, VOCABULARY_DC_TERMS, VOCABULARY_DOAP, VOCABULARY_FOAF, VOCABULARY_GEO_NAMES,
        VOCABULARY_ISO_SKOS, VOCABULARY_OPEN_GIS, VOCABULARY_ORG, VOCABULARY_OWL, VOCABULARY_RDF, VOCABULARY_RDF_SCHEMA, VOCABULARY_SIOC, VOCABULARY_SKOS,
        VOCABULARY_SKOS_XL, VOCABULARY_VANN, VOCABULARY_VOID, VOCABULARY_WOT, VOCABULARY_XML, VOCABULARY_XML_SCHEMA,
    ] {
        p!("vocabulary {} {} {:?}", v.prefix_as_namespace(), v.iri_as_iri(), v.description());
    }
    p!("default {} {}", IriPrefixMap::default(), IriPrefixMap::empty().is_empty());
    use std::io::Write;
    std::io::stdout().write_all(o.as_bytes()).unwrap();
}

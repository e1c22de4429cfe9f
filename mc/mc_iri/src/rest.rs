//! C10 serialisation round trip, C11 untrusted input, C12 equality/order/hash.

use crate::domain::*;
use crate::iris::{canon, run1};
use crate::names::{clip, valid_names, valid_prefixes};
use crate::reference as r;
use mclib::*;
use rdftk_iri::{Iri, IriPrefixMap, IriRef, LocalName, Name, Namespace, PrefixedName};
use serde_json::json;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::str::FromStr;

macro_rules! ck {
    ($cond:expr, $($what:tt)*) => {
        if !($cond) {
            return Err(format!($($what)*));
        }
    };
}

fn rt<T>(v: &T) -> Result<String, String>
where
    T: serde::Serialize + for<'a> serde::Deserialize<'a> + PartialEq + std::fmt::Debug,
{
    let j = serde_json::to_string(v).map_err(|e| format!("{v:?} does not serialise: {e}"))?;
    let b: T = serde_json::from_str(&j).map_err(|e| format!("{j} does not read back: {e}"))?;
    ck!(b == *v, "{v:?} came back as {b:?} through {j}");
    let val = serde_json::to_value(v).map_err(|e| e.to_string())?;
    let b: T = serde_json::from_value(val).map_err(|e| format!("through a value tree: {e}"))?;
    ck!(b == *v, "{v:?} came back as {b:?} through a value tree");
    let b: T = serde_json::from_reader(j.as_bytes()).map_err(|e| format!("through a reader: {e}"))?;
    ck!(b == *v, "{v:?} came back as {b:?} through a reader");
    // serialisation is a function of the value
    ck!(serde_json::to_string(&b).ok().as_ref() == Some(&j), "second serialisation differs");
    Ok(j)
}

pub fn c10(c: &Check) {
    let ps = valid_prefixes(c);
    let ns = valid_names(c);
    for p in &ps {
        run1(c, &format!("namespace {p:?}"), || {
            let v = Namespace::new_unchecked(p.clone());
            let j = rt(&v)?;
            ck!(j == serde_json::to_string(&format!("{p}:")).unwrap(), "serialised as {j}");
            rt(&PrefixedName::Namespace(v.clone()))?;
            rt(&IriRef::PrefixedName(PrefixedName::Namespace(v)))?;
            Ok(())
        });
        c.add_transitions(3);
    }
    for n in &ns {
        run1(c, &format!("name {n:?}"), || {
            let j = rt(&Name::new_unchecked(n.clone()))?;
            ck!(j == serde_json::to_string(n).unwrap(), "serialised as {j}");
            Ok(())
        });
        c.add_transitions(1);
    }
    par_each(&ps, |p| {
        for n in &ns {
            run1(c, &format!("{p}:{n}"), || {
                let v = LocalName::new_unchecked(p.as_str(), n.as_str());
                rt(&v)?;
                rt(&PrefixedName::Local(v.clone()))?;
                rt(&IriRef::PrefixedName(PrefixedName::Local(v)))?;
                Ok(())
            });
            c.add_transitions(3);
        }
    });
    let cs = canon(c);
    c.add_states((ps.len() + ns.len() + cs.len()) as u64);
    par_each(&cs, |t| {
        run1(c, &clip(t), || {
            let v = Iri::from_str(t).map_err(|e| e.to_string())?;
            let j = rt(&v)?;
            ck!(j == serde_json::to_string(t).unwrap(), "serialised as {j}");
            rt(&IriRef::Iri(v))?;
            Ok(())
        });
        c.add_transitions(2);
    });
    // maps: every partial bijection of a small domain, predefined maps, growing maps
    let pf = ["", "a", "b.c", "\u{E9}"];
    let is = ["http://h/", "http://h/ns#", "urn:x:", "http://h/%C3%A9?q#"];
    let n = words(5, 4, |w| {
        // w[i] = 0: prefix i unbound, else bound to is[w[i]-1]; skip non-injective words
        let used: Vec<usize> = w.iter().copied().filter(|x| *x > 0).collect();
        if used.iter().collect::<HashSet<_>>().len() != used.len() {
            return;
        }
        run1(c, &format!("map {w:?}"), || {
            let mut m = IriPrefixMap::empty();
            for (i, k) in w.iter().enumerate() {
                if *k > 0 {
                    m.insert(Namespace::new_unchecked(pf[i]), Iri::from_str(is[*k - 1]).unwrap());
                }
            }
            rt(&m)?;
            Ok(())
        });
    });
    c.add_transitions(n);
    for k in [0usize, 1, 8, 17, 64, 300] {
        run1(c, &format!("map of {k}"), || {
            let mut m = IriPrefixMap::common();
            for i in 0..k {
                m.insert(Namespace::new_unchecked(format!("p{i}")), Iri::from_str(&format!("http://h/{i}#")).unwrap());
            }
            rt(&m)?;
            Ok(())
        });
    }
    c.sample(json!(serde_json::to_value(IriPrefixMap::default()).unwrap()));
    c.sample(json!(serde_json::to_value(LocalName::new_unchecked("rdf", "type")).unwrap()));
}

pub fn c11(c: &Check) {
    // every text of the bounded space, as a JSON string: accepted exactly when it parses
    let (acc, rej) = (std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0));
    let one = |s: &str| {
        let key = clip(s);
        run1(c, &key, || {
            let j = serde_json::to_string(s).unwrap();
            let n: Result<Name, _> = serde_json::from_str(&j);
            ck!(n.is_ok() == r::is_local(s), "as a name: accepted {}, grammar says {}", n.is_ok(), r::is_local(s));
            let p: Result<Namespace, _> = serde_json::from_str(&j);
            ck!(p.is_ok() == r::is_ns(s), "as a namespace: accepted {}, grammar says {}", p.is_ok(), r::is_ns(s));
            if let Ok(p) = &p {
                ck!(p.as_ref() == s, "read as {p}");
            }
            if let Ok(n) = &n {
                ck!(n.as_ref() == s, "read as {n}");
            }
            if n.is_ok() || p.is_ok() { &acc } else { &rej }.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            // composite values
            for (a, b) in [(s, "n"), ("p:", s)] {
                let want = r::is_ns(a) && r::is_local(b);
                let v: Result<LocalName, _> = serde_json::from_value(json!({"namespace": a, "name": b}));
                ck!(v.is_ok() == want, "prefixed name {a:?} {b:?}: accepted {}, grammar says {want}", v.is_ok());
                let v: Result<PrefixedName, _> = serde_json::from_value(json!({"Local": {"namespace": a, "name": b}}));
                ck!(v.is_ok() == want, "wrapped prefixed name {a:?} {b:?}: accepted {}", v.is_ok());
            }
            let m: Result<IriPrefixMap, _> = serde_json::from_value(json!({"map": {s: "http://h/"}}));
            ck!(m.is_ok() == r::is_ns(s), "prefix map key: accepted {}, grammar says {}", m.is_ok(), r::is_ns(s));
            Ok(())
        });
    };
    let d = c.bound(5, 6);
    let n = words(CLASS_ALPHABET.len(), d, |w| one(&word(CLASS_ALPHABET, w)));
    c.add_transitions(n - 1);
    let n = words(SMALL_ALPHABET.len(), c.bound(7, 8), |w| one(&word(SMALL_ALPHABET, w)));
    c.add_transitions(n - 1);
    let b = boundary_chars();
    let n = words(b.len(), 2, |w| one(&word(&b, w)));
    c.add_transitions(n - 1);
    let ascii: Vec<char> = (0u8..128).map(|b| b as char).collect();
    let n = words(128, 2, |w| one(&word(&ascii, w)));
    c.add_transitions(n - 1);
    c.add_states((CLASS_ALPHABET.len() + SMALL_ALPHABET.len() + b.len() + 128) as u64);
    for w in REAL_WORDS {
        one(w);
        one(&format!("{w}:"));
    }
    // IRIs: exactly the absolute URLs
    for p in crate::iris::PREFIXES {
        let n = words(crate::iris::URLISH.len(), 2, |w| {
            let s = format!("{p}{}", word(crate::iris::URLISH, w));
            run1(c, &format!("iri {}", clip(&s)), || {
                let v: Result<Iri, _> = serde_json::from_value(json!(s));
                let want = url::Url::parse(&s);
                ck!(v.is_ok() == want.is_ok(), "accepted {}, URL standard says {}", v.is_ok(), want.is_ok());
                if let (Ok(v), Ok(w)) = (v, want) {
                    let t: &str = v.as_ref();
                    ck!(t == w.as_str(), "read as {t}");
                }
                Ok(())
            });
        });
        c.add_transitions(n);
    }
    // a value of the wrong shape is an error, never a panic and never a value
    for v in [json!(null), json!(1), json!(true), json!([]), json!({}), json!(["a"]), json!([["a:", "http://h/"]])] {
        run1(c, &format!("shape {v}"), || {
            ck!(serde_json::from_value::<Name>(v.clone()).is_err(), "name");
            ck!(serde_json::from_value::<Namespace>(v.clone()).is_err(), "namespace");
            ck!(serde_json::from_value::<Iri>(v.clone()).is_err(), "iri");
            ck!(serde_json::from_value::<LocalName>(v.clone()).is_err(), "prefixed name");
            Ok(())
        });
    }
    c.outcome("accepted as name or namespace", acc.into_inner());
    c.outcome("rejected", rej.into_inner());
    c.sample(json!({"text": "not a name!", "accepted as name": serde_json::from_str::<Name>("\"not a name!\"").is_ok()}));
    c.sample(json!({"text": "rdf", "accepted as namespace": serde_json::from_str::<Namespace>("\"rdf\"").is_ok()}));
}

fn h<T: Hash>(v: &T) -> u64 {
    let mut s = DefaultHasher::new();
    v.hash(&mut s);
    s.finish()
}

/// Equality, order and hash of a set of values against their text; O(n²) pairs and O(n³) on a slice.
fn coherent<T>(c: &Check, what: &str, vals: &[(String, T)], cube: usize)
where
    T: Eq + Ord + Hash + Clone + std::fmt::Debug + Sync,
{
    let idx: Vec<usize> = (0..vals.len()).collect();
    par_each(&idx, |i| {
        let (ta, a) = &vals[*i];
        for (tb, b) in vals {
            if c.saturated() {
                return;
            }
            c.add_traces(1);
            let same = ta == tb;
            let o = a.cmp(b);
            let ok = (a == b) == same
                && (a != b) != same
                && (o == std::cmp::Ordering::Equal) == same
                && b.cmp(a) == o.reverse()
                && a.partial_cmp(b) == Some(o)
                && (!same || h(a) == h(b));
            c.expect(ok, || format!("{what} {} vs {}", clip(ta), clip(tb)), || format!("eq {}, order {o:?}/{:?}, hashes equal {}", a == b, b.cmp(a), h(a) == h(b)));
        }
    });
    c.add_transitions((vals.len() * vals.len()) as u64);
    // triples: the shortest texts
    let mut s: Vec<&(String, T)> = vals.iter().collect();
    s.sort_by_key(|v| (v.0.chars().count(), &v.0));
    s.dedup_by_key(|v| &v.0);
    s.truncate(cube);
    for x in &s {
        for y in &s {
            for z in &s {
                if x.1 <= y.1 && y.1 <= z.1 && x.1 > z.1 {
                    c.fail(format!("{what} {} {} {}", clip(&x.0), clip(&y.0), clip(&z.0)), "order is not transitive", json!({}));
                }
            }
        }
    }
    // containers agree with the text
    let hs: HashSet<T> = vals.iter().map(|v| v.1.clone()).collect();
    let bs: BTreeSet<T> = vals.iter().map(|v| v.1.clone()).collect();
    let ts: BTreeSet<&String> = vals.iter().map(|v| &v.0).collect();
    c.expect(hs.len() == ts.len() && bs.len() == ts.len(), || format!("{what} containers"), || format!("{} texts, {} hashed, {} ordered", ts.len(), hs.len(), bs.len()));
    for (t, v) in vals {
        c.expect(hs.contains(v) && bs.contains(v), || format!("{what} lookup {}", clip(t)), || "lost in a set".into());
    }
    c.add_states(ts.len() as u64);
    c.outcome(what, ts.len() as u64);
}

pub fn c12(c: &Check) {
    let ps: Vec<String> = valid_prefixes(c);
    let ns: Vec<String> = valid_names(c);
    // the same value built in two ways must be one value
    let mut v: Vec<(String, Namespace)> = Vec::new();
    for p in &ps {
        v.push((format!("{p}:"), Namespace::new_unchecked(p.clone())));
        v.push((format!("{p}:"), Namespace::from_str(&format!("{p}:")).unwrap_or_else(|_| Namespace::new_unchecked("broken"))));
    }
    coherent(c, "namespace", &v, 60);
    let mut v: Vec<(String, Name)> = Vec::new();
    for n in &ns {
        v.push((n.clone(), Name::new_unchecked(n.clone())));
        v.push((n.clone(), Name::from_str(n).unwrap_or_else(|_| Name::new_unchecked("broken"))));
    }
    coherent(c, "name", &v, 60);
    let short = |v: &[String]| {
        let mut s: Vec<String> = v.to_vec();
        s.sort_by_key(|x| (x.chars().count(), x.clone()));
        s.truncate(c.bound(60, 120));
        s
    };
    let pp = short(&ps);
    let nn = short(&ns);
    let mut v: Vec<(String, LocalName)> = Vec::new();
    let mut w: Vec<(String, PrefixedName)> = Vec::new();
    for p in &pp {
        w.push((format!("{p}:"), PrefixedName::Namespace(Namespace::new_unchecked(p.as_str()))));
        for n in &nn {
            let l = LocalName::new_unchecked(p.as_str(), n.as_str());
            v.push((format!("{p}:{n}"), l.clone()));
            w.push((format!("{p}:{n}"), PrefixedName::Local(l)));
        }
    }
    coherent(c, "prefixed name", &v, 50);
    coherent(c, "namespace or prefixed name", &w, 50);
    let mut cs: Vec<String> = small_grid(c.thorough()).iter().filter_map(|g| url::Url::parse(&g.text()).ok().map(|u| u.to_string())).collect();
    cs.sort();
    cs.dedup();
    let mut v: Vec<(String, Iri)> = Vec::new();
    for t in &cs {
        v.push((t.clone(), Iri::from_str(t).unwrap()));
        v.push((t.clone(), Iri::from_str(&format!("<{t}>")).unwrap()));
    }
    // spellings that the URL standard normalises to one IRI
    for (a, b) in [("HTTP://Example.ORG:80/a", "http://example.org/a"), ("http://h/%7Ea/../b", "http://h/b"), ("http://h", "http://h/"), ("https://h:443/", "https://h/")] {
        v.push((b.to_string(), Iri::from_str(a).unwrap()));
        v.push((b.to_string(), Iri::from_str(b).unwrap()));
    }
    // near misses stay distinct
    for t in ["http://h/a", "http://h/a/", "http://h/A", "http://h/a#", "http://h/a?", "http://h/a?#", "http://h/a#b", "https://h/a", "http://h:81/a", "http://u@h/a", "http://h/a%20", "http://h/a%2F", "http://h/a%2f"] {
        v.push((t.to_string(), Iri::from_str(t).unwrap()));
    }
    coherent(c, "iri", &v, 60);
    c.sample(json!(v[v.len() / 2].0));
    c.sample(json!({"namespace": ps[ps.len() / 2], "name": ns[ns.len() / 2]}));
}

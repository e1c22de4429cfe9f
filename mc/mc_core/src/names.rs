//! D14 the vocabulary constants of rdftk_names.

use crate::graphs::run1;
use mclib::*;
use rdftk_iri::{Iri, LocalName, Name};
use serde_json::json;
use std::str::FromStr;

macro_rules! ck {
    ($cond:expr, $($what:tt)*) => {
        if !($cond) {
            return Err(format!($($what)*));
        }
    };
}

struct Term {
    item: &'static str,
    /// the name that the vocabulary's publisher gives the term
    name: &'static str,
    published: bool,
    iri: fn() -> &'static Iri,
    text: fn() -> &'static str,
    qname: fn() -> &'static str,
}
struct Vocab {
    module: &'static str,
    prefix: &'static str,
    ns: &'static str,
    default_prefix: fn() -> &'static Name,
    namespace: fn() -> &'static Iri,
    namespace_str: fn() -> &'static str,
    terms: Vec<Term>,
}

include!("names_table.rs");

/// vocabularies declared with the public macro, at the edges of what it accepts
#[allow(dead_code, unreachable_pub)]
mod user {
    pub mod hash {
        rdftk_names::namespace! { "ex", "http://example.org/v#", { foo, "Foo", bar, "b-a.r", one, "_1" } }
    }
    pub mod slash {
        rdftk_names::namespace! { "e.x", "https://example.org/v/", { foo, "Foo", bar, "foo" } }
    }
    pub mod urn {
        rdftk_names::namespace! { "u", "urn:example:v#", { foo, "Foo" } }
    }
}

fn vocab_ok(v: &Vocab, c: &Check) {
    run1(c, &format!("{} namespace", v.module), || {
        ck!((v.default_prefix)().as_ref() == v.prefix, "prefix {:?}", (v.default_prefix)());
        ck!((v.namespace_str)() == v.ns, "namespace text {:?}", (v.namespace_str)());
        ck!(format!("{:#}", (v.namespace)()) == v.ns, "namespace {:#}", (v.namespace)());
        ck!((v.namespace)().looks_like_namespace(), "not a namespace");
        Ok(())
    });
    let mut seen = std::collections::BTreeSet::new();
    for t in &v.terms {
        run1(c, &format!("{}::{}", v.module, t.item), || {
            let n = (t.text)();
            ck!(n == t.name, "its name is {n:?}, the vocabulary calls it {:?}", t.name);
            let i = (t.iri)();
            ck!(format!("{i:#}") == format!("{}{n}", v.ns), "IRI {i:#} is not the namespace followed by {n:?}");
            ck!((t.qname)() == format!("{}:{n}", v.prefix), "qualified name {:?}", (t.qname)());
            let (ns, nm) = i.split().ok_or("the IRI does not split")?;
            ck!(ns == *(v.namespace)() && nm.as_ref() == n, "splits into {ns} and {nm}");
            let q = LocalName::from_str((t.qname)()).map_err(|e| e.to_string())?;
            ck!(q.to_string() == (t.qname)(), "qualified name reads as {q}");
            ck!(seen.insert(n), "two constants for {n}");
            Ok(())
        });
        c.expect(t.published, || format!("{}::{} unpublished", v.module, t.item), || format!("{} is not a term of {}", t.name, v.ns));
        c.add_states(1);
        c.add_transitions(7);
        c.add_traces(1);
    }
    c.outcome(v.module, v.terms.len() as u64);
}

pub fn d14(c: &Check) {
    for v in table() {
        vocab_ok(&v, c);
    }
    macro_rules! user {
        ($m:ident, $p:expr, $ns:expr, $($f:ident $n:expr),*) => {{
            vocab_ok(&Vocab { module: concat!("user ", stringify!($m)), prefix: $p, ns: $ns,
                default_prefix: user::$m::default_prefix, namespace: user::$m::namespace, namespace_str: user::$m::namespace_str,
                terms: vec![$(paste::paste!{Term { item: stringify!($f), name: $n, published: true, iri: user::$m::$f, text: user::$m::[<$f _str>], qname: user::$m::[<$f _qname>] }}),*] }, c)
        }};
    }
    user!(hash, "ex", "http://example.org/v#", foo "Foo", bar "b-a.r", one "_1");
    user!(slash, "e.x", "https://example.org/v/", foo "Foo", bar "foo");
    user!(urn, "u", "urn:example:v#", foo "Foo");
    // numbered container members
    let mut ns: Vec<usize> = (0..c.bound(20000, 200000)).collect();
    ns.extend([usize::MAX, u32::MAX as usize, 1 << 40]);
    par_each(&ns, |k| {
        run1(c, &format!("rdf::member({k})"), || {
            let want = format!("http://www.w3.org/1999/02/22-rdf-syntax-ns#_{k}");
            ck!(format!("{:#}", rdftk_names::rdf::member(*k)) == want, "is {:#}", rdftk_names::rdf::member(*k));
            ck!(rdftk_names::rdf::member_qname(*k) == format!("rdf:_{k}"), "is {}", rdftk_names::rdf::member_qname(*k));
            Ok(())
        });
    });
    c.add_states(ns.len() as u64);
    c.add_traces(ns.len() as u64);
    // the status values of SKOS term status
    use rdftk_names::skos::term_status as s;
    for (a, b) in [
        (s::STATUS_ARCHAIC, "archaic"),
        (s::STATUS_DEPRECATED, "deprecated"),
        (s::STATUS_PROPOSED, "proposed"),
        (s::STATUS_STABLE, "stable"),
        (s::STATUS_TESTING, "testing"),
        (s::STATUS_UNSTABLE, "unstable"),
    ] {
        c.expect(a == b, || format!("status {b}"), || format!("is {a}"));
    }
    c.sample(json!({"constants": table().iter().map(|v| v.terms.len()).sum::<usize>()}));
}

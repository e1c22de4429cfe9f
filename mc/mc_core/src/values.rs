//! D05 order, equality and hash; D06 native values as literals; D07 data types; D08 literal text;
//! D09 blank nodes; D03 node conversions.

use crate::graphs::run1;
use crate::universe::*;
use mclib::*;
use mcrdf::*;
use rdftk_core::model::graph::GraphName;
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode, BLANK_NODE_NAMESPACE, BLANK_NODE_PREFIX};
use rdftk_iri::{Iri, LocalName, Name};
use serde_json::json;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::sync::Arc;

macro_rules! ck {
    ($cond:expr, $($what:tt)*) => {
        if !($cond) {
            return Err(format!($($what)*));
        }
    };
}

// ------------------------------------------------------------------------------------------------
// D05
// ------------------------------------------------------------------------------------------------

fn hash<V: Hash>(v: &V) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Every pair: equality, order and hash agree with the model's identity; the order is total.
fn ordered<K: Eq + Debug + Sync, V: Ord + Eq + Hash + Clone + Sync>(c: &Check, what: &str, items: &[(K, V)]) {
    let n = items.len();
    let idx: Vec<usize> = (0..n).collect();
    let smaller: Vec<std::sync::atomic::AtomicUsize> = (0..n).map(|_| Default::default()).collect();
    let hashes: Vec<u64> = items.iter().map(|x| hash(&x.1)).collect();
    par_each(&idx, |i| {
        let (ki, vi) = &items[*i];
        let mut less = 0;
        run1(c, &format!("{what} {ki:?}"), || {
            ck!(hash(&vi.clone()) == hashes[*i] && vi.clone() == *vi, "a clone differs");
            for (j, (kj, vj)) in items.iter().enumerate() {
                let same = ki == kj;
                ck!((vi == vj) == same, "== {kj:?} is {}", !same);
                ck!((vi != vj) != same, "!= {kj:?} is {}", same);
                let o = vi.cmp(vj);
                ck!((o == Ordering::Equal) == same, "cmp {kj:?} is {o:?}");
                ck!(vj.cmp(vi) == o.reverse(), "cmp {kj:?} is {o:?}, the other way {:?}", vj.cmp(vi));
                ck!(vi.partial_cmp(vj) == Some(o), "partial_cmp {kj:?} is {:?}, cmp {o:?}", vi.partial_cmp(vj));
                ck!((vi < vj) == (o == Ordering::Less), "< {kj:?}");
                if same {
                    ck!(hashes[*i] == hashes[j], "equal to {kj:?} but hashes differently");
                }
                if o == Ordering::Greater {
                    less += 1;
                }
            }
            Ok(())
        });
        smaller[*i].store(less, std::sync::atomic::Ordering::Relaxed);
        c.add_transitions(n as u64);
    });
    // Antisymmetric and total already; it is transitive iff the numbers of smaller items are consistent.
    if !c.failed() {
        let mut by: BTreeMap<usize, usize> = BTreeMap::new();
        let ranks: Vec<usize> = smaller.into_iter().map(|a| a.into_inner()).collect();
        ranks.iter().for_each(|r| *by.entry(*r).or_insert(0) += 1);
        let mut next = 0;
        for (r, k) in by {
            if r != next {
                c.fail(format!("{what} order"), format!("the order is cyclic: no item has {next} smaller ones"), json!({}));
                break;
            }
            next += k;
        }
    }
    c.add_states(n as u64);
    c.add_traces(n as u64);
    c.outcome(what, n as u64);
}

pub fn d05(c: &Check) {
    let lits = literals();
    let mut l: Vec<(T, Literal)> = lits.iter().map(|t| (t.clone(), real_lit(t))).collect();
    // the same literals, built again
    l.extend(lits.iter().map(|t| (t.clone(), real_lit(t))));
    ordered(c, "literal", &l);

    let dts = datatypes();
    let mut d: Vec<(String, DataType)> = dts.iter().map(|(_, i, d)| (i.clone(), d.clone())).collect();
    d.extend([A, B, P, "urn:x"].iter().map(|i| (i.to_string(), DataType::from(real_iri(i)))));
    d.extend(d.clone().into_iter().map(|(i, _)| (i.clone(), DataType::from(real_iri(&i)))));
    ordered(c, "data type", &d);

    let labels = ["a", "b", "aa", "ab", "A", "n", "a.b", "0", "_", "é"];
    let b: Vec<(String, BlankNode)> = labels.iter().flat_map(|s| [(s.to_string(), real_blank(s)), (s.to_string(), real_blank(&format!("_:{s}")))]).collect();
    ordered(c, "blank node", &b);

    let mut atoms: Vec<T> = vec![iri(A), iri(B), iri("urn:x"), blank("n"), blank("http"), blank("a"), plain("n"), plain(A)];
    atoms.extend([typed(A, &xsd("anyURI")), lang("n", "en"), typed("n", &xsd("string")), plain("_:n")]);
    let small = [iri(A), blank("n"), plain("n")];
    let mut terms = nested_terms(&small, 1);
    terms.extend(atoms);
    let two = nested_terms(&[blank("n"), T::Coll(vec![]), T::Coll(vec![blank("n")]), quote(tr(blank("n"), P, blank("n")))], 1);
    terms.extend(two);
    // longer collections: prefixes of each other
    for k in 0..4 {
        terms.push(T::Coll(vec![blank("a"); k]));
        terms.push(T::Coll([vec![blank("a"); k], vec![iri(A)]].concat()));
    }
    terms.extend(lits.iter().take(c.bound(112, 400)).cloned());
    terms.extend(printed_alike());
    terms.extend(printed_alike().into_iter().map(|t| T::Coll(vec![t])));
    terms.extend(printed_alike().into_iter().map(|t| quote(tr(iri(A), P, t))));
    terms.extend(printed_alike().into_iter().filter(is_subject).map(|t| quote(tr(t, P, iri(A)))));
    let mut seen = HashSet::new();
    terms.retain(|t| seen.insert(t.clone()));
    let mut o: Vec<(T, ObjectNode)> = terms.iter().map(|t| (t.clone(), real_object(t))).collect();
    o.extend(terms.iter().map(|t| (t.clone(), real_object(t))));
    ordered(c, "object", &o);
    let cs: Vec<(T, Collection)> = o.iter().filter_map(|(k, v)| v.as_collection().map(|c| (k.clone(), c.clone()))).collect();
    ordered(c, "collection", &cs);
    let subj: Vec<&T> = terms.iter().filter(|t| is_subject(t)).collect();
    let mut s: Vec<(T, SubjectNode)> = subj.iter().map(|t| ((*t).clone(), real_subject(t))).collect();
    s.extend(subj.iter().map(|t| ((*t).clone(), real_subject(t))));
    ordered(c, "subject", &s);

    // statements: all combinations of selected subjects, predicates and objects
    let ss: Vec<&T> = subj.iter().take(c.bound(20, 40)).copied().collect();
    let os: Vec<&T> = terms.iter().take(c.bound(60, 120)).collect();
    let mut st: Vec<(Triple, Statement)> = Vec::new();
    for s in &ss {
        for p in [P, Q, A] {
            for o in &os {
                let t = tr((*s).clone(), p, (*o).clone());
                st.push((t.clone(), real_stmt(&t)));
            }
        }
    }
    for x in printed_alike() {
        for o in [x.clone(), T::Coll(vec![x.clone()]), quote(tr(iri(A), P, x.clone()))] {
            st.push((tr(iri(B), Q, o.clone()), real_stmt(&tr(iri(B), Q, o))));
        }
    }
    ordered(c, "statement", &st);
    // by subject, then predicate, then object
    let idx: Vec<usize> = (0..st.len()).collect();
    par_each(&idx, |i| {
        run1(c, &format!("statement {:?}", st[*i].0), || {
            let a = &st[*i].1;
            for (k, b) in &st {
                let want = a.subject().cmp(b.subject()).then(a.predicate().cmp(b.predicate())).then(a.object().cmp(b.object()));
                ck!(a.cmp(b) == want, "cmp {k:?} is {:?}, component by component {want:?}", a.cmp(b));
            }
            Ok(())
        });
    });
    // graph names have equality and hash only
    let names: Vec<(T, GraphName)> = [iri(A), iri(B), blank("n"), blank("a"), blank("http")].iter().map(|t| (t.clone(), real_name(t))).collect();
    for (k, v) in &names {
        for (k2, v2) in &names {
            c.expect((v == v2) == (k == k2), || format!("graph names {k:?} {k2:?}"), || format!("== is {}", v == v2));
            c.expect(k != k2 || hash(v) == hash(v2), || format!("graph names {k:?} {k2:?}"), || "hash differs".into());
        }
    }
    // comparison of a node with the value it may hold
    let objs: Vec<(T, ObjectNode)> = terms.iter().map(|t| (t.clone(), real_object(t))).collect();
    let objs_ref = &objs;
    let all: Vec<usize> = (0..objs.len()).collect();
    par_each(&all, |i| {
        let (k, v) = &objs_ref[*i];
        run1(c, &format!("comparing {k:?} with bare values"), || {
            for (k2, v2) in objs_ref {
                let same = k == k2;
                let got = match v2 {
                    ObjectNode::Blank(x) => *v == *x,
                    ObjectNode::Resource(x) => *v == *x,
                    ObjectNode::Literal(x) => *v == *x,
                    ObjectNode::Collection(x) => *v == *x,
                    ObjectNode::Statement(x) => {
                        let a = *v == *x;
                        let b = *v == **x;
                        ck!(a == b, "the statement {k2:?} and its shared form compare differently");
                        a
                    }
                };
                ck!(got == same, "compared with the bare {k2:?}: {got}");
                if is_subject(k) {
                    let s = real_subject(k);
                    let got = match v2 {
                        ObjectNode::Blank(x) => s == *x,
                        ObjectNode::Resource(x) => s == *x,
                        ObjectNode::Statement(x) => {
                            ck!((s == *x) == (s == **x), "subject: the statement {k2:?} and its shared form compare differently");
                            s == *x
                        }
                        _ => continue,
                    };
                    ck!(got == same, "as a subject, compared with the bare {k2:?}: {got}");
                }
            }
            Ok(())
        });
        c.add_transitions(objs_ref.len() as u64 * 2);
    });
    c.sample(json!({"object": format!("{:?}", terms[terms.len() - 1])}));
}

// ------------------------------------------------------------------------------------------------
// D03 node conversions
// ------------------------------------------------------------------------------------------------

pub fn d03(c: &Check) {
    let lits = literals();
    let mut terms = nested_terms(&[iri(A), blank("n"), plain("x")], c.bound(1, 1));
    terms.extend(lits);
    terms.extend(nested_terms(&[blank("n"), T::Coll(vec![blank("n")]), quote(q0())], 1));
    for x in special() {
        terms.extend(placed(&x).into_iter().flat_map(|t| [t.0, t.2]));
    }
    terms.extend(LANGS.iter().map(|l| lang("x", l)));
    let mut seen = std::collections::HashSet::new();
    terms.retain(|t| seen.insert(t.clone()));
    terms.extend(nested_terms(&[blank("n"), T::Coll(vec![]), quote(tr(blank("n"), P, plain("x")))], 2));
    par_each(&terms, |t| {
        run1(c, &format!("{t:?}"), || {
            let o = real_object(t);
            ck!(of_object(&o) == *t, "object holds {:?}", of_object(&o));
            ck!(of_object(&ObjectNode::from(&o)) == *t, "from a reference: {:?}", of_object(&ObjectNode::from(&o)));
            let kind = [o.is_blank(), o.is_resource(), o.is_literal(), o.is_collection(), o.is_statement()];
            let want = [matches!(t, T::Blank(_)), matches!(t, T::Iri(_)), matches!(t, T::Lit { .. }), matches!(t, T::Coll(_)), matches!(t, T::Quote(_))];
            ck!(kind == want, "kind tests are {kind:?}");
            ck!(o.as_blank().map(|b| T::Blank(b.as_ref().into())) == want[0].then(|| t.clone()), "as_blank {:?}", o.as_blank());
            ck!(o.as_resource().map(|i| T::Iri(format!("{i:#}"))) == want[1].then(|| t.clone()), "as_resource {:?}", o.as_resource());
            ck!(o.as_literal().map(of_lit) == want[2].then(|| t.clone()), "as_literal {:?}", o.as_literal());
            ck!(o.as_collection().map(|c| T::Coll(c.iter().map(of_object).collect())) == want[3].then(|| t.clone()), "as_collection {:?}", o.as_collection());
            ck!(o.as_statement().map(|s| quote(of_stmt(&s))) == want[4].then(|| t.clone()), "as_statement {:?}", o.as_statement());
            let back = o.to_subject();
            ck!(back.as_ref().map(of_subject) == is_subject(t).then(|| t.clone()), "to_subject is {back:?}");
            // every way of building the node from the value
            let same = |x: ObjectNode, how: &str| -> Result<(), String> {
                ck!(of_object(&x) == *t, "{how} gives {:?}", of_object(&x));
                Ok(())
            };
            let samec = |x: Collection, how: &str| -> Result<(), String> {
                ck!(x.iter().map(of_object).collect::<Vec<_>>() == vec![t.clone()], "collection {how} holds {x:?}");
                ck!(x.len() == 1 && !x.is_empty(), "collection {how} has length {}", x.len());
                Ok(())
            };
            samec(Collection::from(o.clone()), "From<ObjectNode>")?;
            samec(Collection::from(&o), "From<&ObjectNode>")?;
            match &o {
                ObjectNode::Blank(v) => {
                    same(v.into(), "From<&BlankNode>")?;
                    let n = Name::from_str(v.as_ref()).unwrap();
                    same((&n).into(), "From<&Name>")?;
                    same(n.clone().into(), "From<Name>")?;
                    samec((&n).into(), "From<&Name>")?;
                    samec(n.into(), "From<Name>")?;
                    samec(v.into(), "From<&BlankNode>")?;
                    samec(v.clone().into(), "From<BlankNode>")?;
                }
                ObjectNode::Resource(v) => {
                    same(v.into(), "From<&Iri>")?;
                    samec(v.into(), "From<&Iri>")?;
                    samec(v.clone().into(), "From<Iri>")?;
                }
                ObjectNode::Literal(v) => {
                    same(v.into(), "From<&Literal>")?;
                    samec(v.into(), "From<&Literal>")?;
                    samec(v.clone().into(), "From<Literal>")?;
                }
                ObjectNode::Collection(v) => {
                    same(v.into(), "From<&Collection>")?;
                    let T::Coll(items) = t else { unreachable!() };
                    ck!(v.len() == items.len() && v.is_empty() == items.is_empty(), "length {}", v.len());
                    let vec: Vec<ObjectNode> = v.clone().into();
                    ck!(vec.iter().map(of_object).collect::<Vec<_>>() == *items, "into Vec: {vec:?}");
                    same(vec.iter().cloned().collect::<Collection>().into(), "FromIterator")?;
                    if items.is_empty() {
                        same(Collection::nil().into(), "nil()")?;
                    }
                }
                ObjectNode::Statement(v) => {
                    same(v.into(), "From<&Arc<Statement>>")?;
                    same((**v).clone().into(), "From<Statement>")?;
                    same((&**v).into(), "From<&Statement>")?;
                    samec(v.into(), "From<&Arc<Statement>>")?;
                    samec(v.clone().into(), "From<Arc<Statement>>")?;
                    samec((**v).clone().into(), "From<Statement>")?;
                    samec((&**v).into(), "From<&Statement>")?;
                }
            }
            if is_subject(t) {
                let s = real_subject(t);
                ck!(of_subject(&s) == *t && of_subject(&SubjectNode::from(&s)) == *t, "subject holds {:?}", of_subject(&s));
                ck!(of_object(&s.to_object()) == *t, "to_object is {:?}", s.to_object());
                ck!([s.is_blank(), s.is_resource(), s.is_statement()] == [want[0], want[1], want[4]], "subject kind tests");
                ck!(s.as_blank().map(|b| T::Blank(b.as_ref().into())) == want[0].then(|| t.clone()), "subject as_blank");
                ck!(s.as_resource().map(|i| T::Iri(format!("{i:#}"))) == want[1].then(|| t.clone()), "subject as_resource");
                ck!(s.as_statement().map(|s| quote(of_stmt(&s))) == want[4].then(|| t.clone()), "subject as_statement");
                let same = |x: SubjectNode, how: &str| -> Result<(), String> {
                    ck!(of_subject(&x) == *t, "subject {how} gives {:?}", of_subject(&x));
                    Ok(())
                };
                match &s {
                    SubjectNode::Blank(v) => {
                        same(v.into(), "From<&BlankNode>")?;
                        let n = Name::from_str(v.as_ref()).unwrap();
                        same((&n).into(), "From<&Name>")?;
                        same(n.clone().into(), "From<Name>")?;
                        for g in [
                            GraphName::from(v),
                            GraphName::from(v.clone()),
                            GraphName::from(&n),
                            GraphName::from(n.clone()),
                            GraphName::from(s.clone()),
                            GraphName::blank_named(v.as_ref()).map_err(|e| e.to_string())?,
                        ] {
                            ck!(of_name(&g) == *t && g.is_blank() && !g.is_iri(), "graph name {g:?}");
                            ck!(g.as_blank() == Some(v) && g.as_iri().is_none(), "graph name {g:?} accessors");
                        }
                    }
                    SubjectNode::Resource(v) => {
                        same(v.into(), "From<&Iri>")?;
                        for g in [GraphName::from(v), GraphName::from(v.clone()), GraphName::named(v.clone()), GraphName::from(s.clone())] {
                            ck!(of_name(&g) == *t && g.is_iri() && !g.is_blank(), "graph name {g:?}");
                            ck!(g.as_iri() == Some(v) && g.as_blank().is_none(), "graph name {g:?} accessors");
                        }
                    }
                    SubjectNode::Statement(v) => {
                        same(v.into(), "From<&Arc<Statement>>")?;
                        same((&**v).into(), "From<&Statement>")?;
                        same((**v).clone().into(), "From<Statement>")?;
                    }
                }
            }
            Ok(())
        });
        c.add_states(1);
        c.add_transitions(12);
        c.add_traces(1);
    });
    // statements: constructors, accessors and setters, each setter changing one component only
    let ss: Vec<&T> = terms.iter().filter(|t| is_subject(t)).take(c.bound(40, 120)).collect();
    let os: Vec<&T> = terms.iter().take(c.bound(120, 400)).collect();
    par_each(&ss, |s| {
        for o in &os {
            for p in [P, Q] {
                let t = tr((*s).clone(), p, (*o).clone());
                run1(c, &format!("statement {t:?}"), || {
                    let st = real_stmt(&t);
                    ck!(of_stmt(&st) == t, "holds {:?}", of_stmt(&st));
                    let q = |t: &T| matches!(t, T::Quote(_));
                    ck!(st.is_nested() == (q(&t.0) || q(&t.2)), "is_nested is {}", st.is_nested());
                    let ty = Statement::rdf_type(real_subject(s), real_object(o));
                    ck!(of_stmt(&ty) == tr((*s).clone(), &rdf("type"), (*o).clone()), "rdf_type gives {:?}", of_stmt(&ty));
                    for s2 in ss.iter().take(4) {
                        let mut m = st.clone();
                        m.set_subject(real_subject(s2));
                        ck!(of_stmt(&m) == tr((*s2).clone(), p, (*o).clone()), "set_subject gives {:?}", of_stmt(&m));
                        m.set_predicate(real_iri(A));
                        ck!(of_stmt(&m) == tr((*s2).clone(), A, (*o).clone()), "set_predicate gives {:?}", of_stmt(&m));
                        m.set_object(s2_obj(s2));
                        ck!(of_stmt(&m) == tr((*s2).clone(), A, (*s2).clone()), "set_object gives {:?}", of_stmt(&m));
                    }
                    // values that have something in common with the statement
                    let (s, o) = (&t.0, &t.2);
                    let mut news = vec![(*o).clone(), quote(t.clone()), T::Coll(vec![(*o).clone()]), quote(tr((*s).clone(), Q, (*o).clone())), quote(tr((*s).clone(), P, blank("z")))];
                    news.extend([quote(tr(iri(B), p, (*o).clone())), quote(tr(iri(p), A, iri(p))), iri(p), blank("z"), T::Coll(vec![])]);
                    if is_subject(o) {
                        news.push(quote(tr((*o).clone(), p, (*s).clone())));
                    }
                    if s != o {
                        news.push((*s).clone());
                    }
                    for n in &news {
                        let mut m = st.clone();
                        m.set_object(real_object(n));
                        ck!(of_stmt(&m) == tr((*s).clone(), p, n.clone()), "set_object gives {:?}", of_stmt(&m));
                        if is_subject(n) {
                            let mut m = st.clone();
                            m.set_subject(real_subject(n));
                            ck!(of_stmt(&m) == tr(n.clone(), p, (*o).clone()), "set_subject gives {:?}", of_stmt(&m));
                        }
                    }
                    for q in [P, Q, A, B].map(String::from).into_iter().chain(special()) {
                        let mut m = st.clone();
                        m.set_predicate(real_iri(&q));
                        ck!(of_stmt(&m) == tr((*s).clone(), &q, (*o).clone()), "set_predicate gives {:?}", of_stmt(&m));
                    }
                    ck!(of_stmt(&st) == t, "the clone's source changed");
                    Ok(())
                });
                c.add_states(1);
                c.add_transitions(14);
                c.add_traces(1);
            }
        }
    });
    c.sample(json!({"term": format!("{:?}", terms[terms.len() / 2])}));
    c.assume("a graph name is made from an IRI or blank-node subject; a quoted statement cannot name a graph");
}
fn s2_obj(t: &T) -> ObjectNode {
    real_object(t)
}

// ------------------------------------------------------------------------------------------------
// D07
// ------------------------------------------------------------------------------------------------

/// (qname, IRI, variant): the built-in data types as the standards name them.
pub fn datatypes() -> Vec<(&'static str, String, DataType)> {
    let mut v: Vec<(&'static str, String, DataType)> = [
        ("anyURI", DataType::Iri),
        ("base64Binary", DataType::Base64Binary),
        ("boolean", DataType::Boolean),
        ("date", DataType::Date),
        ("dateTime", DataType::DateTime),
        ("decimal", DataType::Decimal),
        ("double", DataType::Double),
        ("duration", DataType::Duration),
        ("float", DataType::Float),
        ("hexBinary", DataType::HexBinary),
        ("QName", DataType::QName),
        ("string", DataType::String),
        ("time", DataType::Time),
        ("long", DataType::Long),
        ("int", DataType::Int),
        ("short", DataType::Short),
        ("byte", DataType::Byte),
        ("unsignedLong", DataType::UnsignedLong),
        ("unsignedInt", DataType::UnsignedInt),
        ("unsignedShort", DataType::UnsignedShort),
        ("unsignedByte", DataType::UnsignedByte),
        ("language", DataType::Language),
        ("Name", DataType::Name),
    ]
    .into_iter()
    .map(|(n, d)| (n, xsd(n), d))
    .collect();
    v.push(("XMLLiteral", rdf("XMLLiteral"), DataType::XmlLiteral));
    v
}

pub fn d07(c: &Check) {
    let table = datatypes();
    for (n, i, d) in &table {
        run1(c, &format!("data type {n}"), || {
            ck!(format!("{:#}", d.as_iri()) == *i, "as_iri is {:#}", d.as_iri());
            ck!(DataType::from(real_iri(i)) == *d, "{i} becomes {:?}", DataType::from(real_iri(i)));
            let q = format!("{}:{n}", if *n == "XMLLiteral" { "rdf" } else { "xsd" });
            ck!(d.to_string() == q, "prints {d}");
            for lex in ["", "x", "1"] {
                let a = Literal::with_data_type(lex, d.clone());
                let b = Literal::with_data_type_iri(lex, real_iri(i));
                ck!(a == b && a.data_type() == Some(d) && b.data_type() == Some(d), "literals {a:?} {b:?}");
                ck!(a.has_data_type() && !a.has_language() && a.language().is_none(), "{a:?}");
            }
            Ok(())
        });
        c.add_states(1);
        c.add_transitions(6);
        c.add_traces(1);
    }
    // every IRI near a built-in one is kept as it is, and distinct IRIs stay distinct
    let mut cand: BTreeSet<String> = BTreeSet::new();
    let known: BTreeMap<String, DataType> = table.iter().map(|(_, i, d)| (i.clone(), d.clone())).collect();
    let names: Vec<String> = table
        .iter()
        .map(|t| t.0.to_string())
        .chain(
            ["integer", "nonNegativeInteger", "token", "normalizedString", "NCName", "langString", "HTML", "JSON", "PlainLiteral", "dateTimeStamp", "gYear", "dayTimeDuration", "ID", ""]
                .map(String::from),
        )
        .collect();
    for n in &names {
        let mut vars: BTreeSet<String> = BTreeSet::from([n.clone(), n.to_uppercase(), n.to_lowercase(), format!("{n}x"), format!("x{n}"), format!("{n}/")]);
        for k in 0..n.len() {
            let mut m = n.clone();
            m.remove(k);
            vars.insert(m);
        }
        for v in vars {
            for ns in [
                XSD,
                mcrdf::RDF,
                "http://www.w3.org/2001/XMLSchema",
                "http://www.w3.org/2001/XMLSchema/",
                "https://www.w3.org/2001/XMLSchema#",
                "http://www.w3.org/2001/XMLSchema-datatypes#",
                "http://www.w3.org/2001/xmlschema#",
                "urn:",
                "http://example.org/",
            ] {
                cand.insert(format!("{ns}{v}"));
            }
        }
    }
    let mut seen: HashMap<DataType, String> = HashMap::new();
    for i in &cand {
        run1(c, &format!("data type IRI {i}"), || {
            let Ok(r) = Iri::from_str(i) else {
                return Ok(());
            };
            let text = format!("{r:#}");
            let d = DataType::from(r.clone());
            ck!(*d.as_iri() == r && format!("{:#}", d.as_iri()) == text, "comes back as {:#}", d.as_iri());
            match known.get(&text) {
                Some(k) => ck!(d == *k, "is {d:?}"),
                None => {
                    ck!(d == DataType::Other(r.clone()), "is taken for {d:?}");
                    ck!(d.to_string() == text, "prints {d}");
                }
            }
            if let Some(o) = seen.insert(d.clone(), text.clone()) {
                ck!(o == text, "is the same data type as {o}");
            }
            Ok(())
        });
        c.add_states(1);
        c.add_transitions(2);
        c.add_traces(1);
    }
    c.extra("iris", json!(cand.len()));
    c.sample(json!({"iri": cand.iter().next()}));
}

// ------------------------------------------------------------------------------------------------
// D08
// ------------------------------------------------------------------------------------------------

const TEXT: &[char] = &['a', '\\', '"', '\n', '\r', '\t', '\u{0}', '\u{7f}', '\u{85}', '\u{8}', 'u', 'n', 'é', '😀', '\'', '0', '@', '^', '<', ' ', '\u{2028}', '\u{FFFF}'];

fn text_ok(s: &str) -> Result<(), String> {
    let p = Literal::plain(s);
    let l = Literal::with_language(s, LanguageTag::parse("en").unwrap());
    let d = Literal::with_data_type_iri(s, real_iri(A));
    let x = Literal::from(s);
    for lit in [&p, &l, &d, &x] {
        let dec = nt_unescape(lit.lexical_form()).map_err(|e| format!("lexical form {:?} is not a string literal body: {e}", lit.lexical_form()))?;
        ck!(dec == s, "lexical form {:?} stands for {dec:?}", lit.lexical_form());
        ck!(lit.unescaped_form() == s, "unescaped form is {:?}", lit.unescaped_form());
    }
    let lf = p.lexical_form().clone();
    ck!(format!("{p}") == format!("\"{lf}\"") && format!("{p:#}") == format!("{p}"), "prints {p}");
    ck!(format!("{l}") == format!("\"{lf}\"@en") && format!("{l:#}") == format!("{l}"), "prints {l}");
    ck!(format!("{d}") == format!("\"{lf}\"^^<{A}>") && format!("{d:#}") == format!("{d}"), "prints {d}");
    ck!(format!("{x}") == format!("\"{lf}\"^^<{}>", xsd("string")) && format!("{x:#}") == format!("{x}"), "prints {x}");
    ck!(format!("{:#}", ObjectNode::from(d.clone())) == format!("{d:#}"), "as an object prints {:#}", ObjectNode::from(d.clone()));
    ck!(p == *s && p == s.to_string() && x == *s && x == s.to_string(), "not equal to its own text");
    ck!(d != *s, "a literal of another data type equals the bare text");
    ck!(!p.has_data_type() && !p.has_language() && l.has_language() && !l.has_data_type() && d.has_data_type(), "accessors");
    Ok(())
}

pub fn d08(c: &Check) {
    // 1. words over one symbol per escape class
    let n = words(TEXT.len(), c.bound(4, 4), |w| {
        let s: String = w.iter().map(|i| TEXT[*i]).collect();
        run1(c, &format!("text {s:?}"), || text_ok(&s));
    });
    // deeper over the characters that escapes are made of
    let deep = ['\\', '"', 'u', '0', 'n', '\n'];
    let m = words(deep.len(), c.bound(6, 8), |w| {
        let s: String = w.iter().map(|i| deep[*i]).collect();
        run1(c, &format!("text {s:?}"), || text_ok(&s));
    });
    // 2. every Unicode scalar value alone, after a backslash, before a quote
    let scalars: Vec<u32> = (0..0x110000u32 / 256).collect();
    par_each(&scalars, |b| {
        for k in 0..256 {
            if let Some(ch) = char::from_u32(b * 256 + k) {
                for s in [format!("{ch}"), format!("\\{ch}"), format!("{ch}\""), format!("a{ch}{ch}\n")] {
                    run1(c, &format!("text {s:?}"), || text_ok(&s));
                }
            }
        }
        c.add_states(1024);
        c.add_traces(1024);
        c.add_transitions(1024);
    });
    // every shape of language tag, and data types of every kind, over the words of up to two symbols
    let dts: Vec<String> = datatypes().iter().map(|d| d.1.clone()).chain(special()).chain([A.to_string(), "urn:dt:x".into()]).collect();
    let bare = ["boolean", "long", "int", "short", "byte", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte", "float", "double", "decimal"];
    let k = words(TEXT.len(), 2, |w| {
        let s: String = w.iter().map(|i| TEXT[*i]).collect();
        run1(c, &format!("text {s:?} with languages and data types"), || {
            let lf = Literal::plain(s.as_str()).lexical_form().clone();
            for l in LANGS {
                let x = Literal::with_language(s.as_str(), LanguageTag::parse(l).unwrap());
                ck!(x.lexical_form() == &lf && x.unescaped_form() == s, "@{l}: {:?}", x.lexical_form());
                ck!(x.language().map(|t| t.as_str().to_string()) == Some(l.to_string()) && x.data_type().is_none(), "@{l}: {:?}", x.language());
                for t in [format!("{x}"), format!("{x:#}"), format!("{:#}", ObjectNode::from(&x)), format!("{}", ObjectNode::from(&x))] {
                    ck!(t == format!("\"{lf}\"@{l}"), "prints {t}");
                }
            }
            for d in &dts {
                let x = Literal::with_data_type_iri(s.as_str(), real_iri(d));
                ck!(x.lexical_form() == &lf && x.unescaped_form() == s && !x.has_language(), "^^{d}: {:?}", x.lexical_form());
                let full = format!("\"{lf}\"^^<{d}>");
                ck!(format!("{x:#}") == full && format!("{:#}", ObjectNode::from(&x)) == full, "prints {x:#}");
                let short = match d.strip_prefix(XSD) {
                    Some("anyURI") => format!("<{lf}>"),
                    Some(n) if bare.contains(&n) => lf.clone(),
                    _ => full,
                };
                ck!(format!("{x}") == short && format!("{}", ObjectNode::from(&x)) == short, "prints {x}");
            }
            Ok(())
        });
    });
    c.add_states(k);
    c.add_transitions(k * (LANGS.len() + dts.len()) as u64);
    c.add_traces(k);
    // 3. distinct texts give distinct literals and unequal comparisons: all pairs of short texts
    let mut ws: Vec<String> = vec![String::new()];
    for a in TEXT {
        ws.push(a.to_string());
        for b in TEXT {
            ws.push(format!("{a}{b}"));
        }
    }
    ws.extend(["\\n", "\\u0000", "\\\\", "\\\"", "\\u007F", "u0000", "\\t"].map(String::from));
    ws.sort();
    ws.dedup();
    let idx: Vec<usize> = (0..ws.len()).collect();
    par_each(&idx, |i| {
        let l = Literal::plain(ws[*i].as_str());
        run1(c, &format!("text {:?} against others", ws[*i]), || {
            for (j, t) in ws.iter().enumerate() {
                let same = *i == j;
                ck!((l == Literal::plain(t.as_str())) == same, "equals the literal of {t:?}: {}", !same);
                ck!((l == **t) == same, "equals the text {t:?}: {}", !same);
                ck!((l == *t) == same, "equals the string {t:?}: {}", !same);
            }
            Ok(())
        });
        c.add_transitions(3 * ws.len() as u64);
    });
    c.add_states(n + m + ws.len() as u64);
    c.add_transitions(n + m);
    c.add_traces(n + m + (ws.len() * ws.len()) as u64);
    c.sample(json!({"text": "\\\"u0000", "lexical form": Literal::plain("\\\"u0000").lexical_form()}));
}

// ------------------------------------------------------------------------------------------------
// D09
// ------------------------------------------------------------------------------------------------

pub fn d09(c: &Check) {
    let alpha: Vec<char> = vec!['a', '_', ':', '.', '-', '0', 'B', ' ', 'é', '\u{B7}', '/', '%', '\\'];
    let n = words(alpha.len(), c.bound(5, 5), |w| {
        let s: String = w.iter().map(|i| alpha[*i]).collect();
        run1(c, &format!("label {s:?}"), || {
            let bare = s.strip_prefix("_:").unwrap_or(&s);
            let ok = reference_label(bare);
            ck!(BlankNode::is_valid_str(&s) == ok, "is_valid_str is {}", !ok);
            match BlankNode::from_str(&s) {
                Ok(b) => {
                    ck!(ok, "accepted");
                    ck!(b.as_ref() == bare && b.to_string() == bare, "label is {b}");
                    ck!(String::from(b.clone()) == bare && String::from(&b) == bare, "as String");
                    ck!(b == BlankNode::from_str(bare).unwrap() && b == BlankNode::from_str(&format!("_:{bare}")).unwrap(), "with and without _: differ");
                    let q = b.to_qname();
                    ck!(q.to_string() == format!("_:{bare}"), "qualified {q}");
                    ck!(BlankNode::from_str(&q.to_string()).ok() == Some(b.clone()), "qualified name does not read back");
                    let nm = Name::from_str(bare).map_err(|e| e.to_string())?;
                    ck!(BlankNode::from(&nm) == b && BlankNode::from(nm) == b, "from Name differs");
                    for t in [SubjectNode::from(b.clone()).to_string(), ObjectNode::from(b.clone()).to_string(), GraphName::from(b.clone()).to_string()] {
                        ck!(t == format!("_:{bare}"), "node prints {t}");
                    }
                    ck!(GraphName::blank_named(&s).ok() == Some(GraphName::from(b)), "graph name");
                }
                Err(_) => {
                    ck!(!ok, "rejected");
                    ck!(GraphName::blank_named(&s).is_err(), "graph name accepted");
                }
            }
            Ok(())
        });
    });
    c.add_states(n);
    c.add_transitions(n);
    c.add_traces(n);
    // generated nodes: all interleavings of the generating calls up to a depth, no repetition ever
    let seen = std::sync::Mutex::new(HashSet::<String>::new());
    let fresh = |b: &str| -> Result<(), String> {
        ck!(reference_label(b), "generated label {b:?} is not a blank node label");
        ck!(BlankNode::from_str(b).is_ok(), "generated label {b:?} is rejected");
        ck!(seen.lock().unwrap().insert(b.to_string()), "label {b:?} was generated before");
        Ok(())
    };
    let depth = c.bound(5, 6);
    let m = words(5, depth, |w| {
        run1(c, &format!("generation sequence {w:?}"), || {
            for o in w {
                match o {
                    0 => fresh(BlankNode::generate().as_ref())?,
                    1 => match GraphName::blank() {
                        GraphName::BNode(b) => fresh(b.as_ref())?,
                        g => return Err(format!("blank graph name is {g:?}")),
                    },
                    2 => {
                        let mut r = rdftk_core::model::resource::Resource::anonymous();
                        r.literal_str(real_iri(P), "x");
                        let sts: Vec<Statement> = r.into();
                        fresh(sts[0].subject().as_blank().ok_or("anonymous resource is not blank")?.as_ref())?;
                    }
                    3 => {
                        let (s, _) = real_stmt(&q0()).reify().map_err(|e| e.to_string())?;
                        fresh(s.as_blank().ok_or("reified statement is not blank")?.as_ref())?;
                    }
                    _ => {
                        let col = Collection::from(vec![real_object(&plain("x")), real_object(&plain("y"))]);
                        let (s, sts) = col.reify().map_err(|e| e.to_string())?;
                        let mut nodes: BTreeSet<String> = sts.iter().filter_map(|t| t.subject().as_blank().map(|b| b.as_ref().to_string())).collect();
                        nodes.insert(s.as_blank().ok_or("list is not blank")?.as_ref().to_string());
                        ck!(nodes.len() == 2, "two cells, {} nodes", nodes.len());
                        nodes.iter().try_for_each(|b| fresh(b))?;
                    }
                }
            }
            Ok(())
        });
    });
    c.add_transitions(m);
    c.add_traces(m);
    let g = seen.into_inner().unwrap().len();
    c.extra("generated_labels", json!(g));
    c.expect(BLANK_NODE_NAMESPACE == "_" && BLANK_NODE_PREFIX == "_:", || "constants".into(), || "reserved prefix".into());
    c.sample(json!({"label": "a.-", "prefixed": "_:a.-"}));
    c.assume("labels chosen by the user are not of the generated form B<digits>");
}

/// PN_LOCAL without ':' and escapes, for the alphabet used here
fn reference_label(s: &str) -> bool {
    let cs: Vec<char> = s.chars().collect();
    let base = |c: char| c.is_ascii_alphabetic() || c == 'é';
    let first = |c: char| base(c) || c == '_' || c.is_ascii_digit();
    let inner = |c: char| first(c) || c == '-' || c == '\u{B7}';
    match cs.len() {
        0 => false,
        n => first(cs[0]) && cs[1..].iter().all(|c| inner(*c) || *c == '.') && cs[n - 1] != '.',
    }
}

// ------------------------------------------------------------------------------------------------
// D06
// ------------------------------------------------------------------------------------------------

fn ints() -> Vec<i128> {
    let mut v: BTreeSet<i128> = BTreeSet::new();
    for k in 0..65 {
        for d in -2..=2 {
            v.insert((1i128 << k) + d);
            v.insert(-(1i128 << k) + d);
        }
    }
    let mut p = 1i128;
    for _ in 0..20 {
        for d in -1..=1 {
            for m in [1, 2, 5, 9] {
                v.insert(p * m + d);
                v.insert(-p * m + d);
            }
        }
        p *= 10;
    }
    v.into_iter().collect()
}
fn dec(v: i128) -> String {
    // decimal digits, written out independently
    if v == 0 {
        return "0".into();
    }
    let (neg, mut u) = (v < 0, v.unsigned_abs());
    let mut d = Vec::new();
    while u > 0 {
        d.push(b'0' + (u % 10) as u8);
        u /= 10;
    }
    if neg {
        d.push(b'-');
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}

/// literal `l` (made from integer `v` of type number `k`) against every integer type
fn int_ok(v: i128, others: &[i128]) -> Result<(), String> {
    macro_rules! each {
        ($($k:expr, $t:ty, $d:expr);*) => {{
            $(
                if let Ok(x) = <$t>::try_from(v) {
                    let l = Literal::from(x);
                    ck!(of_lit(&l) == typed(&dec(v), &xsd($d)), "{} from {} is {:?}", v, stringify!($t), of_lit(&l));
                    ck!(format!("{l}") == dec(v), "prints {l}");
                    ck!(format!("{l:#}") == format!("\"{}\"^^<{}>", dec(v), xsd($d)), "prints {l:#}");
                    ck!(l == x, "not equal to its own value");
                    for w in others {
                        let mut hits: Vec<&str> = Vec::new();
                        if i64::try_from(*w).map_or(false, |w| l == w) { hits.push("long") }
                        if i32::try_from(*w).map_or(false, |w| l == w) { hits.push("int") }
                        if i16::try_from(*w).map_or(false, |w| l == w) { hits.push("short") }
                        if i8::try_from(*w).map_or(false, |w| l == w) { hits.push("byte") }
                        if u64::try_from(*w).map_or(false, |w| l == w) { hits.push("unsignedLong") }
                        if u32::try_from(*w).map_or(false, |w| l == w) { hits.push("unsignedInt") }
                        if u16::try_from(*w).map_or(false, |w| l == w) { hits.push("unsignedShort") }
                        if u8::try_from(*w).map_or(false, |w| l == w) { hits.push("unsignedByte") }
                        let want: Vec<&str> = if *w == v { vec![$d] } else { vec![] };
                        ck!(hits == want, "{} literal {v} equals {w} as {hits:?}", $d);
                    }
                    ck!(l != true && l != v as f64 && l != v as f32, "equals a boolean or float");
                    ck!(l != *dec(v), "equals a string");
                }
            )*
        }};
    }
    each!(0, i64, "long"; 1, i32, "int"; 2, i16, "short"; 3, i8, "byte"; 4, u64, "unsignedLong"; 5, u32, "unsignedInt"; 6, u16, "unsignedShort"; 7, u8, "unsignedByte");
    Ok(())
}

/// xsd:double / xsd:float lexical space, and its value
fn xsd_float(s: &str) -> Option<String> {
    match s {
        "INF" => return Some("inf".into()),
        "-INF" => return Some("-inf".into()),
        "NaN" => return Some("NaN".into()),
        _ => {}
    }
    let b = s.strip_prefix(['-', '+']).unwrap_or(s);
    let (m, e) = match b.find(['e', 'E']) {
        Some(i) => (&b[..i], Some(&b[i + 1..])),
        None => (b, None),
    };
    let digits = |s: &str| s.chars().all(|c| c.is_ascii_digit());
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    if i.is_empty() && f.is_empty() || !digits(i) || !digits(f) {
        return None;
    }
    if let Some(e) = e {
        let e = e.strip_prefix(['-', '+']).unwrap_or(e);
        if e.is_empty() || !digits(e) {
            return None;
        }
    }
    Some(s.into())
}

fn f32_ok(x: f32) -> Result<(), String> {
    let l = Literal::from(x);
    let T::Lit { lex, dt, lang: None } = of_lit(&l) else {
        return Err("has a language".into());
    };
    ck!(dt.as_deref() == Some(&xsd("float")), "data type {dt:?}");
    let p: f32 = xsd_float(&lex).ok_or(format!("{lex:?} is not an xsd:float"))?.parse().map_err(|_| format!("{lex:?}"))?;
    ck!(p.to_bits() == x.to_bits() || x.is_nan() && p.is_nan(), "{lex:?} reads as {p:?}");
    ck!(l == x, "not equal to its own value");
    ck!(l != f64::from(x), "a float equals a double");
    Ok(())
}
fn f64_ok(x: f64) -> Result<(), String> {
    let l = Literal::from(x);
    let T::Lit { lex, dt, lang: None } = of_lit(&l) else {
        return Err("has a language".into());
    };
    ck!(dt.as_deref() == Some(&xsd("double")), "data type {dt:?}");
    let p: f64 = xsd_float(&lex).ok_or(format!("{lex:?} is not an xsd:double"))?.parse().map_err(|_| format!("{lex:?}"))?;
    ck!(p.to_bits() == x.to_bits() || x.is_nan() && p.is_nan(), "{lex:?} reads as {p:?}");
    ck!(l == x, "not equal to its own value");
    ck!(l != x as f32, "a double equals a float");
    Ok(())
}

/// xsd:duration -> nanoseconds (no years or months)
fn xsd_duration(s: &str) -> Option<i128> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let s = s.strip_prefix('P')?;
    let (d, t) = match s.split_once('T') {
        Some((d, t)) if !t.is_empty() => (d, t),
        Some(_) => return None,
        None => (s, ""),
    };
    if d.is_empty() && t.is_empty() {
        return None;
    }
    let mut total: i128 = 0;
    let int = |x: &str| {
        if !x.is_empty() && x.chars().all(|c| c.is_ascii_digit()) {
            x.parse::<i128>().ok()
        } else {
            None
        }
    };
    if !d.is_empty() {
        total += int(d.strip_suffix('D')?)? * 86_400_000_000_000;
    }
    let mut rest = t;
    for (u, k) in [('H', 3_600_000_000_000i128), ('M', 60_000_000_000)] {
        if let Some(i) = rest.find(u) {
            total += int(&rest[..i])? * k;
            rest = &rest[i + 1..];
        }
    }
    if !rest.is_empty() {
        let r = rest.strip_suffix('S')?;
        let (i, f) = match r.split_once('.') {
            Some((i, f)) => (i, Some(f)),
            None => (r, None),
        };
        total += int(i)? * 1_000_000_000;
        if let Some(f) = f {
            int(f)?;
            let pad = format!("{f:0<9}");
            if pad.len() > 9 && pad[9..].chars().any(|c| c != '0') {
                return None;
            }
            total += int(&pad[..9])?;
        }
    }
    Some(if neg { -total } else { total })
}

fn b64(v: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for ch in v.chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= ch.len() {
                s.push(A[(n >> (18 - 6 * k) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
fn hex(v: &[u8]) -> String {
    v.iter().flat_map(|b| [b >> 4, b & 15]).map(|n| b"0123456789ABCDEF"[n as usize] as char).collect()
}
fn bytes_ok(v: &[u8]) -> Result<(), String> {
    let h = Literal::hex_encoded(v);
    ck!(of_lit(&h) == typed(&hex(v), &xsd("hexBinary")), "hex is {:?}", of_lit(&h));
    ck!(Vec::<u8>::try_from(h).map_err(|e| e.to_string())? == v, "hex decodes to something else");
    let lower = Literal::with_data_type(hex(v).to_lowercase(), DataType::HexBinary);
    ck!(Vec::<u8>::try_from(lower).map_err(|e| e.to_string())? == v, "lower-case hex decodes to something else");
    let b = Literal::base64_encoded(v);
    ck!(of_lit(&b) == typed(&b64(v), &xsd("base64Binary")), "base64 is {:?}", of_lit(&b));
    ck!(Vec::<u8>::try_from(b).map_err(|e| e.to_string())? == v, "base64 decodes to something else");
    Ok(())
}

pub fn d06(c: &Check) {
    // integers: all of 16 bits and beyond, the boundaries up to 64 bits
    let edges = ints();
    let blocks: Vec<i128> = (-(1 << 17) / 256..(1 << 17) / 256).collect();
    par_each(&blocks, |b| {
        for v in b * 256..b * 256 + 256 {
            let near = [v - 1, v, v + 1, -v, v + 256, v - 65536, v % 256, v % 65536];
            run1(c, &format!("integer {v}"), || int_ok(v, &near));
        }
        c.add_states(256);
        c.add_transitions(256 * 64);
        c.add_traces(256 * 8);
    });
    par_each(&edges, |v| {
        run1(c, &format!("integer {v}"), || int_ok(*v, &edges));
        c.add_states(1);
        c.add_transitions(edges.len() as u64 * 8);
        c.add_traces(8);
    });
    let small: Vec<i128> = (-130..=260).collect();
    par_each(&small, |v| run1(c, &format!("integer {v}"), || int_ok(*v, &small)));
    // booleans
    for v in [true, false] {
        run1(c, &format!("boolean {v}"), || {
            let l = Literal::from(v);
            ck!(of_lit(&l) == typed(if v { "true" } else { "false" }, &xsd("boolean")), "is {:?}", of_lit(&l));
            ck!(l == v && l != !v, "equality");
            Ok(())
        });
    }
    // any literal, wherever it comes from, equals a value exactly when it is the literal made from it
    let mut texts: Vec<String> = ["", "0", "1", "-1", "+1", "-0", "00", "01", " 1", "1 ", "1.0", "1.", ".5", "0.5", "1e0", "1E0", "0x1", "127", "255", "65535", "NaN", "nan", "INF", "-INF", "inf"].map(String::from).to_vec();
    texts.extend(["true", "false", "True", "TRUE", "t", "yes", "PT1S", "PT0S", "P0D", "PT60S", "PT1M", "a", ":a", "p:a", "en", "en-GB", "http://h/a", "HTTP://h/a"].map(String::from));
    let mut types: Vec<Option<String>> = datatypes().into_iter().map(|d| Some(d.1)).collect();
    types.extend([None, Some(A.to_string())]);
    let mut all: Vec<T> = Vec::new();
    for t in &texts {
        all.extend(types.iter().map(|d| T::Lit { lex: t.clone(), dt: d.clone(), lang: None }));
        all.push(lang(t, "en"));
    }
    par_each(&all, |t| {
        run1(c, &format!("literal {t:?}"), || {
            let l = real_lit(t);
            macro_rules! same {
                ($($v:expr),*) => { $({ let v = $v; let made = Literal::from(v.clone()); ck!((l == v) == (l == made), "== {v:?} is {}, the literal made from that is {made:?}", l == v); })* }
            }
            for k in [0u8, 1, 127, 255] {
                same!(k, k as i8, k as u16, k as i16, k as u32, k as i32, k as u64, k as i64);
                same!(k as f32, -(k as f32), k as f64, -(k as f64), rust_decimal::Decimal::new(k as i64, 0));
                same!(rust_decimal::Decimal::new(k as i64, 1), std::time::Duration::from_secs(k as u64), chrono::Duration::seconds(k as i64));
            }
            same!(true, false, 0.5f32, 0.5f64, f32::NAN, f64::NAN, f32::INFINITY, f64::NEG_INFINITY, 65535u16, 65535i32, 65535u64);
            same!(Name::from_str("a").unwrap(), Name::from_str("1").unwrap(), LocalName::from_str(":a").unwrap(), LocalName::from_str("p:a").unwrap());
            same!(real_iri("http://h/a"), real_iri("urn:a"));
            Ok(())
        });
        c.add_states(1);
        c.add_transitions(90);
    });
    // floats
    if c.thorough() {
        let his: Vec<u32> = (0..65536).collect();
        par_each(&his, |h| {
            for lo in (0..256u32).flat_map(|b| [b << 8, b << 8 | 1, b << 8 | 0x7f, b << 8 | 0xff]) {
                let x = f32::from_bits(h << 16 | lo);
                if let Err(e) = f32_ok(x) {
                    c.fail(format!("f32 {:#x}", x.to_bits()), e, json!({"bits": x.to_bits()}));
                }
            }
            c.add_states(1024);
            c.add_traces(1024);
        });
    }
    let his: Vec<u32> = (0..65536).collect();
    par_each(&his, |h| {
        for lo in [0u32, 1, 0x7fff, 0x8000, 0xffff, 0x3333] {
            let x = f32::from_bits(h << 16 | lo);
            run1(c, &format!("f32 {:#x}", x.to_bits()), || f32_ok(x));
        }
        for lo in [0u64, 1, 0x7fff_ffff_ffff, 0x8000_0000_0000, 0xffff_ffff_ffff, 0x9999_9999_999a] {
            let x = f64::from_bits((*h as u64) << 48 | lo);
            run1(c, &format!("f64 {:#x}", x.to_bits()), || f64_ok(x));
        }
        c.add_states(12);
        c.add_transitions(12);
        c.add_traces(12);
    });
    // decimals of every scale
    let mants: Vec<i64> = [0i64, 1, 5, 10, 123, 9999, 1_000_000, i64::MAX].iter().flat_map(|v| [*v, -*v]).collect();
    for m in &mants {
        for s in 0..=28u32 {
            run1(c, &format!("decimal {m}e-{s}"), || {
                let d = rust_decimal::Decimal::new(*m, s);
                for l in [Literal::from(d), Literal::from(&d)] {
                    let T::Lit { lex, dt, .. } = of_lit(&l) else { unreachable!() };
                    ck!(dt.as_deref() == Some(&xsd("decimal")), "data type {dt:?}");
                    let body = lex.strip_prefix('-').unwrap_or(&lex);
                    let (i, f) = body.split_once('.').unwrap_or((body, ""));
                    ck!(!i.is_empty() && i.chars().chain(f.chars()).all(|c| c.is_ascii_digit()), "{lex:?} is not an xsd:decimal");
                    let v: i128 = format!("{i}{f}").parse().map_err(|_| format!("{lex:?}"))?;
                    ck!(f.len() == s as usize && v == m.unsigned_abs() as i128, "{lex:?}");
                    ck!(lex.starts_with('-') == (*m < 0) || *m == 0, "{lex:?}");
                    ck!(l == d && l != d + rust_decimal::Decimal::ONE, "equality");
                }
                Ok(())
            });
            c.add_states(1);
            c.add_traces(2);
        }
    }
    // durations
    let secs = [0u64, 1, 59, 60, 3600, 86399, 86400, 63542, 31_536_000, u32::MAX as u64, i64::MAX as u64 / 1000, u64::MAX];
    let nanos = [0u32, 1, 10, 999, 1000, 1_000_000, 100_000_000, 500_000_000, 120_000_000, 999_999_999, 10_000_000];
    let mut all = Vec::new();
    for s in secs {
        for n in nanos {
            all.push(std::time::Duration::new(s, n));
        }
    }
    for d in &all {
        run1(c, &format!("duration {d:?}"), || {
            for l in [Literal::from(*d), Literal::from(d)] {
                let T::Lit { lex, dt, .. } = of_lit(&l) else { unreachable!() };
                ck!(dt.as_deref() == Some(&xsd("duration")), "data type {dt:?}");
                ck!(xsd_duration(&lex) == Some(d.as_nanos() as i128), "{lex:?} is {:?} ns", xsd_duration(&lex));
                for e in &all {
                    ck!((l == *e) == (d == e), "compared with {e:?}");
                }
            }
            Ok(())
        });
        c.add_states(1);
        c.add_transitions(all.len() as u64);
        c.add_traces(2);
        if d.as_secs() <= i64::MAX as u64 / 1000 - 1 {
            for neg in [false, true] {
                run1(c, &format!("chrono duration {d:?} negative={neg}"), || {
                    let mut ch = chrono::Duration::from_std(*d).map_err(|e| e.to_string())?;
                    if neg {
                        ch = -ch;
                    }
                    let want = d.as_nanos() as i128 * if neg { -1 } else { 1 };
                    for l in [Literal::from(ch), Literal::from(&ch)] {
                        let T::Lit { lex, dt, .. } = of_lit(&l) else { unreachable!() };
                        ck!(dt.as_deref() == Some(&xsd("duration")), "data type {dt:?}");
                        ck!(xsd_duration(&lex) == Some(want), "{lex:?} is {:?} ns", xsd_duration(&lex));
                        ck!(l == ch, "not equal to its own value");
                        ck!((l == -ch) == (want == 0), "equal to its negation");
                    }
                    Ok(())
                });
            }
        }
    }
    // names, IRIs, language tags, text
    for s in ["a", "_", "0", "a.b", "a-b", "é", "xsd", "a..b"] {
        run1(c, &format!("name {s}"), || {
            let n = Name::from_str(s).map_err(|e| e.to_string())?;
            let l = Literal::from(n.clone());
            ck!(of_lit(&l) == typed(s, &xsd("Name")) && l == Literal::from(&n) && l == n, "{:?}", of_lit(&l));
            for p in ["", "p", "é.x"] {
                let q = LocalName::from_str(&format!("{p}:{s}")).map_err(|e| e.to_string())?;
                let l = Literal::from(q.clone());
                ck!(of_lit(&l) == typed(&format!("{p}:{s}"), &xsd("QName")) && l == Literal::from(&q) && l == q, "{:?}", of_lit(&l));
                ck!(l != n && Literal::from(n.clone()) != q, "name equals qualified name");
            }
            Ok(())
        });
        c.add_states(4);
        c.add_traces(4);
    }
    for s in ["http://h/a", "http://h/a?q#f", "urn:a:b", "mailto:x@y", "urn:a\"b", "urn:a\\b", "data:,a\\u0041", "http://h/%22#\"", "x://h/a\\b", "urn:a'b"] {
        run1(c, &format!("IRI literal {s}"), || {
            let i = Iri::from_str(s).map_err(|e| e.to_string())?;
            for l in [Literal::from(i.clone()), Literal::from(&i)] {
                ck!(of_lit(&l) == typed(&format!("{i:#}"), &xsd("anyURI")), "{:?}", of_lit(&l));
                ck!(l == i, "not equal to its own value");
                ck!(l != real_iri("http://h/b"), "equal to another IRI");
                let back = Iri::try_from(l).map_err(|e| e.to_string())?;
                ck!(back == i, "converts back to {back}");
            }
            Ok(())
        });
        c.add_states(1);
        c.add_traces(2);
    }
    for s in ["en", "en-US", "zh-Hant", "de-CH-1901", "x-private"] {
        run1(c, &format!("language {s}"), || {
            let t = LanguageTag::parse(s).map_err(|e| e.to_string())?;
            let l = Literal::from(t.clone());
            ck!(of_lit(&l) == typed(s, &xsd("language")) && l == t, "{:?}", of_lit(&l));
            ck!(l != LanguageTag::parse("fr").unwrap(), "equal to another language");
            Ok(())
        });
    }
    for s in ["", "x", "\"\\\n", "é"] {
        run1(c, &format!("string {s:?}"), || {
            ck!(of_lit(&Literal::from(s)) == typed(s, &xsd("string")), "&str");
            ck!(of_lit(&Literal::from(s.to_string())) == typed(s, &xsd("string")), "String");
            Ok(())
        });
    }
    // binary: all byte strings of length <= 2, all of length 3..4 over edge bytes, long ones
    let eb = [0u8, 1, 0x0f, 0x10, 0x3f, 0x40, 0x7f, 0x80, 0xfb, 0xff];
    let firsts: Vec<u16> = (0..256).collect();
    par_each(&firsts, |a| {
        let a = *a as u8;
        run1(c, &format!("bytes [{a}]"), || bytes_ok(&[a]));
        for b in 0..=255u8 {
            run1(c, &format!("bytes [{a},{b}]"), || bytes_ok(&[a, b]));
            if c.thorough() {
                for d in 0..=255u8 {
                    run1(c, &format!("bytes [{a},{b},{d}]"), || bytes_ok(&[a, b, d]));
                }
                c.add_traces(256);
            }
        }
        c.add_states(257);
        c.add_traces(257);
    });
    let n = words(eb.len(), c.bound(4, 6), |w| {
        let v: Vec<u8> = w.iter().map(|i| eb[*i]).collect();
        run1(c, &format!("bytes {v:?}"), || bytes_ok(&v));
    });
    for k in 0..200usize {
        let v: Vec<u8> = (0..k).map(|i| (i * 37 + k) as u8).collect();
        run1(c, &format!("{k} bytes"), || bytes_ok(&v));
    }
    c.add_states(n + 200);
    c.add_traces(n + 200);
    // decoding: accepted texts are exactly encodings
    let ha = ["0", "9", "A", "f", "G", "+", " ", "é", "-", "\"", "\n"];
    let n = words(ha.len(), c.bound(4, 5), |w| {
        let s: String = w.iter().map(|i| ha[*i]).collect();
        run1(c, &format!("hex text {s:?}"), || {
            let ok = s.len() % 2 == 0 && s.chars().all(|c| c.is_ascii_hexdigit());
            match Vec::<u8>::try_from(Literal::with_data_type(s.as_str(), DataType::HexBinary)) {
                Ok(v) => ck!(ok && hex(&v).eq_ignore_ascii_case(&s), "decodes to {v:?}"),
                Err(e) => {
                    ck!(!ok, "rejected: {e}");
                    let _ = (e.to_string(), format!("{e:?}"));
                }
            }
            Ok(())
        });
    });
    let ba = ["A", "Q", "g", "=", "+", "/", "-", " ", "é", "\n", "9"];
    let m = words(ba.len(), c.bound(5, 6), |w| {
        let s: String = w.iter().map(|i| ba[*i]).collect();
        run1(c, &format!("base64 text {s:?}"), || {
            match Vec::<u8>::try_from(Literal::with_data_type(s.as_str(), DataType::Base64Binary)) {
                Ok(v) => ck!(b64(&v) == s, "decodes to {v:?}, whose encoding is {:?}", b64(&v)),
                Err(_) => {
                    let good = s.len() % 4 == 0 && {
                        // an encoding iff some byte string encodes to it; decode it here
                        ref_b64(&s).map_or(false, |v| b64(&v) == s)
                    };
                    ck!(!good, "rejected");
                }
            }
            Ok(())
        });
    });
    c.add_states(n + m);
    c.add_traces(n + m);
    c.add_transitions(n + m);
    // other data types are refused
    for t in literals() {
        run1(c, &format!("coercion of {t:?}"), || {
            let T::Lit { lex, dt, .. } = &t else { unreachable!() };
            let d = dt.clone().unwrap_or_default();
            if d != xsd("hexBinary") && d != xsd("base64Binary") {
                ck!(Vec::<u8>::try_from(real_lit(&t)).is_err(), "gives bytes");
            }
            let i = Iri::try_from(real_lit(&t));
            if d != xsd("anyURI") {
                ck!(i.is_err(), "gives the IRI {i:?}");
            } else {
                ck!(i.ok() == Iri::from_str(lex).ok(), "IRI");
            }
            Ok(())
        });
        c.add_traces(2);
    }
    c.sample(json!({"duration": Literal::from(std::time::Duration::new(1, 10_000_000)).to_string()}));
}

fn ref_b64(s: &str) -> Option<Vec<u8>> {
    let t = s.trim_end_matches('=');
    let mut bits: Vec<u8> = Vec::new();
    for c in t.chars() {
        let v = match c {
            'A'..='Z' => c as u8 - b'A',
            'a'..='z' => c as u8 - b'a' + 26,
            '0'..='9' => c as u8 - b'0' + 52,
            '+' => 62,
            '/' => 63,
            _ => return None,
        };
        for k in (0..6).rev() {
            bits.push(v >> k & 1);
        }
    }
    Some(bits.chunks_exact(8).map(|b| b.iter().fold(0, |a, x| a << 1 | x)).collect())
}

#[allow(dead_code)]
fn unused(_: Arc<Statement>) {}

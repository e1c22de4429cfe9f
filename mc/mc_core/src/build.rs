//! D10 reification, D13 the resource builder.

use crate::graphs::run1;
use crate::universe::*;
use mclib::*;
use mcrdf::*;
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_core::model::resource::{Predicate, Resource};
use rdftk_core::model::statement::{Statement, SubjectNode};
use serde_json::json;
use std::collections::BTreeMap;

macro_rules! ck {
    ($cond:expr, $($what:tt)*) => {
        if !($cond) {
            return Err(format!($($what)*));
        }
    };
}

// ------------------------------------------------------------------------------------------------
// D10
// ------------------------------------------------------------------------------------------------

/// In its RDF form the empty collection is rdf:nil itself.
fn nil_is_empty(t: &T) -> T {
    match t {
        T::Iri(i) if *i == rdf("nil") => T::Coll(vec![]),
        T::Coll(v) => T::Coll(v.iter().map(nil_is_empty).collect()),
        T::Quote(q) => quote((nil_is_empty(&q.0), q.1.clone(), nil_is_empty(&q.2))),
        t => t.clone(),
    }
}

fn reified(want: &T, root: &SubjectNode, sts: &[Statement]) -> Result<(), String> {
    let want = &nil_is_empty(want);
    let flat: Vec<Triple> = sts.iter().map(of_stmt).collect();
    let old = blanks(&[(iri(A), P.into(), want.clone())]);
    for t in &flat {
        for x in [&t.0, &t.2] {
            ck!(!matches!(x, T::Coll(_) | T::Quote(_)), "still nested: {t:?}");
        }
    }
    let mut used: BTreeMap<Triple, usize> = BTreeMap::new();
    let back = unreify(&of_subject(root), &flat, &|b| !old.contains(b), &mut used)?;
    ck!(back == *want, "the statements stand for {back:?}");
    let mut count: BTreeMap<&Triple, usize> = BTreeMap::new();
    flat.iter().for_each(|t| *count.entry(t).or_insert(0) += 1);
    for (t, n) in count {
        ck!(n == 1, "statement {t:?} occurs {n} times");
        ck!(used.get(t) == Some(&1), "statement {t:?} is used {:?} times", used.get(t));
    }
    Ok(())
}

pub fn d10(c: &Check) {
    let atoms = [iri(A), blank("n"), plain("x"), lang("y", "en"), typed("1", &xsd("int"))];
    let mut terms: Vec<T> = nested_terms(&atoms[..5], 1);
    let pick = vec![
        blank("n"),
        T::Coll(vec![]),
        T::Coll(vec![blank("n"), plain("x"), blank("n")]),
        quote(tr(blank("n"), P, blank("m"))),
        quote(tr(iri(A), P, T::Coll(vec![plain("x"), blank("m")]))),
        quote(tr(quote(q0()), P, T::Coll(vec![T::Coll(vec![])]))),
    ];
    let two = nested_terms(&pick, 1);
    terms.extend(two);
    let deep = nested_terms(&[blank("n"), T::Coll(vec![blank("n")])], 2);
    terms.extend(deep);
    if c.thorough() {
        terms.extend(nested_terms(&[blank("n"), plain("x"), iri(A)], 2));
        let mut seen = std::collections::HashSet::new();
        terms.retain(|t| seen.insert(t.clone()));
    }
    let mut all: Vec<Triple> = Vec::new();
    for s in terms.iter().filter(|t| is_subject(t)) {
        for o in &terms {
            all.push(tr(s.clone(), Q, o.clone()));
        }
    }
    for x in special() {
        all.extend(placed(&x));
    }
    for l in LANGS {
        all.extend([tr(iri(A), P, lang("x", l)), tr(quote(tr(iri(A), P, lang("x", l))), P, T::Coll(vec![lang("y", l)]))]);
    }
    par_each(&all, |t| {
        run1(c, &format!("reify {t:?}"), || {
            let st = real_stmt(t);
            let (s, sts) = st.reify().map_err(|e| e.to_string())?;
            ck!(of_stmt(&st) == *t, "the statement changed");
            reified(&quote(t.clone()), &s, &sts)?;
            let (s2, _) = st.reify().map_err(|e| e.to_string())?;
            ck!(of_subject(&s) != of_subject(&s2), "reified twice as the same node");
            Ok(())
        });
        c.add_states(1);
        c.add_transitions(1);
        c.add_traces(1);
    });
    for x in special() {
        terms.extend(placed(&x).into_iter().map(|t| t.2));
    }
    let colls: Vec<&T> = terms.iter().filter(|t| matches!(t, T::Coll(_))).collect();
    par_each(&colls, |t| {
        run1(c, &format!("reify {t:?}"), || {
            let o = real_object(t);
            let (s, sts) = o.as_collection().unwrap().reify().map_err(|e| e.to_string())?;
            reified(t, &s, &sts)
        });
        c.add_states(1);
        c.add_transitions(1);
        c.add_traces(1);
    });
    let n = c.bound(60, 400);
    let ks: Vec<usize> = (0..n).collect();
    par_each(&ks, |k| {
        run1(c, &format!("reify a collection of {k}"), || {
            let t = T::Coll((0..*k).map(|i| typed(&(i % 3).to_string(), &xsd("int"))).collect());
            let (s, sts) = real_object(&t).as_collection().unwrap().reify().map_err(|e| e.to_string())?;
            ck!(sts.len() == 3 * k, "{} statements", sts.len());
            reified(&t, &s, &sts)
        });
        c.add_traces(1);
    });
    c.sample(json!({"statement": format!("{:?}", all[all.len() / 2])}));
    c.assume("generated blank node labels do not collide with the labels of the input (see D09)");
}

// ------------------------------------------------------------------------------------------------
// D13
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Alt,
    Bag,
    Seq,
    Other,
}
const TYPE: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type";
const BAG: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#Bag";
const MEMBER: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#_1";
const OTHER: &str = "http://example.org/Container";
impl Kind {
    fn iri(self) -> String {
        match self {
            Kind::Alt => rdf("Alt"),
            Kind::Bag => rdf("Bag"),
            Kind::Seq => rdf("Seq"),
            Kind::Other => OTHER.into(),
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    /// which of the literal-adding methods, predicate, literal
    Lit(u8, &'static str, T),
    Lits(Kind, &'static str, Vec<T>),
    BlankNamed(&'static str, &'static str),
    Named(&'static str, &'static str),
    Res(&'static str, Sub),
    Ress(Kind, &'static str, Vec<Sub>),
    InstanceOf(&'static str),
    /// through the predicate builder
    Pred(&'static str, Vec<Op>),
}
#[derive(Clone, Debug)]
struct Sub {
    subject: T,
    ops: Vec<Op>,
}

fn build(s: &Sub) -> Resource {
    let mut r = match &s.subject {
        T::Blank(b) => Resource::semi_anonymous(real_blank(b)),
        T::Iri(i) => Resource::individual(real_iri(i)),
        q => Resource::new(real_subject(q)),
    };
    for o in &s.ops {
        apply(&mut r, o);
    }
    r
}

fn apply(r: &mut Resource, o: &Op) {
    let text = |t: &T| match t {
        T::Lit { lex, .. } => lex.clone(),
        _ => unreachable!(),
    };
    let _ = match o {
        Op::Lit(how, p, t) => {
            let p = real_iri(p);
            match (how, t) {
                (0, _) => r.property(p, real_lit(t)),
                (1, _) => r.value_of(p, real_lit(t)),
                (2, _) => r.literal(p, real_lit(t)),
                (_, T::Lit { dt: None, lang: None, .. }) => r.literal_str(p, &text(t)),
                (_, T::Lit { dt: Some(d), .. }) => r.literal_typed_str(p, &text(t), DataType::from(real_iri(d))),
                (3, T::Lit { lang: Some(l), .. }) => r.literal_language_str(p, &text(t), LanguageTag::parse(l).unwrap()),
                (_, T::Lit { lang: Some(l), .. }) => r.literal_language_str_str(p, &text(t), l),
                _ => unreachable!(),
            }
        }
        Op::Lits(k, p, v) => {
            let p = real_iri(p);
            let v: Vec<Literal> = v.iter().map(real_lit).collect();
            match k {
                Kind::Alt => r.property_alternatives(p, &v),
                Kind::Bag => r.property_bag(p, &v),
                Kind::Seq => r.property_sequence(p, &v),
                Kind::Other => r.property_container(p, &v, real_iri(OTHER)),
            }
        }
        Op::BlankNamed(p, b) => r.resource_blank_named(real_iri(p), &real_blank(b)),
        Op::Named(p, i) => r.resource_named(real_iri(p), real_iri(i)),
        Op::Res(p, s) => r.resource(real_iri(p), build(s)),
        Op::Ress(k, p, v) => {
            let p = real_iri(p);
            let v: Vec<Resource> = v.iter().map(build).collect();
            match k {
                Kind::Alt => r.resource_alternatives(p, &v),
                Kind::Bag => r.resource_bag(p, &v),
                Kind::Seq => r.resource_sequence(p, &v),
                Kind::Other => r.resource_container(p, &v, real_iri(OTHER)),
            }
        }
        Op::InstanceOf(i) => r.instance_of(real_iri(i)),
        Op::Pred(p, ops) => {
            let mut b = Predicate::new(real_iri(p));
            for o in ops {
                let _ = match o {
                    Op::Lit(_, _, t) => b.property(real_lit(t)),
                    Op::Lits(k, _, v) => {
                        let v: Vec<Literal> = v.iter().map(real_lit).collect();
                        match k {
                            Kind::Alt => b.property_alternatives(&v),
                            Kind::Bag => b.property_bag(&v),
                            Kind::Seq => b.property_sequence(&v),
                            Kind::Other => b.property_container(&v, real_iri(OTHER)),
                        }
                    }
                    Op::BlankNamed(_, n) => b.resource_blank_named(&real_blank(n)),
                    Op::Named(_, i) => b.resource_named(real_iri(i)),
                    Op::Res(_, s) => b.resource(build(s)),
                    Op::Ress(k, _, v) => {
                        let v: Vec<Resource> = v.iter().map(build).collect();
                        match k {
                            Kind::Alt => b.resource_alternatives(&v),
                            Kind::Bag => b.resource_bag(&v),
                            Kind::Seq => b.resource_sequence(&v),
                            Kind::Other => b.resource_container(&v, real_iri(OTHER)),
                        }
                    }
                    _ => unreachable!(),
                };
            }
            r.predicate(b)
        }
    };
}

/// What the builder stands for: triples whose object may be a container (written as a typed collection).
type Fact = (T, String, Obj);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Obj {
    Term(T),
    Container(String, Vec<T>),
}

fn meaning(s: &Sub, out: &mut Vec<Fact>) {
    for o in &s.ops {
        fact(&s.subject, None, o, out);
    }
}
fn fact(subject: &T, pred: Option<&str>, o: &Op, out: &mut Vec<Fact>) {
    let p = |q: &str| pred.unwrap_or(q).to_string();
    match o {
        Op::Lit(_, q, t) => out.push((subject.clone(), p(q), Obj::Term(t.clone()))),
        Op::Lits(k, q, v) => out.push((subject.clone(), p(q), Obj::Container(k.iri(), v.clone()))),
        Op::BlankNamed(q, b) => out.push((subject.clone(), p(q), Obj::Term(blank(b)))),
        Op::Named(q, i) => out.push((subject.clone(), p(q), Obj::Term(iri(i)))),
        Op::Res(q, s) => {
            out.push((subject.clone(), p(q), Obj::Term(s.subject.clone())));
            meaning(s, out);
        }
        Op::Ress(k, q, v) => {
            out.push((subject.clone(), p(q), Obj::Container(k.iri(), v.iter().map(|s| s.subject.clone()).collect())));
            v.iter().for_each(|s| meaning(s, out));
        }
        Op::InstanceOf(i) => out.push((subject.clone(), rdf("type"), Obj::Term(iri(i)))),
        Op::Pred(q, ops) => ops.iter().for_each(|o| fact(subject, Some(q), o, out)),
    }
}

/// Read the container nodes (blank nodes that the builder generated) back.
fn facts(flat: &[Triple], known: &dyn Fn(&str) -> bool) -> Result<Vec<Fact>, String> {
    let is_new = |t: &T| matches!(t, T::Blank(b) if !known(b));
    let mut out = Vec::new();
    let mut seen: BTreeMap<T, usize> = BTreeMap::new();
    for t in flat {
        if is_new(&t.0) {
            continue;
        }
        if !is_new(&t.2) {
            out.push((t.0.clone(), t.1.clone(), Obj::Term(t.2.clone())));
            continue;
        }
        *seen.entry(t.2.clone()).or_insert(0) += 1;
        let about: Vec<&Triple> = flat.iter().filter(|x| x.0 == t.2).collect();
        let ty: Vec<&&Triple> = about.iter().filter(|x| x.1 == rdf("type")).collect();
        ck!(ty.len() == 1, "container has {} types", ty.len());
        let T::Iri(kind) = &ty[0].2 else {
            return Err(format!("container type {:?}", ty[0].2));
        };
        let mut members = Vec::new();
        for i in 1..about.len() {
            let m: Vec<&&Triple> = about.iter().filter(|x| x.1 == rdf(&format!("_{i}"))).collect();
            ck!(m.len() == 1, "container has {} members rdf:_{i}; it is {about:?}", m.len());
            members.push(m[0].2.clone());
        }
        out.push((t.0.clone(), t.1.clone(), Obj::Container(kind.clone(), members)));
    }
    for (n, k) in &seen {
        ck!(*k == 1, "container node {n:?} is used {k} times");
    }
    for t in flat {
        ck!(!is_new(&t.0) || seen.contains_key(&t.0), "orphan statement {t:?}");
    }
    out.sort();
    Ok(out)
}

fn resource_ok(s: &Sub) -> Result<(), String> {
    let r = build(s);
    ck!(r.is_a_resource() == matches!(s.subject, T::Iri(_)), "is_a_resource is {}", r.is_a_resource());
    let mut want = Vec::new();
    meaning(s, &mut want);
    want.sort();
    let typed = s.ops.iter().any(|o| match o {
        Op::InstanceOf(_) => true,
        Op::Lit(_, p, _) | Op::Lits(_, p, _) | Op::BlankNamed(p, _) | Op::Named(p, _) | Op::Res(p, _) | Op::Ress(_, p, _) => *p == TYPE,
        Op::Pred(p, v) => *p == TYPE && !v.is_empty(),
    });
    ck!(r.is_an_individual() == typed, "is_an_individual is {}", r.is_an_individual());
    let copy = r.clone();
    for r in [r, copy] {
        let sts: Vec<Statement> = r.into();
        let flat: Vec<Triple> = sts.iter().map(of_stmt).collect();
        let got = facts(&flat, &|b| b.starts_with("u"))?;
        ck!(got == want, "builds {got:?}, expected {want:?}");
    }
    Ok(())
}

pub fn d13(c: &Check) {
    let leaf = Sub { subject: blank("u1"), ops: vec![] };
    let one = Sub { subject: iri(B), ops: vec![Op::Lit(2, P, plain("inner"))] };
    let quoted = Sub { subject: quote(q0()), ops: vec![Op::InstanceOf(OTHER)] };
    let deep = Sub {
        subject: blank("u2"),
        ops: vec![Op::Lits(Kind::Seq, Q, vec![plain("a"), plain("a"), plain("b")]), Op::Res(P, one.clone()), Op::Ress(Kind::Alt, P, vec![leaf.clone(), one.clone()])],
    };
    let eleven: Vec<T> = (0..11).map(|i| typed(&i.to_string(), &xsd("int"))).collect();
    let mut ops = vec![
        Op::Lit(0, P, plain("x")),
        Op::Lit(1, P, typed("1", &xsd("int"))),
        Op::Lit(2, Q, lang("x", "en")),
        Op::Lit(3, P, plain("a\"\\\n")),
        Op::Lit(3, Q, typed("1.0", &xsd("decimal"))),
        Op::Lit(3, P, lang("y", "fr")),
        Op::Lit(4, P, lang("y", "en-US")),
        Op::BlankNamed(P, "u3"),
        Op::Named(Q, A),
        Op::Res(P, leaf.clone()),
        Op::Res(Q, deep.clone()),
        Op::Res(P, quoted.clone()),
        Op::InstanceOf(A),
        Op::InstanceOf(OTHER),
    ];
    for k in [Kind::Alt, Kind::Bag, Kind::Seq, Kind::Other] {
        ops.push(Op::Lits(k, P, vec![plain("x"), lang("x", "en"), plain("x")]));
        ops.push(Op::Ress(k, Q, vec![one.clone(), leaf.clone()]));
    }
    for k in [Kind::Alt, Kind::Bag, Kind::Seq, Kind::Other] {
        ops.push(Op::Lits(k, P, vec![]));
        ops.push(Op::Ress(k, P, vec![]));
    }
    ops.push(Op::Lits(Kind::Seq, Q, eleven.clone()));
    // every pair of nested resources, and some longer lists
    let subs = [leaf.clone(), one.clone(), quoted.clone(), deep.clone()];
    let kinds = [Kind::Seq, Kind::Bag, Kind::Alt, Kind::Other];
    for (i, x) in subs.iter().enumerate() {
        for (j, y) in subs.iter().enumerate() {
            ops.push(Op::Ress(kinds[(i + j) % 4], [P, Q][i % 2], vec![x.clone(), y.clone()]));
        }
    }
    for k in kinds {
        ops.push(Op::Ress(k, P, vec![leaf.clone(), one.clone(), deep.clone(), quoted.clone(), deep.clone()]));
    }
    // properties and types from the vocabulary that the builder uses itself
    ops.push(Op::Lit(2, TYPE, plain("x")));
    ops.push(Op::Named(TYPE, BAG));
    ops.push(Op::Res(TYPE, one.clone()));
    ops.push(Op::Named(MEMBER, A));
    ops.push(Op::Lits(Kind::Seq, MEMBER, vec![plain("x")]));
    ops.push(Op::InstanceOf(BAG));
    let through: Vec<Op> = ops.iter().filter(|o| !matches!(o, Op::InstanceOf(_))).cloned().collect();
    let direct = ops.len();
    ops.push(Op::Pred(P, vec![]));
    for o in &through {
        ops.push(Op::Pred(Q, vec![o.clone()]));
    }
    ops.push(Op::Pred(P, vec![through[0].clone(), through[14].clone(), through[9].clone(), through[0].clone()]));
    let subjects = [iri(A), blank("u0"), quote(q0())];
    // every sequence of builder calls
    let n = words(ops.len(), c.bound(2, 3), |w| {
        for s in &subjects {
            let sub = Sub { subject: s.clone(), ops: w.iter().map(|i| ops[*i].clone()).collect() };
            run1(c, &format!("{sub:?}"), || resource_ok(&sub));
        }
    });
    c.add_states(n * 3);
    c.add_transitions(n * 3);
    c.add_traces(n * 3);
    let n = words(direct, c.bound(3, 4), |w| {
        let sub = Sub { subject: subjects[w.len() % 2].clone(), ops: w.iter().map(|i| ops[*i].clone()).collect() };
        run1(c, &format!("{sub:?}"), || resource_ok(&sub));
    });
    c.add_states(n);
    c.add_transitions(n);
    c.add_traces(n);
    // nesting to depth k, containers of k members
    let ks: Vec<usize> = (0..c.bound(40, 150)).collect();
    par_each(&ks, |k| {
        run1(c, &format!("nesting {k}"), || {
            let mut s = leaf.clone();
            for i in 0..*k {
                s = Sub {
                    subject: if i % 2 == 0 { blank(&format!("u9{i}")) } else { iri(&format!("http://example.org/{i}")) },
                    ops: vec![if i % 3 == 0 { Op::Ress(Kind::Bag, P, vec![s]) } else { Op::Res(P, s) }],
                };
            }
            resource_ok(&s)?;
            let v: Vec<T> = (0..*k).map(|i| typed(&i.to_string(), &xsd("int"))).collect();
            resource_ok(&Sub { subject: iri(A), ops: vec![Op::Lits(Kind::Seq, P, v)] })
        });
        c.add_traces(2);
    });
    // anonymous resources have a blank subject of their own
    run1(c, "anonymous", || {
        let r = Resource::anonymous();
        ck!(!r.is_a_resource() && !r.is_an_individual(), "an anonymous resource has an IRI");
        let mut outer = Resource::individual(real_iri(A));
        let mut inner = Resource::anonymous();
        inner.literal_str(real_iri(P), "x");
        outer.resource(real_iri(Q), inner);
        let flat: Vec<Triple> = Vec::<Statement>::from(outer).iter().map(of_stmt).collect();
        ck!(isomorphic(&flat, &[tr(iri(A), Q, blank("k")), tr(blank("k"), P, plain("x"))]), "nested anonymous resource: {flat:?}");
        Ok(())
    });
    c.sample(json!({"operations": ops.len(), "example": format!("{:?}", ops[14])}));
}

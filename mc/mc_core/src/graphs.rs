//! D01 graph mutation, D02 graph queries, D04 data sets, D11 simplify, D12 skolemize.

use crate::universe::*;
use mclib::*;
use mcrdf::*;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::features::{Featured, FEATURE_GRAPH_DUPLICATES};
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::statement::{ObjectNode, Statement, SubjectNode};
use rdftk_iri::{IriPrefixMap, Namespace};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;

macro_rules! ck {
    ($cond:expr, $($what:tt)*) => {
        if !($cond) {
            return Err(format!($($what)*));
        }
    };
}

pub fn run1(c: &Check, key: &str, f: impl FnOnce() -> Result<(), String>) {
    at(|| key.into());
    match catch(f) {
        Ok(Ok(())) => {}
        Ok(Err(m)) => c.fail(key.to_string(), m.clone(), json!({"input": key, "what": m})),
        Err(p) => c.fail(key.to_string(), format!("panicked: {p}"), json!({"input": key, "panic": p})),
    }
}

fn some_mappings() -> IriPrefixMap {
    IriPrefixMap::default().with(Namespace::from_str("ex:").unwrap(), real_iri("http://example.org/"))
}

// ------------------------------------------------------------------------------------------------
// D01
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    Insert(usize),
    Remove(usize),
    RemoveAllFor(usize),
    Dedup,
    Clear,
    Extend(Vec<usize>),
    Merge(bool, Vec<usize>),
    With(Vec<usize>),
    SetName,
    UnsetName,
    Mappings,
    NoMappings,
}

struct Uni {
    ts: Vec<Triple>,
    subjects: Vec<T>,
    cap: u8,
}

impl Uni {
    fn new(n: usize, cap: u8) -> Self {
        let ts: Vec<Triple> = vec![
            tr(iri(A), P, plain("x")),
            tr(blank("n"), P, plain("x")),
            tr(iri(A), P, typed("x", &xsd("string"))),
            tr(quote(q0()), Q, T::Coll(vec![blank("n"), iri(A)])),
            tr(iri(A), Q, lang("x", "en")),
            tr(iri(B), P, quote(q0())),
        ][..n]
            .to_vec();
        Uni { ts, subjects: vec![iri(A), blank("n"), quote(q0()), iri(B), blank("zz")], cap }
    }
    /// statements that are different but print alike
    fn alike(cap: u8) -> Self {
        let q = |t: &str| quote((iri(A), P.into(), typed("1", &xsd(t))));
        let ts = vec![
            tr(iri(A), P, typed("1", &xsd("int"))),
            tr(iri(A), P, typed("1", &xsd("long"))),
            tr(q("int"), P, iri(A)),
            tr(q("long"), P, iri(A)),
            tr(q("long"), P, typed(A, &xsd("anyURI"))),
        ];
        Uni { ts, subjects: vec![iri(A), q("int"), q("long"), iri(B)], cap }
    }
    fn ops(&self) -> Vec<Op> {
        let n = self.ts.len();
        let mut v = Vec::new();
        for i in 0..n {
            v.push(Op::Insert(i));
            v.push(Op::Remove(i));
            v.push(Op::Merge(i % 2 == 0, vec![i]));
            v.push(Op::Extend(vec![i, (i + 1) % n]));
        }
        for s in 0..self.subjects.len() {
            v.push(Op::RemoveAllFor(s));
        }
        v.push(Op::Extend(vec![]));
        v.push(Op::Extend(vec![0, 0]));
        v.push(Op::Merge(false, vec![0, 0, 1]));
        v.push(Op::Merge(true, vec![0, 0, 1]));
        v.push(Op::Merge(false, vec![]));
        v.push(Op::With(vec![]));
        v.push(Op::With(vec![1, 0, 1]));
        v.extend([Op::Dedup, Op::Clear, Op::SetName, Op::UnsetName, Op::Mappings, Op::NoMappings]);
        v
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M {
    unique: bool,
    n: Vec<u8>,
    named: bool,
    /// 0: as constructed, 1: those of the test, 2: none
    mapped: u8,
}

fn add(u: &Uni, m: &M, items: &[usize]) -> Option<M> {
    let mut m = m.clone();
    for i in items {
        m.n[*i] = if m.unique { 1 } else { m.n[*i] + 1 };
        if m.n[*i] > u.cap {
            return None;
        }
    }
    Some(m)
}

fn step(u: &Uni, m: &M, o: &Op) -> Option<M> {
    let mut r = m.clone();
    match o {
        Op::Insert(i) => return add(u, m, &[*i]),
        Op::Extend(v) => return add(u, m, v),
        Op::Merge(uniq, v) => {
            let mut v = v.clone();
            if *uniq {
                v.sort();
                v.dedup();
            }
            return add(u, m, &v);
        }
        Op::With(v) => {
            r.n.iter_mut().for_each(|c| *c = 0);
            return add(u, &r, v);
        }
        Op::Remove(i) => r.n[*i] = 0,
        Op::RemoveAllFor(s) => {
            for (i, t) in u.ts.iter().enumerate() {
                if t.0 == u.subjects[*s] {
                    r.n[i] = 0;
                }
            }
        }
        Op::Dedup => r.n.iter_mut().for_each(|c| *c = (*c).min(1)),
        Op::Clear => r.n.iter_mut().for_each(|c| *c = 0),
        Op::SetName => r.named = true,
        Op::UnsetName => r.named = false,
        Op::Mappings => r.mapped = 1,
        Op::NoMappings => r.mapped = 2,
    }
    Some(r)
}

fn graph_of(u: &Uni, unique: bool, items: &[usize]) -> Graph {
    let mut g = if unique { Graph::unique() } else { Graph::default() };
    for i in items {
        g.insert(real_stmt(&u.ts[*i]));
    }
    g
}

/// Apply the operation; the result also says what was returned.
fn apply(u: &Uni, mut g: Graph, o: &Op) -> (Graph, Option<Vec<Triple>>) {
    let mut ret = None;
    match o {
        Op::Insert(i) => g.insert(real_stmt(&u.ts[*i])),
        Op::Remove(i) => g.remove(&real_stmt(&u.ts[*i])),
        Op::RemoveAllFor(s) => ret = Some(g.remove_all_for(&real_subject(&u.subjects[*s])).iter().map(of_stmt).collect()),
        Op::Dedup => ret = Some(g.dedup().iter().map(of_stmt).collect()),
        Op::Clear => g.clear(),
        Op::Extend(v) => g.extend(v.iter().map(|i| real_stmt(&u.ts[*i])).collect::<Vec<_>>()),
        Op::Merge(uniq, v) => {
            let mut other = graph_of(u, *uniq, v).with_mappings(IriPrefixMap::default().with(Namespace::from_str("o:").unwrap(), real_iri(B)));
            other.set_name(GraphName::from(real_iri(B)));
            g.merge(&other)
        }
        Op::With(v) => g = g.with_statements(v.iter().map(|i| real_stmt(&u.ts[*i])).collect()),
        Op::SetName => g.set_name(GraphName::from(real_iri(A))),
        Op::UnsetName => g.unset_name(),
        Op::Mappings => g.set_prefix_mappings(some_mappings()),
        Op::NoMappings => g.set_prefix_mappings(IriPrefixMap::empty()),
    }
    (g, ret)
}

fn list(u: &Uni, n: &[u8]) -> Vec<Triple> {
    let mut v = Vec::new();
    for (i, c) in n.iter().enumerate() {
        for _ in 0..*c {
            v.push(u.ts[i].clone());
        }
    }
    sorted(v)
}

fn agrees(u: &Uni, m: &M, g: &Graph) -> Result<(), String> {
    let want = list(u, &m.n);
    ck!(sorted(of_graph(g)) == want, "statements {:?}, expected {:?}", sorted(of_graph(g)), want);
    ck!(g.len() == want.len(), "len {} expected {}", g.len(), want.len());
    ck!(g.is_empty() == want.is_empty(), "is_empty {}", g.is_empty());
    ck!(g.statements().count() == want.len(), "statements() yields {}", g.statements().count());
    for (i, t) in u.ts.iter().enumerate() {
        ck!(g.contains(&real_stmt(t)) == (m.n[i] > 0), "contains({t:?}) is {}", m.n[i] == 0);
    }
    for s in &u.subjects {
        let want = u.ts.iter().enumerate().any(|(i, t)| m.n[i] > 0 && t.0 == *s);
        ck!(g.contains_subject(&real_subject(s)) == want, "contains_subject({s:?}) is {}", !want);
    }
    ck!(g.supports_feature(&FEATURE_GRAPH_DUPLICATES) == !m.unique, "supports duplicates: {}", m.unique);
    ck!(g.is_named() == m.named, "is_named {}", g.is_named());
    let nm = g.name().map(of_name);
    ck!(nm == m.named.then(|| iri(A)), "name is {nm:?}");
    let want = match m.mapped {
        0 => IriPrefixMap::default(),
        1 => some_mappings(),
        _ => IriPrefixMap::empty(),
    };
    ck!(g.prefix_mappings() == &want, "prefix mappings {:?}", g.prefix_mappings());
    Ok(())
}

fn returned(u: &Uni, m: &M, o: &Op, ret: &Option<Vec<Triple>>) -> Result<(), String> {
    let want = match o {
        Op::Dedup => m.n.iter().map(|c| c.saturating_sub(1)).collect::<Vec<u8>>(),
        Op::RemoveAllFor(s) => m.n.iter().enumerate().map(|(i, c)| if u.ts[i].0 == u.subjects[*s] { *c } else { 0 }).collect(),
        _ => return Ok(()),
    };
    let got = sorted(ret.clone().unwrap());
    ck!(got == list(u, &want), "returned {got:?}, expected {:?}", list(u, &want));
    Ok(())
}

pub fn d01(c: &Check) {
    // 1. every state and transition of the reference machine
    let (n, cap) = c.bound((5, 3), (6, 3));
    for u in [Uni::new(n, cap), Uni::alike(c.bound(2, 3))] {
        let n = u.ts.len();
        let ops = u.ops();
        let zero = |unique| M { unique, n: vec![0; n], named: false, mapped: 0 };
        let ex = bfs(vec![zero(false), zero(true)], &ops, |m, o| step(&u, m, o), 1000, 1 << 20);
        c.add_states(ex.states.len() as u64);
        c.add_transitions(ex.edges.len() as u64);
        c.extra("fixpoint", json!(ex.complete));
        let edges: Vec<&(usize, Op, usize)> = ex.edges.iter().collect();
        par_each(&edges, |(i, o, j)| {
            let trace = ex.trace(*i);
            let key = format!("unique={} {:?} then {:?}", ex.states[*i].unique, trace, o);
            run1(c, &key, || {
                let mut g = if ex.states[*i].unique { Graph::unique() } else { Graph::default() };
                for a in &trace {
                    g = apply(&u, g, a).0;
                }
                agrees(&u, &ex.states[*i], &g)?;
                let before = g.clone();
                let (g, ret) = apply(&u, g, o);
                returned(&u, &ex.states[*i], o, &ret)?;
                agrees(&u, &ex.states[*j], &g)?;
                agrees(&u, &ex.states[*i], &before).map_err(|e| format!("the clone taken before changed: {e}"))
            });
            c.add_traces(1);
        });
        c.sample(json!({"operations": ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>()}));
    }
    // 2. every operation sequence, without merging histories
    let depth = c.bound(4, 5);
    let u2 = Uni::new(3, 200);
    let ops2: Vec<Op> = u2.ops();
    let count = words(ops2.len(), depth, |w| {
        for unique in [false, true] {
            let key = || format!("unique={unique} {:?}", w.iter().map(|i| &ops2[*i]).collect::<Vec<_>>());
            let mut m = M { unique, n: vec![0; 3], named: false, mapped: 0 };
            let r = catch(|| {
                let mut g = if unique { Graph::unique() } else { Graph::default() };
                for (k, i) in w.iter().enumerate() {
                    let n = step(&u2, &m, &ops2[*i]).unwrap();
                    let (h, ret) = apply(&u2, g, &ops2[*i]);
                    g = h;
                    if k + 1 == w.len() {
                        returned(&u2, &m, &ops2[*i], &ret)?;
                    }
                    m = n;
                }
                agrees(&u2, &m, &g)
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => c.fail(key(), e.clone(), json!({"history": key(), "what": e})),
                Err(p) => c.fail(key(), format!("panicked: {p}"), json!({"history": key()})),
            }
        }
    });
    c.add_traces(count * 2);
    c.add_transitions(count * 2);
    c.extra("unmerged_sequences", json!(count * 2));
    // 3. construction routes
    let u3 = Uni::new(4, 200);
    let items: Vec<Vec<usize>> = lists(4, c.bound(4, 6));
    par_each(&items, |v| {
        let key = format!("constructed from {v:?}");
        run1(c, &key, || {
            let sts = || v.iter().map(|i| real_stmt(&u3.ts[*i])).collect::<Vec<Statement>>();
            let mut n = vec![0u8; 4];
            v.iter().for_each(|i| n[*i] += 1);
            let multi = M { unique: false, n: n.clone(), named: false, mapped: 0 };
            let uniq = M { unique: true, n: n.iter().map(|c| (*c).min(1)).collect(), named: false, mapped: 0 };
            agrees(&u3, &multi, &Graph::from(sts()))?;
            agrees(&u3, &multi, &sts().into_iter().collect::<Graph>())?;
            agrees(&u3, &multi, &Graph::default().with_statements(sts()))?;
            agrees(&u3, &uniq, &Graph::unique().with_statements(sts()))?;
            if v.len() == 1 {
                agrees(&u3, &multi, &Graph::from(sts().remove(0)))?;
            }
            let named = |m: &M| M { named: true, mapped: 1, ..m.clone() };
            agrees(&u3, &named(&multi), &Graph::named(real_iri(A)).with_mappings(some_mappings()).with_statements(sts()))?;
            agrees(&u3, &named(&uniq), &Graph::unique_named(real_iri(A)).with_statements(sts()).with_mappings(some_mappings()))?;
            Ok(())
        });
        c.add_states(1);
        c.add_traces(1);
    });
    // 4. growth
    let ns: Vec<usize> = c.bound(vec![1, 2, 7, 8, 9, 100, 1000], vec![1, 2, 7, 8, 9, 31, 32, 33, 100, 1000, 5000]);
    par_each(&ns, |k| {
        run1(c, &format!("growth to {k}"), || {
            let t = |i: usize| tr(iri(&format!("http://example.org/{}", i % 97)), P, typed(&i.to_string(), &xsd("int")));
            for unique in [false, true] {
                let mut g = if unique { Graph::unique() } else { Graph::default() };
                for i in 0..*k {
                    g.insert(real_stmt(&t(i)));
                    if i % 3 == 0 {
                        g.insert(real_stmt(&t(i)));
                    }
                }
                let dup = (*k + 2) / 3;
                ck!(g.len() == *k + if unique { 0 } else { dup }, "{k} distinct statements: len {}", g.len());
                ck!(g.dedup().len() == if unique { 0 } else { dup }, "dedup count");
                ck!(g.len() == *k, "after dedup {}", g.len());
                let s = iri("http://example.org/1");
                let gone = g.remove_all_for(&real_subject(&s)).len();
                let want = (0..*k).filter(|i| i % 97 == 1).count();
                ck!(gone == want && g.len() == *k - want, "remove_all_for returned {gone}, expected {want}");
                for i in 0..*k {
                    ck!(g.contains(&real_stmt(&t(i))) == (i % 97 != 1), "contains #{i}");
                }
            }
            Ok(())
        });
        c.add_states(*k as u64);
    });
    c.assume("one thread; graphs are plain values");
}

/// every list over 0..n of length <= max
fn lists(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max {
        let mut next = Vec::new();
        for w in &layer {
            for a in 0..n {
                let mut v = w.clone();
                v.push(a);
                next.push(v);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}

// ------------------------------------------------------------------------------------------------
// D02
// ------------------------------------------------------------------------------------------------

struct QUni {
    s: Vec<T>,
    p: Vec<String>,
    o: Vec<T>,
    rs: Vec<SubjectNode>,
    rp: Vec<rdftk_iri::Iri>,
    ro: Vec<ObjectNode>,
}

fn queries(u: &QUni, present: &[(usize, usize, usize)], g: &Graph) -> Result<u64, String> {
    let t = |x: &(usize, usize, usize)| (u.s[x.0].clone(), u.p[x.1].clone(), u.o[x.2].clone());
    let set = |f: &dyn Fn(&(usize, usize, usize)) -> bool| -> BTreeSet<Triple> { present.iter().filter(|x| f(x)).map(t).collect() };
    let mut n = 0u64;
    // matches: every pattern
    for s in std::iter::once(None).chain((0..u.s.len()).map(Some)) {
        for p in std::iter::once(None).chain((0..u.p.len()).map(Some)) {
            for o in std::iter::once(None).chain((0..u.o.len()).map(Some)) {
                let m = g.matches(s.map(|i| &u.rs[i]), p.map(|i| &u.rp[i]), o.map(|i| &u.ro[i]));
                let want = set(&|x| s.map_or(true, |i| i == x.0) && p.map_or(true, |i| i == x.1) && o.map_or(true, |i| i == x.2));
                n += 1;
                ck!(m.len() == want.len(), "matches({s:?},{p:?},{o:?}) yields {} statements, expected {}", m.len(), want.len());
                let got: BTreeSet<Triple> = m.into_iter().map(of_stmt).collect();
                ck!(got == want, "matches({s:?},{p:?},{o:?}) = {got:?}, expected {want:?}");
                if let (Some(s), Some(p), Some(o)) = (s, p, o) {
                    let c = g.contains_all(&u.rs[s], &u.rp[p], &u.ro[o]);
                    ck!(c != want.is_empty(), "contains_all({s},{p},{o}) = {c}");
                    let c = g.contains(&Statement::new(u.rs[s].clone(), u.rp[p].clone(), u.ro[o].clone()));
                    ck!(c != want.is_empty(), "contains({s},{p},{o}) = {c}");
                }
            }
        }
    }
    let ss: BTreeSet<T> = present.iter().map(|x| u.s[x.0].clone()).collect();
    let got = g.subjects();
    ck!(got.len() == ss.len(), "subjects() has {} entries", got.len());
    ck!(got.into_iter().map(of_subject).collect::<BTreeSet<_>>() == ss, "subjects() differs");
    let nb: BTreeSet<T> = ss.iter().filter(|s| !matches!(s, T::Blank(_))).cloned().collect();
    let bl: BTreeSet<T> = ss.iter().filter(|s| matches!(s, T::Blank(_))).cloned().collect();
    ck!(g.node_subjects().into_iter().map(of_subject).collect::<BTreeSet<_>>() == nb, "node_subjects() differs");
    ck!(g.blank_node_subjects().into_iter().map(of_subject).collect::<BTreeSet<_>>() == bl, "blank_node_subjects() differs");
    let ps: BTreeSet<String> = present.iter().map(|x| u.p[x.1].clone()).collect();
    let got = g.predicates();
    ck!(got.len() == ps.len() && got.into_iter().map(|p| format!("{p:#}")).collect::<BTreeSet<_>>() == ps, "predicates() differs");
    let os: BTreeSet<T> = present.iter().map(|x| u.o[x.2].clone()).collect();
    let got = g.objects();
    ck!(got.len() == os.len() && got.into_iter().map(of_object).collect::<BTreeSet<_>>() == os, "objects() differs");
    for s in 0..u.s.len() {
        let c = g.contains_subject(&u.rs[s]);
        ck!(c == ss.contains(&u.s[s]), "contains_subject({s}) = {c}");
        let want: BTreeSet<String> = present.iter().filter(|x| x.0 == s).map(|x| u.p[x.1].clone()).collect();
        let got: BTreeSet<String> = g.predicates_for(&u.rs[s]).into_iter().map(|p| format!("{p:#}")).collect();
        ck!(got == want, "predicates_for({s}) = {got:?}, expected {want:?}");
        for p in 0..u.p.len() {
            let want: BTreeSet<T> = present.iter().filter(|x| x.0 == s && x.1 == p).map(|x| u.o[x.2].clone()).collect();
            let got: BTreeSet<T> = g.objects_for(&u.rs[s], &u.rp[p]).into_iter().map(of_object).collect();
            ck!(got == want, "objects_for({s},{p}) = {got:?}, expected {want:?}");
        }
        n += 1 + u.p.len() as u64;
    }
    Ok(n)
}

pub fn d02(c: &Check) {
    let mk = |s: Vec<T>, p: Vec<&str>, o: Vec<T>| QUni {
        rs: s.iter().map(real_subject).collect(),
        rp: p.iter().map(|p| real_iri(p)).collect(),
        ro: o.iter().map(real_object).collect(),
        s,
        p: p.iter().map(|p| p.to_string()).collect(),
        o,
    };
    let check = |u: &QUni, items: &[(usize, usize, usize)], unique: bool| {
        let mut g = if unique { Graph::unique() } else { Graph::default() };
        for x in items {
            g.insert(Statement::new(u.rs[x.0].clone(), u.rp[x.1].clone(), u.ro[x.2].clone()));
        }
        let key = format!("unique={unique} graph {:?}", items.iter().map(|x| (&u.s[x.0], &u.p[x.1], &u.o[x.2])).collect::<Vec<_>>());
        match catch(|| queries(u, items, &g)) {
            Ok(Ok(n)) => c.add_transitions(n),
            Ok(Err(m)) => c.fail(key.clone(), m.clone(), json!({"graph": key, "what": m})),
            Err(p) => c.fail(key.clone(), format!("panicked: {p}"), json!({"graph": key})),
        }
        c.add_states(1);
        c.add_traces(1);
    };
    // 1. all graphs of <=2 (3) statements of a rich universe
    let u = mk(
        vec![iri(A), blank("n"), blank("m"), quote(q0()), quote(tr(iri(A), P, plain("y")))],
        vec![P, Q, A],
        vec![iri(A), blank("n"), blank("A"), plain("x"), lang("x", "en"), typed("x", &xsd("string")), typed(A, &xsd("anyURI")), T::Coll(vec![]), T::Coll(vec![plain("x")]), quote(q0())],
    );
    let mut all = Vec::new();
    for s in 0..u.s.len() {
        for p in 0..2 {
            for o in 0..u.o.len() {
                all.push((s, p, o));
            }
        }
    }
    let mut graphs: Vec<Vec<(usize, usize, usize)>> = vec![vec![]];
    for i in 0..all.len() {
        graphs.push(vec![all[i]]);
        for j in i..all.len() {
            graphs.push(vec![all[i], all[j]]);
        }
    }
    par_each(&graphs, |g| {
        check(&u, g, false);
        check(&u, g, true);
    });
    // terms that print alike
    let w = mk(printed_alike().into_iter().filter(is_subject).collect(), vec![P, Q], printed_alike());
    let mut all = Vec::new();
    for s in 0..w.s.len() {
        for o in 0..w.o.len() {
            all.push((s, (s + o) % 2, o));
        }
    }
    let mut pairs = Vec::new();
    for i in 0..all.len() {
        for j in i..all.len() {
            pairs.push([all[i], all[j]]);
        }
    }
    par_each(&pairs, |g| check(&w, g, g[0].0 % 2 == 0));
    // 2. all graphs over a small universe: every subset
    let v = mk(vec![iri(A), blank("n"), quote(q0())], vec![P, Q], vec![iri(A), plain("x"), blank("n")]);
    let mut all = Vec::new();
    for s in 0..v.s.len() {
        for p in 0..v.p.len() {
            for o in 0..v.o.len() {
                if c.thorough() || (s, p, o) != (2, 1, 1) {
                    all.push((s, p, o));
                }
            }
        }
    }
    let masks: Vec<u32> = (0..(1u32 << all.len())).collect();
    par_each(&masks, |m| {
        let items: Vec<(usize, usize, usize)> = (0..all.len()).filter(|i| m >> i & 1 == 1).map(|i| all[i]).collect();
        check(&v, &items, m % 2 == 0);
        let mut twice = items.clone();
        twice.extend(items.iter().rev());
        check(&v, &twice, m % 2 == 1);
    });
    {
        let mut idx = Vec::new();
        for i in 0..100 {
            for j in i + 1..100 {
                for k in j + 1..100 {
                    idx.push((i, j, k));
                }
            }
        }
        let all: Vec<(usize, usize, usize)> = {
            let mut a = Vec::new();
            for s in 0..u.s.len() {
                for p in 0..2 {
                    for o in 0..u.o.len() {
                        a.push((s, p, o));
                    }
                }
            }
            a
        };
        par_each(&idx, |(i, j, k)| check(&u, &[all[*i], all[*j], all[*k]], false));
    }
    c.sample(json!({"graph": format!("{:?}", graphs[graphs.len() / 2])}));
}

// ------------------------------------------------------------------------------------------------
// D04
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum DOp {
    Insert(usize, u8),
    Remove(usize),
    Clear,
    Extend(Vec<(usize, u8)>),
    Grow(usize),
}

fn dnames(n: usize) -> Vec<Option<T>> {
    vec![None, Some(iri(A)), Some(blank("n")), Some(iri(B)), Some(blank("m"))][..n].to_vec()
}
fn rname(n: &Option<T>) -> Option<GraphName> {
    n.as_ref().map(real_name)
}
/// content 0..=2: that many statements; 3.. the same with one more statement added in place
fn dgraph(name: &Option<T>, content: u8) -> Graph {
    let mut g = match name {
        None => Graph::default(),
        Some(n) => Graph::named(real_name(n)),
    };
    for i in 0..content {
        g.insert(real_stmt(&tr(iri(A), P, typed(&i.to_string(), &xsd("int")))));
    }
    g
}
fn dstep(m: &Vec<Option<u8>>, o: &DOp) -> Option<Vec<Option<u8>>> {
    let mut r = m.clone();
    match o {
        DOp::Insert(n, k) => r[*n] = Some(*k),
        DOp::Remove(n) => r[*n] = None,
        DOp::Clear => r.iter_mut().for_each(|x| *x = None),
        DOp::Extend(v) => v.iter().for_each(|(n, k)| r[*n] = Some(*k)),
        DOp::Grow(n) => match r[*n] {
            Some(2) => return None,
            Some(k) => r[*n] = Some(k + 1),
            None => {}
        },
    }
    Some(r)
}
fn dapply(names: &[Option<T>], d: &mut DataSet, o: &DOp) -> Result<(), String> {
    match o {
        DOp::Insert(n, k) => d.insert(dgraph(&names[*n], *k)),
        DOp::Remove(n) => d.remove(&rname(&names[*n])),
        DOp::Clear => d.clear(),
        DOp::Extend(v) => d.extend(v.iter().map(|(n, k)| dgraph(&names[*n], *k)).collect()),
        DOp::Grow(n) => {
            if let Some(g) = d.graph_mut(&rname(&names[*n])) {
                let k = g.len();
                g.insert(real_stmt(&tr(iri(A), P, typed(&k.to_string(), &xsd("int")))));
            }
        }
    }
    Ok(())
}
fn dagrees(names: &[Option<T>], m: &[Option<u8>], d: &DataSet) -> Result<(), String> {
    let have = m.iter().filter(|x| x.is_some()).count();
    ck!(d.len() == have, "len {} expected {have}", d.len());
    ck!(d.is_empty() == (have == 0), "is_empty {}", d.is_empty());
    let mut listed: Vec<(Option<T>, Vec<Triple>)> = d.graphs().map(|g| (g.name().map(of_name), sorted(of_graph(g)))).collect();
    listed.sort();
    let mut want: Vec<(Option<T>, Vec<Triple>)> = Vec::new();
    for (i, n) in names.iter().enumerate() {
        let content = m[i].map(|k| sorted(of_graph(&dgraph(n, k))));
        let r = rname(n);
        ck!(d.contains_graph(&r) == content.is_some(), "contains_graph({n:?})");
        let g = d.graph(&r);
        ck!(g.map(|g| sorted(of_graph(g))) == content, "graph({n:?})");
        ck!(g.map_or(true, |g| g.name().map(of_name) == *n), "graph({n:?}) carries another name");
        match &r {
            None => {
                ck!(d.has_default_graph() == content.is_some(), "has_default_graph");
                ck!(d.default_graph().map(|g| sorted(of_graph(g))) == content, "default_graph");
            }
            Some(r) => {
                ck!(d.has_graph_named(r) == content.is_some(), "has_graph_named({n:?})");
                ck!(d.graph_named(r).map(|g| sorted(of_graph(g))) == content, "graph_named({n:?})");
            }
        }
        if let Some(content) = content {
            want.push((n.clone(), content));
        }
    }
    want.sort();
    ck!(listed == want, "graphs() lists {listed:?}, expected {want:?}");
    ck!(!d.contains_graph(&Some(real_name(&iri(P)))), "contains a graph that was never inserted");
    ck!(d.graph(&Some(real_name(&blank("zz")))).is_none(), "yields a graph that was never inserted");
    Ok(())
}

pub fn d04(c: &Check) {
    let nn = 5;
    let names = dnames(nn);
    let mut ops = Vec::new();
    for n in 0..nn {
        for k in 0..3u8 {
            ops.push(DOp::Insert(n, k));
        }
        ops.push(DOp::Remove(n));
        ops.push(DOp::Grow(n));
        ops.push(DOp::Extend(vec![(n, 1), ((n + 1) % nn, 2), (n, 2)]));
    }
    ops.push(DOp::Extend(vec![]));
    ops.push(DOp::Clear);
    let ex = bfs(vec![vec![None; nn]], &ops, dstep, 1000, 1 << 20);
    c.add_states(ex.states.len() as u64);
    c.add_transitions(ex.edges.len() as u64);
    c.extra("fixpoint", json!(ex.complete));
    par_each(&ex.edges, |(i, o, j)| {
        let trace = ex.trace(*i);
        run1(c, &format!("{trace:?} then {o:?}"), || {
            let mut d = DataSet::default();
            for a in &trace {
                dapply(&names, &mut d, a)?;
            }
            dagrees(&names, &ex.states[*i], &d)?;
            let before = d.clone();
            dapply(&names, &mut d, o)?;
            dagrees(&names, &ex.states[*j], &d)?;
            dagrees(&names, &ex.states[*i], &before).map_err(|e| format!("clone changed: {e}"))
        });
        c.add_traces(1);
    });
    let depth = c.bound(4, 5);
    let n = words(ops.len(), depth, |w| {
        let r = catch(|| {
            let mut d = DataSet::default();
            let mut m = vec![None; nn];
            for i in w {
                match dstep(&m, &ops[*i]) {
                    Some(x) => m = x,
                    None => return Ok(()),
                }
                dapply(&names, &mut d, &ops[*i])?;
            }
            dagrees(&names, &m, &d)
        });
        if !matches!(r, Ok(Ok(()))) {
            let key = format!("{:?}", w.iter().map(|i| &ops[*i]).collect::<Vec<_>>());
            c.fail(key.clone(), format!("{r:?}"), json!({"history": key}));
        }
    });
    c.add_traces(n);
    c.add_transitions(n);
    // constructors: every list of <=4 graphs over the names
    let items = lists(nn * 2, c.bound(3, 4));
    par_each(&items, |v| {
        run1(c, &format!("collected from {v:?}"), || {
            let gs = || v.iter().map(|x| dgraph(&names[x / 2], 1 + (x % 2) as u8)).collect::<Vec<_>>();
            let mut m = vec![None; nn];
            v.iter().for_each(|x| m[x / 2] = Some(1 + (x % 2) as u8));
            dagrees(&names, &m, &DataSet::from(gs()))?;
            dagrees(&names, &m, &gs().into_iter().collect::<DataSet>())?;
            let map: HashMap<Option<GraphName>, Graph> = gs().into_iter().map(|g| (g.name().cloned(), g)).collect();
            dagrees(&names, &m, &DataSet::from(map))?;
            if v.len() == 1 {
                dagrees(&names, &m, &DataSet::from(gs().remove(0)))?;
            }
            Ok(())
        });
        c.add_traces(1);
    });
    c.sample(json!({"operations": ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>()}));
    c.assume("a graph held by a data set is not renamed in place (graph_mut().set_name), which would detach it from its key");
}

// ------------------------------------------------------------------------------------------------
// D11, D12
// ------------------------------------------------------------------------------------------------

/// Triples with every combination of nesting in subject and object, down to two levels.
fn nested_universe(full: bool) -> Vec<Triple> {
    let l0 = vec![iri(A), blank("n"), plain("x"), lang("y", "en"), typed("1", &xsd("int")), blank("m")];
    let atoms: Vec<T> = if full { l0.clone() } else { l0[..4].to_vec() };
    let l1 = nested_terms(&[iri(A), blank("n"), plain("x")], 1);
    // two-level terms: one level over a selection of level-1 terms
    let pick: Vec<T> = vec![
        blank("n"),
        plain("x"),
        T::Coll(vec![]),
        T::Coll(vec![blank("n"), blank("n")]),
        quote(tr(blank("n"), P, blank("m"))),
        quote(tr(iri(A), P, T::Coll(vec![plain("x"), blank("m")]))),
    ];
    let l2 = nested_terms(&pick, 1);
    let mut terms: Vec<T> = atoms;
    for t in l1.into_iter().chain(l2) {
        if !terms.contains(&t) {
            terms.push(t);
        }
    }
    let subjects: Vec<T> = terms.iter().filter(|t| is_subject(t)).cloned().collect();
    let mut out = Vec::new();
    for s in &subjects {
        for o in &terms {
            out.push(tr(s.clone(), Q, o.clone()));
        }
    }
    out
}

fn nested(t: &T) -> bool {
    matches!(t, T::Coll(_) | T::Quote(_))
}

/// The names that graphs are given in turn.
fn name_of(k: usize) -> Option<T> {
    [None, Some(iri(B)), Some(blank("g")), Some(blank("n")), Some(iri(A))][k % 5].clone()
}

/// The simplified graph against the standard forms, where a top-level predicate is one that those forms use.
fn simplify_iso(ts: &[Triple], name: usize) -> Result<(), String> {
    let mut g = real_graph(ts).with_mappings(some_mappings());
    if let Some(n) = name_of(name) {
        g.set_name(real_name(&n));
    }
    let s = g.simplify().map_err(|e| format!("error {e}"))?;
    ck!(sorted(of_graph(&g)) == sorted(ts.to_vec()), "the original graph changed");
    ck!(s.prefix_mappings() == &some_mappings(), "prefix mappings lost");
    ck!(s.name().map(of_name) == name_of(name), "name is {:?}", s.name().map(of_name));
    let dedup = |v: Vec<Triple>| v.into_iter().collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>();
    let (got, want) = (dedup(of_graph(&s)), dedup(flatten(ts)));
    ck!(isomorphic(&got, &want), "simplified to {got:?}, expected {want:?}");
    Ok(())
}

fn simplify_ok(ts: &[Triple], name: usize) -> Result<(), String> {
    let mut g = real_graph(ts).with_mappings(some_mappings());
    if let Some(n) = name_of(name) {
        g.set_name(real_name(&n));
    }
    let s = g.simplify().map_err(|e| format!("error {e}"))?;
    ck!(sorted(of_graph(&g)) == sorted(ts.to_vec()), "the original graph changed");
    ck!(s.prefix_mappings() == &some_mappings(), "prefix mappings lost");
    ck!(s.name().map(of_name) == name_of(name), "name is {:?}", s.name().map(of_name));
    let flat = of_graph(&s);
    for t in &flat {
        ck!(!nested(&t.0) && !nested(&t.2), "still nested: {t:?}");
    }
    let old = blanks(ts);
    let fresh = |b: &str| !old.contains(b);
    let mut used: BTreeMap<Triple, usize> = BTreeMap::new();
    let mut back = Vec::new();
    // the top-level triples are those whose subject is not a fresh node's own description
    let mut roots: Vec<&Triple> = flat.iter().filter(|t| t.1 == Q).collect();
    roots.sort();
    for t in &roots {
        *used.entry((*t).clone()).or_insert(0) += 1;
        let s = unreify(&t.0, &flat, &fresh, &mut used)?;
        let o = unreify(&t.2, &flat, &fresh, &mut used)?;
        back.push((s, t.1.clone(), o));
    }
    ck!(sorted(back.clone()) == sorted(ts.to_vec()), "the flattened graph stands for {back:?}");
    let mut count: BTreeMap<Triple, usize> = BTreeMap::new();
    flat.iter().for_each(|t| *count.entry(t.clone()).or_insert(0) += 1);
    for (t, n) in &count {
        ck!(used.contains_key(t), "unexplained statement {t:?}");
        ck!(*n <= used[t], "statement {t:?} occurs {n} times");
    }
    Ok(())
}

pub fn d11(c: &Check) {
    let mut places: Vec<Triple> = special().iter().flat_map(|x| placed(x)).collect();
    for l in LANGS {
        places.extend([tr(iri(A), P, lang("x", l)), tr(quote(tr(iri(A), P, lang("x", l))), P, T::Coll(vec![lang("y", l)]))]);
    }
    par_each(&places, |t| {
        for k in 0..5 {
            run1(c, &format!("simplify {t:?} name {:?}", name_of(k)), || simplify_iso(std::slice::from_ref(t), k));
        }
        run1(c, &format!("simplify {t:?} and others"), || simplify_iso(&[tr(iri(A), Q, blank("n")), t.clone(), t.clone(), tr(quote(t.clone()), Q, T::Coll(vec![plain("z")]))], 2));
        c.add_states(6);
        c.add_transitions(6);
        c.add_traces(6);
    });
    let all = nested_universe(true);
    par_each(&all, |t| {
        run1(c, &format!("simplify {t:?}"), || simplify_ok(std::slice::from_ref(t), 0));
        c.add_states(1);
        c.add_transitions(1);
        c.add_traces(1);
    });
    // pairs (with repetition) of a selection
    let sel: Vec<Triple> = {
        let terms = nested_terms(&[iri(A), blank("n")], 1);
        let mut v = Vec::new();
        for s in terms.iter().filter(|t| is_subject(t)) {
            for o in &terms {
                v.push(tr(s.clone(), Q, o.clone()));
            }
        }
        v
    };
    let idx: Vec<usize> = (0..sel.len()).collect();
    par_each(&idx, |i| {
        for j in *i..sel.len() {
            run1(c, &format!("simplify {:?} and {:?}", sel[*i], sel[j]), || simplify_ok(&[sel[*i].clone(), sel[j].clone()], j));
            c.add_states(1);
            c.add_transitions(1);
            c.add_traces(1);
        }
    });
    // long collections and deep nesting
    let depths: Vec<usize> = c.bound((0..40).collect(), (0..200).collect());
    par_each(&depths, |k| {
        run1(c, &format!("collection of {k}"), || {
            let v: Vec<T> = (0..*k).map(|i| typed(&(i / 2).to_string(), &xsd("int"))).collect();
            simplify_ok(&[tr(iri(A), Q, T::Coll(v))], *k)
        });
        let k = *k / 4;
        run1(c, &format!("nesting {k}"), || {
            let mut t = tr(iri(A), P, plain("x"));
            let mut l = blank("n");
            for i in 0..k {
                t = if i % 2 == 0 { tr(quote(t), P, iri(A)) } else { tr(blank("n"), P, quote(t)) };
                l = T::Coll(vec![l]);
            }
            simplify_ok(&[tr(quote(t), Q, l)], k)
        });
        c.add_traces(2);
    });
    c.sample(json!({"triple": format!("{:?}", all[all.len() / 2])}));
    c.assume("generated blank node labels do not collide with the labels of the input (see D09)");
}

const BASES: &[&str] = &["http://example.com", "https://u:p@h:81/p/me?q#f", "file:///x", "http://example.com/.well-known/genid/"];

fn skolem_ok(ts: &[Triple], unique: bool, base: &str) -> Result<BTreeSet<String>, String> {
    skolem_named(ts, unique, base, 1)
}
fn skolem_named(ts: &[Triple], unique: bool, base: &str, name: usize) -> Result<BTreeSet<String>, String> {
    let mut g = if unique { Graph::unique() } else { Graph::default() };
    g.extend(ts.iter().map(real_stmt));
    g.set_prefix_mappings(some_mappings());
    if let Some(n) = name_of(name) {
        g.set_name(real_name(&n));
    }
    let b = real_iri(base);
    let s = g.skolemize(&b).map_err(|e| format!("error {e}"))?;
    let before = of_graph(&g);
    ck!(s.prefix_mappings() == &some_mappings(), "prefix mappings lost");
    ck!(s.name().map(of_name) == name_of(name), "name is {:?}", s.name().map(of_name));
    let got = of_graph(&s);
    ck!(blanks(&got).is_empty(), "blank nodes {:?} left", blanks(&got));
    ck!(got.len() == before.len(), "{} statements of {}", got.len(), before.len());
    // learn the mapping by walking both in parallel (unique graphs list in arbitrary but stable order)
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    fn walk(a: &T, b: &T, map: &mut BTreeMap<String, String>) -> Result<(), String> {
        match (a, b) {
            (T::Blank(n), T::Iri(i)) => match map.get(n) {
                Some(j) if j != i => Err(format!("_:{n} became both {i} and {j}")),
                _ => {
                    map.insert(n.clone(), i.clone());
                    Ok(())
                }
            },
            (T::Coll(x), T::Coll(y)) if x.len() == y.len() => x.iter().zip(y).try_for_each(|(x, y)| walk(x, y, map)),
            (T::Quote(x), T::Quote(y)) => {
                walk(&x.0, &y.0, map)?;
                if x.1 != y.1 {
                    return Err("predicate changed".into());
                }
                walk(&x.2, &y.2, map)
            }
            (x, y) if x == y => Ok(()),
            (x, y) => Err(format!("{x:?} became {y:?}")),
        }
    }
    for (a, b) in before.iter().zip(&got) {
        ck!(a.1 == b.1, "predicate changed");
        walk(&a.0, &b.0, &mut map)?;
        walk(&a.2, &b.2, &mut map)?;
    }
    let known = blanks(&before);
    ck!(map.len() == known.len(), "{} of {} blank nodes mapped", map.len(), known.len());
    let images: BTreeSet<String> = map.values().cloned().collect();
    ck!(images.len() == map.len(), "two blank nodes became the same IRI: {map:?}");
    let bu = url_parts(base);
    for i in &images {
        let rest = i.strip_prefix(&format!("{bu}/.well-known/genid/")).ok_or(format!("{i} is not a genid under {bu}"))?;
        ck!(!rest.is_empty() && !rest.contains(['/', '?', '#']), "{i} is not a genid of {bu}");
    }
    ck!(sorted(of_graph(&g)) == sorted(before), "the original graph changed");
    Ok(images)
}

/// scheme and authority of the bases used
fn url_parts(base: &str) -> String {
    let after = base.find("://").unwrap() + 3;
    let end = base[after..].find(['/', '?', '#']).map_or(base.len(), |i| i + after);
    base[..end].to_string()
}

pub fn d12(c: &Check) {
    let all = nested_universe(true);
    par_each(&all, |t| {
        run1(c, &format!("skolemize {t:?}"), || {
            let a = skolem_ok(std::slice::from_ref(t), false, BASES[0])?;
            let b = skolem_ok(std::slice::from_ref(t), true, BASES[1])?;
            ck!(a.is_disjoint(&b), "the same IRI was generated twice");
            Ok(())
        });
        c.add_states(1);
        c.add_transitions(2);
        c.add_traces(2);
    });
    let places: Vec<Triple> = special().iter().flat_map(|x| placed(x)).collect();
    par_each(&places, |t| {
        for k in 0..5 {
            run1(c, &format!("skolemize {t:?} name {:?}", name_of(k)), || {
                let ts = [t.clone(), tr(quote(t.clone()), Q, T::Coll(vec![blank("n"), blank("m")])), t.clone()];
                skolem_named(&ts, k == 3, BASES[k % 4], k).map(|_| ())
            });
        }
        c.add_states(5);
        c.add_transitions(5);
        c.add_traces(5);
    });
    let atoms = vec![iri(A), blank("n"), blank("m")];
    let sel: Vec<Triple> = {
        let terms = nested_terms(&atoms, 1);
        let mut v = Vec::new();
        for s in terms.iter().filter(|t| is_subject(t)) {
            for o in &terms {
                v.push(tr(s.clone(), Q, o.clone()));
            }
        }
        v
    };
    let idx: Vec<usize> = (0..sel.len()).collect();
    par_each(&idx, |i| {
        for j in *i..sel.len() {
            for unique in [false, true] {
                let ts = [sel[*i].clone(), sel[j].clone()];
                run1(c, &format!("skolemize {ts:?} unique={unique}"), || skolem_ok(&ts, unique, BASES[2 + unique as usize]).map(|_| ()));
            }
            c.add_states(1);
            c.add_transitions(2);
            c.add_traces(2);
        }
    });
    // labels that are easily mixed up: every pair of them, in every pair of places
    par_each(&LABELS, |x| {
        for y in LABELS {
            let at = |l: &str| [tr(blank(l), Q, iri(A)), tr(iri(A), Q, blank(l)), tr(iri(A), Q, T::Coll(vec![iri(A), blank(l)])), tr(iri(A), Q, quote(tr(blank(l), Q, iri(A)))), tr(quote(tr(iri(A), Q, blank(l))), Q, iri(A))];
            for s in at(x) {
                for t in at(y) {
                    let ts = [s.clone(), t.clone()];
                    run1(c, &format!("skolemize {ts:?}"), || skolem_ok(&ts, false, BASES[0]).map(|_| ()));
                    c.add_transitions(1);
                }
            }
            c.add_states(1);
        }
    });
    // generated identifiers never repeat, many blank nodes in one graph
    let n = c.bound(2000, 20000);
    run1(c, "many blank nodes", || {
        let ts: Vec<Triple> = (0..n).map(|i| tr(blank(&format!("n{i}")), P, blank(&format!("n{}", i / 2)))).collect();
        let im = skolem_ok(&ts, false, BASES[0])?;
        ck!(im.len() == n, "{} IRIs for {n} blank nodes", im.len());
        Ok(())
    });
    c.sample(json!({"triple": format!("{:?}", all[all.len() / 3])}));
    c.assume("the generated identifiers are version 4 UUIDs; their randomness is not enumerated, only their distinctness in the explored runs");
}

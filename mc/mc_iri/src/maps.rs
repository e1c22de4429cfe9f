//! C07 bijective map state machine, C08 history independence, C09 expand/compress.

use crate::domain::*;
use crate::iris::run1;
use crate::reference as r;
use mclib::*;
use rdftk_iri::{Iri, IriPrefixMap, IriRef, LocalName, Name, Namespace, PrefixedName, Vocabulary};
use serde_json::json;
use std::collections::BTreeMap;
use std::str::FromStr;

macro_rules! ck {
    ($cond:expr, $($what:tt)*) => {
        if !($cond) {
            return Err(format!($($what)*));
        }
    };
}

/// The reference: a partial bijection as a sorted list of (prefix, iri) index pairs.
type M = Vec<(u8, u8)>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Insert(u8, u8),
    With(u8, u8),
    Vocab(u8),
    WithVocab(u8),
    SetDefault(u8),
    WithDefault(u8),
    Remove(u8),
    RemoveDefault,
    Clear,
    CloneSwap,
}

pub struct Dom {
    pub prefixes: Vec<&'static str>,
    pub iris: Vec<&'static str>,
    /// vocabularies as (prefix index, iri index)
    pub vocabs: Vec<(u8, u8, Vocabulary)>,
}

impl Dom {
    fn new(prefixes: Vec<&'static str>, iris: Vec<&'static str>) -> Self {
        let vocabs = (0..prefixes.len().min(iris.len()))
            .filter(|i| !prefixes[*i].is_empty())
            .map(|i| (i as u8, i as u8, Vocabulary::new(prefixes[i], iris[i])))
            .collect();
        Self { prefixes, iris, vocabs }
    }
    fn ns(&self, p: u8) -> Namespace {
        Namespace::new_unchecked(self.prefixes[p as usize])
    }
    fn iri(&self, i: u8) -> Iri {
        Iri::from_str(self.iris[i as usize]).unwrap()
    }
    fn ops(&self) -> Vec<Op> {
        let mut v = Vec::new();
        for p in 0..self.prefixes.len() as u8 {
            for i in 0..self.iris.len() as u8 {
                v.push(Op::Insert(p, i));
                v.push(Op::With(p, i));
            }
            v.push(Op::Remove(p));
        }
        for i in 0..self.iris.len() as u8 {
            v.push(Op::SetDefault(i));
            v.push(Op::WithDefault(i));
        }
        for k in 0..self.vocabs.len() as u8 {
            v.push(Op::Vocab(k));
            v.push(Op::WithVocab(k));
        }
        v.extend([Op::RemoveDefault, Op::Clear, Op::CloneSwap]);
        v
    }
    fn default_prefix(&self) -> Option<u8> {
        self.prefixes.iter().position(|p| p.is_empty()).map(|p| p as u8)
    }
}

fn put(m: &M, p: u8, i: u8) -> M {
    let mut n: M = m.iter().copied().filter(|(a, b)| *a != p && *b != i).collect();
    n.push((p, i));
    n.sort();
    n
}

fn next(d: &Dom, m: &M, o: &Op) -> Option<M> {
    Some(match o {
        Op::Insert(p, i) | Op::With(p, i) => put(m, *p, *i),
        Op::Vocab(k) | Op::WithVocab(k) => put(m, d.vocabs[*k as usize].0, d.vocabs[*k as usize].1),
        Op::SetDefault(i) | Op::WithDefault(i) => put(m, d.default_prefix()?, *i),
        Op::Remove(p) => m.iter().copied().filter(|(a, _)| a != p).collect(),
        Op::RemoveDefault => {
            let p = d.default_prefix()?;
            m.iter().copied().filter(|(a, _)| *a != p).collect()
        }
        Op::Clear => vec![],
        Op::CloneSwap => m.clone(),
    })
}

fn apply(d: &Dom, mut m: IriPrefixMap, o: &Op) -> IriPrefixMap {
    match o {
        Op::Insert(p, i) => {
            m.insert(d.ns(*p), d.iri(*i));
            m
        }
        Op::With(p, i) => m.with(d.ns(*p), d.iri(*i)),
        Op::Vocab(k) => {
            m.insert_vocabulary(&d.vocabs[*k as usize].2);
            m
        }
        Op::WithVocab(k) => m.with_vocabulary(&d.vocabs[*k as usize].2),
        Op::SetDefault(i) => {
            m.set_default_namespace(d.iri(*i));
            m
        }
        Op::WithDefault(i) => m.with_default(d.iri(*i)),
        Op::Remove(p) => {
            m.remove(&d.ns(*p));
            m
        }
        Op::RemoveDefault => {
            m.remove_default_namespace();
            m
        }
        Op::Clear => {
            m.clear();
            m
        }
        Op::CloneSwap => m.clone(),
    }
}

/// Everything observable about a map must equal the reference.
fn observe(d: &Dom, m: &IriPrefixMap, want: &M) -> Result<(), String> {
    ck!(m.len() == want.len(), "length {} expected {}", m.len(), want.len());
    ck!(m.is_empty() == want.is_empty(), "emptiness");
    let fwd: BTreeMap<u8, u8> = want.iter().copied().collect();
    let back: BTreeMap<u8, u8> = want.iter().map(|(a, b)| (*b, *a)).collect();
    for p in 0..d.prefixes.len() as u8 {
        let g = m.get_namespace(&d.ns(p)).cloned();
        let w = fwd.get(&p).map(|i| d.iri(*i));
        ck!(g == w, "prefix {:?} -> {g:?}, expected {w:?}", d.prefixes[p as usize]);
    }
    for i in 0..d.iris.len() as u8 {
        let g = m.get_prefix(&d.iri(i)).cloned();
        let w = back.get(&i).map(|p| d.ns(*p));
        ck!(g == w, "iri {:?} -> {g:?}, expected {w:?}", d.iris[i as usize]);
    }
    let g = m.get_default_namespace().cloned();
    let w = d.default_prefix().and_then(|p| fwd.get(&p).map(|i| d.iri(*i)));
    ck!(g == w, "default namespace {g:?}, expected {w:?}");
    let mut ms: Vec<(String, String)> = m.mappings().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let mut ps: Vec<String> = m.prefixes().map(|a| a.to_string()).collect();
    let mut is: Vec<String> = m.iris().map(|a| a.to_string()).collect();
    let mut wm: Vec<(String, String)> = want.iter().map(|(p, i)| (d.ns(*p).to_string(), d.iri(*i).to_string())).collect();
    wm.sort();
    ms.sort();
    ck!(ms == wm, "mappings {ms:?}, expected {wm:?}");
    let wp: Vec<String> = wm.iter().map(|x| x.0.clone()).collect();
    let mut wi: Vec<String> = wm.iter().map(|x| x.1.clone()).collect();
    ps.sort();
    is.sort();
    wi.sort();
    ck!(ps == wp, "prefixes {ps:?}, expected {wp:?}");
    ck!(is == wi, "iris {is:?}, expected {wi:?}");
    let text = m.to_string();
    for (p, i) in &wm {
        ck!(text.lines().any(|l| l.contains(p.as_str()) && l.contains(i.as_str())), "display lacks {p} {i}: {text}");
    }
    ck!(text.lines().filter(|l| l.contains('<')).count() == wm.len(), "display has other lines: {text}");
    Ok(())
}

fn big(c: &Check) -> Dom {
    let mut p = vec!["", "a", "ab", "rdf", "A", "\u{E9}"];
    let mut i = vec!["http://h/", "http://h/ns#", "urn:x:", "http://h/ns", "http://www.w3.org/1999/02/22-rdf-syntax-ns#", "http://h/ns/"];
    if !c.thorough() {
        p.truncate(5);
        i.truncate(5);
    }
    Dom::new(p, i)
}

pub fn c07(c: &Check) {
    // 1. the whole reachable state space of the map over a finite domain
    let d = big(c);
    let ops = d.ops();
    let ex = bfs(vec![vec![]], &ops, |m, o| next(&d, m, o), usize::MAX, 10_000_000);
    c.add_states(ex.states.len() as u64);
    c.add_transitions(ex.edges.len() as u64);
    c.extra("fixpoint_reached", json!(ex.complete));
    let mut out: Vec<Vec<(Op, usize)>> = vec![vec![]; ex.states.len()];
    for (i, a, j) in &ex.edges {
        out[*i].push((*a, *j));
    }
    let idx: Vec<usize> = (0..ex.states.len()).collect();
    par_each(&idx, |i| {
        let trace = ex.trace(*i);
        let key = format!("{trace:?}");
        run1(c, &key, || {
            let mut m = IriPrefixMap::empty();
            for o in &trace {
                m = apply(&d, m, o);
            }
            observe(&d, &m, &ex.states[*i])?;
            for (o, j) in &out[*i] {
                let n = apply(&d, m.clone(), o);
                observe(&d, &n, &ex.states[*j]).map_err(|e| format!("after {o:?}: {e}"))?;
                ck!((n == m) == (ex.states[*i] == ex.states[*j]), "{o:?}: equality of maps");
                observe(&d, &m, &ex.states[*i]).map_err(|e| format!("{o:?} on a clone changed the original: {e}"))?;
                c.add_traces(1);
            }
            Ok(())
        });
    });
    // 2. every operation sequence (no merging of states: catches dependence on history)
    let d2 = Dom::new(vec!["", "a", "b"], vec!["http://h/", "http://h/ns#", "urn:x:"]);
    let ops2: Vec<Op> = d2.ops().into_iter().filter(|o| !matches!(o, Op::With(..) | Op::WithVocab(_) | Op::WithDefault(_) | Op::CloneSwap)).collect();
    let depth = c.bound(5, 6);
    let n = words(ops2.len(), depth, |w| {
        if w.len() < depth.min(3) {
            return; // observed as prefixes of longer words below
        }
        let key = || w.iter().map(|k| format!("{:?}", ops2[*k])).collect::<Vec<_>>().join(",");
        if c.saturated() {
            return;
        }
        let res = catch(|| {
            let mut m = IriPrefixMap::empty();
            let mut s: M = vec![];
            for k in w {
                m = apply(&d2, m, &ops2[*k]);
                s = next(&d2, &s, &ops2[*k]).unwrap();
            }
            observe(&d2, &m, &s)
        });
        c.add_traces(1);
        match res {
            Ok(Ok(())) => {}
            Ok(Err(m)) | Err(m) => c.fail(key(), m.clone(), json!({"ops": key(), "what": m})),
        }
    });
    c.add_transitions(n - 1);
    c.extra("unmerged_sequences", json!({"operations": ops2.len(), "depth": depth, "sequences": n}));
    // 3. growth: many distinct mappings, in several orders, then removed again
    let sizes = if c.thorough() { vec![1usize, 2, 7, 8, 11, 12, 13, 16, 17, 32, 33, 64, 100, 144, 300, 1000] } else { vec![1, 2, 7, 8, 11, 12, 13, 16, 17, 33, 64, 100] };
    for k in sizes {
        for order in 0..3 {
            run1(c, &format!("grow {k} order {order}"), || grow(k, order));
        }
    }
    // 4. every pair of real-world vocabularies, clashing on prefix or IRI
    let vs = crate::vocabs::table();
    for (_, a, _) in &vs {
        for (_, b, _) in &vs {
            run1(c, &format!("{} then {}", a.prefix(), b.prefix()), || {
                let m = IriPrefixMap::empty().with_vocabulary(a).with_vocabulary(b);
                let same = a.prefix() == b.prefix();
                ck!(m.len() == if same { 1 } else { 2 }, "length {}", m.len());
                for v in [a, b] {
                    ck!(m.get_namespace(&v.prefix_as_namespace()) == Some(&v.iri_as_iri()), "{} lost", v.prefix());
                    ck!(m.get_prefix(&v.iri_as_iri()) == Some(&v.prefix_as_namespace()), "{} lost", v.iri());
                }
                // rebind a's prefix to b's IRI: exactly one mapping stays
                let m2 = m.clone().with(a.prefix_as_namespace(), b.iri_as_iri());
                ck!(m2.len() == 1 && m2.get_prefix(&b.iri_as_iri()) == Some(&a.prefix_as_namespace()), "rebinding: {m2}");
                ck!(same || m2.get_namespace(&b.prefix_as_namespace()).is_none(), "stale prefix: {m2}");
                ck!(same || m2.get_prefix(&a.iri_as_iri()).is_none(), "stale iri: {m2}");
                Ok(())
            });
            c.add_transitions(1);
        }
    }
    c.sample(json!({"trace": format!("{:?}", ex.trace(ex.states.len() - 1)), "state": ex.states[ex.states.len() - 1]}));
    c.sample(json!({"trace": format!("{:?}", [Op::Insert(1, 1), Op::Insert(2, 1)]), "state": next(&d2, &next(&d2, &vec![], &Op::Insert(1, 1)).unwrap(), &Op::Insert(2, 1))}));
}

fn grow(k: usize, order: usize) -> Result<(), String> {
    let ns = |i: usize| Namespace::new_unchecked(format!("p{i}"));
    let iri = |i: usize| Iri::from_str(&format!("http://h/{i}/")).unwrap();
    let seq: Vec<usize> = match order {
        0 => (0..k).collect(),
        1 => (0..k).rev().collect(),
        _ => (0..k).map(|i| (i * 7919 + 3) % k).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>().into_iter().rev().step_by(2).chain((0..k).step_by(1)).collect(),
    };
    let mut m = IriPrefixMap::empty();
    let mut have = BTreeMap::new();
    for i in &seq {
        m.insert(ns(*i), iri(*i));
        have.insert(*i, *i);
        ck!(m.len() == have.len(), "length {} after {} insertions", m.len(), have.len());
    }
    for i in 0..k {
        ck!(m.get_namespace(&ns(i)) == Some(&iri(i)), "p{i} lost at size {k}");
        ck!(m.get_prefix(&iri(i)) == Some(&ns(i)), "iri {i} lost at size {k}");
    }
    ck!(m.mappings().count() == k && m.prefixes().count() == k && m.iris().count() == k, "iteration");
    // rotate every IRI by one
    for i in 0..k {
        m.insert(ns(i), iri((i + 1) % k));
        have.retain(|_, v| *v != (i + 1) % k);
        have.insert(i, (i + 1) % k);
        ck!(m.len() == have.len(), "length {} expected {} while rotating {i}", m.len(), have.len());
    }
    for i in 0..k {
        ck!(m.get_namespace(&ns(i)) == have.get(&i).map(|j| iri(*j)).as_ref(), "p{i} after rotation");
    }
    for i in (0..k).rev() {
        m.remove(&ns(i));
        have.remove(&i);
        ck!(m.len() == have.len() && m.get_namespace(&ns(i)).is_none(), "removal of p{i}");
    }
    ck!(m.is_empty() && m == IriPrefixMap::empty(), "not empty at the end");
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// C08
// ------------------------------------------------------------------------------------------------

fn listing(m: &IriPrefixMap) -> (String, String, String, Vec<String>, Vec<String>) {
    (
        m.to_string(),
        serde_json::to_string(m).unwrap(),
        m.mappings().map(|(a, b)| format!("{a}{b}")).collect::<Vec<_>>().join("|"),
        m.prefixes().map(|a| a.to_string()).collect(),
        m.iris().map(|a| a.to_string()).collect(),
    )
}

pub fn c08(c: &Check) {
    // Every operation sequence up to a depth: all sequences reaching the same contents must yield
    // maps that are equal and list identically.
    let d = Dom::new(vec!["", "b", "a"], vec!["http://h/", "urn:x:", "http://a/ns#"]);
    let ops: Vec<Op> = d.ops().into_iter().filter(|o| !matches!(o, Op::With(..) | Op::WithVocab(_) | Op::WithDefault(_))).collect();
    let depth = c.bound(5, 6);
    // canonical representative of each content, by direct construction in index order
    let ex = bfs(vec![vec![]], &ops, |m, o| next(&d, m, o), usize::MAX, 1 << 20);
    let mut canon: BTreeMap<M, (IriPrefixMap, (String, String, String, Vec<String>, Vec<String>))> = BTreeMap::new();
    for s in &ex.states {
        let mut m = IriPrefixMap::empty();
        for (p, i) in s {
            m.insert(d.ns(*p), d.iri(*i));
        }
        let l = listing(&m);
        canon.insert(s.clone(), (m, l));
    }
    c.add_states(ex.states.len() as u64);
    // distinct contents list differently
    let texts: std::collections::BTreeSet<&String> = canon.values().map(|v| &v.1 .2).collect();
    c.expect(texts.len() == canon.len(), || "listing".into(), || "two different contents list the same".into());
    let printed: std::collections::BTreeSet<String> = canon.values().map(|v| v.0.to_string()).collect();
    c.expect(printed.len() == canon.len(), || "printed form".into(), || "two different contents print the same text".into());
    for (s, (m, _)) in &canon {
        let text = m.to_string();
        c.expect(s.iter().all(|(p, i)| text.contains(&d.ns(*p).to_string()) && text.contains(&d.iri(*i).to_string())), || format!("printed form of {s:?}"), || format!("a mapping is missing: {text}"));
    }
    let n = words(ops.len(), depth, |w| {
        if c.saturated() {
            return;
        }
        let key = || w.iter().map(|k| format!("{:?}", ops[*k])).collect::<Vec<_>>().join(",");
        let res = catch(|| {
            let mut m = IriPrefixMap::empty();
            let mut s: M = vec![];
            for k in w {
                m = apply(&d, m, &ops[*k]);
                s = next(&d, &s, &ops[*k]).unwrap();
            }
            let (cm, cl) = &canon[&s];
            ck!(m == *cm && *cm == m, "equal contents compare unequal: {m:?} {cm:?}");
            let l = listing(&m);
            ck!(l == *cl, "equal contents list differently: {l:?} vs {cl:?}");
            Ok(())
        });
        c.add_traces(1);
        match res {
            Ok(Ok(())) => {}
            Ok(Err(m)) | Err(m) => c.fail(key(), m.clone(), json!({"ops": key(), "what": m})),
        }
    });
    c.add_transitions(n - 1);
    // permutations of insertion of larger contents
    let names = ["", "a", "b", "c", "rdf", "xsd", "Z"];
    let k = 7;
    let mut perm: Vec<usize> = (0..k).collect();
    let base = perm_map(&names, &perm);
    let bl = listing(&base);
    let mut count = 0u64;
    loop {
        count += 1;
        run1(c, &format!("insertion order {perm:?}"), || {
            let m = perm_map(&names, &perm);
            ck!(m == base && listing(&m) == bl, "insertion order is observable: {m}");
            Ok(())
        });
        if !next_perm(&mut perm) {
            break;
        }
    }
    c.outcome("insertion orders", count);
    c.outcome("distinct contents", canon.len() as u64);
    // all pairs of contents: equality exactly when contents are equal
    for (a, (ma, _)) in &canon {
        for (b, (mb, _)) in &canon {
            c.expect((ma == mb) == (a == b), || format!("{a:?} == {b:?}"), || "map equality".into());
        }
    }
    c.sample(json!({"history": "Insert(1,1),Insert(2,1),Remove(2)", "same as": "empty"}));
    c.sample(json!(bl.0));
}

fn perm_map(names: &[&'static str], perm: &[usize]) -> IriPrefixMap {
    let mut m = IriPrefixMap::empty();
    for i in perm {
        m.insert(Namespace::new_unchecked(names[*i]), Iri::from_str(&format!("http://h/{}/", (i * 5) % 7)).unwrap());
    }
    m
}

pub fn next_perm(p: &mut [usize]) -> bool {
    let n = p.len();
    let mut i = n.wrapping_sub(1);
    while i > 0 && p[i - 1] >= p[i] {
        i -= 1;
    }
    if i == 0 || n == 0 {
        return false;
    }
    let mut j = n - 1;
    while p[j] <= p[i - 1] {
        j -= 1;
    }
    p.swap(i - 1, j);
    p[i..].reverse();
    true
}

// ------------------------------------------------------------------------------------------------
// C09
// ------------------------------------------------------------------------------------------------

pub fn c09(c: &Check) {
    // namespaces that nest in, extend or abut one another, plus IRIs that are not namespaces
    let nss = vec!["http://h/", "http://h/ns/", "http://h/ns#", "http://h/ns", "urn:x/y/", "http://h/ns/?q#", "http://h/?q"];
    let pfx = vec!["", "a", "ab", "A"];
    let nss = if c.thorough() { nss } else { nss[..6].to_vec() };
    let d = Dom { prefixes: pfx, iris: nss, vocabs: vec![] };
    let ops: Vec<Op> = (0..d.prefixes.len() as u8).flat_map(|p| (0..d.iris.len() as u8).map(move |i| Op::Insert(p, i))).collect();
    let ex = bfs(vec![vec![]], &ops, |m, o| next(&d, m, o), usize::MAX, 10_000_000);
    c.add_states(ex.states.len() as u64);
    c.add_transitions(ex.edges.len() as u64);
    let names: Vec<String> = ["n", "a", "ns", "_", "9", "a.b", "a-", "type", "x_1.0-y", "\u{E9}"].iter().map(|s| s.to_string()).collect();
    // IRIs to compress: everything in or near those namespaces
    let mut iris: Vec<String> = Vec::new();
    for ns in &d.iris {
        for t in ["", "n", "a", "ns", "ns/", "ns#", "ns/n", "ns#n", "n#", "n#n", "n?q", "n?q#n", "1", ".n", "n.", "-n", "%41", "n/n", "#n", "?q#n", "?q"] {
            if let Ok(i) = Iri::from_str(&format!("{ns}{t}")) {
                iris.push(format!("{i:#}"));
            }
        }
    }
    iris.sort();
    iris.dedup();
    c.extra("iris_compressed_in_every_map", json!(iris.len()));
    let parsed: Vec<(String, Iri, Option<(String, String)>)> = iris.iter().map(|t| (t.clone(), Iri::from_str(t).unwrap(), r::split(t))).collect();
    let (hit, miss) = (std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0));
    let idx: Vec<usize> = (0..ex.states.len()).collect();
    par_each(&idx, |k| {
        let st = &ex.states[*k];
        let trace = ex.trace(*k);
        let fwd: BTreeMap<u8, u8> = st.iter().copied().collect();
        let mut m = IriPrefixMap::empty();
        for o in &trace {
            m = apply(&d, m, o);
        }
        let before = m.clone();
        let show = || st.iter().map(|(p, i)| format!("{}:={}", d.prefixes[*p as usize], d.iris[*i as usize])).collect::<Vec<_>>().join(" ");
        let mut denoted: BTreeMap<String, String> = BTreeMap::new();
        for (p, pt) in d.prefixes.iter().enumerate() {
            for n in &names {
                run1(c, &format!("[{}] expand {pt}:{n}", show()), || {
                    let l = LocalName::from_str(&format!("{pt}:{n}")).map_err(|e| e.to_string())?;
                    let got = m.expand(&l).map(|i| format!("{i:#}"));
                    let want = fwd.get(&(p as u8)).and_then(|i| r::join(d.iris[*i as usize], n));
                    ck!(got == want, "{got:?}, expected {want:?}");
                    if let Some(t) = want {
                        if let Some(o) = denoted.insert(t.clone(), l.to_string()) {
                            return Err(format!("{t} is denoted by both {o} and {l}"));
                        }
                        let i = Iri::from_str(&t).unwrap();
                        let back = m.compress(&i);
                        if n.is_ascii() {
                            ck!(back.as_ref() == Some(&l), "{t} compresses to {back:?}, not back to {l}");
                            ck!(m.compress_to_iriref(&i) == IriRef::PrefixedName(PrefixedName::Local(l.clone())), "reference form differs");
                        } else {
                            ck!(back.is_none(), "{t} compresses to {back:?}");
                        }
                    }
                    Ok(())
                });
            }
        }
        for (t, i, sp) in &parsed {
            run1(c, &format!("[{}] compress {t}", show()), || {
                let want = sp.as_ref().and_then(|(ns, n)| {
                    st.iter().find(|(_, j)| d.iris[*j as usize] == ns).map(|(p, _)| format!("{}:{n}", d.prefixes[*p as usize]))
                });
                let got = m.compress(i);
                ck!(got.as_ref().map(|g| g.to_string()) == want, "{got:?}, expected {want:?}");
                let rf = m.compress_to_iriref(i);
                match got {
                    Some(l) => {
                        let back = m.expand(&l);
                        ck!(back.as_ref() == Some(i), "compressed to {l}, which expands to {back:?}");
                        ck!(LocalName::from_str(&l.to_string()).ok().as_ref() == Some(&l), "compressed name {l} does not parse");
                        ck!(rf == IriRef::PrefixedName(PrefixedName::Local(l)), "reference form {rf}");
                        hit.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                    None => {
                        ck!(rf == IriRef::Iri(i.clone()), "reference form {rf}, expected the IRI itself");
                        miss.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                }
                Ok(())
            });
        }
        c.expect(m == before, || format!("[{}]", show()), || "lookup changed the map".into());
    });
    c.outcome("compressed", hit.into_inner());
    c.outcome("left as an IRI", miss.into_inner());
    // the predefined map with every vocabulary and every valid short name
    let mut all = IriPrefixMap::common();
    let vs = crate::vocabs::table();
    for (_, v, _) in &vs {
        all.insert_vocabulary(v);
    }
    let mut ns = names_ascii();
    ns.truncate(c.bound(100_000, 300_000));
    let prefixes: Vec<Namespace> = all.prefixes().cloned().collect();
    par_each(&prefixes, |p| {
        let iri = all.get_namespace(p).unwrap();
        let base = format!("{iri:#}");
        for n in &ns {
            run1(c, &format!("all vocabularies {p}{n}"), || {
                let l = p.qualify(&Name::from_str(n).map_err(|e| e.to_string())?);
                let e = all.expand(&l);
                let w = r::join(&base, n);
                ck!(e.as_ref().map(|i| format!("{i:#}")) == w, "expands to {e:?}, expected {w:?}");
                ck!(all.compress(&e.unwrap()) == Some(l.clone()), "does not compress back");
                Ok(())
            });
            c.add_transitions(1);
        }
    });
    // long names
    for k in [63usize, 64, 65, 127, 128, 255, 256, 257, 1024, 10_000] {
        run1(c, &format!("long {k}"), || {
            let l = LocalName::from_str(&format!("rdf:{}", "n".repeat(k))).map_err(|e| e.to_string())?;
            let e = all.expand(&l).ok_or("not expanded")?;
            ck!(format!("{e:#}").len() == k + 43, "expanded to {e}");
            ck!(all.compress(&e) == Some(l), "not compressed back");
            Ok(())
        });
    }
    c.sample(json!({"map": ex.states[ex.states.len() - 1], "trace": format!("{:?}", ex.trace(ex.states.len() - 1))}));
    c.sample(json!({"iri": iris[iris.len() / 2]}));
    c.assume("for a name with non-ASCII characters the expanded IRI is percent-encoded and is left as an IRI by compression");
}

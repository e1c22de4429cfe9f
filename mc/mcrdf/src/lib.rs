//! An independent model of RDF terms, triples and graphs, its binding to the real types, and graph
//! isomorphism. Nothing here relies on the equality, ordering, hashing or printing of the real types.

use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::literal::{LanguageTag, Literal};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_iri::Iri;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum T {
    Blank(String),
    Iri(String),
    Lit { lex: String, dt: Option<String>, lang: Option<String> },
    Coll(Vec<T>),
    Quote(Box<Triple>),
}

pub type Triple = (T, String, T);

pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

pub fn rdf(n: &str) -> String {
    format!("{RDF}{n}")
}
pub fn xsd(n: &str) -> String {
    format!("{XSD}{n}")
}
pub fn iri(s: &str) -> T {
    T::Iri(s.into())
}
pub fn blank(s: &str) -> T {
    T::Blank(s.into())
}
pub fn plain(s: &str) -> T {
    T::Lit { lex: s.into(), dt: None, lang: None }
}
pub fn typed(s: &str, dt: &str) -> T {
    T::Lit { lex: s.into(), dt: Some(dt.into()), lang: None }
}
pub fn lang(s: &str, l: &str) -> T {
    T::Lit { lex: s.into(), dt: None, lang: Some(l.into()) }
}
pub fn quote(t: Triple) -> T {
    T::Quote(Box::new(t))
}
pub fn tr(s: T, p: &str, o: T) -> Triple {
    (s, p.into(), o)
}

// ------------------------------------------------------------------------------------------------
// model -> real
// ------------------------------------------------------------------------------------------------

pub fn real_iri(s: &str) -> Iri {
    Iri::from_str(s).unwrap_or_else(|e| panic!("model IRI {s:?} rejected: {e}"))
}
pub fn real_blank(s: &str) -> BlankNode {
    BlankNode::from_str(s).unwrap_or_else(|e| panic!("model blank {s:?} rejected: {e}"))
}
pub fn real_lit(t: &T) -> Literal {
    match t {
        T::Lit { lex, dt: None, lang: None } => Literal::plain(lex.clone()),
        T::Lit { lex, dt: None, lang: Some(l) } => Literal::with_language(lex.clone(), LanguageTag::parse(l).unwrap()),
        T::Lit { lex, dt: Some(d), .. } => Literal::with_data_type_iri(lex.clone(), real_iri(d)),
        _ => unreachable!(),
    }
}
pub fn real_subject(t: &T) -> SubjectNode {
    match t {
        T::Blank(b) => real_blank(b).into(),
        T::Iri(i) => real_iri(i).into(),
        T::Quote(q) => real_stmt(q).into(),
        _ => panic!("not a subject: {t:?}"),
    }
}
pub fn real_object(t: &T) -> ObjectNode {
    match t {
        T::Blank(b) => real_blank(b).into(),
        T::Iri(i) => real_iri(i).into(),
        T::Lit { .. } => real_lit(t).into(),
        T::Coll(v) => Collection::from(v.iter().map(real_object).collect::<Vec<_>>()).into(),
        T::Quote(q) => real_stmt(q).into(),
    }
}
pub fn real_stmt(t: &Triple) -> Statement {
    Statement::new(real_subject(&t.0), real_iri(&t.1), real_object(&t.2))
}
pub fn real_graph(ts: &[Triple]) -> Graph {
    Graph::from(ts.iter().map(real_stmt).collect::<Vec<_>>())
}

// ------------------------------------------------------------------------------------------------
// real -> model
// ------------------------------------------------------------------------------------------------

pub fn of_lit(l: &Literal) -> T {
    T::Lit {
        lex: nt_unescape(l.lexical_form()).unwrap_or_else(|e| format!("!bad lexical form {:?}: {e}", l.lexical_form())),
        dt: l.data_type().map(|d| format!("{:#}", d.as_iri())),
        lang: l.language().map(|l| l.to_string()),
    }
}
pub fn of_subject(s: &SubjectNode) -> T {
    match s {
        SubjectNode::Blank(b) => T::Blank(b.as_ref().to_string()),
        SubjectNode::Resource(i) => T::Iri(format!("{i:#}")),
        SubjectNode::Statement(st) => quote(of_stmt(st)),
    }
}
pub fn of_object(o: &ObjectNode) -> T {
    match o {
        ObjectNode::Blank(b) => T::Blank(b.as_ref().to_string()),
        ObjectNode::Resource(i) => T::Iri(format!("{i:#}")),
        ObjectNode::Literal(l) => of_lit(l),
        ObjectNode::Collection(c) => T::Coll(c.iter().map(of_object).collect()),
        ObjectNode::Statement(st) => quote(of_stmt(st)),
    }
}
pub fn of_stmt(s: &Statement) -> Triple {
    (of_subject(s.subject()), format!("{:#}", s.predicate()), of_object(s.object()))
}
pub fn of_graph(g: &Graph) -> Vec<Triple> {
    g.statements().map(of_stmt).collect()
}
pub fn of_name(n: &GraphName) -> T {
    match n {
        GraphName::BNode(b) => T::Blank(b.as_ref().to_string()),
        GraphName::Iri(i) => T::Iri(format!("{i:#}")),
    }
}
pub fn real_name(t: &T) -> GraphName {
    match t {
        T::Blank(b) => GraphName::from(real_blank(b)),
        T::Iri(i) => GraphName::from(real_iri(i)),
        _ => unreachable!(),
    }
}
pub fn sorted(mut v: Vec<Triple>) -> Vec<Triple> {
    v.sort();
    v
}

// ------------------------------------------------------------------------------------------------
// The N-Triples string escape, decoded strictly.
// ------------------------------------------------------------------------------------------------

/// Decode the inside of a STRING_LITERAL_QUOTE; an error if it is not one.
pub fn nt_unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '"' | '\n' | '\r' => return Err(format!("raw {:?} at {i}", cs[i])),
            '\\' => {
                let e = *cs.get(i + 1).ok_or("trailing backslash")?;
                i += 2;
                let n = match e {
                    't' => { out.push('\t'); continue }
                    'b' => { out.push('\u{8}'); continue }
                    'n' => { out.push('\n'); continue }
                    'r' => { out.push('\r'); continue }
                    'f' => { out.push('\u{c}'); continue }
                    '"' => { out.push('"'); continue }
                    '\'' => { out.push('\''); continue }
                    '\\' => { out.push('\\'); continue }
                    'u' => 4,
                    'U' => 8,
                    c => return Err(format!("escape \\{c}")),
                };
                if i + n > cs.len() {
                    return Err("short code point".into());
                }
                let d: String = cs[i..i + n].iter().collect();
                if !d.chars().all(|c| c.is_ascii_hexdigit()) {
                    return Err(format!("code point {d:?}"));
                }
                out.push(u32::from_str_radix(&d, 16).ok().and_then(char::from_u32).ok_or("not a scalar value")?);
                i += n;
            }
            c => {
                out.push(c);
                i += 1;
            }
        }
    }
    Ok(out)
}

// ------------------------------------------------------------------------------------------------
// Isomorphism
// ------------------------------------------------------------------------------------------------

fn blanks_of(t: &T, out: &mut BTreeSet<String>) {
    match t {
        T::Blank(b) => {
            out.insert(b.clone());
        }
        T::Coll(v) => v.iter().for_each(|t| blanks_of(t, out)),
        T::Quote(q) => {
            blanks_of(&q.0, out);
            blanks_of(&q.2, out);
        }
        _ => {}
    }
}
pub fn blanks(ts: &[Triple]) -> BTreeSet<String> {
    let mut b = BTreeSet::new();
    for t in ts {
        blanks_of(&t.0, &mut b);
        blanks_of(&t.2, &mut b);
    }
    b
}
fn ren(t: &T, f: &dyn Fn(&str) -> String) -> T {
    match t {
        T::Blank(b) => T::Blank(f(b)),
        T::Coll(v) => T::Coll(v.iter().map(|t| ren(t, f)).collect()),
        T::Quote(q) => T::Quote(Box::new(ren_triple(q, f))),
        o => o.clone(),
    }
}
pub fn ren_triple(t: &Triple, f: &dyn Fn(&str) -> String) -> Triple {
    (ren(&t.0, f), t.1.clone(), ren(&t.2, f))
}

/// Iteratively refined colours of the blank nodes of a set of triples.
fn colours(ts: &BTreeSet<Triple>) -> BTreeMap<String, u64> {
    use std::hash::{Hash, Hasher};
    let v: Vec<Triple> = ts.iter().cloned().collect();
    let bs = blanks(&v);
    let mut at: BTreeMap<String, Vec<usize>> = bs.iter().map(|b| (b.clone(), vec![])).collect();
    for (i, t) in v.iter().enumerate() {
        let mut has = BTreeSet::new();
        blanks_of(&t.0, &mut has);
        blanks_of(&t.2, &mut has);
        for b in has {
            at.get_mut(&b).unwrap().push(i);
        }
    }
    let mut col: BTreeMap<String, u64> = bs.iter().map(|b| (b.clone(), 0)).collect();
    let mut classes = 0;
    loop {
        let mut next = BTreeMap::new();
        for b in &bs {
            let mut sig: Vec<u64> = Vec::new();
            for t in at[b].iter().map(|i| &v[*i]) {
                let r = ren_triple(t, &|x| if x == b { "*".into() } else { format!("{:x}", col[x]) });
                let mut h = std::collections::hash_map::DefaultHasher::new();
                r.hash(&mut h);
                sig.push(h.finish());
            }
            sig.sort();
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (col[b], sig).hash(&mut h);
            next.insert(b.clone(), h.finish());
        }
        let n = next.values().collect::<BTreeSet<_>>().len();
        col = next;
        if n == classes {
            return col;
        }
        classes = n;
    }
}

/// Are two graphs (as sets of triples) equal up to a bijection of their blank nodes?
pub fn isomorphic(a: &[Triple], b: &[Triple]) -> bool {
    let a: BTreeSet<Triple> = a.iter().cloned().collect();
    let b: BTreeSet<Triple> = b.iter().cloned().collect();
    if a == b {
        return true;
    }
    if a.len() != b.len() {
        return false;
    }
    let (ca, cb) = (colours(&a), colours(&b));
    if ca.len() != cb.len() {
        return false;
    }
    let mut ha: Vec<u64> = ca.values().copied().collect();
    let mut hb: Vec<u64> = cb.values().copied().collect();
    ha.sort();
    hb.sort();
    if ha != hb {
        return false;
    }
    let order: Vec<(&String, u64)> = ca.iter().map(|(k, v)| (k, *v)).collect();
    let mut map = BTreeMap::new();
    let mut used = BTreeSet::new();
    fn go(
        i: usize,
        order: &[(&String, u64)],
        cb: &BTreeMap<String, u64>,
        map: &mut BTreeMap<String, String>,
        used: &mut BTreeSet<String>,
        a: &BTreeSet<Triple>,
        b: &BTreeSet<Triple>,
    ) -> bool {
        if i == order.len() {
            return a.iter().all(|t| b.contains(&ren_triple(t, &|x| map[x].clone())));
        }
        let (n, c) = order[i];
        for (m, d) in cb {
            if *d == c && !used.contains(m) {
                map.insert(n.clone(), m.clone());
                used.insert(m.clone());
                if go(i + 1, order, cb, map, used, a, b) {
                    return true;
                }
                used.remove(m);
                map.remove(n);
            }
        }
        false
    }
    go(0, &order, &cb, &mut map, &mut used, &a, &b)
}

// ------------------------------------------------------------------------------------------------
// Flattening and its inverse
// ------------------------------------------------------------------------------------------------

/// Rebuild the term at `node` from a flat set of triples that reify collections and statements.
/// `used` collects the triples that were consumed.
pub fn unreify(node: &T, ts: &[Triple], fresh: &dyn Fn(&str) -> bool, used: &mut BTreeMap<Triple, usize>) -> Result<T, String> {
    let id = match node {
        T::Blank(b) if fresh(b) => b,
        T::Iri(i) if *i == rdf("nil") => return Ok(T::Coll(vec![])),
        o => return Ok(o.clone()),
    };
    // other statements about the node (it may be the subject of the top-level one) are not part of its description
    let about: Vec<&Triple> = ts.iter().filter(|t| t.0 == *node && t.1.starts_with(RDF)).collect();
    let one = |p: &str| -> Result<&Triple, String> {
        let v: Vec<&&Triple> = about.iter().filter(|t| t.1 == rdf(p)).collect();
        match v.len() {
            1 => Ok(*v[0]),
            n => Err(format!("_:{id} has {n} rdf:{p}")),
        }
    };
    let mut take = |t: &Triple| *used.entry(t.clone()).or_insert(0) += 1;
    let ty = one("type")?;
    take(ty);
    if ty.2 == T::Iri(rdf("Statement")) {
        if about.len() != 4 {
            return Err(format!("statement node _:{id} has {} triples", about.len()));
        }
        let (s, p, o) = (one("subject")?, one("predicate")?, one("object")?);
        for t in [s, p, o] {
            take(t);
        }
        let pred = match &p.2 {
            T::Iri(i) => i.clone(),
            x => return Err(format!("rdf:predicate of _:{id} is {x:?}")),
        };
        let s = unreify(&s.2, ts, fresh, used)?;
        let o = unreify(&o.2, ts, fresh, used)?;
        Ok(quote((s, pred, o)))
    } else if ty.2 == T::Iri(rdf("List")) {
        if about.len() != 3 {
            return Err(format!("list node _:{id} has {} triples", about.len()));
        }
        let (f, r) = (one("first")?, one("rest")?);
        for t in [f, r] {
            take(t);
        }
        let first = unreify(&f.2, ts, fresh, used)?;
        match unreify(&r.2, ts, fresh, used)? {
            T::Coll(mut v) => {
                v.insert(0, first);
                Ok(T::Coll(v))
            }
            x => Err(format!("rest of _:{id} is {x:?}")),
        }
    } else {
        Err(format!("_:{id} has type {:?}", ty.2))
    }
}

/// The standard RDF forms of collections (`rdf:List` cells) and quoted statements (`rdf:Statement` nodes),
/// each occurrence with fresh blank nodes, written down independently of the implementation.
pub fn flatten(ts: &[Triple]) -> Vec<Triple> {
    // distinct in all calls: the graphs of a data set share their blank nodes
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    fn term(t: &T, out: &mut Vec<Triple>) -> T {
        let fresh = || T::Blank(format!("~{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        match t {
            T::Coll(v) => {
                let mut rest = T::Iri(rdf("nil"));
                for x in v.iter().rev() {
                    let cell = fresh();
                    let first = term(x, out);
                    out.push((cell.clone(), rdf("type"), T::Iri(rdf("List"))));
                    out.push((cell.clone(), rdf("first"), first));
                    out.push((cell.clone(), rdf("rest"), rest));
                    rest = cell;
                }
                rest
            }
            T::Quote(q) => {
                let node = fresh();
                let (s, o) = (term(&q.0, out), term(&q.2, out));
                out.push((node.clone(), rdf("type"), T::Iri(rdf("Statement"))));
                out.push((node.clone(), rdf("subject"), s));
                out.push((node.clone(), rdf("predicate"), T::Iri(q.1.clone())));
                out.push((node.clone(), rdf("object"), o));
                node
            }
            t => t.clone(),
        }
    }
    let mut out = Vec::new();
    for t in ts {
        let (s, o) = (term(&t.0, &mut out), term(&t.2, &mut out));
        out.push((s, t.1.clone(), o));
    }
    out
}

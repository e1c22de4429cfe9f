//! C01 grammar, C02 rejection reasons, C03 composition of names.

use crate::domain::*;
use crate::reference as r;
use mclib::*;
use rdftk_iri::error::NameParseError;
use rdftk_iri::{LocalName, Name, Namespace, PrefixedName};
use serde_json::json;
use std::collections::HashSet;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

// ------------------------------------------------------------------------------------------------
// C01
// ------------------------------------------------------------------------------------------------

#[derive(Default)]
struct Tally {
    acc_name: AtomicU64,
    acc_ns: AtomicU64,
    acc_ln: AtomicU64,
    rej: AtomicU64,
}

fn grammar_one(c: &Check, t: &Tally, s: &str) {
    if c.saturated() {
        return;
    }
    let (wn, wp, wl) = (r::is_local(s), r::is_ns(s), r::is_ln(s));
    let res = catch(|| {
        let n = Name::from_str(s);
        let p = Namespace::from_str(s);
        let l = LocalName::from_str(s);
        let mut bad: Option<String> = None;
        if n.is_ok() != wn || Name::is_valid_str(s) != wn {
            bad = Some(format!("as a local name: grammar says {wn}, parsed {}, is-valid {}", n.is_ok(), Name::is_valid_str(s)));
        } else if p.is_ok() != wp || Namespace::is_valid_str(s) != wp {
            bad = Some(format!("as a namespace prefix: grammar says {wp}, parsed {}, is-valid {}", p.is_ok(), Namespace::is_valid_str(s)));
        } else if l.is_ok() != wl {
            bad = Some(format!("as a prefixed local name: grammar says {wl}, parsed {}", l.is_ok()));
        }
        if let Ok(n) = &n {
            if n.as_ref() != s {
                bad = Some(format!("local name parsed to different text {:?}", n.as_ref()));
            }
        }
        if let Ok(p) = &p {
            if p.as_ref() != s {
                bad = Some(format!("namespace parsed to different text {:?}", p.as_ref()));
            }
        }
        if let Ok(l) = &l {
            let (a, b) = s.split_once(':').unwrap_or(("", s));
            if l.namespace().as_ref() != &s[..a.len() + 1] || l.name().as_ref() != b {
                bad = Some(format!("prefixed name parsed into {:?} + {:?}", l.namespace().as_ref(), l.name().as_ref()));
            }
        }
        bad
    });
    match res {
        Ok(None) => {}
        Ok(Some(m)) => c.fail(clip(s), m, json!({"text": clip(s), "len": s.len()})),
        Err(p) => c.fail(clip(s), format!("panic: {p}"), json!({"text": clip(s)})),
    }
    c.add_traces(3);
    let mut any = false;
    if wn {
        t.acc_name.fetch_add(1, Ordering::Relaxed);
        any = true;
    }
    if wp {
        t.acc_ns.fetch_add(1, Ordering::Relaxed);
        any = true;
    }
    if wl {
        t.acc_ln.fetch_add(1, Ordering::Relaxed);
        any = true;
    }
    if !any {
        t.rej.fetch_add(1, Ordering::Relaxed);
    }
}

pub fn clip(s: &str) -> String {
    if s.chars().count() <= 80 {
        format!("{s:?}")
    } else {
        let h: String = s.chars().take(40).collect();
        format!("{h:?}…(len {})", s.len())
    }
}

/// Every text of the bounded space shared by C01 and C02.
fn each_text<F: Fn(&str) + Sync>(c: &Check, f: F) {
    // product-automaton states actually reached (local state × prefix state × colon count)
    let seen: Mutex<HashSet<(r::St, r::St, usize, usize)>> = Mutex::new(HashSet::new());
    let note = |s: &str| {
        let mut a = r::St::Start;
        let mut b = r::St::Start;
        let mut colons = 0usize;
        for ch in s.chars() {
            let k = r::class(ch);
            a = r::step(false, a, k);
            b = r::step(true, b, k);
            if k == r::Class::Colon {
                colons += 1;
                if colons == 1 {
                    a = r::St::Start;
                }
            }
        }
        (a, b, colons.min(3), s.chars().count().min(16))
    };
    // (a) all words over the class alphabet
    let d = c.bound(5, 6);
    let local: Vec<Mutex<HashSet<_>>> = (0..16).map(|_| Mutex::new(HashSet::new())).collect();
    let n = words(CLASS_ALPHABET.len(), d, |w| {
        let s = word(CLASS_ALPHABET, w);
        local[w.first().copied().unwrap_or(0) % 16].lock().unwrap().insert(note(&s));
        f(&s)
    });
    for l in local {
        seen.lock().unwrap().extend(l.into_inner().unwrap());
    }
    c.add_transitions(n - 1);
    c.extra("class_words", json!({"alphabet": CLASS_ALPHABET.len(), "max_length": d, "words": n}));
    // (b) deeper words over a reduced alphabet
    let d = c.bound(8, 10);
    let n = words(SMALL_ALPHABET.len(), d, |w| f(&word(SMALL_ALPHABET, w)));
    c.add_transitions(n - 1);
    c.extra("deep_words", json!({"alphabet": SMALL_ALPHABET.len(), "max_length": d, "words": n}));
    // (c) every ASCII text up to 3 characters
    let ascii: Vec<char> = (0u8..128).map(|b| b as char).collect();
    let n = words(128, c.bound(2, 3), |w| f(&word(&ascii, w)));
    c.add_transitions(n - 1);
    let n3 = if c.thorough() { 0 } else {
        // printable subset to length 3 in the quick tier
        let pr: Vec<char> = (0x20u8..0x7f).map(|b| b as char).collect();
        words(pr.len(), 3, |w| f(&word(&pr, w)))
    };
    c.extra("ascii_words", json!(n + n3));
    c.add_transitions(n3);
    // (d) every boundary character of the grammar in every position
    let b = boundary_chars();
    let n = words(b.len(), c.bound(3, 4), |w| f(&word(&b, w)));
    c.add_transitions(n - 1);
    c.extra("range_boundary_words", json!({"characters": b.len(), "words": n}));
    // (e) every Unicode scalar value in every kind of position
    let blocks: Vec<u32> = (0..0x110000u32).step_by(0x1000).collect();
    let scalars = AtomicU64::new(0);
    par_each(&blocks, |lo| {
        let mut s = String::new();
        for u in *lo..*lo + 0x1000 {
            let Some(ch) = char::from_u32(u) else { continue };
            scalars.fetch_add(1, Ordering::Relaxed);
            for (pre, post) in
                [("", ""), ("", "a"), ("a", ""), ("a", "b"), ("", ":"), ("a", ":"), ("a", "b:"), (":", ""), ("p:", "b"), ("p:a", ""), ("p", "q:n"), ("a.", "")]
            {
                s.clear();
                s.push_str(pre);
                s.push(ch);
                s.push_str(post);
                f(&s);
            }
        }
    });
    let k = scalars.into_inner();
    c.add_transitions(k * 12);
    c.extra("unicode_scalars_each_in_12_positions", json!(k));
    // (f) pumped words
    let p = pumped(!c.thorough());
    par_each(&p, |(u, v, k, w)| {
        let m = v.repeat(*k);
        f(&format!("{u}{m}{w}"));
        f(&format!("p:{u}{m}{w}"));
        f(&format!("{u}{m}{w}:"));
        f(&format!("{u}{m}{w}:n"));
    });
    c.add_transitions(p.len() as u64 * 4);
    c.extra("pumped_families", json!(p.len()));
    // (g) dictionary, alone, in pairs and cut at every position
    for a in REAL_WORDS {
        for b in REAL_WORDS {
            for t in [format!("{a}:{b}"), format!("{a}{b}"), format!("{a}:"), format!(":{b}"), format!("{a}.{b}"), format!("{a}:{b}:{a}"), a.to_string()] {
                f(&t);
            }
        }
    }
    c.add_states(seen.into_inner().unwrap().len() as u64);
}

pub fn c01(c: &Check) {
    c.assume("reference automaton transcribed by hand from the SPARQL productions quoted in the crate documentation");
    let t = Tally::default();
    each_text(c, |s| grammar_one(c, &t, s));
    // constructors that validate: bare prefix, with and without the separator
    let n = words(CLASS_ALPHABET.len(), 4, |w| {
        let s = word(CLASS_ALPHABET, w);
        let full = if s.ends_with(':') { s.clone() } else { format!("{s}:") };
        match catch(|| Namespace::new_named(s.clone())) {
            Ok(v) => {
                let want = r::is_ns(&full);
                let ok = match &v {
                    Ok(n) => want && n.as_ref() == full,
                    Err(_) => !want,
                };
                c.expect(ok, || format!("named {s:?}"), || format!("validated constructor: grammar says {want} for {full:?}, got {v:?}"));
            }
            Err(p) => c.fail(format!("named {s:?}"), p, json!({"text": s})),
        }
        c.add_traces(1);
    });
    c.add_transitions(n - 1);
    c.outcome("accepted as local name", t.acc_name.into_inner());
    c.outcome("accepted as namespace", t.acc_ns.into_inner());
    c.outcome("accepted as prefixed name", t.acc_ln.into_inner());
    c.outcome("rejected by all three", t.rej.into_inner());
    c.sample(json!({"text": "a..b", "name": r::is_local("a..b"), "namespace": r::is_ns("a..b")}));
    c.sample(json!({"text": "a.:", "namespace": r::is_ns("a.:")}));
    c.sample(json!({"text": "p:9-.", "prefixed": r::is_ln("p:9-.")}));
}

// ------------------------------------------------------------------------------------------------
// C02
// ------------------------------------------------------------------------------------------------

/// Is the reason a truthful description of the rejected text?
fn truthful(kind: &str, s: &str, e: &NameParseError) -> Result<&'static str, String> {
    let colons = s.matches(':').count();
    let prefix_bad = |p: &str| !p.is_empty() && !r::is_prefix(p);
    match e {
        NameParseError::EmptyString => {
            let ok = match kind {
                "local" => s.split_once(':').map(|(_, n)| n.is_empty()).unwrap_or(s.is_empty()),
                _ => s.is_empty(),
            };
            if ok { Ok("empty") } else { Err("says the text is empty; it is not".into()) }
        }
        NameParseError::MissingSeparator(t) => {
            let ok = match kind {
                "name" => false,
                "namespace" => !s.is_empty() && !s.ends_with(':'),
                _ => !s.is_empty() && colons == 0,
            };
            if !ok {
                Err("says the ':' is missing; it is not".into())
            } else if t != s {
                Err(format!("reports {t:?} instead of the input"))
            } else {
                Ok("missing separator")
            }
        }
        NameParseError::TooManySeparators(t) => {
            if colons < 2 {
                Err("says there are too many ':'".into())
            } else if !s.contains(t.as_str()) || t.is_empty() {
                Err(format!("reports {t:?}, not part of the input"))
            } else {
                Ok("too many separators")
            }
        }
        NameParseError::InvalidCharacter(t) => {
            let ok = match kind {
                "name" => !s.is_empty() && !r::is_local(s),
                "namespace" => match s.rsplit_once(':') {
                    Some((p, "")) => prefix_bad(p),
                    _ => s.chars().any(|ch| matches!(r::class(ch), r::Class::Other)),
                },
                _ => match s.split_once(':') {
                    Some((p, n)) => prefix_bad(p) || !n.is_empty() && !r::is_local(n),
                    None => s.chars().any(|ch| matches!(r::class(ch), r::Class::Other)),
                },
            };
            if !ok {
                Err("says a character is invalid; none is".into())
            } else if t.is_empty() || !s.contains(t.as_str()) {
                Err(format!("reports {t:?}, not part of the input"))
            } else {
                Ok("invalid character")
            }
        }
    }
}

fn reason_one(c: &Check, s: &str, tally: &[AtomicU64; 4]) {
    if c.saturated() {
        return;
    }
    let r = catch(|| {
        [
            ("name", Name::from_str(s).err()),
            ("namespace", Namespace::from_str(s).err()),
            ("local", LocalName::from_str(s).err()),
        ]
    });
    let list = match r {
        Ok(l) => l,
        Err(p) => return c.fail(clip(s), p, json!({"text": clip(s)})),
    };
    for (kind, e) in list {
        c.add_traces(1);
        let Some(e) = e else { continue };
        match truthful(kind, s, &e) {
            Err(m) => c.fail(format!("{kind} {}", clip(s)), m, json!({"text": clip(s), "as": kind, "error": format!("{e:?}").chars().take(200).collect::<String>()})),
            Ok(k) => {
                let i = match k {
                    "empty" => 0,
                    "missing separator" => 1,
                    "too many separators" => 2,
                    _ => 3,
                };
                // the human-readable form names the offending text, and the reason survives conversion
                let off = match &e {
                    NameParseError::EmptyString => String::new(),
                    NameParseError::InvalidCharacter(t) | NameParseError::TooManySeparators(t) | NameParseError::MissingSeparator(t) => t.clone(),
                };
                let flags = [e.is_empty_string(), e.is_missing_separator(), e.is_too_many_separators(), e.is_invalid_character()];
                c.expect((0..4).all(|j| flags[j] == (j == i)), || format!("{kind} {} flags", clip(s)), || format!("classification predicates {flags:?} for {k}"));
                let msg = e.to_string();
                c.expect(msg.contains(off.as_str()), || format!("{kind} {} message", clip(s)), || format!("message lacks the offending text: {msg:.200}"));
                let conv = rdftk_iri::Error::from(e);
                c.expect(matches!(conv, rdftk_iri::Error::Name(_)) && conv.to_string().contains(&msg), || format!("{kind} {} conversion", clip(s)), || "the crate error drops the reason".into());
                tally[i].fetch_add(1, Ordering::Relaxed);
            }
        }
    }
}

pub fn c02(c: &Check) {
    let tally: [AtomicU64; 4] = Default::default();
    // the same bounded text space as C01, but only rejected texts carry information
    each_text(c, |s| if s.len() <= 600 { reason_one(c, s, &tally) });
    let names = ["empty", "missing separator", "too many separators", "invalid character"];
    for (n, t) in names.iter().zip(&tally) {
        c.outcome(n, t.load(Ordering::Relaxed));
    }
    c.sample(json!({"text": "a:b:", "as": "namespace", "error": format!("{:?}", Namespace::from_str("a:b:").err())}));
    c.sample(json!({"text": "rdf:", "as": "local", "error": format!("{:?}", LocalName::from_str("rdf:").err())}));
}

// ------------------------------------------------------------------------------------------------
// C03
// ------------------------------------------------------------------------------------------------

pub fn valid_prefixes(c: &Check) -> Vec<String> {
    let mut v: Vec<String> = all_words(CLASS_ALPHABET, 2).into_iter().filter(|w| w.is_empty() || r::is_prefix(w)).collect();
    v.extend(all_words(&['a', '_', '5', '-', '.'], c.bound(5, 6)).into_iter().filter(|w| r::is_prefix(w)));
    v.extend(REAL_WORDS.iter().filter(|w| r::is_prefix(w)).map(|s| s.to_string()));
    for n in [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257] {
        v.push("q".repeat(n));
    }
    v.sort();
    v.dedup();
    v
}

pub fn valid_names(c: &Check) -> Vec<String> {
    let mut v: Vec<String> = all_words(CLASS_ALPHABET, 2).into_iter().filter(|w| r::is_local(w)).collect();
    v.extend(all_words(&['a', '_', '5', '-', '.'], c.bound(5, 6)).into_iter().filter(|w| r::is_local(w)));
    v.extend(REAL_WORDS.iter().filter(|w| r::is_local(w)).map(|s| s.to_string()));
    for n in [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1024] {
        v.push("n".repeat(n));
    }
    v.sort();
    v.dedup();
    v
}

/// All ways of building the value (p, n); the result of every path is compared with the model text.
fn compose(p: &str, n: &str) -> Result<(), String> {
    macro_rules! ck {
        ($cond:expr, $what:expr) => {
            if !($cond) {
                return Err(format!("{}", $what));
            }
        };
    }
    let nst = format!("{p}:");
    let text = format!("{nst}{n}");
    let ns = Namespace::from_str(&nst).map_err(|e| format!("namespace rejected: {e}"))?;
    let nm = Name::from_str(n).map_err(|e| format!("name rejected: {e}"))?;
    let built = LocalName::new(ns.clone(), nm.clone());
    let mut all = vec![
        ("new", built.clone()),
        ("parse", LocalName::from_str(&text).map_err(|e| format!("own text rejected: {e}"))?),
        ("namespace.qualify", ns.qualify(&nm)),
        ("name.qualify", nm.qualify(&ns)),
        ("unchecked bare", LocalName::new_unchecked(p, n)),
        ("unchecked with separator", LocalName::new_unchecked(nst.clone(), n)),
        ("reparse of display", LocalName::from_str(&built.to_string()).map_err(|e| format!("display rejected: {e}"))?),
        ("parts", LocalName::new(built.namespace().clone(), built.name().clone())),
    ];
    if p.is_empty() {
        all.push(("new_in_default", LocalName::new_in_default(nm.clone())));
    }
    for (how, l) in &all {
        ck!(*l == built, format!("{how}: {l:?} differs from {built:?}"));
        ck!(l.to_string() == text, format!("{how}: displays as {:?}", l.to_string()));
        ck!(String::from(l) == text, format!("{how}: as string {:?}", String::from(l)));
        ck!(String::from(l.clone()) == text, format!("{how}: into string"));
        ck!(l.as_curie() == format!("[{text}]"), format!("{how}: curie {:?}", l.as_curie()));
        ck!(l.namespace() == &ns && l.name() == &nm, format!("{how}: parts {:?} {:?}", l.namespace(), l.name()));
        ck!(l.is_namespace_default() == p.is_empty(), format!("{how}: default flag"));
    }
    let pn = PrefixedName::from(&built);
    ck!(pn == PrefixedName::Local(built.clone()) && pn == PrefixedName::from(built.clone()), "prefixed name wrapper");
    ck!(pn.to_string() == text && pn.is_local() && !pn.is_namespace(), format!("prefixed name displays {pn}"));
    ck!(pn.try_as_local() == Some(built), "prefixed name unwraps");
    Ok(())
}

fn compose_ns(p: &str) -> Result<(), String> {
    macro_rules! ck {
        ($cond:expr, $what:expr) => {
            if !($cond) {
                return Err(format!("{}", $what));
            }
        };
    }
    let nst = format!("{p}:");
    let ns = Namespace::from_str(&nst).map_err(|e| e.to_string())?;
    let all = [
        Namespace::new_named(p).map_err(|e| e.to_string())?,
        Namespace::new_named(nst.clone()).map_err(|e| e.to_string())?,
        Namespace::new_unchecked(p),
        Namespace::new_unchecked(nst.clone()),
        Namespace::from_str(ns.as_ref()).map_err(|e| e.to_string())?,
        ns.clone(),
    ];
    for (i, v) in all.iter().enumerate() {
        ck!(*v == ns, format!("constructor {i}: {v:?}"));
        ck!(v.to_string() == nst && v.as_ref() == nst && String::from(v) == nst && String::from(v.clone()) == nst, format!("constructor {i} text {v}"));
        ck!(v.name_string() == if p.is_empty() { None } else { Some(p) }, format!("bare prefix {:?}", v.name_string()));
        ck!(v.is_default() == p.is_empty(), "default flag");
    }
    ck!((Namespace::new_default() == ns) == p.is_empty(), "default namespace equality");
    let pn = PrefixedName::from(&ns);
    ck!(pn == PrefixedName::from(ns.clone()) && pn.to_string() == nst && pn.is_namespace() && !pn.is_local(), format!("prefixed name {pn}"));
    ck!(pn.try_as_namespace() == Some(ns), "unwrap");
    Ok(())
}

pub fn c03(c: &Check) {
    let ps = valid_prefixes(c);
    let ns = valid_names(c);
    for p in &ps {
        match catch(|| compose_ns(p)) {
            Ok(Ok(())) => {}
            Ok(Err(m)) | Err(m) => c.fail(format!("namespace {p:?}"), m, json!({"prefix": p})),
        }
        c.add_traces(1);
    }
    for n in &ns {
        let ok = catch(|| {
            let v = Name::from_str(n).map_err(|e| e.to_string())?;
            let u = Name::new_unchecked(n.clone());
            if v != u || v.to_string() != *n || v.as_ref() != n || String::from(&v) != *n || String::from(v.clone()) != *n || Name::from_str(&v.to_string()).ok() != Some(v) {
                return Err("name text changed".to_string());
            }
            Ok(())
        });
        match ok {
            Ok(Ok(())) => {}
            Ok(Err(m)) | Err(m) => c.fail(format!("name {n:?}"), m, json!({"name": n})),
        }
        c.add_traces(1);
    }
    c.add_states((ps.len() + ns.len()) as u64);
    par_each(&ps, |p| {
        for n in &ns {
            if c.saturated() {
                return;
            }
            match catch(|| compose(p, n)) {
                Ok(Ok(())) => {}
                Ok(Err(m)) | Err(m) => c.fail(format!("{p:?}+{n:?}"), m, json!({"prefix": p, "name": n})),
            }
            c.add_traces(1);
            c.add_transitions(8);
        }
    });
    c.outcome("prefixes", ps.len() as u64);
    c.outcome("names", ns.len() as u64);
    c.sample(json!({"prefix": ps[ps.len() / 2], "name": ns[ns.len() / 2]}));
    c.sample(json!({"prefix": "", "name": ns[ns.len() - 1]}));
}

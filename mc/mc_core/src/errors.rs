//! D16 What an error says, what it names as its cause, and what its trace shows.

use mclib::*;
use rdftk_core::error::{self, absolute_iri_expected_error, empty_qname_error, eprint_trace, error_trace, formulae_not_supported_error, invalid_blank_node_name_error, invalid_from_str_error, invalid_match_error, invalid_qname_error, invalid_state_error, print_trace, provider_mismatch_error, rdf_star_not_supported_error, unknown_error, unknown_error_from, Error};
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_core::model::statement::BlankNode;
use rdftk_iri::error::NameParseError;
use rdftk_iri::{Iri, LocalName, Name};
use std::error::Error as StdError;
use std::fmt;
use std::io;
use serde_json::json;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};

macro_rules! ck {
    ($cond:expr, $($what:tt)*) => {
        if !($cond) {
            return Err(format!($($what)*));
        }
    };
}

fn run1(c: &Check, key: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
    static RUNS: AtomicU64 = AtomicU64::new(0);
    if c.saturated() {
        return;
    }
    let n = RUNS.fetch_add(1, Ordering::Relaxed);
    if n < 3 || n >= 1024 && n.is_power_of_two() {
        c.sample(json!(key()));
    }
    crate::graphs::run1(c, &key(), f)
}

/// An error of somebody else's, with causes of its own.
#[derive(Clone, Debug)]
struct Foreign {
    text: String,
    cause: Option<Box<Foreign>>,
}
impl fmt::Display for Foreign {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.text)
    }
}
impl StdError for Foreign {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        self.cause.as_deref().map(|c| c as _)
    }
}
fn foreign(texts: &[&str]) -> Foreign {
    Foreign { text: texts[0].into(), cause: (texts.len() > 1).then(|| Box::new(foreign(&texts[1..]))) }
}

const TEXTS: [&str; 6] = ["disk full", "1. first", "two\nlines", "{} %s \"é\"", "x", "a longer, and rather ordinary, explanation of what has gone wrong here"];

/// The causes, from the error itself to the last one.
fn chain(e: &dyn StdError) -> Vec<String> {
    let mut v = vec![e.to_string()];
    let mut at = e.source();
    while let Some(s) = at {
        v.push(s.to_string());
        at = s.source();
    }
    v
}

/// The trace is every level of the chain in its order, numbered, and nothing else.
fn trace_of(trace: &str, levels: &[String]) -> Result<(), String> {
    let mut rest = trace;
    for (i, l) in levels.iter().enumerate() {
        let want = format!("{}. {l}", i + 1);
        rest = rest.trim_start();
        match rest.strip_prefix(want.trim_end()) {
            Some(r) => rest = r,
            None => return Err(format!("level {} of {levels:?} is not next in the trace {trace:?}", i + 1)),
        }
        rest = rest.trim_start_matches([' ', '\r']);
        ck!(rest.starts_with('\n'), "level {} is not on a line of its own in {trace:?}", i + 1);
    }
    ck!(rest.trim().is_empty(), "more in the trace than {levels:?}: {trace:?}");
    Ok(())
}

fn traced(e: &(dyn StdError + 'static)) -> Result<(), String> {
    trace_of(&error_trace(e), &chain(e))
}

/// `causes`: what the chain has to be from the first cause on; `says`: what the text has to have
fn is(e: &Error, causes: &[String], says: &[&str]) -> Result<(), String> {
    let c = chain(e);
    ck!(c[1..] == *causes, "the causes of {e:?} are {:?} and not {causes:?}", &c[1..]);
    ck!(!c[0].trim().is_empty(), "{e:?} has no text");
    for s in says {
        ck!(c[0].contains(s), "the text {:?} of {e:?} does not have {s:?}", c[0]);
    }
    traced(e)
}

fn borrowed() -> std::cell::BorrowError {
    let c = std::cell::RefCell::new(1);
    let _m = c.borrow_mut();
    let r = c.try_borrow().map(|_| ()).unwrap_err();
    r
}

/// Shown by a process of its own: one trace on each stream.
pub fn show_traces(which: &str) {
    let f = foreign(&TEXTS[..which.len()]);
    if which.starts_with('o') {
        print_trace(&f)
    } else {
        eprint_trace(&f)
    }
}

pub fn d16(c: &Check) {
    // chains of every length, with every text at every place
    let depth = c.bound(8, 9);
    words(TEXTS.len(), depth, |w| {
        if w.is_empty() {
            return;
        }
        let texts: Vec<&str> = w.iter().map(|i| TEXTS[*i]).collect();
        let levels: Vec<String> = texts.iter().map(|t| t.to_string()).collect();
        run1(c, || format!("chain {texts:?}"), || {
            let f = foreign(&texts);
            ck!(chain(&f) == levels, "the model is wrong");
            trace_of(&error_trace(&f), &levels)
        });
        c.add_states(1);
        c.add_transitions(w.len() as u64);
    });
    // an error of the crate on top of every chain
    let kinds = [io::ErrorKind::Other, io::ErrorKind::NotFound, io::ErrorKind::UnexpectedEof, io::ErrorKind::Interrupted, io::ErrorKind::InvalidData];
    words(TEXTS.len(), c.bound(6, 7), |w| {
        if w.is_empty() {
            return;
        }
        let texts: Vec<&str> = w.iter().map(|i| TEXTS[*i]).collect();
        let below: Vec<String> = texts.iter().map(|t| t.to_string()).collect();
        for k in kinds {
            run1(c, || format!("input and output {k:?} {texts:?}"), || {
                let e: Error = io::Error::new(k, foreign(&texts)).into();
                ck!(matches!(&e, Error::Io(i) if i.kind() == k), "became {e:?}");
                // an error of the standard library shows its cause as its own text
                is(&e, &below, &[texts[0]])
            });
        }
        run1(c, || format!("tokenizer {texts:?}"), || {
            let e = Error::Tokenizer { representation: "N-Words".into(), source: Box::new(foreign(&texts)) };
            let got = chain(&e);
            ck!(got[1..] == below, "causes {:?}", &got[1..]);
            ck!(got[0].contains("N-Words") && got[0].contains(texts[0]), "says {:?}", got[0]);
            traced(&e)
        });
        run1(c, || format!("unknown {texts:?}"), || is(&unknown_error(foreign(&texts)), &[], &[texts[0]]));
        c.add_states(1);
        c.add_transitions(kinds.len() as u64 + 2);
    });
    // every kind of cause that can be wrapped
    let all: Vec<String> = std::iter::once(String::new()).chain(TEXTS.iter().map(|t| t.to_string())).collect();
    for k in kinds {
        run1(c, || format!("plain {k:?}"), || {
            let i = || io::Error::from(k);
            is(&i().into(), &[i().to_string()], &[&i().to_string()])
        });
    }
    run1(c, || "operating system".into(), || {
        let i = || io::Error::from_raw_os_error(2);
        is(&i().into(), &[i().to_string()], &[&i().to_string()])
    });
    run1(c, || "borrowed".into(), || is(&borrowed().into(), &[borrowed().to_string()], &[&borrowed().to_string()]));
    for bad in [&[0x80u8][..], &[b'a', 0xff, b'b'], &[0xe2, 0x82]] {
        run1(c, || format!("bytes {bad:?}"), || {
            let u = String::from_utf8(bad.to_vec()).unwrap_err();
            is(&u.clone().into(), &[u.to_string()], &[&u.to_string()])
        });
    }
    for t in &all {
        let names = [NameParseError::EmptyString, NameParseError::InvalidCharacter(t.clone()), NameParseError::TooManySeparators(t.clone()), NameParseError::MissingSeparator(t.clone())];
        for (n, says) in names.into_iter().zip([false, true, true, true]) {
            run1(c, || format!("name {n:?}"), || {
                let text = n.to_string();
                ck!(!says || text.contains(t.as_str()), "{text:?} does not have {t:?}");
                let again = |n: &NameParseError| match n {
                    NameParseError::EmptyString => NameParseError::EmptyString,
                    NameParseError::InvalidCharacter(s) => NameParseError::InvalidCharacter(s.clone()),
                    NameParseError::TooManySeparators(s) => NameParseError::TooManySeparators(s.clone()),
                    NameParseError::MissingSeparator(s) => NameParseError::MissingSeparator(s.clone()),
                };
                is(&again(&n).into(), &[text.clone()], &[&text])?;
                let wrapped: rdftk_iri::Error = again(&n).into();
                let w = wrapped.to_string();
                ck!(w.contains(&text), "{w:?} does not have {text:?}");
                ck!(chain(&wrapped)[1..] == [text.clone()], "causes {:?}", chain(&wrapped));
                traced(&wrapped)?;
                is(&wrapped.into(), &[w.clone(), text.clone()], &[&w, &text])
            });
        }
        run1(c, || format!("text {t:?}"), || {
            is(&t.clone().into(), &[], &[t])?;
            is(&unknown_error_from(t.as_str()), &[], &[t])
        });
        for u in &all {
            type Made = fn(&str, &str) -> Error;
            type Held = fn(&Error, &str, &str) -> bool;
            let made: [(&str, Made, Held, u8); 11] = [
                ("from text", |a, b| invalid_from_str_error(a, b), |e, a, b| matches!(e, Error::InvalidFromStr { value, name } if value == a && name == b), 2),
                ("blank node", |a, _| invalid_blank_node_name_error(a), |e, a, _| matches!(e, Error::InvalidBlankNodeName { name } if name == a), 1),
                ("no name", |_, _| empty_qname_error(), |e, _, _| matches!(e, Error::EmptyQName), 0),
                ("name", |a, _| invalid_qname_error(a), |e, a, _| matches!(e, Error::InvalidQName { name } if name == a), 1),
                ("provider", |a, b| provider_mismatch_error(a, b), |e, a, b| matches!(e, Error::ProviderMismatch { lhs, rhs } if lhs == a && rhs == b), 3),
                ("match", |_, _| invalid_match_error(), |e, _, _| matches!(e, Error::InvalidMatch), 0),
                ("absolute", |a, _| absolute_iri_expected_error(a), |e, a, _| matches!(e, Error::AbsoluteIriExpected { uri } if uri == a), 1),
                ("state", |_, _| invalid_state_error(), |e, _, _| matches!(e, Error::InvalidState), 0),
                ("statement", |a, _| rdf_star_not_supported_error(a), |e, a, _| matches!(e, Error::RdfStarNotSupported { representation } if representation == a), 3),
                ("results", |a, _| error::query_results_format_error(a), |e, a, _| matches!(e, Error::QueryResultsFormat { representation } if representation == a), 3),
                ("formulae", |a, _| formulae_not_supported_error(a), |e, a, _| matches!(e, Error::FormulaeNotSupported { representation } if representation == a), 3),
            ];
            for (what, make, held, says) in made {
                run1(c, || format!("{what} {t:?} {u:?}"), || {
                    let e = make(t, u);
                    ck!(held(&e, t, u), "made {e:?}");
                    let (qt, qu) = (format!("{t:?}"), format!("{u:?}"));
                    let (qt, qu) = (qt.trim_matches('"'), qu.trim_matches('"'));
                    let got = e.to_string();
                    let has = |plain: &str, quoted: &str| got.contains(plain) || got.contains(quoted);
                    ck!(says == 0 || has(t, qt), "{got:?} does not have {t:?}");
                    ck!(!(says == 2 || what == "provider") || has(u, qu), "{got:?} does not have {u:?}");
                    is(&e, &[], &[])?;
                    let r: error::Result<()> = e.into();
                    ck!(matches!(&r, Err(e) if held(e, t, u) && e.to_string() == got), "as a result {r:?}");
                    Ok(())
                });
                c.add_transitions(1);
            }
            for (e, both) in [
                (Error::ParserExpected { rule_fn: t.clone(), expecting: u.clone() }, [t, u]),
                (Error::ParserUnexpected { rule_fn: t.clone(), given: u.clone(), expecting: vec!["this".into(), "that".into()] }, [t, u]),
                (Error::ParserUnreachable { rule_fn: t.clone(), given: u.clone() }, [t, u]),
                (Error::InvalidLiteralTypeCooercion { from_type: t.clone(), to_type: u.clone() }, [t, u]),
                (Error::HexDecoder { value: t.clone(), index: u.len() }, [t, &u.len().to_string()]),
            ] {
                run1(c, || format!("{e:?}"), || is(&e, &[], &[both[0], both[1]]));
                c.add_transitions(1);
            }
        }
    }
    // what the parsers report
    let chars = ["", "a", ":", " ", "-", "%", "é", "/", "http:", "\n"];
    words(chars.len(), c.bound(5, 6), |w| {
        let t: String = w.iter().map(|i| chars[*i]).collect();
        run1(c, || format!("parsers {t:?}"), || {
            let mut es: Vec<Error> = vec![];
            es.extend(BlankNode::from_str(&t).err());
            if let Err(l) = LanguageTag::from_str(&t) {
                let text = l.to_string();
                let e = l.into();
                is(&e, &[text.clone()], &[&text])?;
                es.push(e);
            }
            es.extend(Iri::from_str(&t).err().map(|e| rdftk_iri::Error::from(e).into()));
            es.extend(Name::from_str(&t).err().map(Error::from));
            es.extend(LocalName::from_str(&t).err().map(Error::from));
            for dt in [DataType::Base64Binary, DataType::HexBinary] {
                let l = || Literal::with_data_type(&t, dt.clone());
                if let Err(e) = Vec::<u8>::try_from(l()) {
                    // the reason is a cause where there is one
                    ck!(dt == DataType::HexBinary || e.source().is_some(), "{e:?} has no cause");
                    es.push(e);
                }
            }
            for e in &es {
                ck!(chain(e).iter().all(|t| !t.trim().is_empty()), "{e:?} or a cause of it has no text");
                traced(e)?;
            }
            Ok(())
        });
        c.add_states(1);
    });
    // on the streams of a process
    for which in ["o", "oo", "ooo", "oooooo", "e", "ee", "eee", "eeeeee"] {
        run1(c, || format!("shown {which}"), || {
            let r = std::process::Command::new(std::env::current_exe().unwrap()).env("MC_SHOW_TRACE", which).output().unwrap();
            let (out, err) = (String::from_utf8(r.stdout).unwrap(), String::from_utf8(r.stderr).unwrap());
            let (shown, other) = if which.starts_with('o') { (out, err) } else { (err, out) };
            ck!(r.status.success() && other.is_empty(), "ended with {} and {other:?} on the other stream", r.status);
            trace_of(&shown, &TEXTS[..which.len()].iter().map(|t| t.to_string()).collect::<Vec<_>>())
        });
        c.add_traces(1);
    }
}

//! D15: every feature configuration of the model and format crates builds and behaves the same.

use mclib::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;
use std::sync::Mutex;

const CORE: [&str; 5] = ["binary_types", "chrono_types", "decimal_types", "n3_formulae", "rdf_star"];
const IO: [&str; 9] = ["dot", "json", "json-ld", "n3", "nq", "nt", "trig", "turtle", "xml"];
const LANES: usize = 4;

fn subset<'a>(flags: &[&'a str], bits: usize) -> BTreeSet<&'a str> {
    (0..flags.len()).filter(|i| bits >> i & 1 == 1).map(|i| flags[i]).collect()
}

pub fn d15(c: &Check) {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let mut configs: BTreeSet<BTreeSet<&str>> = BTreeSet::new();
    for b in 0..1 << CORE.len() {
        configs.insert(subset(&CORE, b));
    }
    for b in 0..1usize << IO.len() {
        let n = b.count_ones() as usize;
        if c.thorough() || n == 1 || n >= IO.len() - 1 {
            let mut f = subset(&IO, b);
            if n == 0 {
                f.insert("io");
            }
            configs.insert(f);
        }
    }
    configs.insert(BTreeSet::from(["io"]));
    let configs: Vec<BTreeSet<&str>> = configs.into_iter().collect();
    let outputs: Mutex<BTreeMap<usize, Vec<String>>> = Mutex::new(BTreeMap::new());
    let errors: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let lanes: Vec<usize> = (0..LANES).collect();
    par_each(&lanes, |lane| {
        let td = format!("{root}/target/cfgc/{lane}");
        for (i, cfg) in configs.iter().enumerate().filter(|(i, _)| i % LANES == *lane) {
            let feats = cfg.iter().copied().collect::<Vec<_>>().join(",");
            let build = Command::new("cargo")
                .args([
                    "build",
                    "--offline",
                    "-q",
                    "-j",
                    "2",
                    "--manifest-path",
                    &format!("{root}/mc/cfgprobe_core/Cargo.toml"),
                    "--no-default-features",
                    "--features",
                    &feats,
                    "--target-dir",
                    &td,
                ])
                .env("CARGO_TERM_COLOR", "never")
                .output();
            let fail = match &build {
                Err(e) => Some(format!("cargo: {e}")),
                Ok(o) if !o.status.success() => Some(String::from_utf8_lossy(&o.stderr).lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join("; ")),
                _ => None,
            };
            if let Some(m) = fail {
                errors.lock().unwrap().push((i, format!("does not build: {m}")));
                continue;
            }
            match Command::new(format!("{td}/debug/cfgprobe_core")).output() {
                Ok(o) if o.status.success() => {
                    let lines = String::from_utf8_lossy(&o.stdout).lines().map(str::to_string).collect();
                    outputs.lock().unwrap().insert(i, lines);
                }
                Ok(o) => errors.lock().unwrap().push((i, format!("probe failed: {}", String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()))),
                Err(e) => errors.lock().unwrap().push((i, e.to_string())),
            }
        }
    });
    let outputs = outputs.into_inner().unwrap();
    let errors = errors.into_inner().unwrap();
    if outputs.is_empty() {
        // nothing builds at all: that is not a difference between configurations
        eprintln!("no configuration builds: {errors:?}");
        std::process::exit(2);
    }
    let label = |i: usize| configs[i].iter().copied().collect::<Vec<_>>().join(",");
    for (i, m) in errors {
        c.fail(format!("features [{}]", label(i)), m, json!({"features": label(i)}));
    }
    c.add_states(configs.len() as u64);
    // common observations: all the same; tagged ones: the same wherever the feature is present
    let mut reference: BTreeMap<String, (usize, Vec<&String>)> = BTreeMap::new();
    for (i, lines) in &outputs {
        let mut mine: BTreeMap<String, Vec<&String>> = BTreeMap::new();
        for l in lines {
            let tag = if l.starts_with('[') { l[1..].split(']').next().unwrap_or("").to_string() } else { String::new() };
            mine.entry(tag).or_default().push(l);
        }
        for f in &configs[*i] {
            let observed = !["io", "json-ld", "n3", "n3_formulae", "rdf_star"].contains(f);
            c.expect(!observed || mine.contains_key(*f), || format!("features [{}]", label(*i)), || format!("{f} has no observations"));
        }
        for (tag, v) in mine {
            c.add_transitions(v.len() as u64);
            match reference.get(&tag) {
                None => {
                    reference.insert(tag, (*i, v));
                }
                Some((r, w)) if *w != v => {
                    let d = w.iter().zip(&v).find(|(a, b)| a != b).map(|(a, b)| format!("{a:.300} // {b:.300}")).unwrap_or(format!("{} observations instead of {}", v.len(), w.len()));
                    c.fail(format!("features [{}] vs [{}] {tag}", label(*i), label(*r)), d.clone(), json!({"features": label(*i), "difference": d}));
                }
                _ => {}
            }
        }
        c.add_traces(1);
    }
    for (tag, (_, v)) in &reference {
        c.outcome(if tag.is_empty() { "common observations" } else { tag }, v.len() as u64);
    }
    c.extra("configurations", json!((0..configs.len()).map(label).collect::<Vec<_>>()));
    c.sample(json!(outputs.values().next().map(|l| l[l.len() / 2].clone())));
    c.assume("dependencies behave the same whichever of their own features are switched on");
}

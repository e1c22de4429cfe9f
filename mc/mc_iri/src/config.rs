//! C16: every feature configuration builds and behaves the same.

use mclib::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::process::Command;
use std::sync::Mutex;

const FLAGS: [&str; 4] = ["std", "alloc", "genid", "serde"];

/// The closure of a feature subset under the implications in the crate's manifest.
fn closure(bits: usize) -> usize {
    let mut b = bits;
    if b & 8 != 0 {
        b |= 1; // serde => std
    }
    if b & 1 != 0 {
        b |= 2; // std => alloc
    }
    b
}

fn label(bits: usize) -> String {
    let v: Vec<&str> = (0..4).filter(|i| bits & (1 << i) != 0).map(|i| FLAGS[i]).collect();
    if v.is_empty() {
        "none".into()
    } else {
        v.join(",")
    }
}

pub fn c16(c: &Check) {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let mut classes: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for bits in 0..16 {
        classes.entry(closure(bits)).or_default().push(bits);
    }
    // quick: one build per distinct closure; thorough: one per written subset
    let builds: Vec<usize> = if c.thorough() { (0..16).collect() } else { classes.values().map(|v| v[0]).collect() };
    let outputs: Mutex<BTreeMap<usize, Vec<String>>> = Mutex::new(BTreeMap::new());
    let errors: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    par_each(&builds, |bits| {
        let feats = label(*bits).replace("none", "");
        let td = format!("{root}/target/cfg/{bits}");
        let build = Command::new("cargo")
            .args(["build", "--offline", "-q", "-j", "3", "--manifest-path", &format!("{root}/mc/cfgprobe/Cargo.toml"), "--no-default-features", "--features", &feats, "--target-dir", &td])
            .env("CARGO_TERM_COLOR", "never")
            .output();
        let fail = match &build {
            Err(e) => Some(format!("cargo: {e}")),
            Ok(o) if !o.status.success() => Some(String::from_utf8_lossy(&o.stderr).lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join("; ")),
            _ => None,
        };
        if let Some(m) = fail {
            errors.lock().unwrap().push((*bits, format!("does not build: {m}")));
            return;
        }
        let run = Command::new(format!("{td}/debug/cfgprobe")).output();
        match run {
            Ok(o) if o.status.success() => {
                let lines = String::from_utf8_lossy(&o.stdout).lines().map(str::to_string).collect();
                outputs.lock().unwrap().insert(*bits, lines);
            }
            Ok(o) => errors.lock().unwrap().push((*bits, format!("probe failed: {}", String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()))),
            Err(e) => errors.lock().unwrap().push((*bits, e.to_string())),
        }
    });
    let outputs = outputs.into_inner().unwrap();
    let errors = errors.into_inner().unwrap();
    if outputs.is_empty() {
        // nothing builds at all: that is not a difference between configurations
        eprintln!("no configuration builds: {errors:?}");
        std::process::exit(2);
    }
    for (bits, m) in errors {
        c.fail(format!("features [{}]", label(bits)), m, json!({"features": label(bits)}));
    }
    c.add_states(builds.len() as u64);
    // reference: the largest configuration present
    let (rb, reference) = outputs.iter().max_by_key(|(b, _)| closure(**b).count_ones() * 16 + **b as u32).map(|(b, l)| (*b, l.clone())).unwrap();
    let common: Vec<&String> = reference.iter().filter(|l| !l.starts_with('[')).collect();
    let opt = |tag: &str, lines: &[String]| -> Vec<String> { lines.iter().filter(|l| l.starts_with(tag)).cloned().collect() };
    for (bits, lines) in &outputs {
        let mine: Vec<&String> = lines.iter().filter(|l| !l.starts_with('[')).collect();
        let key = format!("features [{}] vs [{}]", label(*bits), label(rb));
        let mut diff = common.iter().zip(&mine).find(|(a, b)| a != b).map(|(a, b)| format!("{a:.300} // {b:.300}"));
        if diff.is_none() && mine.len() != common.len() {
            diff = Some(format!("{} observations instead of {}", mine.len(), common.len()));
        }
        for (bit, tag) in [(4usize, "[genid]"), (8, "[serde]")] {
            if closure(*bits) & bit != 0 && closure(rb) & bit != 0 && opt(tag, lines) != opt(tag, &reference) {
                diff = Some(format!("{tag} observations differ"));
            }
        }
        c.add_traces(lines.len() as u64);
        c.add_transitions(mine.len() as u64);
        if let Some(d) = diff {
            c.fail(key, d.clone(), json!({"features": label(*bits), "difference": d}));
        }
    }
    c.outcome("observations per configuration", common.len() as u64);
    c.extra("configurations", json!(builds.iter().map(|b| label(*b)).collect::<Vec<_>>()));
    c.sample(json!(common[common.len() / 2]));
    c.sample(json!(common[common.len() / 3]));
}

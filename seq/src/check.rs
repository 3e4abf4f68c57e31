//! One property: enumerate its scenarios, report, write the evidence and the replay artefact.

use std::collections::HashSet;
use std::path::PathBuf;
use std::time::Duration;

use serde_json::{Value, json};

use crate::ctl::{Found, Report, Scenario, explore, run_once};
use crate::spec::{Spec, of_property};

fn workers() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
}

fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| "/verif".into(), PathBuf::from)
}

/// A recorded genuine defect that is not repaired.
struct Known {
    property: String,
    signature: String,
    /// part of the scenario's description
    scenario: String,
    what: String,
}

/// Lines `finding: property=<id> signature=<sig> scenario=<substring or *> :: <what fails>`.
fn known() -> Vec<Known> {
    let text = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let (head, what) = l.strip_prefix("finding: ")?.split_once(" :: ")?;
            let field = |k: &str| {
                head.split(' ').find_map(|w| w.strip_prefix(k).and_then(|w| w.strip_prefix('='))).map(String::from)
            };
            Some(Known {
                property: field("property")?,
                signature: field("signature")?,
                scenario: field("scenario")?,
                what: what.to_string(),
            })
        })
        .collect()
}

fn listed<'a>(prop: &str, known: &'a [Known], f: &Found) -> Option<&'a Known> {
    known.iter().find(|k| {
        k.property == prop
            && k.signature == f.sig
            && (k.scenario == "*" || f.scenario.contains(&k.scenario))
    })
}

fn write_replay(prop: &str, f: &Found) -> PathBuf {
    let dir = verif().join("target/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{}.json", f.sig));
    let v = json!({
        "engine": "seq",
        "property": prop,
        "signature": f.sig,
        "what": f.what,
        "spec": serde_json::from_str::<Value>(&f.scenario).unwrap_or(Value::Null),
        "choices": f.choices,
        "how": "/verif/check replay <this file> prints the execution step by step",
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn write_evidence(prop: &str, deep: bool, bounds: &str, r: Option<&Report>, limit: u64, violations: u64, note: &str) {
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut cov = json!({
        "bounds": bounds,
        "time_limit_s": limit,
        "rule": "states: nodes of the trees of choices (one per distinct history of operations and environment answers) plus visited states of reference models; transitions: calls of the code under test; every trace is an execution of the real code compared step by step with the reference model",
        "note": note,
    });
    let mut wall = 0.0;
    if let Some(r) = r {
        wall = r.wall;
        let m = cov.as_object_mut().unwrap();
        m.insert("states".into(), json!(r.nodes));
        m.insert("transitions".into(), json!(r.steps));
        m.insert("traces_validated_against_impl".into(), json!(r.executions));
        m.insert("longest_history".into(), json!(r.deepest));
        m.insert("distinct_observed_outcomes".into(), json!(r.outcomes));
        m.insert("scenarios".into(), json!(r.scenarios));
        m.insert("exhaustive".into(), json!(!r.capped && !r.gave_up));
        m.insert("samples".into(), json!(r.samples));
    }
    let v = json!({
        "property": prop,
        "tier": if deep { "thorough" } else { "quick" },
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": ["the reference models in seq/src state what is right", "behaviour outside the stated bounds is not explored"],
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&v).unwrap());
}

pub fn check(prop: &str, deep: bool, limit: u64) -> i32 {
    let Some((specs, bounds)) = of_property(prop, deep) else {
        eprintln!("no scenarios for {prop}");
        return 2;
    };
    let scs: Vec<Box<dyn Scenario>> = specs.into_iter().map(|s| Box::new(s) as Box<dyn Scenario>).collect();
    let on_stuck = |s: &str, c: &[u8], crashed: bool| {
        let (sig, what) = if crashed { ("crash", "an execution crashes the process") } else { ("hang", "an execution does not come back") };
        let f = Found { scenario: s.to_string(), sig, what: what.into(), choices: c.to_vec(), count: 1 };
        let path = write_replay(prop, &f);
        write_evidence(prop, deep, bounds, None, limit, 1, &format!("stopped: {what}"));
        println!("{prop}: {what}\n  {s} {c:?}");
        println!("VIOLATION property={prop} replay={}", path.display());
        crate::storage::remove_scratch();
        std::process::exit(1);
    };
    let r = explore(&scs, workers(), Duration::from_secs(limit), &on_stuck);
    let known = known();
    let mut shown = HashSet::new();
    let mut bad: Vec<&Found> = vec![];
    for f in &r.found {
        match listed(prop, &known, f) {
            Some(k) => {
                if shown.insert(&k.what) {
                    println!("KNOWN-FINDING: property={prop} {}", k.what);
                }
            }
            None => bad.push(f),
        }
    }
    let done = if r.capped {
        "stopped by the time limit"
    } else if r.gave_up {
        "stopped after many failing executions"
    } else {
        "complete"
    };
    write_evidence(prop, deep, bounds, Some(&r), limit, bad.len() as u64, done);
    println!(
        "{prop}: {} scenarios, {} executions, {} calls, {} distinct outcomes, {:.1} s, {done}",
        r.scenarios, r.executions, r.steps, r.outcomes, r.wall
    );
    let mut kinds = HashSet::new();
    let mut reported = 0;
    for f in &bad {
        if !kinds.insert(f.sig) || reported == 4 {
            continue;
        }
        // a failure counts only if the same choices lead to it again, twice
        let spec: Spec = serde_json::from_str(&f.scenario).expect("spec");
        let again = (0..2).all(|_| {
            let one = run_once(&spec, f.choices.clone(), false);
            !one.diverged && one.result.is_err_and(|b| b.sig == f.sig)
        });
        if !again {
            eprintln!("not reproducible: {} {} {} {:?}", f.sig, f.what, f.scenario, f.choices);
            continue;
        }
        reported += 1;
        let path = write_replay(prop, f);
        println!("  [{}] {}\n    scenario {} choices {:?}, in {} executions", f.sig, f.what, f.scenario, f.choices, f.count);
        println!("VIOLATION property={prop} replay={}", path.display());
    }
    crate::storage::remove_scratch();
    if reported > 0 {
        return 1;
    }
    if !bad.is_empty() || r.diverged > 0 {
        eprintln!("executions that cannot be reproduced ({} divergences): the harness does not own all nondeterminism", r.diverged);
        return 2;
    }
    if r.executions == 0 || r.steps == 0 {
        eprintln!("nothing was explored");
        return 2;
    }
    0
}

pub fn replay_file(path: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let spec: Spec = serde_json::from_value(v["spec"].clone()).expect("spec");
    let choices: Vec<u8> = serde_json::from_value(v["choices"].clone()).expect("choices");
    let one = run_once(&spec, choices, true);
    for t in &one.trace {
        println!("{t}");
    }
    crate::storage::remove_scratch();
    match one.result {
        Ok(()) => 0,
        Err(b) => {
            println!("[{}] {}", b.sig, b.what);
            1
        }
    }
}

//! One property: explore its families, report, write the evidence and the replay artefact.

use std::collections::HashSet;
use std::path::PathBuf;
use std::time::Duration;

use mcx::End;
use mcx::explore::{Found, Report, explore, replay};
use serde_json::{Value, json};

use crate::families::{self, Tier};
use crate::sim::Sim;
use crate::world::*;

pub fn workers() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
}

fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| "/verif".into(), PathBuf::from)
}

/// A recorded genuine defect that is not repaired.
struct Known {
    property: String,
    signature: String,
    /// part of the scenario's description
    scenario: String,
    what: String,
}

/// Lines `finding: property=<id> signature=<sig> scenario=<substring or *> :: <what fails>`.
fn known() -> Vec<Known> {
    let text = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let (head, what) = l.strip_prefix("finding: ")?.split_once(" :: ")?;
            let field = |k: &str| {
                head.split(' ').find_map(|w| w.strip_prefix(k).and_then(|w| w.strip_prefix('='))).map(String::from)
            };
            Some(Known {
                property: field("property")?,
                signature: field("signature")?,
                scenario: field("scenario")?,
                what: what.to_string(),
            })
        })
        .collect()
}

fn listed<'a>(known: &'a [Known], f: &Found) -> Option<&'a Known> {
    known.iter().find(|k| {
        k.property == f.property
            && k.signature == f.signature
            && (k.scenario == "*" || f.scenario.contains(&k.scenario))
    })
}

fn write_replay(f: &Found) -> PathBuf {
    let dir = verif().join("target/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", f.property, f.signature));
    let spec: Value = serde_json::from_str(&f.scenario).unwrap_or(Value::Null);
    let v = json!({
        "engine": "mc",
        "property": f.property,
        "signature": f.signature,
        "what": f.what,
        "spec": spec,
        "choices": f.choices,
        "how": "/verif/check replay <this file> prints the execution step by step",
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

struct Ctx {
    property: &'static str,
    tier: Tier,
    families: Vec<&'static str>,
    others: Vec<&'static str>,
    bounds: Value,
}

fn write_evidence(c: &Ctx, r: Option<&Report>, violations: u64, note: &str) {
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut cov = json!({
        "families": c.families,
        "families_with_at_most_one_deviation_in_the_quick_tier": c.others,
        "bounds": c.bounds,
        "rule": "states: nodes of the tree of decisions (one per distinct decision history); transitions: scheduling points executed; every trace is an execution of the real code, so each one is validated against the implementation by construction. Scenarios are enumerated (all operation sequences over a small alphabet times configurations), and for each all schedules, environment answers and faults within the stated deviation bound",
        "note": note,
    });
    let mut wall = 0.0;
    if let Some(r) = r {
        wall = r.wall;
        let m = cov.as_object_mut().unwrap();
        m.insert("states".into(), json!(r.stats.nodes));
        m.insert("transitions".into(), json!(r.stats.points));
        m.insert("traces_validated_against_impl".into(), json!(r.stats.executions));
        m.insert("executions_with_stored_data".into(), json!(r.stats.nontrivial));
        m.insert("executions_by_deviations".into(), json!(r.stats.by_cost));
        m.insert("decisions".into(), json!(r.stats.decisions));
        m.insert("longest_execution_points".into(), json!(r.stats.max_points));
        m.insert("abandoned_executions".into(), json!(r.stats.abandoned));
        m.insert("distinct_observed_outcomes".into(), json!(r.outcomes));
        m.insert("scenarios".into(), json!(r.scenarios));
        m.insert("scenarios_explored_completely".into(), json!(r.scenarios_done));
        m.insert("exhaustive".into(), json!(!r.capped && !r.gave_up && r.scenarios_done == r.scenarios));
        m.insert("samples".into(), json!(r.samples.iter().take(6).collect::<Vec<_>>()));
    }
    let v = json!({
        "property": c.property,
        "tier": match c.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": [
            "scheduling points are the synchronisation operations of the reader's thread and of the download task (locks, condition variables, atomics, notifications, cancellation, select! order, parking, timers) plus storage accesses; code between two of them runs without interruption",
            "executions with more deviations (preemptions, early events or timers, faults) than the bound of their scenario are not explored",
            "the vendored tokio and tokio-util differ from the originals only in the places listed in mc/vendor/PATCHES.md",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::write(dir.join(format!("{}.json", c.property)), serde_json::to_string_pretty(&v).unwrap());
}

fn spec_has(s: &Spec, faults: &[Fault]) -> bool {
    s.faults.iter().any(|f| faults.contains(f))
}

/// The property demands that an execution of this scenario ends.
fn demands_progress(p: &str, s: &Spec) -> bool {
    match p {
        "C02" | "C03" | "C04" | "C05" | "C22" | "C24" | "C27" => true,
        "C11" => spec_has(s, &families::FATAL),
        "C13" => spec_has(s, &[Fault::Stall]),
        "C07" => s.store.cap(s.known.then_some(s.len)).is_some(),
        "C12" => s.third != Third::None || s.program.contains(&Op::Drop) || s.program.contains(&Op::Cancel),
        "C15" => s.prefetch > 0,
        "C16" => !s.seekable,
        _ => false,
    }
}

pub fn check(prop: &str, tier: Tier, limit: u64) -> i32 {
    let Some((property, names)) = families::of_property(prop, tier) else {
        eprintln!("no families for {prop}");
        return 2;
    };
    let mut specs: Vec<Spec> = vec![];
    let mut seen = HashSet::new();
    for n in &names {
        let f = families::ALL.iter().find(|f| f.0 == *n).expect("family");
        for s in (f.1)(tier) {
            if seen.insert(s.clone()) {
                specs.push(s);
            }
        }
    }
    // every other family too, less deeply
    let others: Vec<&str> =
        families::ALL.iter().map(|f| f.0).filter(|f| !names.contains(f) && *f != "side_by_side" && property != "C27").collect();
    for n in &others {
        let f = families::ALL.iter().find(|f| f.0 == *n).expect("family");
        for mut s in (f.1)(Tier::Quick) {
            if tier == Tier::Quick {
                s.bound = s.bound.min(u32::from(!s.free_faults));
            }
            if seen.insert(s.clone()) {
                specs.push(s);
            }
        }
    }
    let mut by_bound = std::collections::BTreeMap::<u32, u64>::new();
    for s in &specs {
        *by_bound.entry(s.bound).or_default() += 1;
    }
    let ctx = Ctx {
        property,
        tier,
        families: names,
        others,
        bounds: json!({
            "scenarios_by_deviation_bound": by_bound.iter().map(|(b, n)| (b.to_string(), *n)).collect::<std::collections::BTreeMap<_, _>>(),
            "longest_program": specs.iter().map(|s| s.program.len()).max(),
            "most_faults": specs.iter().map(|s| s.fault_budget).max(),
            "time_limit_s": limit,
        }),
    };
    let scs: Vec<_> = specs.into_iter().map(|s| Sim::boxed(s, Some(property))).collect();
    let on_stuck = |s: &str, p: &[u8], crashed: bool| {
        let spec: Spec = serde_json::from_str(s).expect("spec");
        let f = Found {
            scenario: s.to_string(),
            property: property.to_string(),
            signature: if crashed { "crash" } else { "no-progress" }.into(),
            what: if crashed {
                "an execution crashes the process"
            } else {
                "an execution runs forever without reaching another synchronisation operation"
            }
            .into(),
            choices: p.to_vec(),
            cost: 0,
            count: 1,
        };
        if crashed || demands_progress(property, &spec) {
            let path = write_replay(&f);
            write_evidence(&ctx, None, 1, &format!("stopped: {}", f.what));
            println!("{}: {}\n  {s}", property, f.what);
            println!("VIOLATION property={property} replay={}", path.display());
            crate::sim::remove_scratch();
            std::process::exit(1);
        }
        eprintln!("stuck execution: {s} {p:?}");
    };
    let r = explore(&scs, workers(), Duration::from_secs(limit), &on_stuck);
    let known = known();
    let mut shown = HashSet::new();
    let mut bad: Vec<&Found> = vec![];
    for f in &r.found {
        match listed(&known, f) {
            Some(k) => {
                if shown.insert(&k.what) {
                    println!("KNOWN-FINDING: property={property} {}", k.what);
                }
            }
            None => bad.push(f),
        }
    }
    let done = if r.capped {
        "stopped by the time limit"
    } else if r.gave_up {
        "stopped after many failing executions"
    } else {
        "complete"
    };
    write_evidence(&ctx, Some(&r), bad.len() as u64, done);
    println!(
        "{property}: {} scenarios, {} executions, {} scheduling points, {} distinct outcomes, {:.1} s, {done}",
        r.scenarios, r.stats.executions, r.stats.points, r.outcomes, r.wall
    );
    // the simplest ones first, one per kind
    let mut kinds = HashSet::new();
    let mut reported = 0;
    for f in &bad {
        if !kinds.insert(&f.signature) || reported == 4 {
            continue;
        }
        // a failure counts only if the same decisions lead to it again, twice
        let spec: Spec = serde_json::from_str(&f.scenario).expect("spec");
        let again = (0..2).all(|_| {
            let (p, s, c) = (spec.clone(), f.signature.clone(), f.choices.clone());
            std::thread::spawn(move || {
                let sc = Sim::boxed(p, Some(property));
                let (r, v) = replay(&*sc, &c, false);
                !matches!(r.end, End::Divergence(_)) && v.violations.iter().any(|v| v.1 == s)
            })
            .join()
            .unwrap_or(false)
        });
        if !again {
            eprintln!("not reproducible: {} {} {:?}", f.signature, f.scenario, f.choices);
            continue;
        }
        reported += 1;
        let path = write_replay(f);
        println!("  [{}] {}\n    scenario {}\n    deviations {}, in {} executions", f.signature, f.what, f.scenario, f.cost, f.count);
        println!("VIOLATION property={property} replay={}", path.display());
    }
    if reported > 0 {
        return 1;
    }
    if !bad.is_empty() {
        eprintln!("violations that cannot be reproduced: the harness does not own all nondeterminism");
        return 2;
    }
    if !r.engine_errors.is_empty() {
        for e in r.engine_errors.iter().take(5) {
            eprintln!("engine error: {e}");
        }
        return 2;
    }
    if r.stats.executions == 0 || r.stats.nontrivial == 0 {
        eprintln!("nothing was explored");
        return 2;
    }
    0
}

pub fn replay_file(path: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let spec: Spec = serde_json::from_value(v["spec"].clone()).expect("spec");
    let choices: Vec<u8> = serde_json::from_value(v["choices"].clone()).expect("choices");
    let sc = Sim::boxed(spec, None);
    let (r, out) = replay(&*sc, &choices, true);
    for t in &r.trace {
        println!("{t}");
    }
    println!("end: {:?}", r.end);
    for p in &r.panics {
        println!("panic: {p}");
    }
    for (p, s, w) in &out.violations {
        println!("{p} [{s}] {w}");
    }
    i32::from(!out.violations.is_empty())
}

mod check;
mod families;
mod monitors;
mod net;
mod sim;
mod world;

use std::time::Duration;

use families::Tier;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if !mcx::record_panic(i.to_string()) {
            eprintln!("{i}");
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or_default();
    let code = match arg(1) {
        "check" => check::check(arg(2), tier(arg(3)), arg(4).parse().unwrap_or(600)),
        "replay" => check::replay_file(arg(2)),
        "trace" => trace(arg(2), arg(3)),
        "survey" => survey(arg(2), tier(arg(3)), arg(4).parse().unwrap_or(60)),
        _ => {
            eprintln!("usage: mc check PROP TIER SECONDS | replay FILE | survey FAMILY|all TIER SECONDS | trace SPEC CHOICES");
            2
        }
    };
    sim::remove_scratch();
    std::process::exit(code);
}

fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn trace(spec: &str, choices: &str) -> i32 {
    let spec: world::Spec = serde_json::from_str(spec).unwrap();
    let mut ch: Vec<u8> = vec![];
    for p in choices.split(';').filter(|s| !s.is_empty()) {
        let (i, c) = p.split_once(':').unwrap();
        let i: usize = i.parse().unwrap();
        ch.resize(i + 1, 0);
        ch[i] = c.parse().unwrap();
    }
    let sim = sim::Sim::boxed(spec, None);
    let (r, v) = mcx::explore::replay(&*sim, &ch, true);
    for t in &r.trace {
        println!("{t}");
    }
    println!("{:?} {:?}", r.end, v.violations);
    0
}

/// All monitors on all families: for development.
fn survey(only: &str, tier: Tier, limit: u64) -> i32 {
    let stuck = |s: &str, p: &[u8], crashed: bool| eprintln!("stuck {s} {p:?}, crashed: {crashed}");
    for (name, f) in families::ALL {
        if only != "all" && only != *name {
            continue;
        }
        let v: Vec<_> = f(tier).into_iter().map(|s| sim::Sim::boxed(s, None)).collect();
        let r = mcx::explore::explore(&v, check::workers(), Duration::from_secs(limit), &stuck);
        println!(
            "== {name}: ex {} pts {} nontrivial {} maxp {} aband {} outcomes {} sc {}/{} wall {:.1} capped {} gave up {} errs {} {:?}",
            r.stats.executions, r.stats.points, r.stats.nontrivial, r.stats.max_points, r.stats.abandoned, r.outcomes,
            r.scenarios_done, r.scenarios, r.wall, r.capped, r.gave_up, r.engine_errors.len(), r.engine_errors.first()
        );
        let mut by: std::collections::BTreeMap<(String, String), Vec<&mcx::explore::Found>> = Default::default();
        for f in &r.found {
            by.entry((f.property.clone(), f.signature.clone())).or_default().push(f);
        }
        for ((p, s), fs) in by {
            let m = fs
                .iter()
                .min_by_key(|f| (f.cost, f.choices.iter().filter(|c| **c != 0).count(), f.scenario.len()))
                .unwrap();
            println!(
                "  {p} {s}: {} scenarios, {} executions; min cost {}: {}\n      {}\n      {:?}",
                fs.len(), fs.iter().map(|f| f.count).sum::<u64>(), m.cost, m.what, m.scenario,
                m.choices.iter().enumerate().filter(|c| *c.1 != 0).collect::<Vec<_>>()
            );
        }
    }
    0
}

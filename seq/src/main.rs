mod aio;
#[path = "../../mc/engine/src/crash.rs"]
mod crash;
mod check;
mod ctl;
mod dal;
mod http;
mod middleware;
mod open;
mod proc;
mod reader;
mod registry;
mod settings;
mod spec;
mod storage;
mod stores;
mod ways;
mod wire;

fn main() {
    if let Some(code) = proc::stub() {
        std::process::exit(code);
    }
    ctl::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.iter().map(String::as_str).collect::<Vec<_>>()[..] {
        [_, "check", prop, tier, limit] => check::check(prop, tier == "thorough", limit.parse().expect("seconds")),
        [_, "middleware", ops] => middleware::child(ops),
        [_, "replay", file] => check::replay_file(file),
        _ => {
            eprintln!("usage: seq check PROPERTY quick|thorough SECONDS | replay FILE");
            2
        }
    };
    let _ = std::fs::remove_dir(proc::scratch_root());
    std::process::exit(code);
}

mod alloc;
mod explore;
mod cs;
mod hc;
mod report;
mod checks;

use std::time::Duration;

#[global_allocator]
static GLOBAL: alloc::Checked = alloc::Checked;

fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "plain"
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2], &args[3]),
        Some("list") => {
            for (i, s) in checks::build(&args[2], &args[3]).unwrap().scenarios.iter().enumerate() {
                println!("{} {} bound={}", i, s.name, s.bound);
            }
        }
        Some("replay") => replay(&args[2]),
        _ => {
            eprintln!("usage: mc check ID TIER | mc list ID TIER | mc replay FILE");
            std::process::exit(2);
        }
    }
}

fn spec(id: &str, tier: &str) -> (explore::Spec, checks::Check) {
    let mut c = match checks::build(id, tier) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    if let Ok(f) = std::env::var("MC_FILTER") {
        c.scenarios.retain(|s| s.name.contains(&f));
    }
    let scenarios = std::mem::take(&mut c.scenarios);
    let wall = std::env::var("MC_WALL").ok().and_then(|v| v.parse().ok()).unwrap_or(c.wall_s);
    (
        explore::Spec {
            property: id.into(),
            tier: tier.into(),
            profile: profile().into(),
            scenarios,
            wall_cap: Duration::from_secs(wall),
            cpu_limit: Duration::from_secs(c.cpu_limit_s),
            mem_limit: 3 << 30,
            replay_dir: std::env::var("MC_REPLAYS").unwrap_or_else(|_| "/verif/replays".into()),
            stop_at_first: std::env::var("MC_ALL").is_err(),
            known: known(id),
        },
        c,
    )
}

/// The lines "KNOWN-FINDING: property=ID scenario=NAME | FAILURE | DESCRIPTION" of KNOWN_FINDINGS.txt
fn known(id: &str) -> Vec<(String, String)> {
    let path = std::env::var("MC_KNOWN").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../KNOWN_FINDINGS.txt").into());
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let start = format!("KNOWN-FINDING: property={} scenario=", id);
    text.lines()
        .filter_map(|l| l.strip_prefix(&start))
        .filter_map(|l| {
            let mut f = l.split(" | ");
            Some((f.next()?.trim().to_string(), f.next()?.trim().to_string()))
        })
        .collect()
}

fn check(id: &str, tier: &str) {
    let (spec, c) = spec(id, tier);
    let s = explore::explore(&spec);
    report::evidence(id, tier, profile(), &s, &c.bounds, &c.assumptions);
    println!(
        "{} {} [{}]: {} scenarios, {} executions {:?} (deviation bound {} of {} completed{}), {} states, {} transitions, longest execution {:.0} ms, {:.1} s",
        id, tier, profile(), s.scenarios, s.executions, s.per_level, s.completed_bound, s.max_bound,
        if s.capped { ", WALL-CAPPED: not exhaustive" } else { "" },
        s.states, s.transitions, s.max_exec_ms, s.wall_s
    );
    if s.divergences > 0 {
        println!("note: {} executions diverged from their recorded prefix", s.divergences);
    }
    let mut listed = s.known.clone();
    listed.sort();
    listed.dedup();
    for (n, m) in listed {
        println!("KNOWN-FINDING: property={} scenario={}: {}", id, n, m);
    }
    if !s.violations.is_empty() {
        let mut seen = std::collections::HashSet::new();
        for (n, m, p) in s.violations.iter() {
            if seen.insert(n.clone()) {
                println!("scenario: {}\nfailure: {}", n, m);
                println!("VIOLATION property={} replay={}", id, p);
            }
        }
        std::process::exit(1);
    }
}

fn replay(path: &str) {
    let text = std::fs::read_to_string(path).expect("cannot read replay file");
    let get = |k: &str| -> String {
        text.lines().find(|l| l.starts_with(k)).map(|l| l[k.len()..].trim().to_string()).unwrap_or_default()
    };
    let id = get("property ");
    let tier = get("tier ");
    if get("profile ") != profile() {
        println!("note: recorded with the {} build, replaying with the {} build", get("profile "), profile());
    }
    let name = get("scenario ").splitn(2, ' ').nth(1).unwrap_or("").to_string();
    let prefix: Vec<u32> = get("choices ").split(',').filter_map(|v| v.parse().ok()).collect();
    let (spec, _) = spec(&id, &tier);
    let scen = spec.scenarios.iter().position(|s| s.name == name).expect("no such scenario");
    let r = explore::replay(&spec, scen, &prefix);
    for l in r.log.iter() {
        println!("{}", l);
    }
    match r.outcome {
        explore::Outcome::Ok => println!("no violation"),
        explore::Outcome::Fail(m) => {
            println!("failure: {}", m);
            println!("VIOLATION property={} replay={}", id, path);
            std::process::exit(1);
        }
    }
}

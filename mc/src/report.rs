use crate::explore::Summary;

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1)
}

fn dir() -> String {
    std::env::var("MC_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into())
}

pub fn evidence(property: &str, tier: &str, profile: &str, s: &Summary, bounds: &str, assumptions: &[&str]) {
    let mut samples: Vec<String> = s.samples.iter().map(|x| esc(&x.chars().take(3000).collect::<String>())).collect();
    for (n, m, p) in s.violations.iter().take(5) {
        samples.push(esc(&format!("VIOLATION in {}: {} ({})", n, m, p)));
    }
    let lv: Vec<String> = s.per_level.iter().map(|v| v.to_string()).collect();
    let asm: Vec<String> = assumptions.iter().map(|a| esc(a)).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"executions_by_deviation_count\": [{}],\n  \"scenarios\": {},\n  \"deviation_bound\": {},\n  \"deviation_bound_completed\": {},\n  \"exhaustive\": {},\n  \"wall_capped\": {},\n  \"determinism_rechecks\": {},\n  \"nondeterministic_replays\": {},\n  \"build_profile\": {},\n  \"longest_execution_ms\": {:.1},\n  \"bounds\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        esc(property), esc(tier), seed(), s.states, s.transitions, s.executions, lv.join(", "), s.scenarios,
        s.max_bound, s.completed_bound, !s.capped && s.violations.is_empty(), s.capped, s.rechecked, s.divergences, esc(profile),
        s.max_exec_ms, esc(bounds), samples.join(",\n   "), asm.join(", "), s.wall_s, s.violations.len()
    );
    let d = dir();
    let _ = std::fs::create_dir_all(&d);
    let suffix = if profile == "plain" { ".plain" } else { "" };
    let _ = std::fs::write(format!("{}/{}{}.json", d, property, suffix), text);
}

pub fn emergency_evidence(property: &str, tier: &str, scen: &str, msg: &str) {
    let text = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 1, \"samples\": [{}]}}, \"wall_s\": 0, \"violations\": 1}}\n",
        esc(property), esc(tier), seed(), esc(&format!("{}: {}", scen, msg))
    );
    let d = dir();
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(format!("{}/{}.json", d, property), text);
}

//! Evidence files.

use crate::checks::Check;
use crate::engine::Totals;
use std::path::Path;
use std::time::Duration;

pub fn json(s: &str) -> String {
    let mut t = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => t.push_str("\\\""),
            '\\' => t.push_str("\\\\"),
            '\n' => t.push_str("\\n"),
            '\r' => t.push_str("\\r"),
            '\t' => t.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => t.push_str(&format!("\\u{:04x}", c as u32)),
            c => t.push(c),
        }
    }
    t.push('"');
    t
}

fn cut(s: &str, max: usize) -> String {
    if s.chars().count() > max {
        let t: String = s.chars().take(max).collect();
        format!("{t}…")
    } else {
        s.to_string()
    }
}

#[allow(clippy::too_many_arguments)]
pub fn write_evidence(
    dir: &Path,
    c: &Check,
    seed: u64,
    thorough: bool,
    totals: &Totals,
    fixed: u64,
    wall: Duration,
    violations: &[String],
    extra: Option<&str>,
) {
    let mut samples = totals.samples.clone();
    samples.sort();
    let samples: Vec<String> = samples
        .iter()
        .map(|(_, s)| json(&cut(s, 700)))
        .take(16)
        .collect();
    let map = |m: &std::collections::BTreeMap<&'static str, u64>| {
        let items: Vec<String> = m.iter().map(|(k, n)| format!("{}: {n}", json(k))).collect();
        format!("{{{}}}", items.join(", "))
    };
    let list = |v: &[String]| {
        let items: Vec<String> = v.iter().map(|s| json(&cut(s, 2000))).collect();
        format!("[{}]", items.join(", "))
    };
    let parts: Vec<String> = totals.by_part.iter().map(|(name, n)| format!("{}: {n}", json(name))).collect();
    let assumptions: Vec<String> = c.assumptions.iter().map(|s| s.to_string()).collect();
    let body = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"fixed_cases\": {fixed},\n    \"generated_cases\": {},\n    \"oracle_evaluations_in_cases\": {},\n    \"nontrivial\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"cases_by_part\": {{{}}},\n    \"cases_by_kind\": {},\n    \"known_finding_cases\": {},\n    \"skipped_for_time\": {},\n    \"violation_messages\": {},{}\n    \"samples\": [{}]\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        json(c.id),
        json(if thorough { "thorough" } else { "quick" }),
        totals.evaluations + fixed,
        totals.evaluations,
        totals.extra_evals,
        totals.nontrivial,
        totals.distinct.len(),
        json(&format!("Every case is made by the structured generators of the check from seeded, recorded draws (and the fixed cases from tables). Non-trivial: {}.", c.rule)),
        parts.join(", "),
        map(&totals.labels),
        map(&totals.known),
        totals.skipped,
        list(violations),
        extra.unwrap_or(""),
        samples.join(", "),
        list(&assumptions),
        wall.as_secs_f64(),
        violations.len(),
    );
    let path = dir.join("evidence").join(format!("{}.json", c.id));
    if let Err(e) = std::fs::write(&path, body) {
        eprintln!("can't write {}: {e}", path.display());
    }
}

//! Variables of storyboard files.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cmds::{print_all, Cmd, Kind as CmdKind};
use crate::model::events::{gen_events, print_events, Ev, Kind, Orig};
use crate::model::file::{build, check_events, Noise};
use crate::model::*;
use osu_file_parser::osb::Variable;
use osu_file_parser::*;

pub const CHECK: Check = Check {
    id: "C08",
    rule: "a variable is used in a command",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "read", case: read, quick: 60_000, thorough: 3_000_000 },
        Part { name: "written with names", case: write_names, quick: 50_000, thorough: 2_500_000 },
        Part { name: "written and read", case: write_read, quick: 60_000, thorough: 3_000_000 },
        Part { name: "any variables", case: any_variables, quick: 60_000, thorough: 2_000_000 },
    ],
};

const NAMES: [&str; 28] = [
    "vaQ", "wide", "k_1", "bé字", "w9", "VAR 2", "m-n", "b.z", "n10q", "n11q", "n12q", "n13q", "n14q", "n15q", "n16q",
    "n17q", "n18q", "n19q", "n20q", "n21q", "n22q", "n23q", "n24q", "n25q", "n26q", "n27q", "n28q", "n29q",
];

/// Amount of variables.
fn amount(s: &mut Src, lo: usize, hi: usize) -> usize {
    match s.weighted(&[30, 1]) {
        0 => s.size(lo, hi),
        _ => s.size(lo, NAMES.len()),
    }
}

/// Events with commands.
fn events_with_cmds(s: &mut Src) -> Vec<Ev> {
    let mut events = gen_events(s, 14);
    let n = s.size(1, 3);
    for _ in 0..n {
        let cmds = Cmd::list(s);
        events.push(super::c07::sprite(s, cmds));
    }
    events
}

fn is_cmd(line: &str) -> bool {
    line.starts_with(' ') || line.starts_with('_')
}

fn source(s: &mut Src, vars: &[(String, String)], lines: Vec<String>, noise: Noise) -> String {
    let mut secs = Vec::new();
    if !vars.is_empty() || s.bool() {
        let vars = vars.iter().map(|(n, v)| format!("${n}={v}")).collect();
        secs.push(("Variables".to_string(), vars));
    }
    secs.push(("Events".to_string(), lines));
    build(s, None, &secs, noise).text()
}

fn parse(text: &str) -> Result<OsuFile, String> {
    let mut f = OsuFile::new(14);
    match f.append_osb(text) {
        Ok(()) => Ok(f),
        Err(e) => Err(format!("{text:?} isn't read: {e}")),
    }
}

fn osb(f: &OsuFile) -> &Osb {
    f.osb.as_ref().expect("storyboard")
}

/// Commands read with names in place of some of their text are the same as those with the text.
fn read(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let events = events_with_cmds(s);
    let lines: Vec<String> = events.iter().flat_map(|e| e.lines(s, 14)).collect();
    let cmds: Vec<usize> = (0..lines.len()).filter(|i| is_cmd(&lines[*i])).collect();
    // text of a command that's behind the command type
    let rest_of = |l: &str| l.find(',').map(|i| (l[..=i].to_string(), l[i + 1..].to_string()));
    let mut names = NAMES.to_vec();
    s.shuffle(&mut names);
    let mut vars: Vec<(String, String)> = Vec::new();
    for name in names.iter().take(amount(s, 1, 4)) {
        let value = match cmds.is_empty() {
            true => int(s).to_string(),
            false => {
                let (_, rest) = rest_of(&lines[s.pick(&cmds)]).unwrap_or_default();
                match s.weighted(&[3, 2]) {
                    0 => {
                        let fields: Vec<&str> = rest.split(',').collect();
                        let i = s.below(fields.len());
                        let j = s.size(i, (i + 3).min(fields.len() - 1));
                        fields[i..=j].join(",")
                    }
                    _ => {
                        let at: Vec<usize> = rest.char_indices().map(|(i, _)| i).chain([rest.len()]).collect();
                        let a = s.below(at.len());
                        let b = s.size(a, at.len() - 1);
                        rest[at[a]..at[b]].to_string()
                    }
                }
            }
        };
        if value.is_empty() || value.contains('$') || value.trim() != value {
            continue;
        }
        vars.push((name.to_string(), value));
    }
    let mut used = 0;
    let mut with: Vec<String> = Vec::new();
    for (i, line) in lines.iter().enumerate() {
        let (Some((head, rest)), true) = (rest_of(line), cmds.contains(&i)) else {
            with.push(line.clone());
            continue;
        };
        let mut out = head;
        let mut at = 0;
        'text: while at < rest.len() {
            for (name, value) in &vars {
                if rest[at..].starts_with(value.as_str()) && s.bool() {
                    out.push_str(&format!("${name}"));
                    at += value.len();
                    used += 1;
                    continue 'text;
                }
            }
            let ch = rest[at..].chars().next().unwrap();
            out.push(ch);
            at += ch.len_utf8();
        }
        with.push(out);
    }
    let noise = Noise::gen(s);
    let text = source(s, &vars, with, noise);
    c.sample(|| text.clone());
    c.label(match used {
        0 => "no variable used",
        1..=3 => "variables used up to 3 times",
        _ => "variables used 4 times and more",
    });
    if used > 0 {
        c.nontrivial(&text);
    }
    let got = parse(&text)?;
    let got_vars: Vec<_> = osb(&got).variables.iter().flatten().map(|v| (v.name.clone(), v.value.clone())).collect();
    same(format_args!("{text:?} variables"), vars, got_vars)?;
    match &osb(&got).events {
        Some(e) => check_events(&events, e).map_err(|e| format!("{text:?} read wrong: {e}")),
        None => Err(format!("{text:?} has no events")),
    }
}

/// The text that a command line with names stands for.
fn expand(line: &str, vars: &[(String, String)]) -> String {
    let mut out = line.to_string();
    let rest = line.split_once(',').map_or(line, |(_, r)| r);
    for (name, value) in vars {
        let name = format!("${name}");
        if rest.contains(&name) {
            out = out.replace(&name, value);
        }
    }
    out
}

/// Values of variables in commands are written as names.
fn write_names(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut names = NAMES.to_vec();
    s.shuffle(&mut names);
    // values that aren't in each other and not in anything else
    let mut vars: Vec<(String, String)> = Vec::new();
    for (i, name) in names.iter().take(amount(s, 0, 4)).enumerate() {
        let value = format!("7{}7{}", i + 1, s.range(100_000, 899_999));
        vars.push((name.to_string(), value));
    }
    let mut cmds = Cmd::list(s);
    fn fill(s: &mut Src, cmds: &mut [Cmd], vars: &[(String, String)]) {
        for m in cmds {
            if vars.is_empty() {
                return;
            }
            let v = |s: &mut Src| s.pick(vars).1.parse::<i64>().unwrap();
            if s.bool() && m.start.is_some() {
                m.start = Some(v(s) as i32);
            }
            if s.chance(1, 3) && m.end.is_some() {
                m.end = Some(v(s) as i32);
            }
            match &mut m.kind {
                CmdKind::One(_, a, rest) => {
                    if s.bool() {
                        *a = Num::int(v(s));
                    }
                    for r in rest {
                        if s.bool() {
                            *r = Num::int(-v(s));
                        }
                    }
                }
                CmdKind::Two(_, (a, b), rest) => {
                    *b = Num::int(v(s));
                    if s.bool() {
                        *a = Num::Dec(rust_decimal::Decimal::new(v(s), 0));
                    }
                    for (_, r) in rest {
                        if s.bool() && r.is_some() {
                            *r = Some(Num::int(v(s)));
                        }
                    }
                }
                CmdKind::Loop(n) => *n = v(s) as u32,
                _ => {}
            }
            fill(s, &mut m.subs, vars);
        }
    }
    fill(s, &mut cmds, &vars);
    let e = super::c07::sprite(s, cmds);
    let expected_lines: Vec<String> = e
        .print(14)
        .unwrap()
        .lines()
        .map(|l| match (is_cmd(l), l.split_once(',')) {
            (true, Some((head, rest))) => {
                let mut rest = rest.to_string();
                for (n, v) in &vars {
                    rest = rest.replace(v, &format!("${n}"));
                }
                format!("{head},{rest}")
            }
            _ => l.to_string(),
        })
        .collect();
    let mut expected = String::new();
    if !vars.is_empty() {
        expected.push_str("[Variables]");
        for (n, v) in &vars {
            expected.push_str(&format!("\n${n}={v}"));
        }
        expected.push_str("\n\n");
    }
    expected.push_str(&format!("[Events]\n{}", expected_lines.join("\n")));
    let lines = e.lines(s, 14);
    let mut secs = Vec::new();
    if !vars.is_empty() {
        let vars: Vec<String> = vars.iter().map(|(n, v)| format!("${n}={v}")).collect();
        secs.push(("Variables".to_string(), vars));
    }
    secs.push(("Events".to_string(), lines));
    let text = build(s, None, &secs, Noise::default()).text();
    c.sample(|| expected.clone());
    if expected_lines.iter().any(|l| is_cmd(l) && vars.iter().any(|(n, _)| l.contains(&format!("${n}")))) {
        c.nontrivial(&expected);
    }
    let got = parse(&text)?;
    let printed = got.osb_to_string();
    ensure!(
        printed.as_deref() == Some(expected.as_str()),
        "{text:?} written as {}, expected {expected:?}",
        show(&printed)
    );
    Ok(())
}

/// Whatever the variables are, what's written is read as the same storyboard.
fn write_read(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let events = events_with_cmds(s);
    let plain = print_events(&events, 14);
    let fields: Vec<String> = plain
        .lines()
        .filter(|l| is_cmd(l))
        .flat_map(|l| l.split(',').skip(1).map(|f| f.to_string()).collect::<Vec<_>>())
        .filter(|f| !f.is_empty())
        .collect();
    let any = |s: &mut Src| -> String {
        match s.weighted(&[3, 3, 2, 1]) {
            0 => s.pick(&["0", "1", ",", "0,", ",,", "10", "-", ".", "00", "v", "a", "ab", "b", "1a", ""]).to_string(),
            1 if !fields.is_empty() => s.pick(&fields),
            2 => byte(s).to_string(),
            _ => word(s),
        }
    };
    let mut vars: Vec<(String, String)> = Vec::new();
    for _ in 0..amount(s, 1, 5) {
        let (name, value) = (any(s), any(s));
        if name.contains(['=', '$']) || value.contains('$') || vars.iter().any(|(n, _)| *n == name) {
            continue;
        }
        if value.trim() != value || name.trim() != name {
            continue;
        }
        vars.push((name, value));
    }
    if plain.lines().any(|l| is_cmd(l) && l.contains('$')) {
        // text that could be the name of a variable
        return Ok(());
    }
    let lines: Vec<String> = events.iter().flat_map(|e| e.lines(s, 14)).collect();
    let text = source(s, &vars, lines, Noise::default());
    let got = parse(&text)?;
    let Some(printed) = got.osb_to_string() else { fail!("{text:?} isn't written") };
    c.sample(|| printed.clone());
    if printed.lines().any(|l| is_cmd(l) && l.contains('$')) {
        c.nontrivial(&printed);
    }
    let again = parse(&printed)?;
    ensure!(
        again == got,
        "{text:?} written as {printed:?}, which is read as {:?}, expected {:?}",
        osb(&again),
        osb(&got)
    );
    // the names stand for what's written without variables
    let written = printed.split_once("[Events]\n").map_or("", |(_, e)| e);
    let expanded: Vec<String> = written
        .lines()
        .map(|l| if is_cmd(l) { expand(l, &vars) } else { l.to_string() })
        .collect();
    let expanded = expanded.join("\n");
    ensure!(
        expanded == plain,
        "{text:?} written as {printed:?}, which stands for {expanded:?}, expected {plain:?}"
    );
    Ok(())
}

/// Any text is the value of a variable, whether it's used or not.
fn any_variables(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut vars: Vec<(String, String)> = Vec::new();
    for _ in 0..amount(s, 1, 5) {
        let name = match s.below(3) {
            0 => s.pick(&NAMES).to_string(),
            1 => text_without(s, 6, &['=']),
            _ => word(s),
        };
        let value = match s.below(4) {
            0 => int(s).to_string(),
            1 => format!("{}={}", word(s), word(s)),
            2 => s.pick(&["", "=", "==", "$", "$a", "//", ",", "=a", "[a]", "a\\n", "\"a\""]).to_string(),
            _ => text(s, 12),
        };
        vars.push((name, value));
    }
    let noise = Noise::gen(s);
    let alone = s.bool();
    let text = if alone {
        // without a section of events
        let lines = vars.iter().map(|(n, v)| format!("${n}={v}")).collect();
        build(s, None, &[("Variables".to_string(), lines)], noise).text()
    } else {
        source(s, &vars, Vec::new(), noise)
    };
    c.sample(|| text.clone());
    if vars.iter().any(|(_, v)| !v.is_empty() && !v.chars().all(char::is_alphanumeric)) {
        c.nontrivial(&text);
    }
    let got = parse(&text)?;
    let got_vars: Vec<_> = osb(&got).variables.iter().flatten().map(|v| (v.name.clone(), v.value.clone())).collect();
    same(format_args!("{text:?} variables"), &vars, &got_vars)?;
    let printed = got.osb_to_string().unwrap_or_default();
    let lines: Vec<String> = vars.iter().map(|(n, v)| format!("${n}={v}")).collect();
    let written = format!("[Variables]\n{}", lines.join("\n"));
    ensure!(
        if alone { printed == written } else { printed.starts_with(&format!("{written}\n\n[Events]")) },
        "{text:?} written as {printed:?}, expected {written:?}"
    );
    let again = parse(&printed)?;
    ensure!(again == got, "{text:?} written as {printed:?}, which is read as {again:?}");
    Ok(())
}

fn fixed(f: &mut Fixed) {
    super::large::storyboard(f);
    f.case("value in the name of another variable", || {
        let text = "[Variables]\n$a=1\n$1b=5\n\n[Events]\nSprite,Fail,Centre,a.png,0,0\n F,0,5,15,1";
        let got = parse(text)?;
        let printed = got.osb_to_string().unwrap_or_default();
        ensure!(parse(&printed)? == got, "{text:?} written as {printed:?}, which is read as something else");
        Ok(())
    });
    f.case("only commands have variables", || {
        let text = "[Variables]\n$a=1\n\n[Events]\n//$a\nSprite,Fail,Centre,$a.png,0,0\n F,0,$a,$a,$a$a\n0,0,$a.png";
        let got = parse(text)?;
        let plain = "[Events]\n//$a\nSprite,Fail,Centre,$a.png,0,0\n F,0,1,1,11\n0,0,$a.png";
        same("events", &osb(&parse(plain)?).events, &osb(&got).events)
    });
}

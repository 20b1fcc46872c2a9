//! Reading what's written.

use super::*;
use crate::engine::*;
use crate::model::events::gen_events;
use crate::model::file::*;
use crate::model::*;
use crate::mutate::*;
use osu_file_parser::*;

pub const CHECK: Check = Check {
    id: "C02",
    rule: "the file is accepted and has at least one section with content",
    assumptions: &[],
    fixed: |_| {},
    parts: &[
        Part { name: "files", case: files, quick: 40_000, thorough: 2_000_000 },
        Part { name: "edited files", case: edited, quick: 80_000, thorough: 4_000_000 },
        Part { name: "edited lists", case: edited_sections, quick: 120_000, thorough: 6_000_000 },
        Part { name: "storyboards", case: storyboards, quick: 60_000, thorough: 3_000_000 },
    ],
};

fn files(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let f = File::gen_stable(s, v);
    let noise = Noise::gen(s);
    let text = f.source(s, noise).text();
    c.sample(|| text.clone());
    if f.items() > 0 {
        c.nontrivial(&text);
    }
    let a = match text.parse::<OsuFile>() {
        Ok(a) => a,
        Err(e) => fail!("{text:?} isn't read: {e}"),
    };
    let t1 = a.to_string();
    let b = match t1.parse::<OsuFile>() {
        Ok(b) => b,
        Err(e) => fail!("{text:?} is written as {t1:?}, which isn't read: {e}"),
    };
    if let Err(e) = f.check(&b) {
        fail!("{text:?} is written as {t1:?}, which is read wrong: {e}");
    }
    // values that can be compared with each other
    let comparable = a.clone();
    ensure!(
        comparable == b,
        "{text:?} read as {a:?}, written as {t1:?}, and read again as {b:?}"
    );
    let t2 = b.to_string();
    ensure!(t1 == t2, "{text:?} is written as {t1:?}, and when read again as {t2:?}");
    Ok(())
}

/// A line that starts with a bracket, but isn't a section name.
/// It can only be read from a source that has it behind something, and there's no other way to write it.
fn brackets_in_content(t: &str) -> bool {
    t.lines().any(|l| {
        l.starts_with('[')
            && !NAMES.iter().any(|n| l.strip_prefix('[').and_then(|l| l.strip_suffix(']')) == Some(n))
    })
}

/// Version 3 repeats the position as curve point, where separators of curve points can't be in it.
fn odd_positions(a: &OsuFile) -> bool {
    let odd = |d: &Decimal| matches!(d.get(), either::Either::Right(t) if t.contains(['|', ':']));
    a.version == 3
        && a.hitobjects
            .iter()
            .flat_map(|h| &h.0)
            .any(|h| odd(&h.position.x) || odd(&h.position.y))
}

/// Numbers of more than 24 chars.
fn has_long_number(t: &str) -> bool {
    t.split(|c: char| !(c.is_ascii_digit() || c == '.' || c == '_'))
        .any(|n| n.len() > 24)
}

/// Writing and reading again doesn't change an accepted text any further.
pub fn stable(text: &str) -> Result<Option<String>, String> {
    if text.replace("\r\n", "\n").contains('\r') {
        // lines end with LF or CRLF
        return Ok(None);
    }
    let a = match text.parse::<OsuFile>() {
        Ok(a) => a,
        Err(_) => return Ok(None),
    };
    let t1 = a.to_string();
    if is_old(a.version) && has_long_number(text) {
        // the decimal type rounds these numbers when they're moved in time
        return Ok(None);
    }
    if brackets_in_content(&t1) || odd_positions(&a) {
        return Ok(None);
    }
    let b = match t1.parse::<OsuFile>() {
        Ok(b) => b,
        Err(e) => fail!("{text:?} is written as {t1:?}, which isn't read: {e}"),
    };
    let t2 = b.to_string();
    ensure!(t1 == t2, "{text:?} is written as {t1:?}, and when read again as {t2:?}");
    Ok(Some(t1))
}

fn edited(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let f = File::gen(s, v);
    let text = f.source(s, Noise::default()).text();
    let text = mutate(s, &text);
    c.sample(|| text.clone());
    match stable(&text)? {
        Some(t) => {
            c.label("accepted");
            if t.contains('[') {
                c.nontrivial(&text);
            }
        }
        None => c.label("rejected"),
    }
    Ok(())
}

/// Edits of a single section, which are accepted more often.
fn edited_sections(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let i = s.below(8);
    let f = File {
        version: v,
        sections: vec![Section::gen(s, i, v)],
    };
    let text = f.source(s, Noise::default()).text();
    let text = mutate_once(s, &text);
    c.sample(|| text.clone());
    match stable(&text)? {
        Some(t) => {
            c.label("accepted");
            if t.contains('[') {
                c.nontrivial(&text);
            }
        }
        None => c.label("rejected"),
    }
    Ok(())
}

fn storyboards(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let events = gen_events(s, 14);
    let lines: Vec<String> = events.iter().flat_map(|e| e.lines(s, 14)).collect();
    let noise = Noise { lead: 0, ..Noise::gen(s) };
    let mut secs = Vec::new();
    // any of the sections can be missing
    let which = s.weighted(&[6, 3, 1]);
    if which > 0 {
        let names = ["speed", "xY", "q"];
        let vars = (0..s.size(0, 3)).map(|i| format!("${}={}", names[i], crate::gen::int(s))).collect();
        secs.push(("Variables".to_string(), vars));
    }
    if which < 2 {
        secs.push(("Events".to_string(), lines));
    }
    c.label(["only events", "variables and events", "only variables"][which]);
    let text = build(s, None, &secs, noise).text();
    let edit = s.bool();
    let text = if edit { mutate_once(s, &text) } else { text };
    c.sample(|| text.clone());
    if text.replace("\r\n", "\n").contains('\r') {
        return Ok(());
    }
    let mut a = OsuFile::new(14);
    match a.append_osb(&text) {
        Ok(()) => {}
        Err(_) if edit => {
            c.label("rejected");
            return Ok(());
        }
        Err(e) => fail!("{text:?} isn't read: {e}"),
    }
    c.label("accepted");
    if !events.is_empty() {
        c.nontrivial(&text);
    }
    let Some(t1) = a.osb_to_string() else { fail!("{text:?} isn't written") };
    if brackets_in_content(&t1) {
        return Ok(());
    }
    let mut b = OsuFile::new(14);
    if let Err(e) = b.append_osb(&t1) {
        fail!("{text:?} is written as {t1:?}, which isn't read: {e}");
    }
    let t2 = b.osb_to_string().unwrap_or_default();
    ensure!(t1 == t2, "{text:?} is written as {t1:?}, and when read again as {t2:?}");
    if !edit {
        ensure!(a == b, "{text:?} is written as {t1:?}, which reads different");
    }
    Ok(())
}

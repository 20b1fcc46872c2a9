//! What the layout of a file doesn't change.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::events::{gen_events, Ev};
use crate::model::file::*;
use crate::model::hitobjects::Ho;
use crate::model::kv::{self, Kv};
use crate::model::timing::Tp;
use crate::model::*;
use crate::mutate::*;
use osu_file_parser::*;

pub const CHECK: Check = Check {
    id: "C11",
    rule: "there are at least two lines of content",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "files", case: files, quick: 40_000, thorough: 2_000_000 },
        Part { name: "storyboards", case: storyboards, quick: 40_000, thorough: 2_000_000 },
        Part { name: "edited files", case: edited, quick: 60_000, thorough: 3_000_000 },
        Part { name: "lists", case: lists, quick: 100_000, thorough: 5_000_000 },
        Part { name: "field order", case: field_order, quick: 80_000, thorough: 4_000_000 },
    ],
};

fn fixed(f: &mut Fixed) {
    for comment in ["// [x]", "//]", " // x ]", "// [x] y", "//[x", "//", "// // [Events]"] {
        f.case(&format!("comment {comment:?} before the sections"), || {
            let text = format!("osu file format v14\n\n{comment}\n[General]\nMode: 0\n");
            match text.parse::<OsuFile>() {
                Ok(g) => same(&text, "osu file format v14\n\n[General]\nMode: 0".to_string(), g.to_string())?,
                Err(e) => fail!("{text:?} isn't read: {e}"),
            }
            let text = format!("{comment}\n\n[Events]\n//a\n");
            match fs::<Osb>(&text, 14) {
                Ok(o) => same(&text, Some("[Events]\n//a".to_string()), o.and_then(|o| ts(&o, 14))),
                Err(e) => fail!("{text:?} isn't read: {e}"),
            }
        });
    }
}

fn files(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let f = File::gen(s, v);
    let mut secs = f.section_lines(s);
    let first = f.version_line();
    let plain = build(s, Some(&first), &secs, Noise::default()).text();
    if f.items() >= 2 {
        c.nontrivial(&plain);
    }
    let a = match plain.parse::<OsuFile>() {
        Ok(a) => a,
        Err(e) => fail!("{plain:?} isn't read: {e}"),
    };
    for _ in 0..3 {
        let noise = Noise::gen(s);
        let text = build(s, Some(&first), &secs, noise.clone()).text();
        c.sample(|| text.clone());
        c.label_if(noise.bom, "byte order mark");
        c.label_if(noise.crlf, "CRLF");
        c.label_if(noise.comments, "comments");
        c.extra_evals += 1;
        match text.parse::<OsuFile>() {
            Ok(b) => ensure!(a == b, "{plain:?} read as {a:?}, {text:?} read as {b:?}"),
            Err(e) => fail!("{plain:?} is read, {text:?} isn't: {e}"),
        }
        // sections in any order
        s.shuffle(&mut secs);
    }
    Ok(())
}

fn storyboards(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let names = ["vaA", "vbB", "vcC"];
    let vars: Vec<String> = (0..s.size(0, 3)).map(|i| format!("${}={}", names[i], text(s, 5))).collect();
    let events = gen_events(s, 14);
    let lines: Vec<String> = events.iter().flat_map(|e| e.lines(s, 14)).collect();
    if lines.len() >= 2 {
        c.nontrivial(&format!("{lines:?}"));
    }
    let mut secs = Vec::new();
    if s.bool() {
        secs.push(("Variables".to_string(), vars));
    }
    if s.chance(9, 10) {
        secs.push(("Events".to_string(), lines));
    }
    let plain = build(s, None, &secs, Noise::default()).text();
    let mut a = OsuFile::new(14);
    if let Err(e) = a.append_osb(&plain) {
        fail!("{plain:?} isn't read: {e}");
    }
    for _ in 0..3 {
        let noise = Noise::gen(s);
        let text = build(s, None, &secs, noise).text();
        c.sample(|| text.clone());
        c.extra_evals += 1;
        let mut b = OsuFile::new(14);
        match b.append_osb(&text) {
            Ok(()) => ensure!(a == b, "{plain:?} read as {:?}, {text:?} read as {:?}", a.osb, b.osb),
            Err(e) => fail!("{plain:?} is read, {text:?} isn't: {e}"),
        }
    }
    Ok(())
}

/// The same for texts that don't have to be accepted.
fn edited(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let f = if s.bool() {
        File::gen(s, v)
    } else {
        let i = s.below(8);
        File { version: v, sections: vec![Section::gen(s, i, v)] }
    };
    let text = f.source(s, Noise::default()).text();
    let text = mutate(s, &text);
    if text.contains('\r') || text.starts_with('\u{feff}') {
        return Ok(());
    }
    c.sample(|| text.clone());
    if text.lines().count() >= 4 {
        c.nontrivial(&text);
    }
    let show = |r: &Result<OsuFile, Error<ParseError>>| match r {
        Ok(f) => format!("{f:?}"),
        Err(e) => format!("{e:?}"),
    };
    let a = text.parse::<OsuFile>();
    c.label(if a.is_ok() { "accepted" } else { "rejected" });
    let mut others = vec![text.replace('\n', "\r\n")];
    if text.starts_with("osu file format") {
        others.push(format!("\u{feff}{text}"));
        others.push(format!("\u{feff}{}", text.replace('\n', "\r\n")));
    }
    for other in others {
        c.extra_evals += 1;
        let b = other.parse::<OsuFile>();
        ensure!(
            show(&a) == show(&b),
            "{text:?} read as {}, {other:?} read as {}",
            show(&a),
            show(&b)
        );
    }
    Ok(())
}

/// A section that's a list is the concatenation of its items.
fn lists(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let i = 4 + s.below(4);
    let sec = Section::gen(s, i, v);
    let items = sec.items(s, v);
    if items.len() >= 2 {
        c.nontrivial(&format!("{v}{items:?}"));
    }
    let cut = s.size(0, items.len());
    let lines = |i: &[Vec<String>]| i.iter().flatten().cloned().collect::<Vec<_>>().join("\n");
    let (whole, left, right) = (lines(&items), lines(&items[..cut]), lines(&items[cut..]));
    // the same lines with other line ends, and with blank lines between them
    let end = s.pick(&["\n", "\r\n"]);
    let mut other = String::new();
    for (i, line) in items.iter().flatten().enumerate() {
        if i > 0 {
            other.push_str(end);
        }
        while s.chance(1, 6) {
            other.push_str(s.pick(&["", " ", "\t", "  "]));
            other.push_str(end);
        }
        other.push_str(line);
    }
    if s.bool() {
        other.push_str(end);
    }
    c.sample(|| format!("v{v} [{}]\n{left}\n---\n{right}", NAMES[i]));
    macro_rules! cat {
        ($ty:ty) => {{
            let read = |t: &str| fs::<$ty>(t, v).map_err(|e| format!("v{v} {t:?} isn't read: {e}"));
            let (w, l, r) = (read(&whole)?, read(&left)?, read(&right)?);
            let o = read(&other)?;
            ensure!(w == o, "v{v} {whole:?} read as {w:?}, {other:?} as {o:?}");
            match (w, l, r) {
                (Some(w), Some(mut l), Some(r)) => {
                    l.0.extend(r.0);
                    ensure!(w == l, "v{v} {whole:?} read as {w:?}, the parts {left:?} and {right:?} as {l:?}");
                }
                (None, None, None) => {}
                r => fail!("v{v} {whole:?}: {r:?}"),
            }
        }};
    }
    match i {
        4 => cat!(Events),
        5 => cat!(TimingPoints),
        6 => cat!(Colours),
        _ => cat!(HitObjects),
    }
    Ok(())
}

/// The order of the fields of a section doesn't matter.
fn field_order(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let sec = s.pick(&kv::SECS);
    let kv = Kv::gen(s, sec);
    let mut lines = kv.lines(s);
    if lines.len() >= 2 {
        c.nontrivial(&format!("{v}{lines:?}"));
    }
    let text = lines.join("\n");
    let a = match kv::parse(sec, &text, v) {
        Ok(a) => a,
        Err(e) => fail!("v{v} {text:?} isn't read: {e:?}"),
    };
    s.shuffle(&mut lines);
    let other = lines.join(s.pick(&["\n", "\r\n", "\n\n", "\r\n \r\n"]));
    c.sample(|| format!("v{v} [{}]\n{text}\n---\n{other}", kv::name(sec)));
    match kv::parse(sec, &other, v) {
        Ok(b) => ensure!(a == b, "v{v} {text:?} read as {a:?}, {other:?} read as {b:?}"),
        Err(e) => fail!("v{v} {text:?} is read, {other:?} isn't: {e:?}"),
    }
    Ok(())
}

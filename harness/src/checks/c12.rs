//! Files of a version written in another one.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::events::gen_events;
use crate::model::file::*;
use crate::model::*;
use osu_file_parser::*;

pub const CHECK: Check = Check {
    id: "C12",
    rule: "the versions differ and there's at least one section with content",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "files", case: files, quick: 60_000, thorough: 3_000_000 },
        Part { name: "there and back", case: back, quick: 40_000, thorough: 2_000_000 },
        Part { name: "storyboards", case: storyboards, quick: 20_000, thorough: 1_000_000 },
    ],
};

fn files(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let f = File::gen(s, v);
    let text = f.source(s, Noise::default()).text();
    let mut a = match text.parse::<OsuFile>() {
        Ok(a) => a,
        Err(e) => fail!("{text:?} isn't read: {e}"),
    };
    let w = s.pick(&VERSIONS);
    c.sample(|| format!("written in v{w}:\n{text}"));
    if v != w && f.items() > 0 {
        c.nontrivial(&format!("{w}{text}"));
    }
    c.label(match (is_old(v), is_old(w)) {
        (false, false) => "new to new",
        (false, true) => "new to old",
        (true, false) => "old to new",
        (true, true) => "old to old",
    });
    a.version = w;
    let got = a.to_string();
    let expected = f.print(w);
    ensure!(got == expected, "{text:?} written in v{w} as {got:?}, expected {expected:?}");
    Ok(())
}

/// Anything that exists in both versions is the same after it's written in the other version and read.
fn back(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let mut f = File::gen_stable(s, v);
    let w = s.pick(&VERSIONS);
    for sec in &mut f.sections {
        if let Section::Timing(t) = sec {
            for t in t {
                // only read up to version 5 without effects
                if w > 5 && t.uninherited.is_some() && t.effects.is_none() {
                    t.effects = Some(0);
                }
            }
        }
    }
    let text = f.source(s, Noise::default()).text();
    let mut a = match text.parse::<OsuFile>() {
        Ok(a) => a,
        Err(e) => fail!("{text:?} isn't read: {e}"),
    };
    if v != w && f.items() > 0 {
        c.nontrivial(&format!("{w}{text}"));
    }
    c.sample(|| format!("written in v{w}:\n{text}"));
    a.version = w;
    let there = a.to_string();
    // what's left in the other version
    f.sections.retain(|s| w >= 5 || !matches!(s, Section::Colours(_)));
    f.version = w;
    // only sections where all items are the same in both versions
    f.sections.retain(|s| matches!(s, Section::Kv(_)));
    f.retain_printed();
    let b = match there.parse::<OsuFile>() {
        Ok(b) => b,
        Err(e) => fail!("{text:?} is written in v{w} as {there:?}, which isn't read: {e}"),
    };
    let mut b_kv = b.clone();
    b_kv.events = None;
    b_kv.timing_points = None;
    b_kv.colours = None;
    b_kv.hitobjects = None;
    if let Err(e) = f.check(&b_kv) {
        fail!("{text:?} is written in v{w} as {there:?}, which is read wrong: {e}");
    }
    // and it doesn't change any more
    let again = b.to_string();
    ensure!(
        again == there,
        "{text:?} is written in v{w} as {there:?}, and when read again as {again:?}"
    );
    Ok(())
}

fn storyboards(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let w = version(s);
    let events = gen_events(s, 14);
    let lines: Vec<String> = events.iter().flat_map(|e| e.lines(s, 14)).collect();
    let text = build(s, None, &[("Events".to_string(), lines)], Noise::default()).text();
    c.sample(|| format!("v{w}\n{text}"));
    if !events.is_empty() && w != 14 {
        c.nontrivial(&format!("{w}{text}"));
    }
    let mut f = OsuFile::new(w);
    if let Err(e) = f.append_osb(&text) {
        fail!("v{w} {text:?} isn't read: {e}");
    }
    same(format_args!("v{w} {text:?}: there's a storyboard"), w >= 14, f.osb.is_some())?;
    f.version = 14;
    if f.osb.is_none() {
        same("written", None, f.osb_to_string())?;
        if let Err(e) = f.append_osb(&text) {
            fail!("{text:?} isn't read: {e}");
        }
    }
    let whole = f.osb_to_string();
    ensure!(whole.is_some(), "{text:?} isn't written");
    for w in VERSIONS {
        f.version = w;
        let got = f.osb_to_string();
        if w < 14 {
            same(format_args!("{text:?} written in v{w}"), None, got)?;
        } else {
            same(format_args!("{text:?} written in v{w}"), whole.clone(), got)?;
        }
    }
    Ok(())
}

fn fixed(f: &mut Fixed) {
    // the 24 ms of old versions
    for (v, w, by) in [(4u8, 14u8, 24i32), (3, 14, 24), (14, 4, -24), (14, 3, -24), (3, 4, 0), (14, 5, 0), (5, 6, 0)] {
        f.case(format!("time offset from v{v} to v{w}"), || {
            for time in [0, 1, 23, 24, 25, 1000, -1, -24, -25, 123_456, 2_000_000_000, -2_000_000_000] {
                let kinds = [
                    ("Events", format!("2,{time},{}", time + 1), format!("2,{},{}", time + by, time + by + 1)),
                    ("Events", format!("1,{time},a.avi"), format!("1,{},a.avi", time + by)),
                    ("HitObjects", format!("1,2,{time},5,0"), format!("1,2,{},5,0", time + by)),
                    (
                        "HitObjects",
                        format!("1,2,{time},12,0,{}", time + 7),
                        format!("1,2,{},12,0,{}", time + by, time + by + 7),
                    ),
                    (
                        "HitObjects",
                        format!("1,2,{time},128,0,{}:", time + 7),
                        format!("1,2,{},128,0,{}:", time + by, time + by + 7),
                    ),
                    // these aren't moved
                    ("Events", format!("0,{time},a.png"), format!("0,{time},a.png")),
                    ("Events", format!("6,{time},0,a.wav"), format!("6,{time},0,a.wav")),
                ];
                for (name, source, expected) in kinds {
                    let text = format!("osu file format v{v}\n\n[{name}]\n{source}");
                    let mut a: OsuFile = text.parse().map_err(|e| format!("{text:?} isn't read: {e}"))?;
                    a.version = w;
                    let mut expected = format!("osu file format v{w}\n\n[{name}]\n{expected}");
                    if w == 3 && expected.ends_with(",5,0") {
                        expected.push(',');
                    }
                    same(format_args!("{text:?} in v{w}"), expected, a.to_string())?;
                }
            }
            Ok(())
        });
    }
    f.case("nothing in the file", || {
        for v in VERSIONS {
            let file = OsuFile::new(v);
            same("empty file", format!("osu file format v{v}\n\n"), file.to_string())?;
            same("default", file, OsuFile::default(v))?;
        }
        Ok(())
    });
}

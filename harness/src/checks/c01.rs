//! Reading and writing any text.

use super::*;
use crate::engine::*;
use crate::gen::word;
use crate::model::cmds::Cmd;
use crate::model::events::gen_events;
use crate::model::file::*;
use crate::model::kv;
use crate::model::{fs, ts, version, VERSIONS};
use crate::mutate::*;
use osu_file_parser::events::storyboard::cmds::{Command, CommandProperties};
use osu_file_parser::osu_file::{colours, events, general, hitobjects, timingpoints};
use osu_file_parser::colours::Colour;
use osu_file_parser::events::Event;
use osu_file_parser::hitobjects::HitObject;
use osu_file_parser::timingpoints::TimingPoint;
use osu_file_parser::*;
use std::error::Error as _;
use std::fmt::{Debug, Display};

pub const CHECK: Check = Check {
    id: "C01",
    rule: "the text isn't empty and was either accepted or an edit of an accepted one",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "edited files", case: edited_files, quick: 100_000, thorough: 6_000_000 },
        Part { name: "edited storyboards", case: edited_osb, quick: 80_000, thorough: 5_000_000 },
        Part { name: "edited sections", case: edited_sections, quick: 150_000, thorough: 8_000_000 },
        Part { name: "edited items", case: edited_items, quick: 200_000, thorough: 10_000_000 },
        Part { name: "any text", case: any, quick: 200_000, thorough: 10_000_000 },
        Part { name: "pieces", case: pieces, quick: 200_000, thorough: 10_000_000 },
        Part { name: "large texts", case: large, quick: 1_500, thorough: 60_000 },
    ],
};

/// The methods that calculate something from what was read.
fn use_sprites(c: &[Command]) {
    for c in c {
        match &c.properties {
            CommandProperties::Loop { commands, .. } | CommandProperties::Trigger { commands, .. } => {
                use_sprites(commands)
            }
            _ => {}
        }
    }
}

fn use_point(p: &TimingPoint) {
    let _ = p.calc_bpm();
    let _ = p.calc_slider_velocity_multiplier();
}

fn use_object(o: &events::storyboard::sprites::Object) {
    if let events::storyboard::sprites::ObjectType::Animation(a) = &o.object_type {
        if a.frame_count <= 5000 {
            let _ = a.frame_file_names();
        }
    }
    use_sprites(&o.commands);
}

fn use_events(e: &Events) {
    for e in &e.0 {
        if let Event::StoryboardObject(o) = e {
            use_object(o);
        }
    }
}

fn use_error<E: Display + Debug + std::error::Error + 'static>(text: &str, e: &Error<E>) {
    let _ = e.display_error_with_line(text);
    let _ = e.display_error_with_line("");
    let _ = e.to_string();
    let _ = format!("{e:?}");
    let mut source = e.source();
    while let Some(e) = source {
        let _ = e.to_string();
        source = e.source();
    }
}

fn use_file(f: &OsuFile) {
    let mut f = f.clone();
    for w in VERSIONS {
        f.version = w;
        let _ = f.to_string();
        let _ = f.osb_to_string();
    }
    for p in f.timing_points.iter().flat_map(|t| &t.0) {
        use_point(p);
    }
    if let Some(e) = &f.events {
        use_events(e);
    }
    if let Some(e) = f.osb.as_ref().and_then(|o| o.events.as_ref()) {
        use_events(e);
    }
}

fn file(text: &str) -> bool {
    match text.parse::<OsuFile>() {
        Ok(f) => {
            use_file(&f);
            true
        }
        Err(e) => {
            use_error(text, &e);
            false
        }
    }
}

fn osb(text: &str) -> bool {
    let mut ok = false;
    for v in [14, 13] {
        let mut f = OsuFile::new(v);
        match f.append_osb(text) {
            Ok(()) => {
                use_file(&f);
                ok |= v == 14;
            }
            Err(e) => use_error(text, &e),
        }
    }
    ok
}

pub type Entry = (&'static str, fn(&str, Version) -> bool);

macro_rules! entries {
    ($($ty:ty),* $(,)?) => {
        [$((stringify!($ty), |t: &str, v: Version| -> bool {
            match fs::<$ty>(t, v) {
                Ok(Some(x)) => {
                    for w in VERSIONS {
                        let _ = ts(&x, w);
                    }
                    let _ = format!("{x:?}");
                    true
                }
                Ok(None) => true,
                Err(e) => {
                    let _ = e.to_string();
                    let _ = format!("{e:?}");
                    false
                }
            }
        })),*]
    };
}

/// Everything that reads the lines of a section.
const SECTIONS: [Entry; 6] = entries![Events, TimingPoints, Colours, HitObjects, Osb, osb::Variable];

/// Everything that reads a single item.
const ITEMS: [Entry; 14] = entries![
    HitObject,
    TimingPoint,
    Colour,
    colours::Rgb,
    events::Background,
    events::Video,
    events::Break,
    events::ColourTransformation,
    events::SpriteLegacy,
    events::AnimationLegacy,
    events::SampleLegacy,
    events::storyboard::sprites::Object,
    events::AudioSample,
    Command,
];

/// Everything that reads a field of an item.
const FIELDS: [Entry; 24] = entries![
    hitobjects::HitSample,
    hitobjects::HitSound,
    hitobjects::EdgeSet,
    hitobjects::CurvePoint,
    hitobjects::CurveType,
    hitobjects::SampleSet,
    hitobjects::SampleIndex,
    timingpoints::SampleSet,
    timingpoints::SampleIndex,
    timingpoints::Volume,
    timingpoints::Effects,
    events::audio_sample::Volume,
    events::storyboard::types::TriggerType,
    events::storyboard::types::SampleSet,
    events::storyboard::types::Addition,
    events::storyboard::types::Parameter,
    events::storyboard::sprites::Layer,
    events::storyboard::sprites::Origin,
    events::storyboard::sprites::LoopType,
    general::Countdown,
    general::SampleSet,
    general::Mode,
    general::OverlayPosition,
    osb::Variable,
];

fn num(b: bool) -> usize {
    b as usize
}

fn kv_section(text: &str, v: Version, i: usize) -> bool {
    match kv::parse(kv::SECS[i], text, v) {
        Ok(Some(x)) => {
            for w in VERSIONS {
                let _ = x.print(w);
            }
            true
        }
        Ok(None) => true,
        Err(_) => false,
    }
}

/// Every way of reading text.
fn everything(text: &str, v: Version) -> usize {
    let mut accepted = 0;
    for (_, f) in SECTIONS.iter().chain(&ITEMS).chain(&FIELDS) {
        accepted += num(f(text, v));
    }
    for i in 0..4 {
        accepted += num(kv_section(text, v, i));
    }
    accepted += num(file(text));
    accepted += num(osb(text));
    let d = Decimal::new_from_str(text);
    let mut d2 = d.clone();
    let _ = d2.try_make_decimal();
    let _ = (d.to_string(), d2.to_string());
    let _ = text.parse::<Decimal>();
    let p = FilePath::from(text);
    for w in VERSIONS {
        let _ = ts(&p, w);
    }
    let _ = osu_str_trimmer(text);
    let _ = osu_str_eq(text, "");
    accepted
}

fn edited_files(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let f = File::gen(s, v);
    let noise = Noise::gen(s);
    let text = f.source(s, noise).text();
    let text = mutate(s, &text);
    c.sample(|| text.clone());
    let ok = file(&text);
    c.label(if ok { "accepted" } else { "rejected" });
    let _ = osu_str_trimmer(&text);
    c.nontrivial(&text);
    Ok(())
}

fn edited_osb(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let vars: Vec<String> = (0..s.size(0, 3)).map(|_| format!("${}={}", word(s), piece(s))).collect();
    let events = gen_events(s, 14);
    let lines: Vec<String> = events.iter().flat_map(|e| e.lines(s, 14)).collect();
    let noise = Noise::gen(s);
    let mut secs = Vec::new();
    if s.bool() {
        secs.push(("Variables".to_string(), vars));
    }
    secs.push(("Events".to_string(), lines));
    let text = build(s, None, &secs, noise).text();
    let text = mutate(s, &text);
    c.sample(|| text.clone());
    let ok = osb(&text);
    c.label(if ok { "accepted" } else { "rejected" });
    c.nontrivial(&text);
    Ok(())
}

fn edited_sections(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let i = s.below(8);
    let sec = Section::gen(s, i, v);
    let text: Vec<String> = sec.items(s, v).into_iter().flatten().collect();
    let text = mutate(s, &text.join("\n"));
    // also in versions it isn't written for
    let v = if s.bool() { v } else { version(s) };
    c.sample(|| format!("v{v} [{}]\n{text}", NAMES[i]));
    let ok = match i {
        0..=3 => kv_section(&text, v, i),
        _ => SECTIONS[i - 4].1(&text, v),
    };
    c.label(if ok { "accepted" } else { "rejected" });
    if !text.is_empty() {
        c.nontrivial(&format!("{v}{text}"));
    }
    Ok(())
}

/// Part of the text that's between separators.
fn part_of(s: &mut Src, text: &str) -> String {
    let seps: Vec<usize> = text.char_indices().filter(|(_, c)| matches!(c, ',' | '|' | ':' | '=')).map(|(i, _)| i).collect();
    let mut bounds = vec![0];
    bounds.extend(seps.iter().map(|i| i + 1));
    let a = s.pick(&bounds);
    let ends: Vec<usize> = seps.into_iter().chain([text.len()]).filter(|i| *i >= a).collect();
    let b = s.pick(&ends);
    text[a..b].to_string()
}

fn edited_items(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let line = match s.below(6) {
        0 => Cmd::gen(s, 0).line(s),
        1 => format!("${}={}", word(s), piece(s)),
        2 => Section::gen(s, 4, v).items(s, v).into_iter().flatten().next().unwrap_or_default(),
        3 => Section::gen(s, 5, v).items(s, v).into_iter().flatten().next().unwrap_or_default(),
        4 => Section::gen(s, 6, v).items(s, v).into_iter().flatten().next().unwrap_or_default(),
        _ => Section::gen(s, 7, v).items(s, v).into_iter().flatten().next().unwrap_or_default(),
    };
    let line = if s.chance(1, 3) { part_of(s, &line) } else { line };
    let line = if s.chance(4, 5) { mutate(s, &line) } else { line };
    c.sample(|| format!("v{v} {line}"));
    let mut ok = 0;
    for (_, f) in ITEMS.iter().chain(&FIELDS) {
        ok += num(f(&line, v));
        c.extra_evals += 1;
    }
    c.label(if ok > 0 { "accepted" } else { "rejected" });
    if !line.is_empty() {
        c.nontrivial(&format!("{v}{line}"));
    }
    Ok(())
}

fn any(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let mut text = any_text(s, 60);
    if s.chance(1, 3) {
        text = format!("osu file format v{v}\n\n[{}]\n{text}", s.pick(&NAMES));
    }
    c.sample(|| text.clone());
    let ok = everything(&text, v);
    c.extra_evals += (SECTIONS.len() + ITEMS.len() + FIELDS.len() + 6) as u64;
    if ok > 0 && !text.is_empty() {
        c.nontrivial(&format!("{v}{text}"));
    }
    Ok(())
}

fn pieces(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let mut text = soup(s, 30);
    if s.chance(1, 3) {
        text = format!("osu file format v{v}\n\n[{}]\n{text}", s.pick(&NAMES));
    } else if s.chance(1, 4) {
        text = format!("[Variables]\n$a=1\n\n[Events]\nSprite,Fail,Centre,a.png,0,0\n {text}");
    }
    c.sample(|| text.clone());
    let ok = everything(&text, v);
    c.extra_evals += (SECTIONS.len() + ITEMS.len() + FIELDS.len() + 6) as u64;
    if ok > 0 && !text.is_empty() {
        c.nontrivial(&format!("{v}{text}"));
    }
    Ok(())
}

/// Files with long lines or thousands of lines, edited in one place.
fn large(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let i = s.below(8);
    let sec = Section::gen(s, i, v);
    let mut lines: Vec<String> = sec.items(s, v).into_iter().flatten().collect();
    if lines.is_empty() {
        lines.push(word(s));
    }
    let what = match s.below(4) {
        0 => {
            // a part of a line again and again
            let at = s.below(lines.len());
            let part = part_of(s, &lines[at]);
            let sep = s.pick(&[",", "|", ":", " ", ""]);
            let n = s.size(50, 3000);
            lines[at].push_str(&format!("{sep}{part}").repeat(n));
            "long line of parts"
        }
        1 => {
            // a line with one long part
            let at = s.below(lines.len());
            let unit = s.pick(&["a", "\u{e9}", "\u{3042}", "\u{1f3b5}", "1", " ", "\t", "a b", "-", "$", "\"", "\\", ".", "0", "A"]);
            let long = unit.repeat(s.size(50, 3000));
            let ends: Vec<usize> = lines[at].char_indices().map(|(i, _)| i).chain([lines[at].len()]).collect();
            let place = s.pick(&ends);
            lines[at].insert_str(place, &long);
            "long part"
        }
        2 => {
            // the lines again and again
            let n = (s.size(20, 3000) / lines.len()).max(2);
            let all = lines.clone();
            for _ in 0..n {
                lines.extend(all.iter().cloned());
            }
            "many lines"
        }
        _ => {
            // one line again and again
            let at = s.below(lines.len());
            let line = lines[at].clone();
            let n = s.size(20, 2000);
            lines.splice(at..at, std::iter::repeat_n(line, n));
            "one line often"
        }
    };
    let mut text = lines.join("\n");
    if s.bool() {
        text = mutate(s, &text);
    }
    c.label(what);
    c.sample(|| format!("v{v} [{}] {} bytes in {} lines: {}", NAMES[i], text.len(), lines.len(), text.chars().take(80).collect::<String>()));
    c.nontrivial(&format!("{v}{text}"));
    match i {
        0..=3 => {
            kv_section(&text, v, i);
        }
        _ => {
            SECTIONS[i - 4].1(&text, v);
        }
    }
    let whole = format!("osu file format v{v}\n\n[{}]\n{text}", NAMES[i]);
    let ok = file(&whole);
    c.label(if ok { "accepted" } else { "rejected" });
    if i == 4 {
        osb(&format!("[Events]\n{text}"));
    }
    let trimmed = osu_str_trimmer(&whole);
    ensure!(trimmed.len() <= whole.len() && osu_str_eq(&whole, &whole), "a large text isn't equal to itself");
    for line in [lines.first(), lines.last()].into_iter().flatten() {
        for (_, f) in ITEMS.iter() {
            f(line, v);
        }
    }
    Ok(())
}

fn fixed(f: &mut Fixed) {
    // minimal texts of panics that were found, and texts like them
    const TEXTS: [&str; 74] = [
        "",
        "\u{feff}",
        "\n",
        "\r",
        "[",
        "]",
        "[]",
        "$",
        "$=",
        "=",
        ",",
        ":",
        "|",
        "//",
        "_",
        " ",
        " _",
        "BeatmapID:abc",
        "BeatmapSetID:",
        "BeatmapID:99999999999",
        "Tags:",
        "0foo",
        "12",
        "Videox",
        "Backgroundx",
        "Breaking",
        "1video",
        "2,",
        "2,x,y",
        "é,0,0",
        " é,0,0",
        "_漢,1,2",
        "Sprite,Fail,Centre,a.png,0,0\n é,0,0,0,1",
        "Sprite,Fail,Centre,a.png,0,0\n漢",
        "Sprite,Fail,Centre,a.png,0,0\n  F,0,0,0,1",
        "Sprite,Fail,Centre,a.png,0,0\n F,0,0,0,1\n    F,0,0,0,1",
        "Animation,Fail,Centre,a.png,0,0,1,1,x",
        "Animation,Fail,Centre,a.png,0,0,1,1,LoopForever,",
        "Animation,Fail,Centre,,0,0,1,1",
        "Animation,Fail,Centre,..,0,0,1,1",
        "Animation,Fail,Centre,/,0,0,1,1",
        "T,HitSoundSoft10,1,2",
        "T,HitSound10Soft,1,2",
        "T,HitSoundClapSoft,1,2",
        "T,HitSound99999999999999999999999,1,2",
        "T,HitSoundé,1,2",
        "T,HitSound,1,2",
        "C,0,0,0,1,2,3,4",
        "C,0,0,0,1,2,3,4,5",
        "M,0,0,0,1,2,3",
        "M,0,0,0,1",
        "F,0,0,0",
        "L,",
        "P,0,0,0,",
        "osu file format v14\n[General]\n[Editor]",
        "osu file format v14\n[General]",
        "osu file format v14\n[General]\n\n\n[Editor]\n\n",
        "osu file format v14\n[General",
        "osu file format v14\nGeneral]",
        "osu file format v",
        "osu file format v999999999999999999999",
        "osu file format v-1",
        "[Variables]\n[Events]",
        "[Variables]",
        "[Events]",
        "[Variables\n$a=1",
        "Variables]\n$a=1",
        "0,0,0,128,0,5:",
        "0,0,0,128,0,",
        "0,0,0,2,0,B",
        "0,0,0,2,0,B|,1,1",
        "0,0,0,2,0,B|1:1,1,1,|,|",
        "0,0,0,2,0,B|1:1,1,1,0|0,0:0|",
        "0,0,0,2,0,|1:1,1,1",
    ];
    for (i, text) in TEXTS.iter().enumerate() {
        f.case(format!("text {i} {text:?}"), || {
            for v in VERSIONS {
                everything(text, v);
                for name in NAMES {
                    file(&format!("osu file format v{v}\n[{name}]\n{text}"));
                }
                osb(&format!("[Events]\n{text}"));
                osb(&format!("[Variables]\n{text}\n[Events]\n{text}"));
            }
            Ok(())
        });
    }
    // the ends of the ranges of every number
    const ENDS: [&str; 14] = [
        "2147483647",
        "-2147483648",
        "2147483648",
        "-2147483649",
        "2147483640",
        "-2147483640",
        "4294967295",
        "4294967296",
        "18446744073709551615",
        "18446744073709551616",
        "79228162514264337593543950335",
        "-79228162514264337593543950335",
        "0.0000000000000000000000000001",
        "-0",
    ];
    const LINES: [&str; 22] = [
        "#,#,#,1,0",
        "#,#,#,5,0,0:0:0:0:",
        "#,#,#,12,0,#",
        "1,1,#,128,0,#:0:0:0:0:",
        "1,1,#,2,0,B|#:#|#:#,#,#,2|2,0:0|0:0",
        "1,1,0,1,0,#:#:#:#:x.wav",
        "1,1,0,#,#",
        "#,#,4,1,1,100,1,0",
        "0,#,4,1,1,100,0,0",
        "0,100,#,#,#,#,1,#",
        "0,#,\"a.png\",#,#",
        "1,#,\"a.avi\",#,#",
        "2,#,#",
        "3,#,#,#,#",
        "4,#,#,\"a\",#,#",
        "5,#,#,\"a\",#,#",
        "6,#,#,\"a.png\",#,#,#,#,#",
        "Sample,#,#,\"a\",#",
        "Combo# : #,#,#",
        "SliderBorder : #,#,#",
        "#",
        "Sprite,Fail,Centre,a.png,#,#\n M,#,#,#,#,#,#,#\n C,#,#,#,#,#,#\n L,#,#\n T,Passing,#,#,#\n P,#,#,#,H",
    ];
    for (i, line) in LINES.iter().enumerate() {
        f.case(format!("ends of ranges {i} {line:?}"), || {
            for end in ENDS {
                let n = line.matches('#').count();
                let mut all = vec![line.replace('#', end)];
                // one of them only
                for at in 0..n {
                    let mut k = 0;
                    let t: String = line
                        .chars()
                        .map(|c| match c {
                            '#' => {
                                k += 1;
                                if k == at + 1 { end.to_string() } else { "1".to_string() }
                            }
                            c => c.to_string(),
                        })
                        .collect();
                    all.push(t);
                }
                for text in all {
                    for v in [3, 4, 5, 9, 10, 13, 14] {
                        for (_, f) in SECTIONS.iter().chain(&ITEMS) {
                            f(&text, v);
                        }
                        for name in &NAMES[4..] {
                            file(&format!("osu file format v{v}\n[{name}]\n{text}"));
                        }
                    }
                }
            }
            Ok(())
        });
    }
    // loops in loops
    for depth in [1usize, 2, 10, 50, 300] {
        for unit in [" ", "_"] {
            f.case(format!("{depth} loops with {unit:?}"), || {
                let mut text = String::from("Sprite,Fail,Centre,a.png,0,0");
                for i in 1..=depth {
                    text.push_str(&format!("\n{}L,{i},2", unit.repeat(i)));
                }
                text.push_str(&format!("\n{}F,0,0,0,1", unit.repeat(depth + 1)));
                ensure!(SECTIONS[0].1(&text, 14), "{depth} loops aren't read");
                ensure!(osb(&format!("[Events]\n{text}")), "{depth} loops aren't read");
                Ok(())
            });
        }
    }
    for (name, text) in [
        ("long list", format!("osu file format v14\n[Editor]\nBookmarks: {}1", "1,".repeat(20_000))),
        ("many tags", format!("osu file format v14\n[Metadata]\nTags:{}", "a ".repeat(20_000))),
        ("long title", format!("osu file format v14\n[Metadata]\nTitle:{}", "é".repeat(50_000))),
        ("many objects", format!("osu file format v14\n[HitObjects]\n{}", "1,2,3,1,0,0:0:0:0:\n".repeat(3000))),
        ("long slider", format!("osu file format v14\n[HitObjects]\n1,2,3,2,0,B{},1,2", "|1:2".repeat(10_000))),
        ("many blank lines", format!("{}osu file format v14\n{}[Editor]\n{}GridSize: 1", "\n".repeat(5000), "\n".repeat(5000), "\n".repeat(5000))),
        ("many events", format!("osu file format v14\n[Events]\n{}", "0,0,a.png\n".repeat(3000))),
        ("many values", format!("osu file format v14\n[Events]\nSprite,Fail,Centre,a.png,0,0\n F,0,0,1{}", ",1".repeat(10_000))),
        ("many colours", format!("osu file format v14\n[Colours]\n{}", "Combo1 : 1,2,3\n".repeat(2000))),
    ] {
        f.case(name, || {
            ensure!(file(&text), "the text isn't read");
            Ok(())
        });
    }
}

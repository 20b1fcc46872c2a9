//! All ways of reading and writing the same text agree.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::events::gen_events;
use crate::model::file::*;
use crate::model::*;
use crate::mutate::*;
use osu_file_parser::colours::Colour;
use osu_file_parser::events::storyboard::cmds::Command;
use osu_file_parser::events::storyboard::sprites::Object;
use osu_file_parser::events::{self, Event, EventWithCommands};
use osu_file_parser::hitobjects::HitObject;
use osu_file_parser::timingpoints::TimingPoint;
use osu_file_parser::*;
use std::fmt::{Debug, Display};

pub const CHECK: Check = Check {
    id: "C25",
    rule: "at least two sections, items or lines",
    assumptions: &[],
    fixed: |_| {},
    parts: &[
        Part { name: "files and sections", case: files, quick: 60_000, thorough: 3_000_000 },
        Part { name: "sections and items", case: items, quick: 150_000, thorough: 6_000_000 },
        Part { name: "events and commands", case: commands, quick: 100_000, thorough: 4_000_000 },
        Part { name: "storyboards", case: storyboards, quick: 60_000, thorough: 3_000_000 },
    ],
};

/// The text of an edited section, without what would be another section or another line end.
fn edited(s: &mut Src, text: &str) -> String {
    let t = mutate(s, text);
    if t.contains(['[', ']', '\r', '\u{feff}']) {
        text.to_string()
    } else {
        t
    }
}

type Parsed<T> = Result<Option<T>, String>;

fn message<T, E: Display>(r: Result<Option<T>, Error<E>>) -> Parsed<T> {
    r.map_err(|e| e.error().to_string())
}

/// The file and its sections read alone.
fn files(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let f = File::gen(s, v);
    let mut secs: Vec<(&str, String)> = Vec::new();
    for sec in &f.sections {
        let text = sec.items(s, v).into_iter().flatten().collect::<Vec<_>>().join("\n");
        let text = if s.chance(1, 6) { edited(s, &text) } else { text };
        // spacing in front isn't part of a section
        let text = text.trim_start_matches([' ', '\t', '\n']).to_string();
        secs.push((sec.name(), text));
    }
    let whole = format!(
        "osu file format v{v}\n\n{}",
        secs.iter().map(|(n, t)| format!("[{n}]\n{t}")).collect::<Vec<_>>().join("\n\n")
    );
    c.sample(|| whole.clone());
    if secs.len() >= 2 {
        c.nontrivial(&whole);
    }
    let got = whole.parse::<OsuFile>();
    // the first section that isn't accepted is the error of the file
    macro_rules! section {
        ($ty:ty, $field:ident, $name:literal) => {{
            let alone: Parsed<$ty> = match secs.iter().find(|(n, _)| *n == $name) {
                Some((_, text)) => message(<$ty>::from_str(text, v)),
                None => Ok(None),
            };
            if let (Ok(f), Ok(alone)) = (&got, &alone) {
                ensure!(
                    f.$field == *alone,
                    "{whole:?}: [{}] read as {:?} in the file and as {alone:?} alone",
                    $name,
                    f.$field
                );
                for w in VERSIONS {
                    same(
                        format_args!("{whole:?}: [{}] written in v{w}", $name),
                        alone.as_ref().and_then(|a| a.to_string(w)),
                        f.$field.as_ref().and_then(|a| a.to_string(w)),
                    )?;
                }
            }
            ($name, alone.map(|a| a.is_some()))
        }};
    }
    let alone: Vec<(&str, Result<bool, String>)> = vec![
        section!(General, general, "General"),
        section!(Editor, editor, "Editor"),
        section!(Metadata, metadata, "Metadata"),
        section!(Difficulty, difficulty, "Difficulty"),
        section!(Events, events, "Events"),
        section!(TimingPoints, timing_points, "TimingPoints"),
        section!(Colours, colours, "Colours"),
        section!(HitObjects, hitobjects, "HitObjects"),
    ];
    let first = secs.iter().find_map(|(n, _)| {
        let (_, r) = alone.iter().find(|(name, _)| name == n)?;
        r.as_ref().err().map(|e| (*n, e.clone()))
    });
    c.label(if first.is_some() { "rejected" } else { "accepted" });
    match (&got, &first) {
        (Ok(f), None) => {
            for w in VERSIONS {
                let mut g = f.clone();
                g.version = w;
                let mut parts: Vec<String> = Vec::new();
                macro_rules! part {
                    ($field:ident, $name:literal) => {
                        if let Some(t) = f.$field.as_ref().and_then(|x| x.to_string(w)) {
                            parts.push(format!("[{}]\n{t}", $name));
                        }
                    };
                }
                part!(general, "General");
                part!(editor, "Editor");
                part!(metadata, "Metadata");
                part!(difficulty, "Difficulty");
                part!(events, "Events");
                part!(timing_points, "TimingPoints");
                part!(colours, "Colours");
                part!(hitobjects, "HitObjects");
                let want = format!("osu file format v{w}\n\n{}", parts.join("\n\n"));
                ensure!(
                    g.to_string() == want,
                    "{whole:?} written in v{w} as {:?}, its sections are {want:?}",
                    g.to_string()
                );
                c.extra_evals += 1;
            }
            Ok(())
        }
        (Err(e), Some((name, alone))) => same(
            format_args!("{whole:?}: error of [{name}]"),
            alone.clone(),
            e.error().to_string(),
        ),
        (Ok(_), Some((name, e))) => fail!("{whole:?} is accepted, [{name}] alone isn't: {e}"),
        (Err(e), None) => fail!("{whole:?} isn't accepted, all of its sections are alone: {e}"),
    }
}

/// A section of a list and its items.
fn list<T, I>(text: &str, v: Version, of: fn(&T) -> &Vec<I>) -> CaseResult
where
    T: VersionedFromStr + VersionedToString + Debug,
    I: VersionedFromStr + VersionedToString + Debug + PartialEq,
    T::Err: Debug,
    <I as VersionedFromStr>::Err: Display,
{
    let whole = fs::<T>(text, v);
    let mut alone: Vec<Option<I>> = Vec::new();
    let mut bad = None;
    for line in text.split('\n').filter(|l| !l.trim().is_empty()) {
        match fs::<I>(line, v) {
            Ok(i) => alone.push(i),
            Err(e) => {
                bad = Some(format!("{line:?}: {e}"));
                break;
            }
        }
    }
    match (whole, bad) {
        (Ok(None), None) => Ok(()),
        // items that don't exist in the version
        (Ok(None), Some(_)) => Ok(()),
        (Ok(Some(whole)), None) => {
            let alone: Option<Vec<I>> = alone.into_iter().collect();
            ensure!(
                alone.as_ref() == Some(of(&whole)),
                "v{v} {text:?} read as {whole:?}, its lines as {alone:?}"
            );
            for w in VERSIONS {
                let Some(written) = ts(&whole, w) else { continue };
                let lines: Vec<String> = of(&whole).iter().filter_map(|i| ts(i, w)).collect();
                ensure!(
                    written == lines.join("\n"),
                    "v{v} {text:?} written in v{w} as {written:?}, its lines as {lines:?}"
                );
            }
            Ok(())
        }
        (Err(_), Some(_)) => Ok(()),
        (Ok(w), Some(e)) => fail!("v{v} {text:?} is accepted as {w:?}, not this line: {e}"),
        (Err(e), None) => fail!("v{v} {text:?} isn't accepted ({e:?}), all of its lines are"),
    }
}

fn items(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let i = s.pick(&[5usize, 6, 7, 7]);
    let sec = Section::gen(s, i, v);
    let mut lines: Vec<String> = sec.items(s, v).into_iter().flatten().collect();
    if s.chance(1, 4) {
        // lines that are only spacing
        let at = s.size(0, lines.len());
        lines.insert(at, s.pick(&["", " ", "\t"]).to_string());
    }
    let mut text = lines.join("\n");
    if s.bool() {
        text = edited(s, &text);
    }
    c.sample(|| format!("v{v} [{}]\n{text}", NAMES[i]));
    if text.lines().count() >= 2 {
        c.nontrivial(&format!("{v}{text}"));
    }
    match i {
        5 => list::<TimingPoints, TimingPoint>(&text, v, |t| &t.0),
        6 => list::<Colours, Colour>(&text, v, |t| &t.0),
        _ => list::<HitObjects, HitObject>(&text, v, |t| &t.0),
    }
}

/// The events of a section are the ones of their lines, with the commands of theirs.
fn commands(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let ws = [v, version(s), version(s)];
    let model = gen_events(s, v);
    let lines: Vec<String> = model.iter().flat_map(|e| e.lines(s, v)).collect();
    let mut text = lines.join("\n");
    if s.bool() {
        text = edited(s, &text);
    }
    c.sample(|| format!("v{v}\n{text}"));
    if text.lines().count() >= 2 {
        c.nontrivial(&format!("{v}{text}"));
    }
    let events = match fs::<Events>(&text, v) {
        Ok(Some(e)) => e,
        _ => {
            c.label("rejected");
            return Ok(());
        }
    };
    let indent = |l: &str| l.chars().take_while(|c| *c == ' ' || *c == '_').count();
    let mut lines: Vec<&str> = Vec::new();
    let mut subs: Vec<Vec<&str>> = Vec::new();
    for line in text.split('\n').filter(|l| !l.trim().is_empty()) {
        if line.starts_with("//") || indent(line) == 0 {
            lines.push(line);
            subs.push(Vec::new());
        } else if let Some(last) = subs.last_mut() {
            last.push(line);
        }
    }
    if lines.len() != events.0.len() {
        // some don't exist in this version
        c.label("other amount");
        return Ok(());
    }
    c.label("accepted");
    for ((event, line), subs) in events.0.iter().zip(&lines).zip(&subs) {
        macro_rules! alone {
            ($ty:ty) => {
                match fs::<$ty>(line, v) {
                    Ok(Some(e)) => e,
                    r => fail!("v{v} {line:?} read as {event:?} in a section, as {r:?} alone"),
                }
            };
        }
        macro_rules! with_commands {
            ($ty:ty) => {{
                let mut e = alone!($ty);
                for sub in subs {
                    let cmd = match fs::<Command>(sub, v) {
                        Ok(Some(cmd)) => cmd,
                        r => fail!("v{v} {sub:?} is read behind {line:?}, alone as {r:?}"),
                    };
                    if let Err(err) = e.try_push_cmd(cmd, indent(sub)) {
                        fail!("v{v} {sub:?} is read behind {line:?}, isn't added: {err}");
                    }
                }
                e
            }};
        }
        // written alone: everything, the line of the event, everything with no variables
        let mut texts: Vec<(Version, [Option<String>; 3])> = Vec::new();
        macro_rules! written {
            ($e:expr) => {
                for w in ws {
                    texts.push((w, [ts(&$e, w), $e.to_string_cmd(w), $e.to_string_variables(w, &[])]));
                }
            };
        }
        macro_rules! event {
            ($kind:ident, $ty:ty) => {{
                let e = with_commands!($ty);
                written!(e);
                Event::$kind(e)
            }};
        }
        let alone = match event {
            Event::Comment(_) => match line.strip_prefix("//") {
                Some(t) => Event::Comment(t.to_string()),
                None => fail!("v{v} {line:?} read as {event:?}"),
            },
            Event::Background(_) => event!(Background, events::Background),
            Event::Video(_) => event!(Video, events::Video),
            Event::Break(_) => Event::Break(alone!(events::Break)),
            Event::ColourTransformation(_) => Event::ColourTransformation(alone!(events::ColourTransformation)),
            Event::SpriteLegacy(_) => event!(SpriteLegacy, events::SpriteLegacy),
            Event::AnimationLegacy(_) => event!(AnimationLegacy, events::AnimationLegacy),
            Event::SampleLegacy(_) => event!(SampleLegacy, events::SampleLegacy),
            Event::StoryboardObject(_) => event!(StoryboardObject, Object),
            Event::AudioSample(_) => Event::AudioSample(alone!(events::AudioSample)),
            e => fail!("v{v} {line:?} read as {e:?}"),
        };
        for (w, [whole, first, rest]) in texts {
            let want = ts(event, w);
            same(format_args!("v{v} {line:?} with {subs:?} written alone in v{w}"), &want, &whole)?;
            same(format_args!("v{v} {line:?} with {subs:?} written alone in v{w} with no variables"), &want, &rest)?;
            let want = want.and_then(|t| t.lines().next().map(|l| l.to_string()));
            same(format_args!("v{v} {line:?} with {subs:?} written alone in v{w} without commands"), want, first)?;
        }
        ensure!(
            *event == alone,
            "v{v} {line:?} with {subs:?} read as {event:?} in a section, as {alone:?} alone"
        );
        c.extra_evals += 1;
    }
    for w in VERSIONS {
        let lines: Vec<String> = events.0.iter().filter_map(|e| ts(e, w)).collect();
        same(format_args!("v{v} {text:?} written in v{w}"), Some(lines.join("\n")), ts(&events, w))?;
    }
    Ok(())
}

/// A storyboard alone and as a part of a file.
fn storyboards(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let names = ["vaA", "vbB", "vcC"];
    let vars: Vec<String> = (0..s.size(0, 3)).map(|i| format!("${}={}", names[i], text(s, 5))).collect();
    let model = gen_events(s, 14);
    let events: Vec<String> = model.iter().flat_map(|e| e.lines(s, 14)).collect();
    let with_vars = s.bool();
    let events = events.join("\n");
    let events = if s.chance(1, 3) { edited(s, &events) } else { events };
    let events = events.trim_start_matches([' ', '\t', '\n']).to_string();
    let mut text = String::new();
    if with_vars {
        text.push_str(&format!("[Variables]\n{}\n\n", vars.join("\n")));
    }
    text.push_str(&format!("[Events]\n{events}"));
    c.sample(|| text.clone());
    if text.lines().count() >= 3 {
        c.nontrivial(&text);
    }
    let v = if s.chance(1, 8) { 13 } else { 14 };
    let mut f = OsuFile::new(v);
    let appended = f.append_osb(&text);
    let alone = fs::<Osb>(&text, v);
    match (&appended, &alone) {
        (Ok(()), Ok(o)) => {
            c.label("accepted");
            ensure!(f.osb == *o, "v{v} {text:?} read as {:?} in a file, as {o:?} alone", f.osb);
        }
        (Err(a), Err(b)) => {
            c.label("rejected");
            same(format_args!("{text:?}: error"), a.error().to_string(), b.error().to_string())?;
            same(format_args!("{text:?}: line"), a.line_index(), b.line_index())?;
            return same(format_args!("{text:?}: storyboard"), None, f.osb.clone());
        }
        _ => fail!("v{v} {text:?} read as {appended:?} in a file, as {alone:?} alone"),
    }
    let Some(osb) = &f.osb else { return Ok(()) };
    if !with_vars {
        let section = fs::<Events>(&events, v).map_err(|e| e.to_string());
        ensure!(
            section.as_ref().ok() == Some(&osb.events),
            "{text:?} read as {:?}, the events alone as {section:?}",
            osb.events
        );
    }
    for w in VERSIONS {
        let mut f = f.clone();
        f.version = w;
        same(format_args!("{text:?} written in v{w}"), ts(osb, w), f.osb_to_string())?;
    }
    Ok(())
}

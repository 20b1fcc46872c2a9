//! Files with one thing wrong with them.

use crate::engine::*;
use crate::gen::*;
use crate::model::cmds::Cmd;
use crate::model::events::{gen_events, Ev};
use crate::model::file::*;
use crate::model::kv::{self, Sec};
use crate::model::*;
use osu_file_parser::*;

/// What's wrong.
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    UnknownSection,
    DuplicateSection,
    /// Section name without closing bracket.
    NoClose(String),
    /// Section name without opening bracket.
    NoOpen(String),
    UnexpectedLine,
    /// The first line isn't a version definition.
    VersionDefinition,
    /// The version isn't a supported one.
    VersionNumber,
    /// A line of a section.
    Line(&'static str, LineFault),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LineFault {
    NoColon,
    UnknownKey,
    DuplicateKey,
    NotAnInteger,
    NotABool,
    UnknownWord,
    CommaList,
    /// An event that doesn't exist.
    UnknownEvent,
    /// A command where there can't be one.
    NoSprite,
    /// A command that's indented deeper than there are loops.
    Indentation,
    /// A field of an item.
    Item,
    VariableHeader,
    VariableEquals,
}

#[derive(Debug)]
pub struct Broken {
    pub fault: Fault,
    pub source: Source,
    /// Line index of the fault.
    pub at: usize,
    /// Amount of sections before the fault that have content and end with an empty line.
    pub blank_ended: usize,
}

fn unknown_name(s: &mut Src) -> String {
    match s.weighted(&[3, 2, 1]) {
        0 => s
            .pick(&[
                "Foo", "general", "GENERAL", "HitObject", "HitObjectss", "Colors", " Events", "Events ", "Variables",
                "", "Timing Points", "TimingPoint", "Fonts", "Mania", "あ", "Metadata\u{a0}", "Difficulty:", "[General",
            ])
            .to_string(),
        1 => format!("{}{}", s.pick(&NAMES), word(s)),
        _ => {
            let t = text_without(s, 10, &[']']);
            if NAMES.contains(&t.as_str()) {
                "x".to_string()
            } else {
                t
            }
        }
    }
}

/// A line that can't be in a key value section, with the amount of keys that's taken.
fn bad_kv(s: &mut Src, sec: Sec, v: Version, lines: &mut Vec<String>) -> (usize, LineFault) {
    let key_of = |l: &String| l.split(':').next().unwrap_or_default().to_string();
    // a field that can have a value that isn't of its type
    let wrong: &[(&str, &[&str], LineFault)] = match sec {
        Sec::General => &[
            ("AudioLeadIn", &["", "x", "1.5", "2147483648", "1 2", "0x1"], LineFault::NotAnInteger),
            ("PreviewTime", &["", "x", "1.5", "-2147483649", "--1"], LineFault::NotAnInteger),
            ("CountdownOffset", &["", "x", "1e3"], LineFault::NotAnInteger),
            ("LetterboxInBreaks", &["2", "x", "", "true", "-1"], LineFault::NotABool),
            ("StoryFireInFront", &["2", "x", "", "false"], LineFault::NotABool),
            ("UseSkinSprites", &["2", "x", ""], LineFault::NotABool),
            ("AlwaysShowPlayfield", &["10", "x", ""], LineFault::NotABool),
            ("EpilepsyWarning", &["2", "x", ""], LineFault::NotABool),
            ("SpecialStyle", &["2", "x", ""], LineFault::NotABool),
            ("WidescreenStoryboard", &["2", "x", ""], LineFault::NotABool),
            ("SamplesMatchPlaybackRate", &["2", "x", ""], LineFault::NotABool),
            ("Countdown", &["4", "x", "", "-1"], LineFault::UnknownWord),
            ("Mode", &["4", "x", "", "-1", "osu"], LineFault::UnknownWord),
            ("SampleSet", &["normal", "x", "", "1", "All"], LineFault::UnknownWord),
            ("OverlayPosition", &["below", "x", "", "0"], LineFault::UnknownWord),
            ("EditorBookmarks", &["1,x", "x", "1.5", "1,,2", "1,", ",1", ",", "1,2,", "1;2"], LineFault::CommaList),
        ],
        Sec::Editor => &[
            ("GridSize", &["", "x", "1.5"], LineFault::NotAnInteger),
            ("CurrentTime", &["", "x", "1.5"], LineFault::NotAnInteger),
            ("Bookmarks", &["1,x", "x", "1.5", "1,,2", "1,", ",1", ",", "1,2,", "1;2"], LineFault::CommaList),
        ],
        Sec::Metadata => &[
            ("BeatmapID", &["", "x", "1.5", "2147483648"], LineFault::NotAnInteger),
            ("BeatmapSetID", &["", "x", "1.5"], LineFault::NotAnInteger),
        ],
        Sec::Difficulty => &[],
    };
    let (fault, line, from) = match s.weighted(&[3, 3, 3, 4]) {
        3 if !wrong.is_empty() => {
            let (key, values, fault) = s.pick(wrong);
            lines.retain(|l| key_of(l) != key);
            // fields that aren't in the version can have any value
            let (key, values, fault) = match key {
                "Countdown" if v < 5 => ("Mode", &["4", "x"][..], fault),
                "SampleSet" if v < 4 => ("Mode", &["4", "x"][..], fault),
                "OverlayPosition" if v < 14 => ("Mode", &["4", "x"][..], fault),
                _ => (key, values, fault),
            };
            lines.retain(|l| key_of(l) != key);
            (fault, format!("{key}:{}{}", s.pick(&["", " "]), s.pick(values)), 0)
        }
        2 if !lines.is_empty() => {
            let i = s.below(lines.len());
            let line = if s.bool() {
                lines[i].clone()
            } else {
                format!("{}: {}", key_of(&lines[i]), s.pick(&["0", "1", "Normal", "x"]))
            };
            (LineFault::DuplicateKey, line, i + 1)
        }
        1 => {
            let all = kv::fields(sec);
            let known = all[s.below(all.len())].0;
            let key = match s.below(6) {
                0 => format!("{known}s"),
                1 => known.to_lowercase(),
                2 => known[1..].to_string(),
                3 => "Foo".to_string(),
                4 => format!("{known} "),
                _ => String::new(),
            };
            let other = match sec {
                Sec::Metadata => "HPDrainRate",
                _ => "Title",
            };
            let key = if s.chance(1, 5) { other.to_string() } else { key };
            (LineFault::UnknownKey, format!("{key}: {}", s.pick(&["0", "1", "x", "", "a:b"])), 0)
        }
        _ => {
            let t = text_without(s, 10, &[':', '[']);
            let t = if t.is_empty() { "x".to_string() } else { t };
            (LineFault::NoColon, t, 0)
        }
    };
    let at = s.size(from, lines.len());
    lines.insert(at, line);
    (at, fault)
}

fn no_bracket(t: String) -> String {
    // this would be the name of a section
    if t.starts_with('[') {
        format!("x{t}")
    } else {
        t
    }
}

fn bad_event(s: &mut Src, v: Version, events: &[Ev], lines: &mut Vec<String>) -> (usize, LineFault) {
    match s.weighted(&[4, 4, 3, 2, 3]) {
        0 => {
            let t = match s.below(3) {
                0 => s
                    .pick(&[
                        "foo", "7,0", "10,1", "sprite,Fail,Centre,a,1,1", "0foo", "Videox,1,a.png", "x,y",
                        "-1,0", "M,0,0,0,1,1",
                    ])
                    .to_string(),
                1 => format!("x{}", text(s, 10)),
                _ => no_bracket(format!("{}{}", word(s), s.pick(&["", ",", ",0,0"]))),
            };
            let known = ["0", "1", "2", "3", "4", "5", "6", "Video", "Break", "Sprite", "Animation", "Sample"];
            let t = if known.contains(&t.split(',').next().unwrap()) || t.starts_with('_') {
                "foo".to_string()
            } else {
                t
            };
            let at = s.size(0, lines.len());
            lines.insert(at, t);
            (at, LineFault::UnknownEvent)
        }
        1 => {
            let mut t = s
                .pick(&[
                    "0,x,a.png",
                    "0,1",
                    "0,1,a.png,0",
                    "1,1.5,a.png",
                    "Video,,a.png",
                    "2,1",
                    "Break,1,x",
                    "4,7,0,a.png",
                    "4,0,10,a.png",
                    "5,0",
                    "5,9,0,a.png",
                    "6,0,9,a.wav",
                    "6,0,0,a.wav,101",
                    "Sprite,Fail,Centre,a.png",
                    "Sprite,fail,Centre,a.png,0,0",
                    "Sprite,Fail,centre,a.png,0,0",
                    "Sprite",
                    "Animation,Fail,Centre,a.png,0,0,x,1",
                    "Animation,Fail,Centre,a.png,0,0,1,x",
                    "Animation,Fail,Centre,a.png,0,0,1,1,loop",
                    "Sample,x,0,a.wav",
                    "Sample,1,4,a.wav",
                    "Sample,1,0,a.wav,101",
                    "Sample,1",
                ])
                .to_string();
            if v < 14 && s.chance(1, 6) {
                t = s.pick(&["3,x,1,1,1", "3,1,256,1,1", "3,1,1,1"]).to_string();
            }
            let at = s.size(0, lines.len());
            lines.insert(at, t);
            (at, LineFault::Item)
        }
        2 => {
            // a command that isn't one
            let t = s.pick(&[
                " Q,0,0,0,1",
                " F,0,0,0",
                " F,x,0,0,1",
                " F,0,x,0,1",
                " F,0,0,x,1",
                " M,0,0,0,1",
                " C,0,0,0,1,2",
                " C,0,0,0,1,2,256",
                " P,0,0,0,B",
                " P,0,0,0",
                " L,0,x",
                " L,x,1",
                " T,Foo,0,1",
                " T,HitSoundX,0,1",
                " ,",
                " é,0",
                "_F",
            ]);
            // anywhere behind an event
            if lines.is_empty() {
                lines.push("Sprite,Fail,Centre,a.png,0,0".to_string());
            }
            let at = s.size(1, lines.len());
            lines.insert(at, t.to_string());
            (at, LineFault::Item)
        }
        3 => {
            // nothing that can have commands is before it
            let mut at = 0;
            let mut places = Vec::new();
            for e in events {
                let n = 1 + crate::model::cmds::total(&e.cmds);
                at += n;
                if !e.can_have_cmds() {
                    places.push(at);
                }
            }
            let at = if places.is_empty() {
                lines.insert(0, "//".to_string());
                1
            } else {
                s.pick(&places)
            };
            let mut m = Cmd::gen(s, 0);
            m.subs.clear();
            let indent = s.pick(&[" ", "  ", "_"]);
            lines.insert(at, format!("{indent}{}", m.line(s)));
            (at, LineFault::NoSprite)
        }
        _ => {
            let at = lines.len();
            lines.push("Sprite,Fail,Centre,a.png,0,0".to_string());
            let n = s.size(0, 2);
            for _ in 0..n {
                lines.push(" F,0,0,0,1".to_string());
            }
            let depth = s.size(2, 5);
            lines.push(format!("{}F,0,0,0,1", " ".repeat(depth)));
            (at + 1 + n, LineFault::Indentation)
        }
    }
}

fn bad_item(s: &mut Src, name: &'static str, v: Version) -> String {
    match name {
        "TimingPoints" => {
            let mut all = vec!["x", "0", "0,", "1,2,3,4,5,6,7,8,9,x"];
            if v == 3 {
                all.truncate(2);
            }
            if v >= 4 {
                all.extend(["1,300,x", "1,300,4,x", "1,300,4,1,x", "1,300,4,1,-1,1", "1,300,4", "1,300,1.5,1,1,100"]);
            }
            if v >= 5 {
                all.extend(["1,300,4,1,1,x", "1,300,4,1,1", "1,300,4,1,1,100,2,1", "1,300,4,1,1,100,1,x"]);
            }
            all.retain(|t| !matches!(*t, "0," | "1,2,3,4,5,6,7,8,9,x"));
            s.pick(&all).to_string()
        }
        "Colours" => s
            .pick(&[
                "x",
                "Combo1 : 1,2",
                "Combo1 : 1,2,256",
                "Combo1 : 1,2,-3",
                "Combo1 : x,2,3",
                "Combo1 1,2,3",
                "Combo : 1,2,3",
                "Combox : 1,2,3",
                "combo1 : 1,2,3",
                "SliderTrack : 1,2,3",
                "SliderBody : 1,2,3",
                ":",
            ])
            .to_string(),
        _ => s
            .pick(&[
                "x",
                "1,2",
                "1,2,3,1",
                "1,2,3,x,0",
                "1,2,3,1,x",
                "1,2,3,1,256",
                "1,2,3,0,0",
                "1,2,3,4,0",
                "1,2,3,256,0",
                "1,2,3,2,0",
                "1,2,3,2,0,X|1:1,1,1",
                "1,2,3,2,0,B|1:1",
                "1,2,3,2,0,B|1,1,1",
                "1,2,3,2,0,B|1:1,x,1",
                "1,2,3,2,0,B|1:1,1,1,x",
                "1,2,3,8,0",
                "1,2,3,128,0",
            ])
            .to_string(),
    }
}

/// Sections and the fault, if it's one of them. Otherwise a fault that's made with the text.
pub fn broken_file(s: &mut Src) -> (Version, Broken) {
    let v = version(s);
    let f = File::gen(s, v);
    let noise = Noise::gen(s);
    let mut secs = f.section_lines(s);
    let version_line = f.version_line();
    let kind = s.weighted(&[2, 3, 2, 1, 2, 1, 1, 12]);
    let (fault, at) = match kind {
        0 => {
            let i = s.size(0, secs.len());
            let name = unknown_name(s);
            let lines = if s.bool() { vec![] } else { vec!["a".to_string(), "b: 1".to_string()] };
            secs.insert(i, (name, lines));
            (Fault::UnknownSection, (i, None))
        }
        1 if !secs.is_empty() => {
            let i = s.below(secs.len());
            let (name, lines) = secs[i].clone();
            let lines = match s.below(3) {
                0 => lines,
                1 => vec![],
                _ => vec!["x".to_string()],
            };
            let j = s.size(i + 1, secs.len());
            secs.insert(j, (name, lines));
            (Fault::DuplicateSection, (j, None))
        }
        2 if !secs.is_empty() => {
            let i = s.below(secs.len());
            let name = if s.bool() { secs[i].0.clone() } else { word(s) };
            secs[i].0 = name.clone();
            (Fault::NoClose(name), (i, None))
        }
        3 if !secs.is_empty() => {
            let name = if s.bool() { secs[0].0.clone() } else { word(s) };
            secs[0].0 = name.clone();
            (Fault::NoOpen(name), (0, None))
        }
        4 => (Fault::UnexpectedLine, (0, None)),
        5 => (Fault::VersionDefinition, (0, None)),
        6 => (Fault::VersionNumber, (0, None)),
        _ => {
            let mut i = s.below(8);
            if i == 6 && v < 5 {
                // these aren't read
                i = 7;
            }
            let name = NAMES[i];
            let place = match secs.iter().position(|(n, _)| n == name) {
                Some(p) => p,
                None => {
                    let p = s.size(0, secs.len());
                    secs.insert(p, (name.to_string(), vec![]));
                    p
                }
            };
            let lines = &mut secs[place].1;
            let (at, fault) = match i {
                0..=3 => bad_kv(s, kv::SECS[i], v, lines),
                4 => {
                    let events = match f.get("Events") {
                        Some(Section::Events(e)) => e.clone(),
                        _ => vec![],
                    };
                    bad_event(s, v, &events, lines)
                }
                _ => {
                    let at = s.size(0, lines.len());
                    let t = bad_item(s, name, v);
                    lines.insert(at, t);
                    (at, LineFault::Item)
                }
            };
            (Fault::Line(name, fault), (place, Some(at)))
        }
    };

    let first = match fault {
        Fault::VersionDefinition => {
            let t = s.pick(&[
                "osu file format 14",
                "Osu file format v14",
                "osu file formatv14",
                "file format v14",
                "// osu file format v14",
                "//",
                "x",
                "[General]",
                "osu  file format v14",
                "osu file format V14",
                "-osu file format v14",
            ]);
            t.to_string()
        }
        Fault::VersionNumber => format!(
            "osu file format v{}",
            s.pick(&["2", "15", "0", "1", "255", "256", "-3", "", "x", "14x", "1 4", "99999999999999999999", "3.5", "v14"])
        ),
        _ => version_line.clone(),
    };
    let mut source = build(s, Some(&first), &secs, noise);
    let (place, line) = at;
    let at = match &fault {
        Fault::UnexpectedLine => {
            let version_at = source.lines.iter().position(|l| *l == version_line).unwrap();
            let end = source.headers.first().copied().unwrap_or(source.lines.len());
            let at = s.size(version_at + 1, end);
            let line = match s.below(3) {
                0 => version_line.clone(),
                1 => s.pick(&["x", "a: 1", "/ x", "General", "1,2,3", "-//", "x // y", "a: 1 //", "a//b"]).to_string(),
                _ => {
                    let t = text_without(s, 10, &['[', ']', '/']);
                    if t.is_empty() {
                        ":".to_string()
                    } else {
                        t
                    }
                }
            };
            source.lines.insert(at, line);
            at
        }
        Fault::VersionDefinition | Fault::VersionNumber => source
            .lines
            .iter()
            .position(|l| *l == first)
            .unwrap(),
        Fault::NoClose(name) => {
            let at = source.headers[place];
            source.lines[at] = format!("[{name}{}", s.pick(&["", "", " ", "  "]));
            at
        }
        Fault::NoOpen(name) => {
            let at = source.headers[place];
            source.lines[at] = format!("{name}]");
            at
        }
        _ => match line {
            Some(l) => source.at[place][l],
            None => source.headers[place],
        },
    };
    // lines before an inserted one keep their place, and it's only inserted before sections
    let mut blank_ended = 0;
    for (i, h) in source.headers.iter().enumerate() {
        let Some(next) = source.headers.get(i + 1) else { break };
        if *next > at {
            break;
        }
        let lines = &source.lines[h + 1..*next];
        if lines.iter().any(|l| !l.trim().is_empty()) && lines.last().is_some_and(|l| l.is_empty()) {
            blank_ended += 1;
        }
    }
    (v, Broken { fault, source, at, blank_ended })
}

/// A storyboard file with a fault.
pub fn broken_osb(s: &mut Src) -> Broken {
    let noise = Noise::gen(s);
    let names = ["vaA", "vbB", "vcC"];
    let vars: Vec<String> = (0..s.size(0, 3)).map(|i| format!("${}={}", names[i], int(s))).collect();
    let events = gen_events(s, 14);
    let lines: Vec<String> = events.iter().flat_map(|e| e.lines(s, 14)).collect();
    let mut secs = Vec::new();
    if s.chance(3, 4) {
        secs.push(("Variables".to_string(), vars));
    }
    if s.chance(3, 4) {
        secs.push(("Events".to_string(), lines));
    }
    let kind = s.weighted(&[2, 3, 2, 1, 2, 6, 3]);
    let (fault, place, line) = match kind {
        0 => {
            let i = s.size(0, secs.len());
            let name = match unknown_name(s).as_str() {
                "Variables" => "General".to_string(),
                n => n.to_string(),
            };
            let lines = if s.bool() { vec![] } else { vec!["a".to_string()] };
            secs.insert(i, (name, lines));
            (Fault::UnknownSection, i, None)
        }
        1 if !secs.is_empty() => {
            let i = s.below(secs.len());
            let j = s.size(i + 1, secs.len());
            let copy = secs[i].clone();
            secs.insert(j, copy);
            (Fault::DuplicateSection, j, None)
        }
        2 if !secs.is_empty() => {
            let i = s.below(secs.len());
            (Fault::NoClose(secs[i].0.clone()), i, None)
        }
        3 if !secs.is_empty() => (Fault::NoOpen(secs[0].0.clone()), 0, None),
        4 => (Fault::UnexpectedLine, 0, None),
        5 => {
            let place = secs.iter().position(|(n, _)| n == "Events").unwrap_or_else(|| {
                secs.push(("Events".to_string(), vec![]));
                secs.len() - 1
            });
            // the events in there are gone if there was no section
            let events = if secs[place].1.is_empty() { &[][..] } else { &events[..] };
            let (at, fault) = bad_event(s, 14, events, &mut secs[place].1);
            (Fault::Line("Events", fault), place, Some(at))
        }
        _ => {
            let place = secs.iter().position(|(n, _)| n == "Variables").unwrap_or_else(|| {
                secs.insert(0, ("Variables".to_string(), vec![]));
                0
            });
            let lines = &mut secs[place].1;
            let at = s.size(0, lines.len());
            let (t, fault) = if s.bool() {
                (s.pick(&["a=1", "x", "=", "//x", "é=$a"]), LineFault::VariableHeader)
            } else {
                (s.pick(&["$a", "$", "$a:1", "$é 1"]), LineFault::VariableEquals)
            };
            lines.insert(at, t.to_string());
            (Fault::Line("Variables", fault), place, Some(at))
        }
    };
    let mut source = build(s, None, &secs, noise);
    let at = match &fault {
        Fault::UnexpectedLine => {
            let end = source.headers.first().copied().unwrap_or(source.lines.len());
            let at = s.size(0, end);
            source.lines.insert(at, s.pick(&["x", "osu file format v14", "$a=1", "Events", ":", "/ x", "x // y", "-//", "a//b", "$a=1 //"]).to_string());
            at
        }
        Fault::NoClose(name) => {
            let at = source.headers[place];
            source.lines[at] = format!("[{name}");
            at
        }
        Fault::NoOpen(name) => {
            let at = source.headers[place];
            source.lines[at] = format!("{name}]");
            at
        }
        _ => match line {
            Some(l) => source.at[place][l],
            None => source.headers[place],
        },
    };
    Broken { fault, source, at, blank_ended: 0 }
}

/// Content of a section with a fault: name, text and line index.
pub fn broken_section(s: &mut Src, v: Version) -> (&'static str, LineFault, String, usize) {
    let mut i = s.below(8);
    if i == 6 && v < 5 {
        i = 7;
    }
    let sec = Section::gen(s, i, v);
    let mut lines: Vec<String> = sec.items(s, v).into_iter().flatten().collect();
    let name = NAMES[i];
    let (at, fault) = match (i, &sec) {
        (0..=3, _) => bad_kv(s, kv::SECS[i], v, &mut lines),
        (4, Section::Events(e)) => bad_event(s, v, e, &mut lines),
        _ => {
            let at = s.size(0, lines.len());
            let t = bad_item(s, name, v);
            lines.insert(at, t);
            (at, LineFault::Item)
        }
    };
    let laid = lay_out(s, &lines);
    let text = laid.text;
    let mut at = laid.at[at];
    let text = if i < 4 {
        // these start with a field
        let t = text.trim_start_matches([' ', '\t', '\n']).to_string();
        at -= text[..text.len() - t.len()].matches('\n').count();
        t
    } else {
        text
    };
    (name, fault, text, at)
}

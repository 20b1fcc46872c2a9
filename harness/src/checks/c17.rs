//! The error of an item names its first field that's missing or malformed.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::version;
use osu_file_parser::*;

pub const CHECK: Check = Check {
    id: "C17",
    rule: "an item of a file with a field that is missing or malformed; every case is non-trivial",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "hit objects", case: hit_objects, quick: 60_000, thorough: 3_000_000 },
        Part { name: "timing points", case: timing_points, quick: 50_000, thorough: 2_000_000 },
        Part { name: "colours", case: colours, quick: 30_000, thorough: 1_000_000 },
        Part { name: "events", case: events, quick: 60_000, thorough: 3_000_000 },
        Part { name: "commands", case: commands, quick: 80_000, thorough: 3_000_000 },
        Part { name: "parts of items", case: parts_of_items, quick: 60_000, thorough: 1_000_000 },
    ],
};

/// A field between commas.
#[derive(Clone, Debug)]
struct Field {
    text: String,
    /// Texts that can't be in the field, and how that's reported.
    bad: Vec<(String, &'static str)>,
    /// How it's reported that the item ends before this field.
    missing: Option<&'static str>,
}

fn field(text: impl Into<String>) -> Field {
    Field { text: text.into(), bad: Vec::new(), missing: None }
}

impl Field {
    fn missing(mut self, name: &'static str) -> Self {
        self.missing = Some(name);
        self
    }

    fn bad(mut self, name: &'static str, texts: &[&str]) -> Self {
        self.bad.extend(texts.iter().map(|t| (t.to_string(), name)));
        self
    }
}

fn line_of(fields: &[Field]) -> String {
    fields.iter().map(|f| f.text.as_str()).collect::<Vec<_>>().join(",")
}

/// Breaks one of the fields, and maybe some of the ones after it. Returns what's reported.
fn break_one(s: &mut Src, fields: &mut Vec<Field>) -> &'static str {
    let mut faults = Vec::new();
    for (i, f) in fields.iter().enumerate() {
        if f.missing.is_some() {
            faults.push((i, true));
        }
        if !f.bad.is_empty() {
            faults.push((i, false));
        }
    }
    let (at, missing) = s.pick(&faults);
    if missing {
        let name = fields[at].missing.expect("checked");
        fields.truncate(at);
        return name;
    }
    let (text, name) = s.pick(&fields[at].bad);
    fields[at].text = text;
    // what comes after it doesn't matter
    match s.weighted(&[4, 2, 1]) {
        0 => (),
        1 => {
            for f in &mut fields[at + 1..] {
                if !f.bad.is_empty() && s.bool() {
                    f.text = s.pick(&f.bad).0;
                }
            }
        }
        _ => {
            let n = s.size(at + 1, fields.len());
            // an empty line isn't an item
            if fields[0].text.trim().is_empty() {
                return name;
            }
            fields.truncate(n);
        }
    }
    name
}

const NOT_INT: [&str; 12] = ["a", "", " 1", "1 ", "1f", "1.0", "1.5", "99999999999999999999", "1 2", "--1", "0x1", "é"];
const NOT_UINT: [&str; 11] = ["a", "", " 1", "1 ", "1f", "1.0", "1.5", "99999999999999999999", "-1", "0x1", "é"];
const NOT_BYTE: [&str; 12] = ["a", "", " 1", "1 ", "1f", "1.0", "1.5", "256", "-1", "1000", "0x1", "é"];

fn dec_text(s: &mut Src) -> String {
    num(s).print()
}

fn int_text(s: &mut Src) -> String {
    s.range(-500, 900_000).to_string()
}

fn hit_object(s: &mut Src, v: Version) -> Vec<Field> {
    let kind = if v >= 10 { s.below(4) } else { s.below(3) };
    let bits = [1u8, 2, 8, 128][kind] | s.pick(&[0u8, 4, 16, 36, 64, 116]);
    let mut f = vec![
        field(dec_text(s)),
        field(dec_text(s)).missing("MissingY"),
        field(int_text(s)).missing("MissingTime"),
        field(bits.to_string())
            .missing("MissingObjType")
            .bad("InvalidObjType", &["a", "", "1.5", "99999999999999999999", "é"]),
        field(s.pick(&[0u8, 2, 4, 8, 14, 6]).to_string())
            .missing("MissingHitSound")
            .bad("InvalidHitSound", &NOT_BYTE),
    ];
    let sample = |s: &mut Src| {
        field(format!("{}:{}{}", s.size(0, 3), s.size(0, 3), if v >= 12 { ":0:50:a.wav" } else { ":1" })).bad(
            "InvalidHitSample",
            if v >= 12 { &["a", "-1", "x:0:0:0:", "0:x:0:0:", "0:0:x:0:", "0:0:0:x:", "0:0:0:101:", "0:0:0:-1:"] } else { &["a", "-1", "x:0:0", "0:x:0", "0:0:x"] },
        )
    };
    match kind {
        0 => {
            if v >= 10 && s.bool() {
                f.push(sample(s));
            }
        }
        1 => {
            f.push(
                field(format!("{}|{}:{}|3:4", s.pick(&["B", "C", "L", "P"]), s.size(0, 9), s.size(0, 9)))
                    .missing("MissingCurveType")
                    .bad("InvalidCurveType", &["a|1:2", "", "-1|1:2", "b|1:2", "X|1:2|3:4", "1:2|3:4", "|1:2", "BB|1:2"])
                    .bad("InvalidCurvePoint", &["B|1", "B|1:2|3", "C|x", "L|1:2|é|3:4", "P|1;2", "B|1:2||3:4", "B|1:2|"]),
            );
            f.push(field(s.size(0, 9).to_string()).missing("MissingSlidesCount").bad("InvalidSlidesCount", &["a", "", "1.5", "99999999999999999999", "é"]));
            f.push(field(dec_text(s)).missing("MissingLength"));
            if v >= 10 && s.bool() {
                f.push(field(s.pick(&["0|2", "", "8"])).bad("InvalidEdgeSound", &["a", "0|x", "0|2|256", "1|-1", "2|", "|2", "0||2", "1.5", "é|0"]));
                f.push(field(s.pick(&["0:0|1:2", "", "3:1"])).bad("InvalidEdgeSet", &["a", "0", "0:0|1", "1:2|x:0", "0:x", "0:0|1:-1", "0:0|", "|0:0", "1:2||0:0", "1:1:1"]));
                f.push(sample(s));
            }
        }
        2 => {
            f.push(field(int_text(s)).missing("MissingEndTime"));
            if v >= 10 && s.bool() {
                f.push(sample(s));
            }
        }
        _ => {
            let end = int_text(s);
            let sample = sample(s);
            let mut hold = field(format!("{end}:{}", sample.text)).missing("MissingEndTime");
            hold.bad.push((end.clone(), "InvalidEndTime"));
            hold.bad.extend(sample.bad.iter().map(|(t, n)| (format!("{end}:{t}"), *n)));
            f.push(hold);
        }
    }
    f
}

fn timing_point(s: &mut Src, v: Version) -> Vec<Field> {
    let mut f = vec![field(int_text(s)), field(dec_text(s)).missing("MissingBeatLength")];
    if v >= 4 {
        f.push(field(s.size(1, 9).to_string()).missing("MissingMeter").bad("InvalidMeter", &NOT_INT));
        f.push(field(s.size(0, 3).to_string()).missing("MissingSampleSet").bad("InvalidSampleSet", &["a", "", "1.5", "99999999999999999999", "Normal"]));
        f.push(field(s.size(0, 3).to_string()).missing("MissingSampleIndex").bad("InvalidSampleIndex", &NOT_UINT));
    }
    if v >= 5 {
        f.push(field(s.size(0, 100).to_string()).missing("MissingVolume").bad("InvalidVolume", &NOT_INT));
    }
    if v >= 6 && s.bool() {
        f.push(field(s.size(0, 1).to_string()).bad("InvalidUninherited", &["a", "", "-1", "2", "true", "é"]));
        f.push(field(s.pick(&["0", "1", "8", "9"])).missing("MissingEffects").bad("InvalidEffects", &["a", "", "-1", "1.5", "99999999999999999999"]));
    }
    f
}

const NOT_RGB: [&str; 11] = ["a", "", "256", "-1", "1000", "é", "12x", "1.5", "0x1", "1 2", "3;"];

fn colour(s: &mut Src, _: Version) -> Vec<Field> {
    let combo = s.bool();
    let head = if combo { format!("Combo{}", s.size(1, 8)) } else { s.pick(&["SliderTrackOverride", "SliderBorder"]).to_string() };
    let sep = s.pick(&[" : ", ": ", ":", " :"]);
    let mut first = field(format!("{head}{sep}{}", byte(s)));
    for t in NOT_RGB {
        first.bad.push((format!("{head}{sep}{t}"), "InvalidRed"));
    }
    for t in [" 1", "", "=1", " - 1"] {
        first.bad.push((format!("{head}{t}"), "InvalidColonSeparator"));
    }
    // digits belong to the number of the combo
    if combo {
        first.bad.pop();
        first.bad.push(("Combo : 1".to_string(), "InvalidComboCount"));
        first.bad.push(("Combox : 1".to_string(), "InvalidComboCount"));
        first.bad.push(("Combo-1 : 1".to_string(), "InvalidComboCount"));
    } else {
        for t in ["Foo : 1", "x", "sliderborder : 1", "combo1 : 1", "Slider : 1", "1"] {
            first.bad.push((t.to_string(), "UnknownColourType"));
        }
    }
    vec![
        first,
        field(byte(s).to_string()).missing("MissingGreen").bad("InvalidGreen", &NOT_RGB),
        field(byte(s).to_string()).missing("MissingBlue").bad("InvalidBlue", &NOT_RGB),
    ]
}

fn event(s: &mut Src, v: Version) -> Vec<Field> {
    const NOT_LEGACY: [&str; 6] = ["a", "", "-1", "300", "1.5", "Background"];
    let position = |s: &mut Src, f: &mut Vec<Field>| {
        if s.bool() {
            f.push(field(dec_text(s)));
            f.push(field(dec_text(s)).missing("MissingY"));
        }
    };
    let mut kinds = vec!["0", "Video", "1", "2", "Break", "4", "5", "6", "Sprite", "Animation", "Sample"];
    if v < 14 {
        kinds.push("3");
    }
    let kind = s.pick(&kinds);
    let mut f = vec![field(kind)];
    let path = |s: &mut Src| s.pick(&["\"a.png\"", "b.png", "\"d e/f.png\"", "sb/漢.png"]);
    let layer = |s: &mut Src| {
        field(s.pick(&["Background", "Fail", "Pass", "Foreground", "Overlay"]))
            .missing("MissingLayer")
            .bad("InvalidLayer", &["a", "", "-1", "300", "background", "Background ", "Backgrounds"])
    };
    let origin = |s: &mut Src| {
        field(s.pick(&["TopLeft", "Centre", "CentreLeft", "TopRight", "BottomCentre", "TopCentre", "Custom", "CentreRight", "BottomLeft", "BottomRight"]))
            .missing("MissingOrigin")
            .bad("InvalidOrigin", &["a", "", "centre", "Center", "TopLeft "])
    };
    match kind {
        "0" | "Video" | "1" => {
            f.push(field(int_text(s)).missing("MissingStartTime").bad("InvalidStartTime", &NOT_INT));
            f.push(field(path(s)).missing("MissingFileName"));
            position(s, &mut f);
        }
        "2" | "Break" => {
            f.push(field(int_text(s)).missing("MissingStartTime").bad("InvalidStartTime", &NOT_INT));
            f.push(field(int_text(s)).missing("MissingEndTime").bad("InvalidEndTime", &NOT_INT));
        }
        "3" => {
            f.push(field(int_text(s)).missing("MissingStartTime").bad("InvalidStartTime", &NOT_INT));
            f.push(field(byte(s).to_string()).missing("MissingRed").bad("InvalidRed", &NOT_BYTE));
            f.push(field(byte(s).to_string()).missing("MissingGreen").bad("InvalidGreen", &NOT_BYTE));
            f.push(field(byte(s).to_string()).missing("MissingBlue").bad("InvalidBlue", &NOT_BYTE));
        }
        "4" | "5" => {
            f.push(field(s.size(0, 3).to_string()).missing("MissingLayer").bad("InvalidLayer", &NOT_LEGACY));
            f.push(field(s.size(0, 3).to_string()).missing("MissingOrigin").bad("InvalidOrigin", &["a", "", "-1", "300", "1.5", "Centre"]));
            f.push(field(path(s)).missing("MissingFileName"));
            position(s, &mut f);
        }
        "6" => {
            f.push(field(int_text(s)).missing("MissingTime"));
            f.push(field(s.size(0, 3).to_string()).missing("MissingLayer").bad("InvalidLayer", &NOT_LEGACY));
            f.push(field(path(s)).missing("MissingFileName"));
            if s.bool() {
                f.push(field(s.size(1, 100).to_string()).bad("InvalidVolume", &["a", "", "-1", "101", "300", "1.5"]));
            }
        }
        "Sample" => {
            f.push(field(int_text(s)).missing("MissingTime").bad("InvalidTime", &NOT_INT));
            f.push(field(s.size(0, 3).to_string()).missing("MissingLayer").bad("InvalidLayer", &["a", "", "-1", "300", "1.5"]));
            f.push(field(path(s)).missing("MissingFilepath"));
            if s.bool() {
                f.push(field(s.size(1, 100).to_string()).bad("InvalidVolume", &["a", "", "-1", "101", "300", "1.5"]));
            }
        }
        _ => {
            f.push(layer(s));
            f.push(origin(s));
            f.push(field(path(s)).missing("MissingFilePath"));
            f.push(field(dec_text(s)).missing("MissingPositionX"));
            f.push(field(dec_text(s)).missing("MissingPositionY"));
            if kind == "Animation" {
                f.push(field(s.size(0, 40).to_string()).missing("MissingFrameCount").bad("InvalidFrameCount", &NOT_UINT));
                f.push(field(dec_text_plain(s)).missing("MissingFrameDelay").bad("InvalidFrameDelay", &["a", "", "x1"]));
                if s.bool() {
                    f.push(field(s.pick(&["LoopForever", "LoopOnce"])).bad("InvalidLoopType", &["a", "", "-1", "2", "loopforever", "LoopForever "]));
                }
            }
        }
    }
    f
}

fn dec_text_plain(s: &mut Src) -> String {
    dec(s).to_string()
}

fn command(s: &mut Src, _: Version) -> Vec<Field> {
    const NOT_TIME: [&str; 6] = ["a", "1.5", "99999999999999999999", "1 2", "0x1", "é"];
    let kind = s.pick(&["F", "M", "MX", "MY", "S", "V", "R", "C", "P", "L", "T"]);
    let mut f = vec![field(kind).bad("UnknownCommandType", &["a", "X", "f", "-1", "MZ", "Move", "é", "FF", "F0", "MXX", "PH", "LL", "TT", "C1", "S ,", "Vé", "R.", "M_"])];
    match kind {
        "L" => {
            f.push(field(int_text(s)).missing("MissingStartTime").bad("InvalidStartTime", &NOT_TIME));
            f.push(field(s.size(0, 50).to_string()).missing("MissingLoopCount").bad("InvalidLoopCount", &NOT_UINT));
            return f;
        }
        "T" => {
            f.push(
                field(s.pick(&["Passing", "Failing", "HitSound", "HitSoundClap", "HitSoundAllNormalWhistle", "HitSoundSoft2"]))
                    .missing("MissingTriggerType")
                    .bad("InvalidTriggerType", &["a", "", "-1", "passing", "Hitsound", "HitSoundFoo"]),
            );
            if s.bool() {
                f.push(field(int_text(s)).bad("InvalidStartTime", &NOT_TIME));
                f.push(field(int_text(s)).bad("InvalidEndTime", &NOT_TIME));
                if s.bool() {
                    f.push(field(s.size(0, 9).to_string()).bad("InvalidGroupNumber", &NOT_TIME));
                }
            }
            return f;
        }
        _ => (),
    }
    let easing = field(s.size(0, 34).to_string()).missing("MissingEasing");
    f.push(easing.bad("InvalidEasing", &["a", "", "1.5", "é", "Linear"]));
    f.push(field(int_text(s)).missing("MissingStartTime").bad("InvalidStartTime", &NOT_INT));
    f.push(field(int_text(s)).missing("MissingEndTime").bad("InvalidEndTime", &NOT_TIME));
    match kind {
        "C" => {
            f.push(field(byte(s).to_string()).missing("MissingRed").bad("InvalidRed", &NOT_BYTE));
            f.push(field(byte(s).to_string()).missing("MissingGreen").bad("InvalidGreen", &NOT_BYTE));
            f.push(field(byte(s).to_string()).missing("MissingBlue").bad("InvalidBlue", &NOT_BYTE));
            for _ in 0..s.len(4) {
                f.push(field(byte(s).to_string()).bad("InvalidContinuingColours", &NOT_BYTE));
            }
        }
        "P" => {
            f.push(field(s.pick(&["H", "V", "A"])).missing("MissingParameterType").bad("InvalidParameterType", &["a", "", "h", "HV", "-1"]));
            for _ in 0..s.len(3) {
                f.push(field(s.pick(&["H", "V", "A"])).bad("InvalidContinuingParameters", &["a", "", "h", "HV", "-1"]));
            }
        }
        "F" => f.push(field(dec_text(s)).missing("MissingStartOpacity")),
        "S" => f.push(field(dec_text(s)).missing("MissingStartScale")),
        "R" => f.push(field(dec_text(s)).missing("MissingStartRotation")),
        "MX" => f.push(field(dec_text(s)).missing("MissingMoveX")),
        "MY" => f.push(field(dec_text(s)).missing("MissingMoveY")),
        "M" => {
            f.push(field(dec_text(s)).missing("MissingMoveX"));
            f.push(field(dec_text(s)).missing("MissingMoveY"));
        }
        _ => {
            f.push(field(dec_text(s)).missing("MissingScaleX"));
            f.push(field(dec_text(s)).missing("MissingScaleY"));
        }
    }
    f
}

/// The names of the reasons in a debug text.
fn reasons(dbg: &str) -> Vec<&str> {
    dbg.split(|c: char| !c.is_alphanumeric() && c != '_')
        .filter(|w| w.starts_with("Missing") || (w.starts_with("Invalid") && *w != "InvalidDigit") || w.starts_with("Unknown"))
        .collect()
}

fn judge(s: &mut Src, c: &mut Ctx, section: &str, v: Version, item: fn(&mut Src, Version) -> Vec<Field>) -> CaseResult {
    let mut fields = item(s, v);
    let good = line_of(&fields);
    let name = break_one(s, &mut fields);
    let bad = line_of(&fields);
    let command = section == "Events" && matches!(name_kind(item), Kind::Command);
    let mut text = format!("osu file format v{v}\n\n[{section}]\n");
    let mut at = 3;
    let mut indent = "";
    if command {
        text.push_str("Sprite,Background,Centre,a.png,1,2\n");
        at += 1;
        indent = " ";
        if s.chance(1, 3) {
            text.push_str(" L,0,3\n");
            at += 1;
            indent = "  ";
        }
    }
    let mut before = String::new();
    for _ in 0..s.size(0, 2) {
        // in a loop of its own a command would have to be deeper
        let l = line_of(&item(s, v));
        before.push_str(&format!("{indent}{l}\n"));
        at += 1;
    }
    let after = if s.bool() { format!("{indent}{good}\n") } else { String::new() };
    let good = format!("{text}{before}{indent}{good}\n{after}");
    let bad = format!("{text}{before}{indent}{bad}\n{after}");
    c.sample(|| format!("{name}: {bad:?}"));
    c.nontrivial(&bad);
    c.label(if name.starts_with("Missing") { "missing field" } else { "malformed field" });
    if let Err(e) = good.parse::<OsuFile>() {
        fail!("{good:?} isn't read: {e}");
    }
    let e = match bad.parse::<OsuFile>() {
        Ok(_) => fail!("{bad:?} is read, with {name} in line index {at}"),
        Err(e) => e,
    };
    let dbg = format!("{:?}", e.error());
    let got = reasons(&dbg);
    ensure!(got.contains(&name), "{bad:?} has {name}, reported as {dbg}");
    ensure!(got.iter().all(|g| *g == name), "{bad:?} has {name}, reported as {dbg}");
    let message = e.to_string();
    ensure!(names(&message, name), "{bad:?} has {name}, shown as {message:?}");
    ensure!(e.line_index() == at, "{bad:?} has {name} in line index {at}, reported at {}", e.line_index());
    Ok(())
}

/// The message is about the field and about what's wrong with it.
fn names(message: &str, name: &str) -> bool {
    if name == "MissingEquals" {
        return message.contains("issing") && message.contains('=');
    }
    let tokens: Vec<String> = message
        .split(|c: char| !c.is_alphanumeric())
        .map(|t| t.to_lowercase())
        .collect();
    let mut words: Vec<String> = Vec::new();
    for c in name.chars() {
        if c.is_uppercase() || words.is_empty() {
            words.push(String::new());
        }
        words.last_mut().expect("pushed").extend(c.to_lowercase());
    }
    words.iter().all(|w| {
        if w == "invalid" && tokens.iter().any(|t| t == "failed") {
            return true;
        }
        let stem = w.strip_suffix("ies").or(w.strip_suffix('s')).unwrap_or(w);
        tokens.iter().any(|t| if stem.len() == 1 { t == stem } else { t.starts_with(stem) || t.replace('_', "").starts_with(stem) })
    })
}

enum Kind {
    Command,
    Other,
}

fn name_kind(item: fn(&mut Src, Version) -> Vec<Field>) -> Kind {
    if item as usize == command as fn(&mut Src, Version) -> Vec<Field> as usize {
        Kind::Command
    } else {
        Kind::Other
    }
}

fn hit_objects(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = s.range(3, 14) as Version;
    judge(s, c, "HitObjects", v, hit_object)
}

fn timing_points(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = s.range(3, 14) as Version;
    judge(s, c, "TimingPoints", v, timing_point)
}

fn colours(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = s.range(5, 14) as Version;
    judge(s, c, "Colours", v, colour)
}

fn events(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = s.range(3, 14) as Version;
    judge(s, c, "Events", v, event)
}

fn commands(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = s.range(3, 14) as Version;
    judge(s, c, "Events", v, command)
}

/// Fields between colons or commas inside of an item, read on their own.
fn parts_of_items(s: &mut Src, c: &mut Ctx) -> CaseResult {
    use osu_file_parser::colours::Rgb;
    use osu_file_parser::hitobjects::{CurvePoint, EdgeSet, HitSample};
    let v = version(s);
    let uint = |s: &mut Src| s.range(0, 40).to_string();
    let what = s.below(4);
    let (mut fields, sep) = match what {
        0 => (
            vec![
                field(uint(s)).bad("InvalidFirstItem", &NOT_UINT),
                field(uint(s)).missing("MissingSeparator").bad("InvalidSecondItem", &NOT_UINT),
            ],
            ":",
        ),
        1 => (vec![field(dec_text_plain(s)), field(dec_text_plain(s)).missing("MissingSeparator")], ":"),
        2 => {
            // the fields are all optional, an empty one is only malformed with something after it
            let bad: Vec<&str> = NOT_UINT.iter().copied().filter(|t| !t.is_empty()).collect();
            let mut volume = bad.clone();
            volume.extend(["101", "200", "256"]);
            (
                vec![
                    field(uint(s)).bad("InvalidSampleSet", &bad),
                    field(uint(s)).bad("InvalidSampleSet", &bad),
                    field(uint(s)).bad("InvalidIndex", &bad),
                    field(uint(s)).bad("InvalidVolume", &volume),
                    field(s.pick(&["", "a.wav", "b c.ogg"])),
                ],
                ":",
            )
        }
        _ => {
            let byte = |s: &mut Src| s.range(0, 255).to_string();
            (
                vec![
                    field(byte(s)).bad("InvalidRed", &NOT_RGB),
                    field(byte(s)).missing("MissingGreen").bad("InvalidGreen", &NOT_RGB),
                    field(byte(s)).missing("MissingBlue").bad("InvalidBlue", &NOT_RGB),
                ],
                ",",
            )
        }
    };
    let join = |f: &[Field]| f.iter().map(|f| f.text.as_str()).collect::<Vec<_>>().join(sep);
    let good = join(&fields);
    let name = break_one(s, &mut fields);
    let bad = join(&fields);
    c.sample(|| format!("v{v} {name}: {bad:?}"));
    c.nontrivial(&format!("{what}{bad}"));
    fn read<T: VersionedFromStr>(t: &str, v: Version) -> Result<(), (String, String)>
    where
        T::Err: std::fmt::Debug + std::fmt::Display,
    {
        match T::from_str(t, v) {
            Ok(_) => Ok(()),
            Err(e) => Err((format!("{e:?}"), e.to_string())),
        }
    }
    let read = [read::<EdgeSet>, read::<CurvePoint>, read::<HitSample>, read::<Rgb>][what];
    if let Err((e, _)) = read(&good, v) {
        fail!("{good:?} isn't read: {e}");
    }
    match read(&bad, v) {
        Ok(()) => fail!("{bad:?} is read, with {name}"),
        Err((dbg, message)) => {
            ensure!(reasons(&dbg) == [name], "{bad:?} has {name}, reported as {dbg}");
            ensure!(names(&message, name), "{bad:?} has {name}, shown as {message:?}");
        }
    }
    Ok(())
}

fn fixed(f: &mut Fixed) {
    for (line, name) in [("a", "MissingHeader"), ("a=b", "MissingHeader"), ("$a", "MissingEquals"), ("$", "MissingEquals")] {
        f.case(format!("variable {line:?}"), || {
            let mut file = OsuFile::new(14);
            let text = format!("[Variables]\n$x=1\n{line}\n");
            match file.append_osb(&text) {
                Ok(_) => fail!("{text:?} is read"),
                Err(e) => {
                    let dbg = format!("{:?}", e.error());
                    ensure!(reasons(&dbg) == [name], "{text:?} has {name}, reported as {dbg}");
                    ensure!(names(&e.to_string(), name), "{text:?} has {name}, shown as {e}");
                    Ok(())
                }
            }
        });
    }
}

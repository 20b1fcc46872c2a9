//! Storyboard files that are added to a file.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::events::gen_events;
use crate::model::file::*;
use crate::model::*;
use crate::mutate::*;
use osu_file_parser::*;

pub const CHECK: Check = Check {
    id: "C23",
    rule: "a storyboard is accepted in a file of version 14, and another one is added afterwards",
    assumptions: &[],
    fixed,
    parts: &[Part { name: "histories", case: histories, quick: 40_000, thorough: 2_000_000 }],
};

fn storyboard(s: &mut Src) -> String {
    let names = ["vaA", "vbB", "vcC"];
    let vars: Vec<String> = (0..s.size(0, 3)).map(|i| format!("${}={}", names[i], text(s, 5))).collect();
    let events = gen_events(s, 14);
    let lines: Vec<String> = events.iter().flat_map(|e| e.lines(s, 14)).collect();
    let mut secs = Vec::new();
    if s.bool() {
        secs.push(("Variables".to_string(), vars));
    }
    if s.chance(5, 6) {
        secs.push(("Events".to_string(), lines));
    }
    let noise = Noise::gen(s);
    let text = build(s, None, &secs, noise).text();
    match s.weighted(&[6, 3, 1]) {
        0 => text,
        1 => mutate_once(s, &text),
        _ => s.pick(&["", "a", "[Events", "[Events]\n\n[Events]", "[General]\nMode: 0", "[Events]\n5,a", "[Variables]\na", "[Events]\n0foo"]).to_string(),
    }
}

fn without(f: &OsuFile) -> OsuFile {
    let mut f = f.clone();
    f.osb = None;
    f
}

fn histories(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = if s.bool() { 14 } else { version(s) };
    let f = File::gen(s, v);
    let text = f.source(s, Noise::default()).text();
    let mut file = match text.parse::<OsuFile>() {
        Ok(a) => a,
        Err(e) => fail!("{text:?} isn't read: {e}"),
    };
    same("no storyboard at first", None, file.osb_to_string())?;
    let written = file.to_string();
    let mut log = format!("v{v}");
    let mut expected: Option<Osb> = None;
    let mut accepted = 0;
    for step in 0..s.steps(1, 5) {
        let text = storyboard(s);
        log.push_str(&format!("; add {text:?}"));
        let before = file.clone();
        // what's added to one file doesn't depend on what else is in it
        let mut alone = OsuFile::new(v);
        let r_alone = alone.append_osb(&text);
        let r = file.append_osb(&text);
        same(
            format_args!("{log}: result"),
            r_alone.as_ref().map_err(|e| format!("{e:?}")).cloned_unit(),
            r.as_ref().map_err(|e| format!("{e:?}")).cloned_unit(),
        )?;
        match r {
            Ok(()) => {
                c.label(if v < 14 { "older version" } else { "accepted" });
                if v < 14 {
                    same(format_args!("{log}: storyboard"), None, file.osb.clone())?;
                } else {
                    ensure!(file.osb.is_some(), "{log}: there's no storyboard");
                    if accepted > 0 {
                        c.nontrivial(&log);
                    }
                    accepted += 1;
                }
                expected = alone.osb.clone();
            }
            Err(e) => {
                c.label("rejected");
                ensure!(v >= 14, "{log}: v{v} has no storyboards, got {e:?}");
                ensure!(file == before, "{log}: rejected with {e:?}, and changed {before:?} to {file:?}");
            }
        }
        same(format_args!("{log}: storyboard"), expected.clone(), file.osb.clone())?;
        ensure!(without(&file) == without(&before), "{log}: changed {before:?} to {file:?}");
        same(format_args!("{log}: file"), written.clone(), file.to_string())?;
        let mut alone = OsuFile::new(v);
        alone.osb = expected.clone();
        same(format_args!("{log}: storyboard written"), alone.osb_to_string(), file.osb_to_string())?;
        same(format_args!("{log}: storyboard is written"), expected.is_some(), file.osb_to_string().is_some())?;
        if step == 0 {
            c.sample(|| log.clone());
        }
    }
    // storyboard files only exist in the latest version
    for w in VERSIONS {
        file.version = w;
        same(
            format_args!("{log}: storyboard is written in v{w}"),
            expected.is_some() && w >= 14,
            file.osb_to_string().is_some(),
        )?;
    }
    Ok(())
}

trait ClonedUnit {
    fn cloned_unit(self) -> Result<(), String>;
}

impl ClonedUnit for Result<&(), String> {
    fn cloned_unit(self) -> Result<(), String> {
        self.map(|_| ())
    }
}

fn fixed(f: &mut Fixed) {
    f.case("rejected storyboard", || {
        let mut file = OsuFile::new(14);
        file.append_osb("[Events]\n//a\n").map_err(|e| e.to_string())?;
        let before = file.clone();
        ensure!(file.append_osb("[Events]\nfoo").is_err(), "accepted");
        same("file", before, file)
    });
}

//! Events.

use super::list::*;
use super::*;
use crate::engine::*;
use crate::model::events::*;
use crate::model::file::check_events;
use crate::model::*;
use osu_file_parser::*;

pub const CHECK: Check = Check {
    id: "C06",
    rule: "at least two events, not all of them comments",
    assumptions: &[],
    fixed,
    parts: &[Part { name: "events", case: events, quick: 150_000, thorough: 8_000_000 }],
};

pub const SPEC: Spec<Ev, Events> = Spec {
    name: "Events",
    lines: |m, s, v| m.lines(s, v),
    print: |m, _, w| Some(print_events(m, w)),
    check: check_events,
    left: |_, _| {},
};

fn events(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let mut model = gen_events(s, v);
    // commands are the subject of another check
    for m in &mut model {
        if s.chance(3, 4) {
            m.cmds.clear();
        }
    }
    for m in &model {
        c.label(match m.kind {
            Kind::Comment(_) => "comment",
            Kind::Background { .. } => "background",
            Kind::Video { .. } => "video",
            Kind::Break { .. } => "break",
            Kind::ColourTransformation { .. } => "colour transformation",
            Kind::Legacy { animation: false, .. } => "legacy sprite",
            Kind::Legacy { animation: true, .. } => "legacy animation",
            Kind::SampleLegacy { .. } => "legacy sample",
            Kind::Sprite { .. } => "sprite",
            Kind::Animation { .. } => "animation",
            Kind::Sample { .. } => "sample",
        });
    }
    if model.len() >= 2 && model.iter().any(|m| !matches!(m.kind, Kind::Comment(_))) {
        c.nontrivial(&format!("{v}{model:?}"));
    }
    list_case(s, c, v, &model, &SPEC)
}

fn fixed(f: &mut Fixed) {
    super::large::events(f);
    for header in ["0foo", "12", "Videox", "Breaks,1,2", "3x,1", "44,0,0,a", "66,1", "Spritely,1", "Samples,1"] {
        f.case(format!("unknown event {header}"), || {
            for v in VERSIONS {
                let r = fs::<Events>(header, v);
                ensure!(r.is_err(), "{header:?} read as {r:?}, expected an error");
            }
            Ok(())
        });
    }
    f.case("unknown loop type", || {
        let line = "Animation,Background,Centre,a.png,0,0,1,1,Loop";
        let r = fs::<Events>(line, 14);
        ensure!(r.is_err(), "{line:?} read as {r:?}, expected an error");
        Ok(())
    });
}

//! Values that are made by a program, and not read.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::events::{gen_events, Ev, Kind as EvKind};
use crate::model::file::*;
use crate::model::hitobjects::{Ho, Kind, Sample, Tail};
use crate::model::kv::{Kv, Sec};
use crate::model::timing::{index_of, set_of, Tp};
use crate::model::*;
use osu_file_parser::timingpoints::{Effects, TimingPoint, Volume};
use osu_file_parser::hitobjects::{HitObject, HitObjectParams};
use osu_file_parser::*;

pub const CHECK: Check = Check {
    id: "C21",
    rule: "at least one section has content",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "files", case: files, quick: 60_000, thorough: 3_000_000 },
        Part { name: "hit objects", case: objects, quick: 80_000, thorough: 4_000_000 },
        Part { name: "changed after reading", case: changed, quick: 40_000, thorough: 2_000_000 },
        Part { name: "storyboards", case: storyboards, quick: 30_000, thorough: 1_500_000 },
        Part { name: "values of fields", case: field_values, quick: 100_000, thorough: 4_000_000 },
    ],
};

/// An object the way a program makes it: the lists of a slider are only there if they're needed.
fn object(s: &mut Src, v: Version) -> Ho {
    let mut m = Ho::gen(s, v);
    let sampled = m.sample.is_some();
    needed_lists(&mut m.kind, sampled);
    m
}

fn needed_lists(kind: &mut Kind, sampled: bool) {
    if let Kind::Slider { tail, .. } = kind {
        *tail = match std::mem::replace(tail, Tail::None) {
            Tail::Sets(e, x) if sampled || !x.is_empty() => Tail::Sets(e, x),
            Tail::Sets(e, _) | Tail::Edges(e) if !e.is_empty() => Tail::Edges(e),
            _ => Tail::None,
        };
    }
}

/// A timing point made with the public interface.
fn point(s: &mut Src, v: Version) -> Tp {
    let mut m = Tp::gen(s, 14);
    m.time = Num::int(if is_old(v) { time_int(s) } else { int(s) } as i64);
    m.uninherited = Some(s.bool());
    m.effects = Some(uint(s, u32::MAX as u64) as u32);
    m
}

fn make_point(m: &Tp) -> TimingPoint {
    let Num::Dec(_) = m.time else { panic!("no time") };
    let time: i32 = m.time.print().parse().expect("time");
    let mut t = TimingPoint::new_uninherited(
        time,
        m.beat_length.to_crate(),
        m.meter,
        set_of(m.set),
        index_of(m.index),
        Volume::new(m.volume, 14).expect("volume"),
        <Effects as VersionedFrom<u32>>::from(m.effects.unwrap_or(0), 14).expect("effects"),
    );
    if m.uninherited == Some(false) {
        t.set_uninherited(false);
    }
    t
}

/// What's left of a timing point in the version.
fn left_point(m: &mut Tp, v: Version) {
    if v < 4 {
        m.meter = 4;
        m.set = 1;
        m.index = 1;
    }
    if v < 5 {
        m.volume = 100;
        m.uninherited = None;
        m.effects = None;
    }
}

fn event(mut m: Ev) -> Ev {
    match &mut m.kind {
        EvKind::Video { long, .. } | EvKind::Break { long, .. } => *long = false,
        _ => {}
    }
    m
}

/// Commands of backgrounds, videos and legacy objects are there in every event.
fn make_events(m: &[Ev]) -> Option<Events> {
    Some(Events(m.iter().map(|m| m.to_crate()).collect::<Option<Vec<_>>>()?))
}

fn make(f: &File) -> Option<OsuFile> {
    let mut o = OsuFile::new(f.version);
    for sec in &f.sections {
        match sec {
            Section::Kv(k) => match k.sec {
                Sec::General => o.general = Some(k.general(14)),
                Sec::Editor => o.editor = Some(k.editor(14)),
                Sec::Metadata => o.metadata = Some(k.metadata(14)),
                Sec::Difficulty => o.difficulty = Some(k.difficulty(14)),
            },
            Section::Events(m) => o.events = Some(make_events(m)?),
            Section::Timing(m) => o.timing_points = Some(TimingPoints(m.iter().map(make_point).collect())),
            Section::Colours(m) => o.colours = Some(Colours(m.iter().map(|m| m.to_crate()).collect())),
            Section::Hits(m) => o.hitobjects = Some(HitObjects(m.iter().map(|m| m.to_crate()).collect())),
        }
    }
    Some(o)
}

fn gen_file(s: &mut Src, v: Version) -> File {
    let mut f = File { version: v, sections: Vec::new() };
    let one = s.bool();
    let only = s.below(8);
    for i in 0..8 {
        let take = if one { i == only } else { !s.chance(1, 4) };
        if !take {
            continue;
        }
        f.sections.push(match i {
            0 => Section::Kv(Kv::gen(s, Sec::General)),
            1 => Section::Kv(Kv::gen(s, Sec::Editor)),
            2 => Section::Kv(Kv::gen(s, Sec::Metadata)),
            3 => Section::Kv(Kv::gen(s, Sec::Difficulty)),
            4 => Section::Events(gen_events(s, v).into_iter().map(event).collect()),
            5 => Section::Timing(vec_of(s, 12, |s| point(s, v))),
            6 => Section::Colours(vec_of(s, 8, crate::model::colours::Col::gen)),
            _ => Section::Hits(vec_of(s, 12, |s| object(s, v))),
        });
    }
    f
}

/// The file that's read after the made one is written.
fn left(f: &File) -> File {
    let mut f = f.clone();
    f.retain_printed();
    for sec in &mut f.sections {
        if let Section::Timing(t) = sec {
            for t in t {
                left_point(t, f.version);
            }
        }
    }
    f
}

fn files(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let f = gen_file(s, v);
    let Some(made) = make(&f) else { return Ok(()) };
    let text = made.to_string();
    c.sample(|| text.clone());
    if f.items() > 0 {
        c.nontrivial(&text);
    }
    for sec in &f.sections {
        c.label(sec.name());
    }
    let expected = f_print(&f);
    ensure!(text == expected, "{made:?} is written as {text:?}, expected {expected:?}");
    let got = match text.parse::<OsuFile>() {
        Ok(g) => g,
        Err(e) => fail!("{made:?} is written as {text:?}, which isn't read: {e}"),
    };
    left(&f)
        .check(&got)
        .map_err(|e| format!("{made:?} is written as {text:?}, which is read wrong: {e}"))?;
    let again = got.to_string();
    ensure!(again == text, "{made:?} is written as {text:?}, and read and written as {again:?}");
    Ok(())
}

/// What a made file is written as. All of it is stored, in any version.
fn f_print(f: &File) -> String {
    let mut parts = Vec::new();
    for name in NAMES {
        if let Some(text) = f.get(name).and_then(|s| s.print(14, f.version)) {
            parts.push(format!("[{name}]\n{text}"));
        }
    }
    format!("osu file format v{}\n\n{}", f.version, parts.join("\n\n"))
}

fn objects(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let m = object(s, v);
    let made = m.to_crate();
    let text = ts(&made, v);
    c.sample(|| format!("v{v} {}", show(&text)));
    if m.sample.is_some() || matches!(m.kind, Kind::Slider { .. }) {
        c.nontrivial(&format!("{v}{m:?}"));
    }
    same(format_args!("v{v} {made:?} written"), m.print(v), text.clone())?;
    let text = text.unwrap_or_default();
    let got = match fs::<HitObject>(&text, v) {
        Ok(Some(g)) => g,
        r => fail!("v{v} {made:?} is written as {text:?}, which isn't read: {r:?}"),
    };
    let mut left = m.clone();
    left.retain_printed(v);
    left.check(&got)
        .map_err(|e| format!("v{v} {made:?} is written as {text:?}, which is read wrong: {e}"))
}

/// Everything of a read object can be replaced.
fn changed(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let a = Ho::gen(s, v);
    let line = a.line(s, v);
    let mut got = match fs::<HitObject>(&line, v) {
        Ok(Some(g)) => g,
        r => fail!("v{v} {line:?} isn't read: {r:?}"),
    };
    let b = object(s, v);
    let to = b.to_crate();
    let mut m = a.clone();
    let mut what = format!("v{v} {line:?}");
    let mut any = false;
    for i in 0..7 {
        if !s.bool() {
            continue;
        }
        any = true;
        match i {
            0 => {
                got.position = to.position.clone();
                (m.x, m.y) = (b.x.clone(), b.y.clone());
                what.push_str(" position");
            }
            1 => {
                got.time = to.time.clone();
                m.time = b.time.clone();
                what.push_str(" time");
            }
            2 => {
                got.new_combo = to.new_combo;
                m.new_combo = b.new_combo;
                what.push_str(" new combo");
            }
            3 => {
                got.combo_skip_count = to.combo_skip_count;
                m.skip = b.skip;
                what.push_str(" combo skip count");
            }
            4 => {
                got.hitsound = to.hitsound;
                m.hitsound = b.hitsound;
                what.push_str(" hitsound");
            }
            5 => {
                got.hitsample = to.hitsample.clone();
                m.sample = b.sample.clone();
                what.push_str(" hitsample");
            }
            _ => {
                got.obj_params = to.obj_params.clone();
                m.kind = b.kind.clone();
                needed_lists(&mut m.kind, false);
                what.push_str(" params");
            }
        }
    }
    // a sample needs the lists in front of it
    if let (Some(_), Kind::Slider { tail, .. }) = (&m.sample, &mut m.kind) {
        *tail = match std::mem::replace(tail, Tail::None) {
            Tail::None => Tail::Sets(Vec::new(), Vec::new()),
            Tail::Edges(e) => Tail::Sets(e, Vec::new()),
            t => t,
        };
    }
    what.push_str(&format!(" of {to:?}"));
    c.sample(|| what.clone());
    if any {
        c.nontrivial(&what);
    }
    m.check(&got).map_err(|e| format!("{what}: {e}"))?;
    let text = ts(&got, v);
    same(format_args!("{what} written"), m.print(v), text.clone())?;
    let text = text.unwrap_or_default();
    let again = match fs::<HitObject>(&text, v) {
        Ok(Some(g)) => g,
        r => fail!("{what} is written as {text:?}, which isn't read: {r:?}"),
    };
    m.retain_printed(v);
    m.check(&again).map_err(|e| format!("{what} is written as {text:?}, which is read wrong: {e}"))
}

fn storyboards(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let m: Vec<Ev> = gen_events(s, 14).into_iter().map(event).collect();
    let Some(events) = make_events(&m) else { return Ok(()) };
    let mut o = OsuFile::new(14);
    o.osb = Some(Osb { variables: None, events: Some(events) });
    let Some(text) = o.osb_to_string() else { fail!("{m:?} isn't written") };
    c.sample(|| text.clone());
    if !m.is_empty() {
        c.nontrivial(&text);
    }
    let expected = format!("[Events]\n{}", crate::model::events::print_events(&m, 14));
    ensure!(text == expected, "{m:?} is written as {text:?}, expected {expected:?}");
    let mut again = OsuFile::new(14);
    if let Err(e) = again.append_osb(&text) {
        fail!("{m:?} is written as {text:?}, which isn't read: {e}");
    }
    let Some(Osb { events: Some(g), variables: None }) = &again.osb else {
        fail!("{text:?} read as {:?}", again.osb)
    };
    check_events(&m, g).map_err(|e| format!("{text:?} read wrong: {e}"))
}

/// Fields are made of plain values and made plain values again; two of them are equal if the values are.
fn field_values(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let (n, m) = (int(s), int(s));
    let (b, e) = (s.bool(), s.bool());
    let (t, u) = (text(s, 10), text(s, 10));
    let (x, y) = (num(s).to_crate(), num(s).to_crate());
    let (l, k) = (vec_of(s, 6, int), vec_of(s, 6, int));
    let (tags, tags2) = (vec_of(s, 5, |s| text(s, 6)), vec_of(s, 5, |s| text(s, 6)));
    c.sample(|| format!("{n} {b} {t:?} {x} {l:?} {tags:?}"));
    c.nontrivial(&format!("{n} {b} {t:?} {x} {l:?} {tags:?}"));
    macro_rules! f {
        ($m:ident :: $ty:ident, $inner:ty, $val:expr, $other:expr, $show:expr) => {{
            let what = concat!(stringify!($m), " ", stringify!($ty));
            let (val, other): ($inner, $inner) = ($val, $other);
            let a: $m::$ty = val.clone().into();
            let b: $m::$ty = other.clone().into();
            same(format_args!("{what} of {val:?} and of {other:?} are equal"), val == other, a == b)?;
            if let Some(shown) = ts(&a, v) {
                #[allow(clippy::redundant_closure_call)]
                let want: String = ($show)(&val);
                same(format_args!("v{v} {what} of {val:?} written"), want, shown)?;
            }
            let back: $inner = a.into();
            same(&format!("{what} of {val:?}"), val, back)?;
        }};
    }
    let flag = |b: &bool| (*b as u8).to_string();
    let ints = |l: &Vec<i32>| l.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",");
    macro_rules! ints {
        ($($m:ident :: $ty:ident),*) => { $(f!($m::$ty, i32, n, m, |n: &i32| n.to_string());)* };
    }
    macro_rules! texts {
        ($($m:ident :: $ty:ident),*) => { $(f!($m::$ty, String, t.clone(), u.clone(), |t: &String| t.clone());)* };
    }
    macro_rules! nums {
        ($($m:ident :: $ty:ident),*) => { $(f!($m::$ty, Decimal, x.clone(), y.clone(), |x: &Decimal| x.to_string());)* };
    }
    macro_rules! flags {
        ($($m:ident :: $ty:ident),*) => { $(f!($m::$ty, bool, b, e, flag);)* };
    }
    ints!(
        general::AudioLeadIn,
        general::PreviewTime,
        general::CountdownOffset,
        editor::GridSize,
        editor::CurrentTime,
        metadata::BeatmapID,
        metadata::BeatmapSetID
    );
    texts!(
        general::AudioHash,
        general::SkinPreference,
        metadata::Title,
        metadata::TitleUnicode,
        metadata::Artist,
        metadata::ArtistUnicode,
        metadata::Creator,
        metadata::Version,
        metadata::Source
    );
    nums!(
        general::StackLeniency,
        general::EditorDistanceSpacing,
        editor::DistanceSpacing,
        editor::BeatDivisor,
        editor::TimelineZoom,
        difficulty::HPDrainRate,
        difficulty::CircleSize,
        difficulty::OverallDifficulty,
        difficulty::ApproachRate,
        difficulty::SliderMultiplier,
        difficulty::SliderTickRate
    );
    flags!(
        general::LetterboxInBreaks,
        general::StoryFireInFront,
        general::UseSkinSprites,
        general::AlwaysShowPlayfield,
        general::EpilepsyWarning,
        general::SpecialStyle,
        general::WidescreenStoryboard,
        general::SamplesMatchPlaybackRate
    );
    f!(general::AudioFilename, std::path::PathBuf, t.clone().into(), u.clone().into(), |p: &std::path::PathBuf| p
        .display()
        .to_string());
    f!(general::EditorBookmarks, Vec<i32>, l.clone(), k.clone(), ints);
    f!(editor::Bookmarks, Vec<i32>, l.clone(), k.clone(), ints);
    f!(metadata::Tags, Vec<String>, tags.clone(), tags2.clone(), |t: &Vec<String>| t.join(" "));
    Ok(())
}

fn fixed(f: &mut Fixed) {
    f.case("default objects", || {
        for v in VERSIONS {
            for (o, x, y, kind, line) in [
                (HitObject::hitcircle_default(), 256, 192, 0, "256,192,0,1,0,0:0:0:0:"),
                (HitObject::spinner_default(), 256, 192, 2, "256,192,0,8,0,0,0:0:0:0:"),
                (HitObject::osu_mania_hold_default(), 0, 192, 3, "0,192,0,128,0,0:0:0:0:0:"),
            ] {
                same("x", &Decimal::from(x), &o.position.x)?;
                same("y", &Decimal::from(y), &o.position.y)?;
                same("time", &Decimal::from(0), &o.time)?;
                same("new combo", false, o.new_combo)?;
                same("combo skip count", 0, o.combo_skip_count.get())?;
                let got = match &o.obj_params {
                    HitObjectParams::HitCircle => 0,
                    HitObjectParams::Spinner { end_time } => {
                        same("end", &Decimal::from(0), end_time)?;
                        2
                    }
                    HitObjectParams::OsuManiaHold { end_time } => {
                        same("end", &Decimal::from(0), end_time)?;
                        3
                    }
                    p => fail!("kind {p:?}"),
                };
                same("kind", kind, got)?;
                if v < 12 {
                    continue;
                }
                let t = ts(&o, v);
                let mut with = o.clone();
                with.hitsample = Some(Sample::empty().to_crate());
                same("written", Some(line.to_string()), ts(&with, v))?;
                let t = t.unwrap_or_default();
                match fs::<HitObject>(&t, v) {
                    Ok(Some(g)) => same(format_args!("{t:?} read again"), &o, &g)?,
                    r => fail!("{t:?} isn't read: {r:?}"),
                }
            }
        }
        Ok(())
    });
    f.case("file without anything", || {
        for v in VERSIONS {
            let o = OsuFile::new(v);
            same("default", &o, &OsuFile::default(v))?;
            let t = o.to_string();
            same("written", format!("osu file format v{v}\n\n"), t.clone())?;
            match t.parse::<OsuFile>() {
                Ok(g) => same("read again", &o, &g)?,
                Err(e) => fail!("{t:?} isn't read: {e}"),
            }
        }
        Ok(())
    });
}

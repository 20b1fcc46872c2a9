//! Keywords, codes and defaults.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cmds::{easing_of, param_of, Trig, ADDITIONS, PARAMS, TRIG_SETS};
use crate::model::events::{layer_legacy_of, layer_of, origin_legacy_of, origin_of, sample_layer_of, LAYERS, ORIGINS};
use crate::model::hitobjects::{curve_of, CURVES};
use crate::model::{fs, same, ts, version, VERSIONS};
use either::Either;
use osu_file_parser::osu_file::{colours, events, general, hitobjects, timingpoints};
use osu_file_parser::events::normal_event::types as nt;
use osu_file_parser::events::storyboard::{sprites as sp, types as st};
use osu_file_parser::{Difficulty, Editor, General, Metadata};
use osu_file_parser::{Decimal, Integer, Version, VersionedDefault, VersionedFrom, VersionedFromRepr, VersionedFromStr, VersionedToString, VersionedTryFrom};
use std::fmt::Debug;
use std::path::PathBuf;

pub const CHECK: Check = Check {
    id: "C18",
    rule: "every case is non-trivial: all of them are keywords, codes or rows of them, or few characters away from it",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "keywords and codes", case: words, quick: 400_000, thorough: 16_000_000 },
        Part { name: "values of fields", case: values, quick: 200_000, thorough: 8_000_000 },
    ],
};

#[derive(Debug, PartialEq)]
enum Want<T> {
    Val(T),
    /// Doesn't exist in the version.
    Nothing,
    Err,
}

/// What `text` is read as, and what that's written as in a second version.
fn read<T>(name: &str, text: &str, v: Version, want: Want<T>) -> CaseResult
where
    T: VersionedFromStr + PartialEq + Debug,
    T::Err: Debug,
{
    match (fs::<T>(text, v), &want) {
        (Ok(Some(g)), Want::Val(w)) if g == *w => Ok(()),
        (Ok(None), Want::Nothing) | (Err(_), Want::Err) => Ok(()),
        (r, w) => Err(format!("{name} {text:?} in v{v} read as {r:?}, expected {w:?}")),
    }
}

fn number<T>(text: &str, codes: &[T]) -> Want<T>
where
    T: Clone,
{
    match text.parse::<usize>().ok().and_then(|n| codes.get(n)) {
        Some(t) => Want::Val(t.clone()),
        None => Want::Err,
    }
}

fn word<T>(text: &str, words: &[&str], values: &[T]) -> Want<T>
where
    T: Clone,
{
    match words.iter().position(|w| *w == text) {
        Some(i) => Want::Val(values[i].clone()),
        None => Want::Err,
    }
}

fn since<T>(v: Version, first: Version, want: Want<T>) -> Want<T> {
    if v < first {
        Want::Nothing
    } else {
        want
    }
}

fn list<T>(n: usize, f: impl Fn(usize) -> T) -> Vec<T> {
    (0..n).map(f).collect()
}

const SETS: [&str; 4] = ["Normal", "Soft", "Drum", "None"];
const OVERLAYS: [&str; 3] = ["NoChange", "Below", "Above"];
const LOOPS: [&str; 2] = ["LoopForever", "LoopOnce"];

fn countdowns() -> [general::Countdown; 4] {
    use general::Countdown::*;
    [NoCountdown, Normal, Half, Double]
}

fn sets() -> [general::SampleSet; 4] {
    use general::SampleSet::*;
    [Normal, Soft, Drum, None]
}

fn modes() -> [general::Mode; 4] {
    use general::Mode::*;
    [Osu, Taiko, Catch, Mania]
}

const MODE_SINCE: [Version; 4] = [3, 5, 7, 10];

fn overlays() -> [general::OverlayPosition; 3] {
    use general::OverlayPosition::*;
    [NoChange, Below, Above]
}

fn loops() -> [sp::LoopType; 2] {
    [sp::LoopType::LoopForever, sp::LoopType::LoopOnce]
}

fn sb_sets() -> [st::SampleSet; 4] {
    use st::SampleSet::*;
    [All, Normal, Soft, Drum]
}

fn additions() -> [st::Addition; 3] {
    [st::Addition::Whistle, st::Addition::Finish, st::Addition::Clap]
}

fn hit_set(n: usize) -> hitobjects::SampleSet {
    use hitobjects::SampleSet::*;
    match n {
        0 => NoCustomSampleSet,
        1 => NormalSet,
        2 => SoftSet,
        3 => DrumSet,
        n => Other(n),
    }
}

/// A keyword or code, most of the time with a small change.
fn near(s: &mut Src, words: &[&str]) -> String {
    let mut t = match s.weighted(&[6, 3, 1, 1]) {
        0 if !words.is_empty() => s.pick(words).to_string(),
        0 | 1 => {
            let n = s.range(0, 12);
            spell_int(s, n)
        }
        2 => {
            let n = int(s) as i64;
            spell_int(s, n)
        }
        _ => s
            .pick(&[
                "Normal", "Soft", "All", "None", "Background", "Video", "Centre", "LoopOnce", "Passing", "H", "B", "NoChange",
                "HitSound", "Whistle", "",
            ])
            .to_string(),
    };
    match s.weighted(&[10, 2, 2, 2, 2, 2, 1, 1, 1]) {
        0 => {}
        6 => t = t.repeat(2),
        7 if !words.is_empty() => t.push_str(s.pick(words)),
        8 => {
            t = t.chars().skip(1).collect();
        }
        1 => t = t.to_lowercase(),
        2 => t = t.to_uppercase(),
        3 => t.push(s.pick(&['0', '1', 's', 'x', '.', ' ', 'é'])),
        4 => t.insert(0, s.pick(&['0', '1', '-', '+', 'x', ' '])),
        _ => {
            t.pop();
        }
    }
    t
}

fn written<T: VersionedToString>(name: &str, t: &T, v: Version, want: Option<&str>) -> CaseResult {
    same(format_args!("{name} in v{v}"), want.map(|w| w.to_string()), ts(t, v))
}

fn words(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let which = s.below(19);
    let text;
    macro_rules! of {
        ($words:expr) => {{
            text = near(s, $words);
            let t: &str = &text;
            t
        }};
    }
    let name;
    let r = match which {
        0 => {
            name = "countdown";
            let t = of!(&[]);
            read(name, t, v, since(v, 5, number(t, &countdowns())))
        }
        1 => {
            name = "sample set of the map";
            let t = of!(&SETS);
            read(name, t, v, since(v, 4, word(t, &SETS, &sets())))
        }
        2 => {
            name = "mode";
            let t = of!(&[]);
            let want = match number(t, &[0usize, 1, 2, 3]) {
                Want::Val(n) => since(v, MODE_SINCE[n], Want::Val(modes()[n])),
                _ => Want::Err,
            };
            read(name, t, v, want)
        }
        3 => {
            name = "overlay position";
            let t = of!(&OVERLAYS);
            read(name, t, v, since(v, 14, word(t, &OVERLAYS, &overlays())))
        }
        4 => {
            name = "sample set of timing points";
            let t = of!(&[]);
            let want = match t.parse::<i32>() {
                Ok(n) => Want::Val(crate::model::timing::set_of(n)),
                Err(_) => Want::Err,
            };
            read(name, t, v, want)
        }
        5 => {
            name = "sample index of timing points";
            let t = of!(&[]);
            let want = match t.parse::<u32>() {
                Ok(n) => Want::Val(crate::model::timing::index_of(n)),
                Err(_) => Want::Err,
            };
            read(name, t, v, want)
        }
        6 => {
            name = "sample set of hit objects";
            let t = of!(&[]);
            let want = match t.parse::<usize>() {
                Ok(n) => Want::Val(hit_set(n)),
                Err(_) => Want::Err,
            };
            read(name, t, v, want)
        }
        7 => {
            name = "curve type";
            let t = of!(&CURVES);
            read(name, t, v, word(t, &CURVES, &list(4, curve_of)))
        }
        8 => {
            name = "numbered layer";
            let t = of!(&[]);
            read(name, t, v, number(t, &list(6, layer_legacy_of)))
        }
        9 => {
            name = "numbered origin";
            let t = of!(&[]);
            read(name, t, v, number(t, &list(10, origin_legacy_of)))
        }
        10 => {
            name = "layer";
            let t = of!(&LAYERS);
            read(name, t, v, word(t, &LAYERS, &list(5, layer_of)))
        }
        11 => {
            name = "origin";
            let t = of!(&ORIGINS);
            let want = match word(t, &ORIGINS, &list(10, origin_of)) {
                Want::Val(o) => Want::Val(sp::Origin { type_: Either::Left(o), shorthand: false }),
                _ => match t.parse::<i32>() {
                    Ok(n) => Want::Val(sp::Origin {
                        type_: match usize::try_from(n).ok().filter(|n| *n < 10) {
                            Some(n) => Either::Left(origin_of(n)),
                            None => Either::Right(n),
                        },
                        shorthand: true,
                    }),
                    Err(_) => Want::Err,
                },
            };
            read(name, t, v, want)
        }
        12 => {
            name = "loop type";
            let t = of!(&LOOPS);
            read(name, t, v, word(t, &LOOPS, &loops()))
        }
        13 => {
            name = "sample set of triggers";
            let t = of!(&TRIG_SETS);
            read(name, t, v, word(t, &TRIG_SETS, &sb_sets()))
        }
        14 => {
            name = "addition of triggers";
            let t = of!(&ADDITIONS);
            read(name, t, v, word(t, &ADDITIONS, &additions()))
        }
        15 => {
            name = "parameter";
            let t = of!(&PARAMS);
            read(name, t, v, word(t, &PARAMS, &list(3, param_of)))
        }
        16 => {
            name = "volume of timing points";
            let t = of!(&[]);
            let want = match t.parse::<i32>() {
                Ok(n) => Want::Val(timingpoints::Volume::new(n, v).ok_or("no volume")?),
                Err(_) => Want::Err,
            };
            read(name, t, v, want)
        }
        17 => {
            name = "sample index of hit objects";
            let t = of!(&[]);
            let want = match t.parse::<usize>() {
                Ok(n) => Want::Val(match std::num::NonZeroUsize::new(n) {
                    Some(n) => hitobjects::SampleIndex::Index(n),
                    None => hitobjects::SampleIndex::TimingPointSampleIndex,
                }),
                Err(_) => Want::Err,
            };
            read(name, t, v, want)
        }
        _ => {
            name = "trigger";
            text = trigger_text(s);
            let want = match trigger(&text) {
                Some(t) => Want::Val(t.to_crate()),
                None => Want::Err,
            };
            read(name, &text, v, want)
        }
    };
    c.label(name);
    c.sample(|| format!("{name} {text:?} in v{v}"));
    c.nontrivial(&format!("{name} {text:?} {v}"));
    r
}

fn trigger_text(s: &mut Src) -> String {
    let mut parts: Vec<String> = Vec::new();
    match s.weighted(&[8, 1, 1]) {
        0 => parts.push("HitSound".to_string()),
        1 => parts.push("Passing".to_string()),
        _ => parts.push("Failing".to_string()),
    }
    for _ in 0..s.weighted(&[2, 4, 4, 4, 2, 1]) {
        parts.push(match s.weighted(&[10, 6, 4, 2, 1]) {
            4 => s.pick(&["HitSound", "Passing", "Failing"]).to_string(),
            0 => s.pick(&TRIG_SETS).to_string(),
            1 => s.pick(&ADDITIONS).to_string(),
            2 => uint(s, 1_000_000).to_string(),
            _ => near(s, &TRIG_SETS).replace([' ', '+', '-', '.'], ""),
        });
    }
    parts.concat()
}

/// The trigger a text stands for: a sample set, a sample set of the additions, an addition and a number,
/// each of them optional and in this order.
fn trigger(text: &str) -> Option<Trig> {
    match text {
        "Passing" => return Some(Trig::Passing),
        "Failing" => return Some(Trig::Failing),
        _ => {}
    }
    let mut rest = text.strip_prefix("HitSound")?;
    let mut take = |words: &[&str]| {
        let i = words.iter().position(|w| rest.starts_with(w))?;
        rest = &rest[words[i].len()..];
        Some(i)
    };
    let set = take(&TRIG_SETS);
    let additions = take(&TRIG_SETS);
    let addition = take(&ADDITIONS);
    let custom = match rest {
        "" => None,
        n if n.bytes().all(|b| b.is_ascii_digit()) => Some(n.parse().ok()?),
        _ => return None,
    };
    Some(Trig::HitSound { set, additions, addition, custom })
}

/// Values of `key: value` fields that are or aren't of the type of the field.
fn values(s: &mut Src, c: &mut Ctx) -> CaseResult {
    use osu_file_parser::osu_file::{editor, metadata};
    let v = version(s);
    let text = match s.weighted(&[3, 2, 1]) {
        0 => near(s, &["0", "1", "2", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "true"]),
        1 => {
            let n = int(s) as i64;
            spell_int(s, n)
        }
        _ => odd_num_text(s),
    };
    let t = text.as_str();
    c.sample(|| format!("{text:?} in v{v}"));
    c.nontrivial(&text);
    macro_rules! all {
        ($want:expr, $($m:ident::$ty:ident),*) => {
            $( read(stringify!($ty), t, v, match $want {
                Some(x) => Want::Val(<$m::$ty as From<_>>::from(x)),
                None => Want::Err,
            })?; )*
        };
    }
    let flag = match t.parse::<i32>() {
        Ok(0) => Some(false),
        Ok(1) => Some(true),
        _ => None,
    };
    all!(
        flag,
        general::LetterboxInBreaks,
        general::StoryFireInFront,
        general::UseSkinSprites,
        general::AlwaysShowPlayfield,
        general::EpilepsyWarning,
        general::SpecialStyle,
        general::WidescreenStoryboard,
        general::SamplesMatchPlaybackRate
    );
    all!(
        t.parse::<Integer>().ok(),
        general::AudioLeadIn,
        general::PreviewTime,
        general::CountdownOffset,
        editor::GridSize,
        editor::CurrentTime,
        metadata::BeatmapID,
        metadata::BeatmapSetID
    );
    all!(
        Some(t.to_string()),
        general::AudioHash,
        general::SkinPreference,
        metadata::Title,
        metadata::TitleUnicode,
        metadata::Artist,
        metadata::ArtistUnicode,
        metadata::Creator,
        metadata::Version,
        metadata::Source
    );
    let ints: Option<Vec<Integer>> = if t.is_empty() {
        Some(Vec::new())
    } else {
        t.split(',').map(|t| t.parse().ok()).collect()
    };
    all!(ints.clone(), general::EditorBookmarks, editor::Bookmarks);
    Ok(())
}

fn default<T>(name: &str, v: Version, want: Option<T>) -> CaseResult
where
    T: VersionedDefault + PartialEq + Debug,
{
    same(format_args!("default {name} in v{v}"), want, <T as VersionedDefault>::default(v))
}

fn defaults(v: Version) -> CaseResult {
    use general::*;
    macro_rules! d {
        ($ty:ident, $first:expr, $val:expr) => {
            default::<$ty>(stringify!($ty), v, (v >= $first).then(|| $val))?;
        };
    }
    d!(AudioFilename, 3, PathBuf::new().into());
    d!(AudioLeadIn, 3, 0.into());
    default::<AudioHash>("AudioHash", v, (v <= 13).then(|| String::new().into()))?;
    d!(PreviewTime, 3, (-1).into());
    d!(Countdown, 5, Countdown::Normal);
    d!(SampleSet, 4, SampleSet::Normal);
    d!(StackLeniency, 3, Decimal::from("0.7").into());
    d!(Mode, 3, Mode::Osu);
    d!(LetterboxInBreaks, 3, false.into());
    d!(StoryFireInFront, 3, true.into());
    d!(UseSkinSprites, 3, false.into());
    d!(AlwaysShowPlayfield, 3, false.into());
    d!(OverlayPosition, 14, OverlayPosition::NoChange);
    d!(SkinPreference, 3, String::new().into());
    d!(EpilepsyWarning, 3, false.into());
    d!(CountdownOffset, 3, 0.into());
    d!(SpecialStyle, 3, false.into());
    d!(WidescreenStoryboard, 3, false.into());
    d!(SamplesMatchPlaybackRate, 3, false.into());

    default("sample set of hit objects", v, Some(hitobjects::SampleSet::NoCustomSampleSet))?;
    default("sample index of hit objects", v, Some(hitobjects::SampleIndex::TimingPointSampleIndex))?;
    default("volume of hit objects", v, hitobjects::Volume::new(None).ok())?;
    default(
        "hit sample",
        v,
        Some(hitobjects::HitSample {
            normal_set: hitobjects::SampleSet::NoCustomSampleSet,
            addition_set: hitobjects::SampleSet::NoCustomSampleSet,
            index: hitobjects::SampleIndex::TimingPointSampleIndex,
            volume: hitobjects::Volume::new(None).map_err(|e| e.to_string())?,
            filename: String::new(),
        }),
    )?;
    default("sample index of timing points", v, Some(timingpoints::SampleIndex::OsuDefaultHitsounds))?;
    default("volume of audio samples", v, events::Volume::new(100, v).ok())?;
    default("loop type", v, Some(sp::LoopType::LoopForever))?;
    default("events", v, Some(events::Events(Vec::new())))?;
    default("timing points", v, Some(timingpoints::TimingPoints(Vec::new())))?;
    default("hit objects", v, Some(hitobjects::HitObjects(Vec::new())))?;
    default("colours", v, (v >= 5).then(|| colours::Colours(Vec::new())))
}

fn repr<T>(name: &str, v: Version, n: usize, want: Want<T>) -> CaseResult
where
    T: VersionedFromRepr + PartialEq + Debug,
{
    match (T::from_repr(n, v), &want) {
        (Ok(Some(g)), Want::Val(w)) if g == *w => Ok(()),
        (Ok(None), Want::Nothing) | (Err(_), Want::Err) => Ok(()),
        (r, w) => Err(format!("{name} {n} in v{v}: {r:?}, expected {w:?}")),
    }
}

/// Every value of the small types in both directions.
fn tables(v: Version) -> CaseResult {
    for (i, x) in countdowns().iter().enumerate() {
        let t = i.to_string();
        read("countdown", &t, v, since(v, 5, Want::Val(*x)))?;
        repr("countdown", v, i, since(v, 5, Want::Val(*x)))?;
        written("countdown", x, v, (v >= 5).then_some(&t))?;
    }
    for (i, x) in sets().iter().enumerate() {
        read("sample set", SETS[i], v, since(v, 4, Want::Val(*x)))?;
        written("sample set", x, v, (v >= 4).then_some(SETS[i]))?;
    }
    for (i, x) in modes().iter().enumerate() {
        let t = i.to_string();
        read("mode", &t, v, since(v, MODE_SINCE[i], Want::Val(*x)))?;
        written("mode", x, v, (v >= MODE_SINCE[i]).then_some(&t))?;
    }
    for (i, x) in overlays().iter().enumerate() {
        read("overlay position", OVERLAYS[i], v, since(v, 14, Want::Val(*x)))?;
        written("overlay position", x, v, (v >= 14).then_some(OVERLAYS[i]))?;
    }
    for n in -3..40 {
        let t = n.to_string();
        let x = crate::model::timing::set_of(n);
        read("sample set of timing points", &t, v, Want::Val(x))?;
        written("sample set of timing points", &x, v, Some(&t))?;
        same("number", Some(n), <Integer as VersionedFrom<timingpoints::SampleSet>>::from(x, v))?;
        same("value", Some(x), <timingpoints::SampleSet as VersionedFrom<Integer>>::from(n, v))?;

        let x = easing_of(n);
        written("easing", &x, v, Some(&t))?;
        same("easing", Some(x), <st::Easing as VersionedFrom<Integer>>::from(n, v))?;
        same("number of easing", Some(n), <Integer as VersionedFrom<st::Easing>>::from(x, v))?;

        let x = <sp::OriginType as VersionedTryFrom<Integer>>::try_from(n, v);
        match (x, (0..10).contains(&n)) {
            (Ok(Some(x)), true) => {
                same("origin", origin_of(n as usize), x)?;
                same("number of origin", Some(n), <Integer as VersionedFrom<sp::OriginType>>::from(x, v))?;
            }
            (Err(_), false) => {}
            (r, _) => fail!("origin {n} in v{v}: {r:?}"),
        }
    }
    for n in 0..40usize {
        let t = n.to_string();
        let x = hit_set(n);
        read("sample set of hit objects", &t, v, Want::Val(x))?;
        written("sample set of hit objects", &x, v, Some(&t))?;
        same("number", Some(n), <usize as VersionedFrom<hitobjects::SampleSet>>::from(x, v))?;
        let x = match <hitobjects::SampleIndex as VersionedFrom<usize>>::from(n, v) {
            Some(x) => x,
            None => fail!("no sample index {n}"),
        };
        same("sample index of hit objects", Some(n), <usize as VersionedFrom<hitobjects::SampleIndex>>::from(x, v))?;
        written("sample index of hit objects", &x, v, Some(&t))?;
        let x = match <timingpoints::SampleIndex as VersionedFrom<u32>>::from(n as u32, v) {
            Some(x) => x,
            None => fail!("no sample index {n}"),
        };
        same("sample index", crate::model::timing::index_of(n as u32), x)?;
        same("number", Some(n as i32), <Integer as VersionedFrom<timingpoints::SampleIndex>>::from(x, v))?;
        written("sample index of timing points", &x, v, Some(&t))?;

        let layer = if n < 6 { Want::Val(layer_legacy_of(n)) } else { Want::Err };
        repr("numbered layer", v, n, layer)?;
        let origin = if n < 10 { Want::Val(origin_legacy_of(n)) } else { Want::Err };
        repr("numbered origin", v, n, origin)?;
        let layer = if n < 4 { Want::Val(sample_layer_of(n)) } else { Want::Err };
        repr("layer of audio samples", v, n, layer)?;
        if n >= 4 {
            repr::<general::Countdown>("countdown", v, n, since(v, 5, Want::Err))?;
        }
    }
    for n in [65_535, 65_536, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX] {
        let x = match <timingpoints::SampleIndex as VersionedFrom<u32>>::from(n, v) {
            Some(x) => x,
            None => fail!("no sample index {n}"),
        };
        same("sample index", crate::model::timing::index_of(n), x)?;
        // a number that the integer doesn't have isn't turned into another one
        same("number", i32::try_from(n).ok(), <Integer as VersionedFrom<timingpoints::SampleIndex>>::from(x, v))?;
        written("sample index of timing points", &x, v, Some(&n.to_string()))?;
        read("sample index of timing points", &n.to_string(), v, Want::Val(x))?;
    }
    for n in [255, 256, 65_536, usize::MAX] {
        let t = n.to_string();
        let x = hit_set(n);
        read("sample set of hit objects", &t, v, Want::Val(x))?;
        written("sample set of hit objects", &x, v, Some(&t))?;
        same("number", Some(n), <usize as VersionedFrom<hitobjects::SampleSet>>::from(x, v))?;
        let x = match <hitobjects::SampleIndex as VersionedFrom<usize>>::from(n, v) {
            Some(x) => x,
            None => fail!("no sample index {n}"),
        };
        same("sample index of hit objects", Some(n), <usize as VersionedFrom<hitobjects::SampleIndex>>::from(x, v))?;
        written("sample index of hit objects", &x, v, Some(&t))?;
        read("sample index of hit objects", &t, v, Want::Val(x))?;
    }
    for i in 0..6 {
        let x = layer_legacy_of(i);
        written("numbered layer", &x, v, Some(&i.to_string()))?;
        same("number of layer", Some(i), <usize as VersionedFrom<nt::LayerLegacy>>::from(x, v))?;
    }
    for i in 0..10 {
        let x = origin_legacy_of(i);
        written("numbered origin", &x, v, Some(&i.to_string()))?;
        same("number of origin", Some(i), <usize as VersionedFrom<nt::OriginTypeLegacy>>::from(x, v))?;
        let x = origin_of(i);
        for shorthand in [false, true] {
            let t = if shorthand { i.to_string() } else { ORIGINS[i].to_string() };
            let o = sp::Origin { type_: Either::Left(x), shorthand };
            written("origin", &o, v, Some(&t))?;
            read("origin", &t, v, Want::Val(o))?;
        }
        same("origin without a name", sp::Origin { type_: Either::Left(x), shorthand: true }, x.into())?;
    }
    for i in 0..5 {
        written("layer", &layer_of(i), v, Some(LAYERS[i]))?;
        read("layer", LAYERS[i], v, Want::Val(layer_of(i)))?;
    }
    for i in 0..4 {
        written("curve type", &curve_of(i), v, Some(CURVES[i]))?;
        read("curve type", CURVES[i], v, Want::Val(curve_of(i)))?;
        written("sample set of triggers", &sb_sets()[i], v, Some(TRIG_SETS[i]))?;
        read("sample set of triggers", TRIG_SETS[i], v, Want::Val(sb_sets()[i]))?;
    }
    for i in 0..3 {
        written("addition", &additions()[i], v, Some(ADDITIONS[i]))?;
        read("addition", ADDITIONS[i], v, Want::Val(additions()[i]))?;
        written("parameter", &param_of(i), v, Some(PARAMS[i]))?;
        read("parameter", PARAMS[i], v, Want::Val(param_of(i)))?;
    }
    for i in 0..2 {
        written("loop type", &loops()[i], v, Some(LOOPS[i]))?;
        read("loop type", LOOPS[i], v, Want::Val(loops()[i]))?;
    }
    Ok(())
}

/// Every trigger with a few of the custom sample sets.
fn triggers(v: Version) -> CaseResult {
    let opt = |n: usize| std::iter::once(None).chain((0..n).map(Some));
    for set in opt(4) {
        for additions in opt(4) {
            if set.is_none() && additions.is_some() {
                // is written like a lone first sample set
                continue;
            }
            for addition in opt(3) {
                for custom in [None, Some(0), Some(7), Some(10), Some(123456789)] {
                    let t = Trig::HitSound { set, additions, addition, custom };
                    let text = t.print();
                    read("trigger", &text, v, Want::Val(t.to_crate()))?;
                    written("trigger", &t.to_crate(), v, Some(&text))?;
                }
            }
        }
    }
    Ok(())
}

fn fixed(f: &mut Fixed) {
    for v in VERSIONS {
        f.case(format!("tables v{v}"), || tables(v));
        f.case(format!("defaults v{v}"), || defaults(v));
        f.case(format!("empty sections v{v}"), || {
            same("new General", General::default(), General::new())?;
            same("new Editor", Editor::default(), Editor::new())?;
            same("new Metadata", Metadata::default(), Metadata::new())?;
            same("new Difficulty", Difficulty::default(), Difficulty::new())?;
            same("empty General", General::from_str("", v).ok(), Some(Some(General::new())))?;
            same("empty Editor", Editor::from_str("", v).ok(), Some(Some(Editor::new())))?;
            same("empty Metadata", Metadata::from_str("", v).ok(), Some(Some(Metadata::new())))?;
            same("empty Difficulty", Difficulty::from_str("", v).ok(), Some(Some(Difficulty::new())))
        });
        f.case(format!("triggers v{v}"), || triggers(v));
    }
}

//! Sections with `key: value` fields.

use super::*;
use crate::engine::Src;
use crate::gen::*;
use osu_file_parser::difficulty as df;
use osu_file_parser::editor as ed;
use osu_file_parser::general as ge;
use osu_file_parser::metadata as me;
use std::path::PathBuf;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Int(i32),
    Num(Num),
    Bool(bool),
    Text(String),
    Path(String),
    Ints(Vec<i32>),
    Tags(Vec<String>),
    /// A number of a small enum.
    Code(usize),
    /// A keyword of a small enum.
    Word(&'static str),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Int,
    Num,
    Bool,
    Text,
    Path,
    Ints,
    Tags,
    Countdown,
    Mode,
    SampleSet,
    Overlay,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sec {
    General,
    Editor,
    Metadata,
    Difficulty,
}

pub const SECS: [Sec; 4] = [Sec::General, Sec::Editor, Sec::Metadata, Sec::Difficulty];

pub const SAMPLE_SETS: [&str; 4] = ["Normal", "Soft", "Drum", "None"];
pub const OVERLAYS: [&str; 3] = ["NoChange", "Below", "Above"];

/// The fields of the sections in the order they're written in.
pub fn fields(sec: Sec) -> &'static [(&'static str, Ty)] {
    match sec {
        Sec::General => &[
            ("AudioFilename", Ty::Path),
            ("AudioLeadIn", Ty::Int),
            ("AudioHash", Ty::Text),
            ("PreviewTime", Ty::Int),
            ("Countdown", Ty::Countdown),
            ("SampleSet", Ty::SampleSet),
            ("StackLeniency", Ty::Num),
            ("Mode", Ty::Mode),
            ("LetterboxInBreaks", Ty::Bool),
            ("StoryFireInFront", Ty::Bool),
            ("UseSkinSprites", Ty::Bool),
            ("AlwaysShowPlayfield", Ty::Bool),
            ("OverlayPosition", Ty::Overlay),
            ("SkinPreference", Ty::Text),
            ("EpilepsyWarning", Ty::Bool),
            ("CountdownOffset", Ty::Int),
            ("SpecialStyle", Ty::Bool),
            ("WidescreenStoryboard", Ty::Bool),
            ("SamplesMatchPlaybackRate", Ty::Bool),
            ("EditorBookmarks", Ty::Ints),
            ("EditorDistanceSpacing", Ty::Num),
        ],
        Sec::Editor => &[
            ("Bookmarks", Ty::Ints),
            ("DistanceSpacing", Ty::Num),
            ("BeatDivisor", Ty::Num),
            ("GridSize", Ty::Int),
            ("TimelineZoom", Ty::Num),
            ("CurrentTime", Ty::Int),
        ],
        Sec::Metadata => &[
            ("Title", Ty::Text),
            ("TitleUnicode", Ty::Text),
            ("Artist", Ty::Text),
            ("ArtistUnicode", Ty::Text),
            ("Creator", Ty::Text),
            ("Version", Ty::Text),
            ("Source", Ty::Text),
            ("Tags", Ty::Tags),
            ("BeatmapID", Ty::Int),
            ("BeatmapSetID", Ty::Int),
        ],
        Sec::Difficulty => &[
            ("HPDrainRate", Ty::Num),
            ("CircleSize", Ty::Num),
            ("OverallDifficulty", Ty::Num),
            ("ApproachRate", Ty::Num),
            ("SliderMultiplier", Ty::Num),
            ("SliderTickRate", Ty::Num),
        ],
    }
}

pub fn name(sec: Sec) -> &'static str {
    match sec {
        Sec::General => "General",
        Sec::Editor => "Editor",
        Sec::Metadata => "Metadata",
        Sec::Difficulty => "Difficulty",
    }
}

#[derive(Clone, Debug)]
pub struct Field {
    pub key: &'static str,
    pub val: Val,
}

#[derive(Clone, Debug)]
pub struct Kv {
    pub sec: Sec,
    /// In the order of the source.
    pub fields: Vec<Field>,
}

/// If a value of the field is taken from a source of the version.
pub fn stored_in(key: &str, val: &Val, v: Version) -> bool {
    match (key, val) {
        ("Countdown", _) => v >= 5,
        ("SampleSet", _) => v >= 4,
        ("OverlayPosition", _) => v >= 14,
        ("Mode", Val::Code(m)) => v >= [3, 5, 7, 10][*m],
        _ => true,
    }
}

/// If a stored value of the field is written in the version.
pub fn printed_in(key: &str, val: &Val, v: Version) -> bool {
    match key {
        "AudioHash" => v <= 13,
        "EditorBookmarks" | "EditorDistanceSpacing" => v <= 5,
        "CurrentTime" => v == 10,
        _ => stored_in(key, val, v),
    }
}

pub fn print_val(val: &Val) -> String {
    match val {
        Val::Int(v) => v.to_string(),
        Val::Num(v) => v.print(),
        Val::Bool(b) => u8::from(*b).to_string(),
        Val::Text(t) | Val::Path(t) => t.clone(),
        Val::Ints(v) => v.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","),
        Val::Tags(t) => t.join(" "),
        Val::Code(c) => c.to_string(),
        Val::Word(w) => w.to_string(),
    }
}

pub fn spell_val(s: &mut Src, val: &Val) -> String {
    match val {
        Val::Int(v) => spell_int(s, *v as i64),
        Val::Num(v) => spell_num(s, v),
        Val::Bool(b) => spell_bool(s, *b),
        Val::Ints(v) => v
            .iter()
            .map(|v| spell_int(s, *v as i64))
            .collect::<Vec<_>>()
            .join(","),
        Val::Code(c) => spell_uint(s, *c as u64),
        v => print_val(v),
    }
}

pub fn gen_val(s: &mut Src, ty: Ty) -> Val {
    match ty {
        Ty::Int => Val::Int(int(s)),
        Ty::Num => Val::Num(num(s)),
        Ty::Bool => Val::Bool(s.bool()),
        Ty::Text => {
            let mut t = text(s, 30);
            if !t.is_empty() && s.chance(1, 8) {
                // spacing at the end belongs to the value
                t.push_str(s.pick(&[" ", "  ", "\t"]));
            }
            Val::Text(t)
        }
        Ty::Path => Val::Path(match s.weighted(&[4, 1, 3]) {
            0 => format!("{}.mp3", word(s)),
            1 => String::new(),
            _ => text(s, 24),
        }),
        Ty::Ints => Val::Ints(vec_of(s, 30, int)),
        Ty::Tags => Val::Tags(vec_of(s, 20, |s| {
            let t = text_without(s, 8, &[' ', '\t']);
            if t.is_empty() {
                "tag".to_string()
            } else {
                t
            }
        })),
        Ty::Countdown => Val::Code(s.below(4)),
        Ty::Mode => Val::Code(s.below(4)),
        Ty::SampleSet => Val::Word(s.pick(&SAMPLE_SETS)),
        Ty::Overlay => Val::Word(s.pick(&OVERLAYS)),
    }
}

impl Kv {
    /// Fields of a section in any order.
    pub fn gen(s: &mut Src, sec: Sec) -> Kv {
        let all = fields(sec);
        let many = s.bool();
        let mut out = Vec::new();
        for (key, ty) in all {
            let take = if many { !s.chance(1, 6) } else { s.chance(1, 3) };
            if take {
                out.push(Field {
                    key,
                    val: gen_val(s, *ty),
                });
            }
        }
        if out.len() > 1 && s.chance(1, 4) {
            // two fields with the same text
            let (i, j) = (s.below(out.len()), s.below(out.len()));
            if let (Val::Text(_), Val::Text(t)) = (&out[i].val, &out[j].val) {
                out[i].val = Val::Text(t.clone());
            }
        }
        if s.chance(1, 2) {
            s.shuffle(&mut out);
        }
        Kv { sec, fields: out }
    }

    pub fn lines(&self, s: &mut Src) -> Vec<String> {
        self.fields
            .iter()
            .map(|f| {
                let sep = match s.weighted(&[6, 6, 1, 1]) {
                    0 => " ",
                    1 => "",
                    2 => "  ",
                    _ => "\t",
                };
                format!("{}:{sep}{}", f.key, spell_val(s, &f.val))
            })
            .collect()
    }

    fn spacing(&self) -> &'static str {
        match self.sec {
            Sec::General | Sec::Editor => " ",
            Sec::Metadata | Sec::Difficulty => "",
        }
    }

    /// What the section is written as in version `v` after it's read in version `from`.
    pub fn print(&self, from: Version, v: Version) -> String {
        join(fields(self.sec).iter().map(|(key, _)| {
            self.stored(key, from)
                .filter(|val| printed_in(key, val, v))
                .map(|val| format!("{key}:{}{}", self.spacing(), print_val(val)))
        }))
    }

    pub fn stored(&self, key: &str, from: Version) -> Option<&Val> {
        self.fields
            .iter()
            .find(|f| f.key == key)
            .map(|f| &f.val)
            .filter(|val| stored_in(key, val, from))
    }

    /// The section that has everything that's written in version `v`.
    pub fn retain_printed(&mut self, v: Version) {
        self.fields.retain(|f| printed_in(f.key, &f.val, v));
    }

    fn get<T>(&self, key: &str, from: Version, f: impl Fn(&Val) -> T) -> Option<T> {
        self.stored(key, from).map(f)
    }

    pub fn general(&self, from: Version) -> ge::General {
        let mut g = ge::General::new();
        g.audio_filename = self.get("AudioFilename", from, |v| path(v).into());
        g.audio_lead_in = self.get("AudioLeadIn", from, |v| i(v).into());
        g.audio_hash = self.get("AudioHash", from, |v| t(v).into());
        g.preview_time = self.get("PreviewTime", from, |v| i(v).into());
        g.countdown = self.get("Countdown", from, |v| match v {
            Val::Code(0) => ge::Countdown::NoCountdown,
            Val::Code(1) => ge::Countdown::Normal,
            Val::Code(2) => ge::Countdown::Half,
            _ => ge::Countdown::Double,
        });
        g.sample_set = self.get("SampleSet", from, |v| match v {
            Val::Word("Normal") => ge::SampleSet::Normal,
            Val::Word("Soft") => ge::SampleSet::Soft,
            Val::Word("Drum") => ge::SampleSet::Drum,
            _ => ge::SampleSet::None,
        });
        g.stack_leniency = self.get("StackLeniency", from, |v| n(v).into());
        g.mode = self.get("Mode", from, |v| match v {
            Val::Code(0) => ge::Mode::Osu,
            Val::Code(1) => ge::Mode::Taiko,
            Val::Code(2) => ge::Mode::Catch,
            _ => ge::Mode::Mania,
        });
        g.letterbox_in_breaks = self.get("LetterboxInBreaks", from, |v| b(v).into());
        g.story_fire_in_front = self.get("StoryFireInFront", from, |v| b(v).into());
        g.use_skin_sprites = self.get("UseSkinSprites", from, |v| b(v).into());
        g.always_show_playfield = self.get("AlwaysShowPlayfield", from, |v| b(v).into());
        g.overlay_position = self.get("OverlayPosition", from, |v| match v {
            Val::Word("NoChange") => ge::OverlayPosition::NoChange,
            Val::Word("Below") => ge::OverlayPosition::Below,
            _ => ge::OverlayPosition::Above,
        });
        g.skin_preference = self.get("SkinPreference", from, |v| t(v).into());
        g.epilepsy_warning = self.get("EpilepsyWarning", from, |v| b(v).into());
        g.countdown_offset = self.get("CountdownOffset", from, |v| i(v).into());
        g.special_style = self.get("SpecialStyle", from, |v| b(v).into());
        g.widescreen_storyboard = self.get("WidescreenStoryboard", from, |v| b(v).into());
        g.samples_match_playback_rate = self.get("SamplesMatchPlaybackRate", from, |v| b(v).into());
        g.editor_bookmarks = self.get("EditorBookmarks", from, |v| ints(v).into());
        g.editor_distance_spacing = self.get("EditorDistanceSpacing", from, |v| n(v).into());
        g
    }

    pub fn editor(&self, from: Version) -> ed::Editor {
        let mut e = ed::Editor::new();
        e.bookmarks = self.get("Bookmarks", from, |v| ints(v).into());
        e.distance_spacing = self.get("DistanceSpacing", from, |v| n(v).into());
        e.beat_divisor = self.get("BeatDivisor", from, |v| n(v).into());
        e.grid_size = self.get("GridSize", from, |v| i(v).into());
        e.timeline_zoom = self.get("TimelineZoom", from, |v| n(v).into());
        e.current_time = self.get("CurrentTime", from, |v| i(v).into());
        e
    }

    pub fn metadata(&self, from: Version) -> me::Metadata {
        let mut m = me::Metadata::new();
        m.title = self.get("Title", from, |v| t(v).into());
        m.title_unicode = self.get("TitleUnicode", from, |v| t(v).into());
        m.artist = self.get("Artist", from, |v| t(v).into());
        m.artist_unicode = self.get("ArtistUnicode", from, |v| t(v).into());
        m.creator = self.get("Creator", from, |v| t(v).into());
        m.version = self.get("Version", from, |v| t(v).into());
        m.source = self.get("Source", from, |v| t(v).into());
        m.tags = self.get("Tags", from, |v| match v {
            Val::Tags(t) => t.clone().into(),
            v => panic!("{v:?}"),
        });
        m.beatmap_id = self.get("BeatmapID", from, |v| i(v).into());
        m.beatmap_set_id = self.get("BeatmapSetID", from, |v| i(v).into());
        m
    }

    pub fn difficulty(&self, from: Version) -> df::Difficulty {
        let mut d = df::Difficulty::new();
        d.hp_drain_rate = self.get("HPDrainRate", from, |v| n(v).into());
        d.circle_size = self.get("CircleSize", from, |v| n(v).into());
        d.overall_difficulty = self.get("OverallDifficulty", from, |v| n(v).into());
        d.approach_rate = self.get("ApproachRate", from, |v| n(v).into());
        d.slider_multiplier = self.get("SliderMultiplier", from, |v| n(v).into());
        d.slider_tickrate = self.get("SliderTickRate", from, |v| n(v).into());
        d
    }
}

fn i(v: &Val) -> i32 {
    match v {
        Val::Int(v) => *v,
        v => panic!("{v:?}"),
    }
}

fn n(v: &Val) -> osu_file_parser::Decimal {
    match v {
        Val::Num(v) => v.to_crate(),
        v => panic!("{v:?}"),
    }
}

fn b(v: &Val) -> bool {
    match v {
        Val::Bool(v) => *v,
        v => panic!("{v:?}"),
    }
}

fn t(v: &Val) -> String {
    match v {
        Val::Text(v) => v.clone(),
        v => panic!("{v:?}"),
    }
}

fn path(v: &Val) -> PathBuf {
    match v {
        Val::Path(v) => PathBuf::from(v),
        v => panic!("{v:?}"),
    }
}

fn ints(v: &Val) -> Vec<i32> {
    match v {
        Val::Ints(v) => v.clone(),
        v => panic!("{v:?}"),
    }
}

/// A parsed section, whichever it is.
#[derive(Debug, PartialEq, Clone)]
pub enum Parsed {
    General(ge::General),
    Editor(ed::Editor),
    Metadata(me::Metadata),
    Difficulty(df::Difficulty),
}

impl Parsed {
    pub fn print(&self, v: Version) -> Option<String> {
        match self {
            Parsed::General(s) => s.to_string(v),
            Parsed::Editor(s) => s.to_string(v),
            Parsed::Metadata(s) => s.to_string(v),
            Parsed::Difficulty(s) => s.to_string(v),
        }
    }
}

/// Parses the content of a section: the value, or the line index and message of the error.
pub fn parse(sec: Sec, text: &str, v: Version) -> Result<Option<Parsed>, (usize, String, String)> {
    macro_rules! p {
        ($ty:ty, $variant:ident) => {
            <$ty>::from_str(text, v)
                .map(|s| s.map(Parsed::$variant))
                .map_err(|e| (e.line_index(), e.to_string(), format!("{:?}", e.error())))
        };
    }
    match sec {
        Sec::General => p!(ge::General, General),
        Sec::Editor => p!(ed::Editor, Editor),
        Sec::Metadata => p!(me::Metadata, Metadata),
        Sec::Difficulty => p!(df::Difficulty, Difficulty),
    }
}

impl Kv {
    pub fn expected(&self, from: Version) -> Parsed {
        match self.sec {
            Sec::General => Parsed::General(self.general(from)),
            Sec::Editor => Parsed::Editor(self.editor(from)),
            Sec::Metadata => Parsed::Metadata(self.metadata(from)),
            Sec::Difficulty => Parsed::Difficulty(self.difficulty(from)),
        }
    }
}

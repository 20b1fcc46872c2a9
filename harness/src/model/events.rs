//! Events.

use super::cmds::*;
use super::*;
use crate::engine::Src;
use crate::gen::*;
use either::Either;
use osu_file_parser::events as ev;
use osu_file_parser::events::normal_event::types as nt;
use osu_file_parser::events::storyboard::sprites as sp;
use osu_file_parser::events::Event;
use osu_file_parser::FilePath;

#[derive(Clone, Debug)]
pub enum Kind {
    Comment(String),
    Background {
        time: i32,
        file: String,
        at: Option<(Num, Num)>,
    },
    Video {
        long: bool,
        time: i32,
        file: String,
        at: Option<(Num, Num)>,
    },
    Break {
        long: bool,
        start: i32,
        end: i32,
    },
    ColourTransformation {
        time: i32,
        rgb: [u8; 3],
    },
    /// Sprite and animation.
    Legacy {
        animation: bool,
        layer: usize,
        origin: usize,
        file: String,
        at: Option<(Num, Num)>,
    },
    SampleLegacy {
        time: Num,
        layer: usize,
        file: String,
        volume: Option<u8>,
    },
    Sprite {
        layer: usize,
        origin: Orig,
        file: String,
        at: (Num, Num),
    },
    Animation {
        layer: usize,
        origin: Orig,
        file: String,
        at: (Num, Num),
        frames: u32,
        delay: rust_decimal::Decimal,
        /// `None` isn't spelled, which is forever.
        once: Option<bool>,
    },
    Sample {
        time: i32,
        layer: usize,
        file: String,
        volume: Option<u8>,
    },
}

#[derive(Clone, Debug)]
pub enum Orig {
    Name(usize),
    Number(i32),
}

pub const LAYERS: [&str; 5] = ["Background", "Fail", "Pass", "Foreground", "Overlay"];
pub const ORIGINS: [&str; 10] = [
    "TopLeft",
    "Centre",
    "CentreLeft",
    "TopRight",
    "BottomCentre",
    "TopCentre",
    "Custom",
    "CentreRight",
    "BottomLeft",
    "BottomRight",
];

pub fn layer_of(i: usize) -> sp::Layer {
    [
        sp::Layer::Background,
        sp::Layer::Fail,
        sp::Layer::Pass,
        sp::Layer::Foreground,
        sp::Layer::Overlay,
    ][i]
}

pub fn origin_of(i: usize) -> sp::OriginType {
    [
        sp::OriginType::TopLeft,
        sp::OriginType::Centre,
        sp::OriginType::CentreLeft,
        sp::OriginType::TopRight,
        sp::OriginType::BottomCentre,
        sp::OriginType::TopCentre,
        sp::OriginType::Custom,
        sp::OriginType::CentreRight,
        sp::OriginType::BottomLeft,
        sp::OriginType::BottomRight,
    ][i]
}

pub fn layer_legacy_of(i: usize) -> nt::LayerLegacy {
    [
        nt::LayerLegacy::Background,
        nt::LayerLegacy::Fail,
        nt::LayerLegacy::Pass,
        nt::LayerLegacy::Foreground,
        nt::LayerLegacy::Overlay,
        nt::LayerLegacy::Video,
    ][i]
}

pub fn origin_legacy_of(i: usize) -> nt::OriginTypeLegacy {
    [
        nt::OriginTypeLegacy::TopLeft,
        nt::OriginTypeLegacy::Centre,
        nt::OriginTypeLegacy::CentreLeft,
        nt::OriginTypeLegacy::TopRight,
        nt::OriginTypeLegacy::BottomCentre,
        nt::OriginTypeLegacy::TopCentre,
        nt::OriginTypeLegacy::Custom,
        nt::OriginTypeLegacy::CentreRight,
        nt::OriginTypeLegacy::BottomLeft,
        nt::OriginTypeLegacy::BottomRight,
    ][i]
}

pub fn sample_layer_of(i: usize) -> ev::Layer {
    [
        ev::Layer::Background,
        ev::Layer::Fail,
        ev::Layer::Pass,
        ev::Layer::Foreground,
    ][i]
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub kind: Kind,
    pub cmds: Vec<Cmd>,
}

fn at_opt(s: &mut Src) -> Option<(Num, Num)> {
    s.bool().then(|| (num(s), num(s)))
}

fn orig(s: &mut Src) -> Orig {
    match s.weighted(&[4, 2, 1]) {
        0 => Orig::Name(s.below(10)),
        1 => Orig::Number(s.range(0, 9) as i32),
        _ => Orig::Number(int(s)),
    }
}

impl Orig {
    fn print(&self) -> String {
        match self {
            Orig::Name(i) => ORIGINS[*i].to_string(),
            Orig::Number(i) => i.to_string(),
        }
    }

    fn line(&self, s: &mut Src) -> String {
        match self {
            Orig::Name(i) => ORIGINS[*i].to_string(),
            Orig::Number(i) => spell_int(s, *i as i64),
        }
    }

    pub fn to_crate(&self) -> sp::Origin {
        match self {
            Orig::Name(i) => sp::Origin {
                type_: Either::Left(origin_of(*i)),
                shorthand: false,
            },
            Orig::Number(i) => sp::Origin {
                type_: if (0..10).contains(i) {
                    Either::Left(origin_of(*i as usize))
                } else {
                    Either::Right(*i)
                },
                shorthand: true,
            },
        }
    }
}

fn same_path(model: &str, got: &FilePath) -> Result<(), String> {
    same("file", std::path::Path::new(model), got.get())
}

fn same_at(model: &Option<(Num, Num)>, got: &Option<osu_file_parser::Position>) -> Result<(), String> {
    match (model, got) {
        (None, None) => Ok(()),
        (Some((x, y)), Some(p)) => {
            same_num("x", x, &p.x)?;
            same_num("y", y, &p.y)
        }
        (m, g) => Err(format!("position: expected {m:?}, got {g:?}")),
    }
}

fn same_cmds(model: &[Cmd], got: &[osu_file_parser::events::storyboard::cmds::Command]) -> Result<(), String> {
    let model: Vec<_> = model.iter().map(|c| c.to_crate()).collect();
    same("commands", model.as_slice(), got)
}

impl Ev {
    pub fn can_have_cmds(&self) -> bool {
        !matches!(
            self.kind,
            Kind::Comment(_) | Kind::Break { .. } | Kind::ColourTransformation { .. } | Kind::Sample { .. }
        )
    }

    /// Any event that's written in version `v` as well.
    pub fn gen(s: &mut Src, v: Version) -> Ev {
        let time = |s: &mut Src| if is_old(v) { time_int(s) } else { int(s) };
        let kind = match s.weighted(&[3, 3, 2, 2, if v < 14 { 2 } else { 0 }, 3, 2, 6, 4, 3]) {
            0 => {
                // a comment is everything behind the slashes
                let (before, t) = (s.pick(&["", "", "", " ", "  "]), text(s, 16));
                let after = s.pick(&["", "", "", "", " ", "  ", "\t", " \u{3000}"]);
                Kind::Comment(format!("{before}{t}{after}"))
            }
            1 => Kind::Background {
                time: int(s),
                file: file_path(s),
                at: at_opt(s),
            },
            2 => Kind::Video {
                long: s.bool(),
                time: time(s),
                file: file_path(s),
                at: at_opt(s),
            },
            3 => Kind::Break {
                long: s.bool(),
                start: time(s),
                end: time(s),
            },
            4 => Kind::ColourTransformation {
                time: time(s),
                rgb: [byte(s), byte(s), byte(s)],
            },
            5 => Kind::Legacy {
                animation: s.bool(),
                layer: s.below(6),
                origin: s.below(10),
                file: file_path(s),
                at: at_opt(s),
            },
            6 => Kind::SampleLegacy {
                time: num(s),
                layer: s.below(6),
                file: file_path(s),
                volume: s.bool().then(|| s.range(0, 100) as u8),
            },
            7 => Kind::Sprite {
                layer: s.below(5),
                origin: orig(s),
                file: file_path(s),
                at: (num(s), num(s)),
            },
            8 => Kind::Animation {
                layer: s.below(5),
                origin: orig(s),
                file: file_path(s),
                at: (num(s), num(s)),
                frames: uint(s, u32::MAX as u64) as u32,
                delay: dec(s),
                once: s.bool().then(|| s.bool()),
            },
            _ => Kind::Sample {
                time: int(s),
                layer: s.below(4),
                file: file_path(s),
                volume: s.bool().then(|| s.range(0, 100) as u8),
            },
        };
        let mut e = Ev { kind, cmds: Vec::new() };
        if e.can_have_cmds() && s.chance(1, 2) {
            e.cmds = Cmd::list(s);
        }
        e
    }

    fn header(&self, mut spell: Option<&mut Src>, v: Version) -> Option<String> {
        // times of some events are moved in the old versions
        let shift = if is_old(v) { 24 } else { 0 };
        macro_rules! i {
            ($v:expr) => {
                match &mut spell {
                    Some(s) => spell_int(s, $v as i64),
                    None => ($v as i64).to_string(),
                }
            };
        }
        macro_rules! u {
            ($v:expr) => {
                match &mut spell {
                    Some(s) => spell_uint(s, $v as u64),
                    None => ($v as u64).to_string(),
                }
            };
        }
        macro_rules! n {
            ($v:expr) => {
                match &mut spell {
                    Some(s) => spell_num(s, $v),
                    None => $v.print(),
                }
            };
        }
        macro_rules! at {
            ($at:expr) => {
                match $at {
                    Some((x, y)) => format!(",{},{}", n!(x), n!(y)),
                    None => String::new(),
                }
            };
        }
        macro_rules! origin {
            ($o:expr) => {
                match &mut spell {
                    Some(s) => $o.line(s),
                    None => $o.print(),
                }
            };
        }
        Some(match &self.kind {
            Kind::Comment(c) => format!("//{c}"),
            Kind::Background { time, file, at } => format!("0,{},{file}{}", i!(*time), at!(at)),
            Kind::Video {
                long,
                time,
                file,
                at,
            } => format!(
                "{},{},{file}{}",
                if *long { "Video" } else { "1" },
                i!(time.saturating_sub(shift)),
                at!(at)
            ),
            Kind::Break { long, start, end } => format!(
                "{},{},{}",
                if *long { "Break" } else { "2" },
                i!(start.saturating_sub(shift)),
                i!(end.saturating_sub(shift))
            ),
            Kind::ColourTransformation { time, rgb: [r, g, b] } => {
                if spell.is_none() && v >= 14 {
                    return None;
                }
                format!("3,{},{},{},{}", i!(time.saturating_sub(shift)), u!(*r), u!(*g), u!(*b))
            }
            Kind::Legacy {
                animation,
                layer,
                origin,
                file,
                at,
            } => format!(
                "{},{},{},{file}{}",
                if *animation { "5" } else { "4" },
                u!(*layer),
                u!(*origin),
                at!(at)
            ),
            Kind::SampleLegacy {
                time,
                layer,
                file,
                volume,
            } => format!(
                "6,{},{},{file}{}",
                n!(time),
                u!(*layer),
                match volume {
                    Some(x) => format!(",{}", u!(*x)),
                    None => String::new(),
                }
            ),
            Kind::Sprite {
                layer,
                origin,
                file,
                at: (x, y),
            } => format!(
                "Sprite,{},{},{file},{},{}",
                LAYERS[*layer],
                origin!(origin),
                n!(x),
                n!(y)
            ),
            Kind::Animation {
                layer,
                origin,
                file,
                at: (x, y),
                frames,
                delay,
                once,
            } => {
                let delay = Num::Dec(*delay);
                format!(
                    "Animation,{},{},{file},{},{},{},{}{}",
                    LAYERS[*layer],
                    origin!(origin),
                    n!(x),
                    n!(y),
                    u!(*frames),
                    n!(&delay),
                    match once {
                        Some(true) => ",LoopOnce",
                        None if spell.is_some() => "",
                        _ => ",LoopForever",
                    }
                )
            }
            Kind::Sample {
                time,
                layer,
                file,
                volume,
            } => format!(
                "Sample,{},{},{file}{}",
                i!(*time),
                u!(*layer),
                match volume {
                    Some(x) => format!(",{}", u!(*x)),
                    None if spell.is_some() => String::new(),
                    None => ",100".to_string(),
                }
            ),
        })
    }

    pub fn print(&self, v: Version) -> Option<String> {
        let mut out = vec![self.header(None, v)?];
        print_all(&self.cmds, 1, &mut out);
        Some(out.join("\n"))
    }

    /// The line of the event, followed by the lines of its commands.
    pub fn lines(&self, s: &mut Src, v: Version) -> Vec<String> {
        let mut out = vec![self.header(Some(s), v).unwrap()];
        lines_all(s, &self.cmds, 1, &mut out);
        out
    }

    pub fn check(&self, got: &Event) -> Result<(), String> {
        match (&self.kind, got) {
            (Kind::Comment(c), Event::Comment(g)) => same("comment", c, g),
            (Kind::Background { time, file, at }, Event::Background(g)) => {
                same("start time", *time, g.start_time)?;
                same_path(file, &g.file_name)?;
                same_at(at, &g.position)?;
                same_cmds(&self.cmds, &g.commands)
            }
            (
                Kind::Video {
                    long: _,
                    time,
                    file,
                    at,
                },
                Event::Video(g),
            ) => {
                same("start time", *time, g.start_time)?;
                same_path(file, &g.file_name)?;
                same_at(at, &g.position)?;
                same_cmds(&self.cmds, &g.commands)
            }
            (Kind::Break { long: _, start, end }, Event::Break(g)) => {
                same("start time", *start, g.start_time)?;
                same("end time", *end, g.end_time)
            }
            (Kind::ColourTransformation { time, rgb }, Event::ColourTransformation(g)) => {
                same("start time", *time, g.start_time)?;
                same("colour", *rgb, [g.red, g.green, g.blue])
            }
            (
                Kind::Legacy {
                    animation: false,
                    layer,
                    origin,
                    file,
                    at,
                },
                Event::SpriteLegacy(g),
            ) => {
                same("layer", layer_legacy_of(*layer), g.layer)?;
                same("origin", origin_legacy_of(*origin), g.origin)?;
                same_path(file, &g.file_name)?;
                same_at(at, &g.position)?;
                same_cmds(&self.cmds, &g.commands)
            }
            (
                Kind::Legacy {
                    animation: true,
                    layer,
                    origin,
                    file,
                    at,
                },
                Event::AnimationLegacy(g),
            ) => {
                same("layer", layer_legacy_of(*layer), g.layer)?;
                same("origin", origin_legacy_of(*origin), g.origin)?;
                same_path(file, &g.file_name)?;
                same_at(at, &g.position)?;
                same_cmds(&self.cmds, &g.commands)
            }
            (
                Kind::SampleLegacy {
                    time,
                    layer,
                    file,
                    volume,
                },
                Event::SampleLegacy(g),
            ) => {
                same_num("time", time, &g.time)?;
                same("layer", layer_legacy_of(*layer), g.layer)?;
                same_path(file, &g.file_name)?;
                same("volume", *volume, g.volume.map(|v| v.get()))?;
                same_cmds(&self.cmds, &g.commands)
            }
            (
                Kind::Sprite {
                    layer,
                    origin,
                    file,
                    at: (x, y),
                },
                Event::StoryboardObject(g),
            ) => {
                same("layer", layer_of(*layer), g.layer)?;
                same("origin", origin.to_crate(), g.origin)?;
                same_num("x", x, &g.position.x)?;
                same_num("y", y, &g.position.y)?;
                match &g.object_type {
                    sp::ObjectType::Sprite(g) => same_path(file, &g.filepath)?,
                    o => return Err(format!("expected a sprite, got {o:?}")),
                }
                same_cmds(&self.cmds, &g.commands)
            }
            (
                Kind::Animation {
                    layer,
                    origin,
                    file,
                    at: (x, y),
                    frames,
                    delay,
                    once,
                },
                Event::StoryboardObject(g),
            ) => {
                same("layer", layer_of(*layer), g.layer)?;
                same("origin", origin.to_crate(), g.origin)?;
                same_num("x", x, &g.position.x)?;
                same_num("y", y, &g.position.y)?;
                match &g.object_type {
                    sp::ObjectType::Animation(g) => {
                        same_path(file, &g.filepath)?;
                        same("frame count", *frames, g.frame_count)?;
                        same("frame delay", *delay, g.frame_delay)?;
                        same(
                            "loop type",
                            if *once == Some(true) {
                                sp::LoopType::LoopOnce
                            } else {
                                sp::LoopType::LoopForever
                            },
                            g.loop_type,
                        )?;
                    }
                    o => return Err(format!("expected an animation, got {o:?}")),
                }
                same_cmds(&self.cmds, &g.commands)
            }
            (
                Kind::Sample {
                    time,
                    layer,
                    file,
                    volume,
                },
                Event::AudioSample(g),
            ) => {
                same("time", *time, g.time)?;
                same("layer", sample_layer_of(*layer), g.layer)?;
                same_path(file, &g.filepath)?;
                same("volume", volume.unwrap_or(100), g.volume.get())
            }
            (m, g) => Err(format!("event kind: expected {m:?}, got {g:?}")),
        }
    }

    /// The event built with the public interface. `None` for long forms, which can't be built.
    pub fn to_crate(&self) -> Option<Event> {
        let commands: Vec<_> = self.cmds.iter().map(|c| c.to_crate()).collect();
        let at_of = |at: &Option<(Num, Num)>| at.as_ref().map(|(x, y)| pos(x, y));
        Some(match &self.kind {
            Kind::Comment(c) => Event::Comment(c.clone()),
            Kind::Background { time, file, at } => Event::Background(ev::Background {
                start_time: *time,
                file_name: path_of(file),
                position: at_of(at),
                commands,
            }),
            Kind::Video {
                long,
                time,
                file,
                at,
            } => {
                if *long {
                    return None;
                }
                let mut v = ev::Video::new(*time, path_of(file), at_of(at));
                v.commands = commands;
                Event::Video(v)
            }
            Kind::Break { long, start, end } => {
                if *long {
                    return None;
                }
                Event::Break(ev::Break::new(*start, *end))
            }
            Kind::ColourTransformation { time, rgb: [r, g, b] } => {
                Event::ColourTransformation(ev::ColourTransformation {
                    start_time: *time,
                    red: *r,
                    green: *g,
                    blue: *b,
                })
            }
            Kind::Legacy {
                animation,
                layer,
                origin,
                file,
                at,
            } => {
                let layer = layer_legacy_of(*layer);
                let origin = origin_legacy_of(*origin);
                let file_name = path_of(file);
                let position = at_of(at);
                if *animation {
                    Event::AnimationLegacy(ev::AnimationLegacy {
                        layer,
                        origin,
                        file_name,
                        position,
                        commands,
                    })
                } else {
                    Event::SpriteLegacy(ev::SpriteLegacy {
                        layer,
                        origin,
                        file_name,
                        position,
                        commands,
                    })
                }
            }
            Kind::SampleLegacy {
                time,
                layer,
                file,
                volume,
            } => Event::SampleLegacy(ev::SampleLegacy {
                time: time.to_crate(),
                layer: layer_legacy_of(*layer),
                file_name: path_of(file),
                volume: volume.map(|v| ev::Volume::new(v, 14).unwrap()),
                commands,
            }),
            Kind::Sprite {
                layer,
                origin,
                file,
                at: (x, y),
            } => Event::StoryboardObject(sp::Object {
                layer: layer_of(*layer),
                origin: origin.to_crate(),
                position: pos(x, y),
                object_type: sp::ObjectType::Sprite(sp::Sprite {
                    filepath: path_of(file),
                }),
                commands,
            }),
            Kind::Animation {
                layer,
                origin,
                file,
                at: (x, y),
                frames,
                delay,
                once,
            } => Event::StoryboardObject(sp::Object {
                layer: layer_of(*layer),
                origin: origin.to_crate(),
                position: pos(x, y),
                object_type: sp::ObjectType::Animation(sp::Animation {
                    frame_count: *frames,
                    frame_delay: *delay,
                    loop_type: if *once == Some(true) {
                        sp::LoopType::LoopOnce
                    } else {
                        sp::LoopType::LoopForever
                    },
                    filepath: path_of(file),
                }),
                commands,
            }),
            Kind::Sample {
                time,
                layer,
                file,
                volume,
            } => Event::AudioSample(ev::AudioSample {
                time: *time,
                layer: sample_layer_of(*layer),
                filepath: path_of(file),
                volume: ev::Volume::new(volume.unwrap_or(100), 14).unwrap(),
            }),
        })
    }
}

pub fn gen_events(s: &mut Src, v: Version) -> Vec<Ev> {
    vec_of(s, 12, |s| Ev::gen(s, v))
}

pub fn print_events(evs: &[Ev], v: Version) -> String {
    join(evs.iter().map(|e| e.print(v)))
}

use super::*;
use crate::engine::Src;
use crate::gen::*;
use osu_file_parser::hitobjects::*;
use osu_file_parser::VersionedFrom;
use std::num::NonZeroUsize;

#[derive(Clone, Debug)]
pub struct Sample {
    pub normal: u64,
    pub addition: u64,
    pub index: u64,
    pub volume: Option<u8>,
    pub file: String,
}

#[derive(Clone, Debug)]
pub enum Tail {
    None,
    Edges(Vec<u8>),
    Sets(Vec<u8>, Vec<(u64, u64)>),
}

#[derive(Clone, Debug)]
pub enum Kind {
    Circle,
    Slider {
        curve: usize,
        points: Vec<(Num, Num)>,
        slides: i32,
        length: Num,
        /// Sliders with a sample always have `Tail::Sets`.
        tail: Tail,
    },
    Spinner {
        end: Num,
    },
    Hold {
        end: Num,
    },
}

#[derive(Clone, Debug)]
pub struct Ho {
    pub x: Num,
    pub y: Num,
    pub time: Num,
    pub new_combo: bool,
    pub skip: u8,
    pub hitsound: u8,
    pub kind: Kind,
    pub sample: Option<Sample>,
}

pub const CURVES: [&str; 4] = ["B", "C", "L", "P"];

pub fn curve_of(i: usize) -> CurveType {
    [
        CurveType::Bezier,
        CurveType::Centripetal,
        CurveType::Linear,
        CurveType::PerfectCircle,
    ][i]
}

pub fn set_of(v: u64) -> SampleSet {
    match v {
        0 => SampleSet::NoCustomSampleSet,
        1 => SampleSet::NormalSet,
        2 => SampleSet::SoftSet,
        3 => SampleSet::DrumSet,
        v => SampleSet::Other(v as usize),
    }
}

fn set(s: &mut Src) -> u64 {
    match s.weighted(&[8, 1]) {
        0 => s.draw(4),
        _ => uint(s, u64::MAX),
    }
}

impl Sample {
    pub fn gen(s: &mut Src) -> Sample {
        Sample {
            normal: set(s),
            addition: set(s),
            index: match s.weighted(&[5, 1]) {
                0 => s.draw(4),
                _ => uint(s, u64::MAX),
            },
            volume: match s.weighted(&[2, 3]) {
                0 => None,
                _ => Some(s.range(1, 100) as u8),
            },
            file: match s.weighted(&[3, 1, 1]) {
                0 => String::new(),
                1 => format!("{}.wav", word(s)),
                _ => text_without(s, 10, &[':']),
            },
        }
    }

    pub fn empty() -> Sample {
        Sample {
            normal: 0,
            addition: 0,
            index: 0,
            volume: None,
            file: String::new(),
        }
    }

    pub fn is_default(&self) -> bool {
        self.normal == 0
            && self.addition == 0
            && self.index == 0
            && self.volume.is_none()
            && self.file.is_empty()
    }

    pub fn to_crate(&self) -> HitSample {
        HitSample {
            normal_set: set_of(self.normal),
            addition_set: set_of(self.addition),
            index: match NonZeroUsize::new(self.index as usize) {
                Some(i) => SampleIndex::Index(i),
                None => SampleIndex::TimingPointSampleIndex,
            },
            volume: Volume::new(self.volume).unwrap(),
            filename: self.file.clone(),
        }
    }

    /// The sample in one of the forms of it. The trailing default fields can be left out.
    pub fn line(&self, s: &mut Src, allow_empty: bool) -> String {
        let fields = [
            spell_uint(s, self.normal),
            spell_uint(s, self.addition),
            spell_uint(s, self.index),
            spell_uint(s, self.volume.unwrap_or(0) as u64),
            self.file.clone(),
        ];
        let mut needed = 0;
        for (i, d) in [
            self.normal == 0,
            self.addition == 0,
            self.index == 0,
            self.volume.is_none(),
            self.file.is_empty(),
        ]
        .iter()
        .enumerate()
        {
            if !d {
                needed = i + 1;
            }
        }
        if needed == 0 && !allow_empty {
            needed = 1;
        }
        let count = if s.chance(1, 3) { s.size(needed, 5) } else { 5 };
        let mut t = fields[..count].join(":");
        if (1..5).contains(&count) && s.chance(1, 3) {
            t.push(':');
        }
        t
    }

    pub fn print(&self, v: Version) -> Option<String> {
        let short = format!("{}:{}:{}", self.normal, self.addition, self.index);
        match v {
            3..=9 => None,
            10..=11 => Some(short),
            _ => Some(format!("{short}:{}:{}", self.volume.unwrap_or(0), self.file)),
        }
    }
}

fn edges(s: &mut Src) -> Vec<u8> {
    vec_of(s, 12, |s| s.draw(16) as u8)
}

impl Ho {
    pub fn gen(s: &mut Src, v: Version) -> Ho {
        let coord = |s: &mut Src| match s.weighted(&[5, 1]) {
            0 => Num::int(s.range(0, 640)),
            _ => num(s),
        };
        let time = |s: &mut Src| if is_old(v) { time_num(s) } else { num(s) };
        let mut sample = if s.chance(1, 2) { Some(Sample::gen(s)) } else { None };
        let kind = match s.weighted(&[4, 6, 2, 2]) {
            0 => Kind::Circle,
            1 => {
                let points = vec_of(s, 20, |s| (coord(s), coord(s)));
                let tail = if sample.is_some() {
                    2
                } else {
                    s.weighted(&[1, 1, 2])
                };
                let tail = match tail {
                    0 => Tail::None,
                    1 => Tail::Edges(edges(s)),
                    _ => Tail::Sets(edges(s), vec_of(s, 12, |s| (set(s), set(s)))),
                };
                Kind::Slider {
                    curve: s.below(4),
                    points,
                    slides: match s.weighted(&[4, 1]) {
                        0 => s.range(1, 5) as i32,
                        _ => int(s),
                    },
                    length: num(s),
                    tail,
                }
            }
            2 => Kind::Spinner { end: time(s) },
            _ => Kind::Hold { end: time(s) },
        };
        if let (Kind::Hold { .. }, Some(smp)) = (&kind, &sample) {
            // an empty sample of a hold is no sample
            if smp.is_default() && s.chance(1, 2) {
                sample = None;
            }
        }
        Ho {
            x: coord(s),
            y: coord(s),
            time: time(s),
            new_combo: s.chance(1, 3),
            skip: if s.chance(1, 3) { s.draw(8) as u8 } else { 0 },
            hitsound: s.draw(16) as u8,
            kind,
            sample,
        }
    }

    /// Removes what isn't written in version `v`.
    pub fn retain_printed(&mut self, v: Version) {
        if v < 10 {
            // the edge sets can't be left out in front of a sample, with the sample gone they still can be there
            self.sample = None;
            if v == 3 && matches!(self.kind, Kind::Circle) {
                // the comma at the end of circles is read as a sample with nothing set
                self.sample = Some(Sample::empty());
            }
        } else if v < 12 {
            if let Some(x) = &mut self.sample {
                x.volume = None;
                x.file = String::new();
            }
        }
    }

    fn kind_bit(&self) -> i64 {
        match self.kind {
            Kind::Circle => 1,
            Kind::Slider { .. } => 2,
            Kind::Spinner { .. } => 8,
            Kind::Hold { .. } => 128,
        }
    }

    pub fn type_number(&self) -> i64 {
        self.kind_bit() | (i64::from(self.new_combo) << 2) | ((self.skip as i64) << 4)
    }

    pub fn line(&self, s: &mut Src, v: Version) -> String {
        let old = |n: &Num| if is_old(v) { n.shift(-24) } else { n.clone() };
        let mut ty = self.type_number();
        if s.chance(1, 8) {
            // bits without a meaning, and bits of object types that come after this one
            ty |= s.draw(1 << 20) as i64 * 256;
            let later = match self.kind {
                Kind::Circle => 2 | 8 | 128,
                Kind::Slider { .. } => 8 | 128,
                Kind::Spinner { .. } => 128,
                Kind::Hold { .. } => 0,
            };
            ty |= s.draw(256) as i64 & later;
        }
        let hs = |s: &mut Src, h: u8| {
            let h = if s.chance(1, 10) { h | ((s.draw(16) as u8) << 4) } else { h };
            spell_uint(s, h as u64)
        };
        let mut t = format!(
            "{},{},{},{},{}",
            spell_num(s, &self.x),
            spell_num(s, &self.y),
            spell_num(s, &old(&self.time)),
            spell_int(s, ty),
            hs(s, self.hitsound),
        );
        let smp = |s: &mut Src| match &self.sample {
            Some(x) => format!(",{}", x.line(s, true)),
            None => String::new(),
        };
        match &self.kind {
            Kind::Circle => t.push_str(&smp(s)),
            Kind::Slider {
                curve,
                points,
                slides,
                length,
                tail,
            } => {
                t.push_str(&format!(",{}", CURVES[*curve]));
                let mut all = Vec::new();
                if v == 3 {
                    // the first point is the head of the slider
                    all.push((self.x.clone(), self.y.clone()));
                }
                all.extend(points.iter().cloned());
                for (x, y) in &all {
                    t.push_str(&format!("|{}:{}", spell_num(s, x), spell_num(s, y)));
                }
                t.push_str(&format!(
                    ",{},{}",
                    spell_int(s, *slides as i64),
                    spell_num(s, length)
                ));
                match tail {
                    Tail::None => {}
                    Tail::Edges(e) | Tail::Sets(e, _) => {
                        let e: Vec<_> = e.iter().map(|h| hs(s, *h)).collect();
                        t.push_str(&format!(",{}", e.join("|")));
                    }
                }
                if let Tail::Sets(_, sets) = tail {
                    let sets: Vec<_> = sets
                        .iter()
                        .map(|(n, a)| format!("{}:{}", spell_uint(s, *n), spell_uint(s, *a)))
                        .collect();
                    t.push_str(&format!(",{}", sets.join("|")));
                    if self.sample.is_some() {
                        t.push_str(&smp(s));
                    }
                }
            }
            Kind::Spinner { end } => {
                t.push_str(&format!(",{}", spell_num(s, &old(end))));
                if self.sample.is_some() {
                    t.push_str(&smp(s));
                }
            }
            Kind::Hold { end } => {
                t.push_str(&format!(",{}:", spell_num(s, &old(end))));
                if let Some(x) = &self.sample {
                    t.push_str(&x.line(s, false));
                }
            }
        }
        t
    }

    pub fn print(&self, v: Version) -> Option<String> {
        let old = |n: &Num| if is_old(v) { n.shift(-24) } else { n.clone() };
        let sample = self.sample.as_ref().and_then(|x| x.print(v));
        let mut t = format!(
            "{},{},{},{},{}",
            self.x.print(),
            self.y.print(),
            old(&self.time).print(),
            self.type_number(),
            self.hitsound,
        );
        match &self.kind {
            Kind::Circle => {
                if let Some(x) = sample {
                    t.push_str(&format!(",{x}"));
                }
                if v == 3 {
                    t.push(',');
                }
            }
            Kind::Slider {
                curve,
                points,
                slides,
                length,
                tail,
            } => {
                t.push_str(&format!(",{}", CURVES[*curve]));
                if v == 3 {
                    t.push_str(&format!("|{}:{}", self.x.print(), self.y.print()));
                }
                for (x, y) in points {
                    t.push_str(&format!("|{}:{}", x.print(), y.print()));
                }
                t.push_str(&format!(",{slides},{}", length.print()));
                if let Tail::Edges(e) | Tail::Sets(e, _) = tail {
                    let e: Vec<_> = e.iter().map(|h| h.to_string()).collect();
                    t.push_str(&format!(",{}", e.join("|")));
                }
                if let Tail::Sets(_, sets) = tail {
                    let sets: Vec<_> = sets.iter().map(|(n, a)| format!("{n}:{a}")).collect();
                    t.push_str(&format!(",{}", sets.join("|")));
                }
                if let Some(x) = sample {
                    t.push_str(&format!(",{x}"));
                }
            }
            Kind::Spinner { end } => {
                t.push_str(&format!(",{}", old(end).print()));
                if let Some(x) = sample {
                    t.push_str(&format!(",{x}"));
                }
            }
            Kind::Hold { end } => {
                t.push_str(&format!(",{}:{}", old(end).print(), sample.unwrap_or_default()));
            }
        }
        Some(t)
    }

    pub fn check(&self, got: &HitObject) -> Result<(), String> {
        same_num("x", &self.x, &got.position.x)?;
        same_num("y", &self.y, &got.position.y)?;
        same_num("time", &self.time, &got.time)?;
        same("new combo", self.new_combo, got.new_combo)?;
        same("combo skip count", self.skip, got.combo_skip_count.get())?;
        same("hitsound", hitsound_of(self.hitsound), got.hitsound)?;
        same(
            "hitsample",
            self.sample.as_ref().map(|x| x.to_crate()),
            got.hitsample.clone(),
        )?;
        match (&self.kind, &got.obj_params) {
            (Kind::Circle, HitObjectParams::HitCircle) => {}
            (
                Kind::Slider {
                    curve,
                    points,
                    slides,
                    length,
                    tail,
                },
                HitObjectParams::Slider(p),
            ) => {
                same("curve type", curve_of(*curve), p.curve_type)?;
                same("curve point count", points.len(), p.curve_points.len())?;
                for ((x, y), q) in points.iter().zip(&p.curve_points) {
                    same_num("curve point x", x, &q.0.x)?;
                    same_num("curve point y", y, &q.0.y)?;
                }
                same("slides", *slides, p.slides)?;
                same_num("length", length, &p.length)?;
                let (e, sets) = match tail {
                    Tail::None => (Vec::new(), Vec::new()),
                    Tail::Edges(e) => (e.clone(), Vec::new()),
                    Tail::Sets(e, sets) => (e.clone(), sets.clone()),
                };
                same(
                    "edge sounds",
                    e.into_iter().map(hitsound_of).collect::<Vec<_>>(),
                    p.edge_sounds.clone(),
                )?;
                same(
                    "edge sets",
                    sets.into_iter()
                        .map(|(n, a)| EdgeSet {
                            normal_set: set_of(n),
                            addition_set: set_of(a),
                        })
                        .collect::<Vec<_>>(),
                    p.edge_sets.clone(),
                )?;
            }
            (Kind::Spinner { end }, HitObjectParams::Spinner { end_time }) => {
                same_num("end time", end, end_time)?
            }
            (Kind::Hold { end }, HitObjectParams::OsuManiaHold { end_time }) => {
                same_num("end time", end, end_time)?
            }
            (k, p) => return Err(format!("object kind: expected {k:?}, got {p:?}")),
        }
        Ok(())
    }

    /// The object built with the public interface. A slider is built without the shorthand information.
    pub fn to_crate(&self) -> HitObject {
        let mut o = match self.kind {
            Kind::Hold { .. } => HitObject::osu_mania_hold_default(),
            Kind::Spinner { .. } => HitObject::spinner_default(),
            _ => HitObject::hitcircle_default(),
        };
        o.position = pos(&self.x, &self.y);
        o.time = self.time.to_crate();
        o.new_combo = self.new_combo;
        o.combo_skip_count = ComboSkipCount::new(self.skip, 14).unwrap().unwrap();
        o.hitsound = hitsound_of(self.hitsound);
        o.hitsample = self.sample.as_ref().map(|x| x.to_crate());
        o.obj_params = match &self.kind {
            Kind::Circle => HitObjectParams::HitCircle,
            Kind::Slider {
                curve,
                points,
                slides,
                length,
                tail,
            } => {
                let (e, sets) = match tail {
                    Tail::None => (Vec::new(), Vec::new()),
                    Tail::Edges(e) => (e.clone(), Vec::new()),
                    Tail::Sets(e, sets) => (e.clone(), sets.clone()),
                };
                HitObjectParams::Slider(SlideParams::new(
                    curve_of(*curve),
                    points.iter().map(|(x, y)| CurvePoint(pos(x, y))).collect(),
                    *slides,
                    length.to_crate(),
                    e.into_iter().map(hitsound_of).collect(),
                    sets.into_iter()
                        .map(|(n, a)| EdgeSet {
                            normal_set: set_of(n),
                            addition_set: set_of(a),
                        })
                        .collect(),
                ))
            }
            Kind::Spinner { end } => HitObjectParams::Spinner {
                end_time: end.to_crate(),
            },
            Kind::Hold { end } => HitObjectParams::OsuManiaHold {
                end_time: end.to_crate(),
            },
        };
        o
    }
}

/// Hitsounds built flag by flag.
pub fn hitsound_of(h: u8) -> HitSound {
    HitSound::new(h & 1 != 0, h & 2 != 0, h & 4 != 0, h & 8 != 0)
}

#[allow(dead_code)]
pub fn hitsound_from(h: u8) -> HitSound {
    <HitSound as VersionedFrom<u8>>::from(h, 14).unwrap()
}

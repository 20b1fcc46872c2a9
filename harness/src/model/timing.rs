use super::*;
use crate::engine::Src;
use crate::gen::*;
use osu_file_parser::timingpoints::*;
use osu_file_parser::{Integer, VersionedFrom};

#[derive(Clone, Debug)]
pub struct Tp {
    pub time: Num,
    pub beat_length: Num,
    pub meter: i32,
    pub set: i32,
    pub index: u32,
    pub volume: i32,
    pub uninherited: Option<bool>,
    pub effects: Option<u32>,
}

impl Tp {
    /// A timing point as it can be stored from a source of version `v`.
    pub fn gen(s: &mut Src, v: Version) -> Tp {
        let time = if is_old(v) { time_num(s) } else { num(s) };
        let mut tp = Tp {
            time,
            beat_length: num(s),
            meter: 4,
            set: 1,
            index: 1,
            volume: 100,
            uninherited: None,
            effects: None,
        };
        if v >= 4 {
            tp.meter = int(s);
            tp.set = match s.weighted(&[6, 1]) {
                0 => s.range(0, 3) as i32,
                _ => int(s),
            };
            tp.index = uint(s, u32::MAX as u64) as u32;
        }
        if v >= 5 {
            tp.volume = match s.weighted(&[4, 1]) {
                0 => s.range(0, 100) as i32,
                _ => int(s),
            };
            let form = if v == 5 { s.weighted(&[1, 1, 2]) } else { s.weighted(&[1, 0, 3]) };
            if form >= 1 {
                tp.uninherited = Some(s.bool());
            }
            if form == 2 {
                tp.effects = Some(match s.weighted(&[3, 1]) {
                    0 => s.pick(&[0, 1, 8, 9]),
                    _ => uint(s, u32::MAX as u64) as u32,
                });
            }
        }
        tp
    }

    pub fn line(&self, s: &mut Src, v: Version) -> String {
        let time = if is_old(v) { self.time.shift(-24) } else { self.time.clone() };
        let mut f = vec![spell_num(s, &time), spell_num(s, &self.beat_length)];
        if v >= 4 {
            f.push(spell_int(s, self.meter as i64));
            f.push(spell_int(s, self.set as i64));
            f.push(spell_uint(s, self.index as u64));
        }
        if v >= 5 {
            f.push(spell_int(s, self.volume as i64));
            if let Some(u) = self.uninherited {
                f.push(spell_bool(s, u));
            }
            if let Some(e) = self.effects {
                f.push(spell_uint(s, e as u64));
            }
        }
        f.join(",")
    }

    pub fn print(&self, v: Version) -> Option<String> {
        let time = if is_old(v) { self.time.shift(-24) } else { self.time.clone() };
        let mut f = vec![time.print(), self.beat_length.print()];
        if v >= 4 {
            f.push(self.meter.to_string());
            f.push(self.set.to_string());
            f.push(self.index.to_string());
        }
        if v >= 5 {
            f.push(self.volume.to_string());
            if let Some(u) = self.uninherited {
                f.push((u as u8).to_string());
            }
            if let Some(e) = self.effects {
                f.push(e.to_string());
            }
        }
        Some(f.join(","))
    }

    pub fn check(&self, got: &TimingPoint) -> Result<(), String> {
        same_num("time", &self.time, got.time())?;
        same("meter", self.meter, got.meter())?;
        same("sample set", set_of(self.set), got.sample_set())?;
        same("sample index", index_of(self.index), got.sample_index())?;
        same("volume", self.volume, got.volume().volume())?;
        same("uninherited", self.uninherited.unwrap_or(true), got.uninherited())?;
        let effects = got.effects().map(|e| <u32 as VersionedFrom<Effects>>::from(*e, 14).unwrap());
        same("effects", self.effects, effects)?;
        if let Some(e) = got.effects() {
            let bits = self.effects.unwrap();
            same("kiai", bits & 1 == 1, e.kiai_time_enabled())?;
            same(
                "no first barline",
                bits & 8 == 8,
                e.no_first_barline_in_taiko_mania(),
            )?;
        }
        Ok(())
    }
}

pub fn set_of(v: Integer) -> SampleSet {
    match v {
        0 => SampleSet::BeatmapDefault,
        1 => SampleSet::Normal,
        2 => SampleSet::Soft,
        3 => SampleSet::Drum,
        v => SampleSet::Other(v),
    }
}

pub fn index_of(v: u32) -> SampleIndex {
    match std::num::NonZeroU32::new(v) {
        Some(v) => SampleIndex::Index(v),
        None => SampleIndex::OsuDefaultHitsounds,
    }
}

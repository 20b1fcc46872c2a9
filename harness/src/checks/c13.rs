//! Values with a limited range, and flags.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::timing::{index_of, set_of};
use crate::model::{fs, same, ts, version, VERSIONS};
use osu_file_parser::events::Volume as EventVolume;
use osu_file_parser::hitobjects::{ComboSkipCount, HitSound, Volume};
use osu_file_parser::timingpoints::{Effects, TimingPoint};
use osu_file_parser::{timingpoints, Decimal, VersionedDefault, VersionedFrom, VersionedToString, VersionedTryFrom};

pub const CHECK: Check = Check {
    id: "C13",
    rule: "at least one change is accepted and one is after another accepted one, or rejected",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "hit sample volume", case: hit_volume, quick: 50_000, thorough: 2_000_000 },
        Part { name: "audio sample volume", case: event_volume, quick: 50_000, thorough: 2_000_000 },
        Part { name: "combo skip count", case: combo, quick: 50_000, thorough: 2_000_000 },
        Part { name: "hit sounds", case: hit_sound, quick: 100_000, thorough: 4_000_000 },
        Part { name: "effects", case: effects, quick: 100_000, thorough: 4_000_000 },
        Part { name: "timing points", case: point, quick: 100_000, thorough: 4_000_000 },
    ],
};

/// What the history of a value was.
#[derive(Default)]
struct Log {
    text: String,
    accepted: usize,
    rejected: usize,
}

impl Log {
    fn op(&mut self, t: impl AsRef<str>, ok: bool) {
        self.text.push_str(t.as_ref());
        self.text.push(';');
        if ok {
            self.accepted += 1;
        } else {
            self.rejected += 1;
        }
    }

    fn end(&self, c: &mut Ctx) {
        c.sample(|| self.text.clone());
        if self.accepted > 0 && self.accepted + self.rejected > 1 {
            c.nontrivial(&self.text);
        }
        c.label_if(self.rejected > 0, "with rejected changes");
    }
}

fn value(s: &mut Src, limit: u8) -> u8 {
    match s.weighted(&[3, 2, 2]) {
        0 => s.range(0, limit as i64) as u8,
        1 => s.pick(&[0, 1, limit - 1, limit, limit + 1, limit + 2, 128, 255]),
        _ => s.draw(256) as u8,
    }
}

fn hit_volume(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let mut log = Log::default();
    let first = if s.bool() { Some(value(s, 100)) } else { None };
    let legal = |x: u8| (1..=100).contains(&x);
    let mut model = first.filter(|x| legal(*x));
    let r = Volume::new(first);
    log.op(format!("new {first:?}"), r.is_ok());
    same(format_args!("new {first:?} is accepted"), first.is_none_or(legal), r.is_ok())?;
    let mut val = r.unwrap_or(Volume::new(None).map_err(|e| e.to_string())?);
    for _ in 0..s.steps(0, 8) {
        match s.weighted(&[5, 1, 2]) {
            0 => {
                let x = value(s, 100);
                let r = val.set_volume(x);
                log.op(format!("set {x}"), r.is_ok());
                same(format_args!("{}: the change is accepted", log.text), legal(x), r.is_ok())?;
                if legal(x) {
                    model = Some(x);
                }
            }
            1 => {
                val.set_use_timing_point_volume();
                log.op("timing point", true);
                model = None;
            }
            _ => {
                let x = value(s, 100);
                match (fs::<Volume>(&x.to_string(), v), x <= 100) {
                    (Ok(Some(n)), true) => {
                        val = n;
                        model = Some(x).filter(|x| *x > 0);
                        log.op(format!("read {x}"), true);
                    }
                    (Err(_), false) => log.op(format!("read {x}"), false),
                    (r, _) => fail!("{x} read as {r:?}"),
                }
            }
        }
        same(format_args!("{}: volume", log.text), model, val.volume())?;
        same(format_args!("{}: timing point's volume", log.text), model.is_none(), val.use_timing_point_volume())?;
        let n = <i32 as VersionedFrom<Volume>>::from(val, v);
        same(format_args!("{}: number", log.text), Some(model.unwrap_or(0) as i32), n)?;
    }
    log.end(c);
    Ok(())
}

fn event_volume(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let mut log = Log::default();
    let mut val = <EventVolume as VersionedDefault>::default(v).ok_or("no default")?;
    let mut model = 100u8;
    same("default volume", model, val.get())?;
    for _ in 0..s.steps(1, 8) {
        let x = value(s, 100);
        let legal = x <= 100;
        let r = match s.below(4) {
            0 => val.set(x, v).is_ok(),
            1 => match EventVolume::new(x, v) {
                Ok(n) => {
                    val = n;
                    true
                }
                Err(_) => false,
            },
            2 => match <EventVolume as VersionedTryFrom<u8>>::try_from(x, v) {
                Ok(Some(n)) => {
                    val = n;
                    true
                }
                Ok(None) => fail!("there's no volume {x} in v{v}"),
                Err(_) => false,
            },
            _ => match fs::<EventVolume>(&x.to_string(), v) {
                Ok(Some(n)) => {
                    val = n;
                    true
                }
                Ok(None) => fail!("there's no volume {x} in v{v}"),
                Err(_) => false,
            },
        };
        log.op(x.to_string(), r);
        same(format_args!("{}: the change is accepted", log.text), legal, r)?;
        if legal {
            model = x;
        }
        same(format_args!("{}: volume", log.text), model, val.get())?;
        same(format_args!("{}: written", log.text), Some(model.to_string()), ts(&val, v))?;
        same(format_args!("{}: number", log.text), Some(model), <u8 as VersionedFrom<EventVolume>>::from(val, v))?;
    }
    log.end(c);
    Ok(())
}

fn combo(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let mut log = Log::default();
    let mut val = <ComboSkipCount as Default>::default();
    let mut model = 0u8;
    for _ in 0..s.steps(1, 8) {
        let x = value(s, 7);
        let legal = x <= 7;
        let r = match s.below(3) {
            0 => val.set(x, v).is_ok(),
            1 => match ComboSkipCount::new(x, v) {
                Ok(Some(n)) => {
                    val = n;
                    true
                }
                Ok(None) => fail!("there's no count {x} in v{v}"),
                Err(_) => false,
            },
            _ => match <ComboSkipCount as VersionedTryFrom<u8>>::try_from(x, v) {
                Ok(Some(n)) => {
                    val = n;
                    true
                }
                Ok(None) => fail!("there's no count {x} in v{v}"),
                Err(_) => false,
            },
        };
        log.op(x.to_string(), r);
        same(format_args!("{}: the change is accepted", log.text), legal, r)?;
        if legal {
            model = x;
        }
        same(format_args!("{}: count", log.text), model, val.get())?;
        same(format_args!("{}: number", log.text), Some(model), <u8 as VersionedFrom<ComboSkipCount>>::from(val, v))?;
    }
    log.end(c);
    Ok(())
}

fn hit_sound(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let mut log = Log::default();
    let mut flags = [s.bool(), s.bool(), s.bool(), s.bool()];
    let mut val = HitSound::new(flags[0], flags[1], flags[2], flags[3]);
    log.op(format!("{flags:?}"), true);
    for _ in 0..s.steps(1, 10) {
        let to = s.bool();
        match s.weighted(&[2, 2, 2, 2, 1, 1]) {
            0 => {
                val.set_normal(to);
                flags[0] = to;
                log.op(format!("normal {to}"), true);
            }
            1 => {
                val.set_whistle(to);
                flags[1] = to;
                log.op(format!("whistle {to}"), true);
            }
            2 => {
                val.set_finish(to);
                flags[2] = to;
                log.op(format!("finish {to}"), true);
            }
            3 => {
                val.set_clap(to);
                flags[3] = to;
                log.op(format!("clap {to}"), true);
            }
            n => {
                let x = byte(s);
                let read = if n == 4 {
                    fs::<HitSound>(&x.to_string(), v).ok().flatten()
                } else {
                    <HitSound as VersionedFrom<u8>>::from(x, v)
                };
                val = match read {
                    Some(r) => r,
                    None => fail!("{x} isn't read"),
                };
                flags = [x & 1 > 0, x & 2 > 0, x & 4 > 0, x & 8 > 0];
                log.op(format!("{x}"), true);
            }
        }
        let what = &log.text;
        same(format_args!("{what} normal"), flags[0] || flags == [false; 4], val.normal())?;
        same(format_args!("{what} whistle"), flags[1], val.whistle())?;
        same(format_args!("{what} finish"), flags[2], val.finish())?;
        same(format_args!("{what} clap"), flags[3], val.clap())?;
        let bits: u8 = flags.iter().enumerate().map(|(i, f)| (*f as u8) << i).sum();
        same(format_args!("{what} written"), Some(bits.to_string()), ts(&val, v))?;
        ensure!(
            val == HitSound::new(flags[0], flags[1], flags[2], flags[3]),
            "{what} isn't the same as a hit sound of {flags:?}: {val:?}"
        );
    }
    log.end(c);
    Ok(())
}

fn effects_of(e: &Effects) -> u32 {
    <u32 as VersionedFrom<Effects>>::from(*e, 14).unwrap_or(u32::MAX)
}

fn effects(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let mut log = Log::default();
    let (a, b) = (s.bool(), s.bool());
    let mut model = u32::from_le_bytes([a as u8 | (b as u8) << 3, 0, 0, 0]);
    let mut val = Effects::new(a, b);
    log.op(format!("{a} {b}"), true);
    same(format_args!("{}: number", log.text), model, effects_of(&val))?;
    for _ in 0..s.steps(1, 8) {
        let to = s.bool();
        match s.weighted(&[3, 3, 1, 2]) {
            0 => {
                val.set_kiai_time_enabled(to);
                model = model & !1 | to as u32;
                log.op(format!("kiai {to}"), true);
            }
            1 => {
                val.set_no_first_barline_in_taiko_mania(to);
                model = model & !8 | (to as u32) << 3;
                log.op(format!("barline {to}"), true);
            }
            2 => {
                val.clear_unused_bits();
                model &= 9;
                log.op("clear", true);
            }
            _ => {
                let x = uint(s, u32::MAX as u64) as u32;
                let read = if s.bool() {
                    fs::<Effects>(&x.to_string(), v).ok().flatten()
                } else {
                    <Effects as VersionedFrom<u32>>::from(x, v)
                };
                val = match read {
                    Some(r) => r,
                    None => fail!("{x} isn't read"),
                };
                model = x;
                log.op(format!("{x}"), true);
            }
        }
        let what = &log.text;
        same(format_args!("{what} kiai"), model & 1 > 0, val.kiai_time_enabled())?;
        same(format_args!("{what} barline"), model & 8 > 0, val.no_first_barline_in_taiko_mania())?;
        same(format_args!("{what} number"), model, effects_of(&val))?;
        same(format_args!("{what} written"), Some(model.to_string()), ts(&val, v))?;
    }
    log.end(c);
    Ok(())
}

/// A timing point that's changed keeps everything else.
fn point(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut log = Log::default();
    let beat_length = num(s);
    // time, meter, set, index, volume, uninherited, effects
    let (mut time, mut meter, mut set, mut index, mut volume) =
        (int(s), int(s), int(s), uint(s, u32::MAX as u64) as u32, int(s));
    let mut effects = Some(uint(s, u32::MAX as u64) as u32);
    let mut uninherited = true;
    let vol = |x: i32| timingpoints::Volume::new(x, 14).ok_or("no volume");
    let eff = |x: u32| <Effects as VersionedFrom<u32>>::from(x, 14).ok_or("no effects");
    let mut val = TimingPoint::new_uninherited(
        time,
        beat_length.to_crate(),
        meter,
        set_of(set),
        index_of(index),
        vol(volume)?,
        eff(effects.unwrap_or(0))?,
    );
    for _ in 0..s.steps(1, 8) {
        match s.below(8) {
            0 => {
                time = int(s);
                val.set_time(time);
                log.op(format!("time {time}"), true);
            }
            1 => {
                meter = int(s);
                val.set_meter(meter);
                log.op(format!("meter {meter}"), true);
            }
            2 => {
                set = s.range(0, 4) as i32;
                val.set_sample_set(set_of(set));
                log.op(format!("sample set {set}"), true);
            }
            3 => {
                index = uint(s, u32::MAX as u64) as u32;
                *val.sample_index_mut() = index_of(index);
                log.op(format!("sample index {index}"), true);
            }
            4 => {
                volume = int(s);
                val.set_volume(vol(volume)?);
                log.op(format!("volume {volume}"), true);
            }
            5 => {
                let mut x = vol(int(s))?;
                volume = int(s);
                x.set_volume(volume);
                same("volume", volume, x.volume())?;
                same("volume as a number", Some(volume), <i32 as VersionedFrom<timingpoints::Volume>>::from(x, 14))?;
                same("volume as text", Some(volume.to_string()), ts(&x, 14))?;
                val.set_volume(x);
                log.op(format!("volume {volume}"), true);
            }
            6 => {
                uninherited = s.bool();
                val.set_uninherited(uninherited);
                log.op(format!("uninherited {uninherited}"), true);
            }
            _ => {
                effects = Some(uint(s, 20) as u32);
                *val.effects_mut() = Some(eff(effects.unwrap_or(0))?);
                log.op(format!("effects {effects:?}"), true);
            }
        }
        let what = &log.text;
        same(format_args!("{what} time"), &Decimal::from(time), val.time())?;
        same(format_args!("{what} meter"), meter, val.meter())?;
        same(format_args!("{what} sample set"), set_of(set), val.sample_set())?;
        same(format_args!("{what} sample index"), index_of(index), val.sample_index())?;
        same(format_args!("{what} volume"), volume, val.volume().volume())?;
        same(format_args!("{what} uninherited"), uninherited, val.uninherited())?;
        same(format_args!("{what} effects"), effects, val.effects().map(effects_of))?;
        let line = format!(
            "{time},{},{meter},{set},{index},{volume},{},{}",
            beat_length.print(),
            uninherited as u8,
            effects.unwrap_or(0)
        );
        same(format_args!("{what} written"), Some(line), ts(&val, 14))?;
    }
    log.end(c);
    Ok(())
}

fn fixed(f: &mut Fixed) {
    f.case("every volume and count", || {
        for x in 0..=255u8 {
            same(format_args!("hit sample volume {x}"), (1..=100).contains(&x), Volume::new(Some(x)).is_ok())?;
            for v in VERSIONS {
                same(format_args!("audio sample volume {x}"), x <= 100, EventVolume::new(x, v).is_ok())?;
                same(format_args!("combo skip count {x}"), x <= 7, ComboSkipCount::new(x, v).is_ok())?;
                same(format_args!("volume text {x}"), x <= 100, fs::<Volume>(&x.to_string(), v).is_ok())?;
                same(format_args!("volume text {x}"), x <= 100, fs::<EventVolume>(&x.to_string(), v).is_ok())?;
                let h = <HitSound as VersionedFrom<u8>>::from(x, v);
                same(
                    format_args!("hit sound {x}"),
                    Some(HitSound::new(x & 1 > 0, x & 2 > 0, x & 4 > 0, x & 8 > 0)),
                    h,
                )?;
            }
            for y in 0..=255u8 {
                let mut a = EventVolume::new(x.min(100), 14).map_err(|e| e.to_string())?;
                same(format_args!("{x} then {y}"), y <= 100, a.set(y, 14).is_ok())?;
                same(format_args!("{x} then {y}"), if y <= 100 { y } else { x.min(100) }, a.get())?;
                let mut b = Volume::new(Some(x.clamp(1, 100))).map_err(|e| e.to_string())?;
                let ok = (1..=100).contains(&y);
                same(format_args!("{x} then {y}"), ok, b.set_volume(y).is_ok())?;
                same(format_args!("{x} then {y}"), Some(if ok { y } else { x.clamp(1, 100) }), b.volume())?;
            }
        }
        Ok(())
    });
}

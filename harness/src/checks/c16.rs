//! Tempo and slider velocity of timing points.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::timing::{index_of, set_of};
use crate::model::{fs, same, ts};
use osu_file_parser::timingpoints::{Effects, TimingPoint, Volume};
use osu_file_parser::{Decimal, VersionedFrom};
use rust_decimal::prelude::ToPrimitive;
use rust_decimal::Decimal as Dec;
use std::str::FromStr;

pub const CHECK: Check = Check {
    id: "C16",
    rule: "the number has at least 3 significant digits, or the result isn't representable",
    assumptions: &["numbers have at most 12 significant digits, results are compared with a relative error of 1e-11"],
    fixed,
    parts: &[
        Part { name: "inherited", case: inherited, quick: 150_000, thorough: 6_000_000 },
        Part { name: "uninherited", case: uninherited, quick: 150_000, thorough: 6_000_000 },
        Part { name: "conversions", case: conversions, quick: 100_000, thorough: 4_000_000 },
        Part { name: "no result", case: nothing, quick: 100_000, thorough: 4_000_000 },
        Part { name: "old points", case: old, quick: 100_000, thorough: 4_000_000 },
    ],
};

fn close(what: &str, want: f64, got: Dec) -> CaseResult {
    let g = match got.to_f64() {
        Some(g) => g,
        None => fail!("{what}: {got} isn't a number"),
    };
    let err = (g - want).abs();
    ensure!(err <= want.abs() * 1e-11, "{what}: expected {want}, got {got}");
    Ok(())
}

/// A positive number, between 0.001 and 1,000,000.
fn positive(s: &mut Src, max: i64) -> Dec {
    match s.weighted(&[2, 3, 3, 2]) {
        0 => Dec::from(s.range(1, 10)),
        1 => Dec::from(s.range(1, max)),
        2 => Dec::new(s.range(1, max.min(1000) * 1000), 3),
        _ => {
            let scale = s.size(0, 8) as u32;
            let d = Dec::new(s.range(1, 99_999_999_999), scale);
            d.clamp(Dec::new(1, 3), Dec::from(max))
        }
    }
}

fn digits(d: &Dec) -> usize {
    d.to_string().chars().filter(|c| c.is_ascii_digit() && *c != '0').count()
}

struct Rest {
    time: i32,
    meter: i32,
    set: i32,
    index: u32,
    volume: i32,
    effects: u32,
}

impl Rest {
    fn gen(s: &mut Src) -> Rest {
        Rest {
            time: int(s),
            meter: int(s),
            set: int(s),
            index: uint(s, u32::MAX as u64) as u32,
            volume: int(s),
            effects: uint(s, u32::MAX as u64) as u32,
        }
    }

    fn parts(&self) -> (Volume, Effects) {
        (
            Volume::new(self.volume, 14).expect("volume"),
            <Effects as VersionedFrom<u32>>::from(self.effects, 14).expect("effects"),
        )
    }

    fn check(&self, p: &TimingPoint, uninherited: bool) -> CaseResult {
        same("time", &Decimal::from(self.time), p.time())?;
        same("meter", self.meter, p.meter())?;
        same("sample set", set_of(self.set), p.sample_set())?;
        same("sample index", index_of(self.index), p.sample_index())?;
        same("volume", self.volume, p.volume().volume())?;
        same("uninherited", uninherited, p.uninherited())?;
        same("effects", Some(&self.parts().1), p.effects())
    }

    /// The beat length that's written, with everything else checked.
    fn written(&self, p: &TimingPoint, uninherited: bool) -> Result<(String, String), String> {
        let line = ts(p, 14).ok_or("nothing is written")?;
        let fields: Vec<_> = line.split(',').collect();
        ensure!(fields.len() == 8, "{line:?} has {} fields", fields.len());
        let want = [
            self.time.to_string(),
            fields[1].to_string(),
            self.meter.to_string(),
            self.set.to_string(),
            self.index.to_string(),
            self.volume.to_string(),
            (uninherited as u8).to_string(),
            self.effects.to_string(),
        ];
        same("written", want.join(","), line.clone())?;
        let beat = fields[1].to_string();
        Ok((line, beat))
    }
}

fn inherited(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let sv = positive(s, 1000);
    let r = Rest::gen(s);
    let (volume, effects) = r.parts();
    let p = TimingPoint::new_inherited(r.time, sv, r.meter, set_of(r.set), index_of(r.index), volume, effects);
    c.sample(|| format!("slider velocity {sv}"));
    if digits(&sv) >= 3 {
        c.nontrivial(&sv.to_string());
    }
    r.check(&p, false)?;
    let want = sv.to_f64().ok_or("no float")?;
    let what = format!("slider velocity {sv}");
    match p.calc_slider_velocity_multiplier() {
        Some(g) => close(&what, want, g)?,
        None => fail!("{what}: no velocity"),
    }
    same(format_args!("{what}: bpm"), None, p.calc_bpm())?;
    let (line, beat) = r.written(&p, false)?;
    match Dec::from_str(&beat) {
        Ok(b) => close(&format!("{what}: beat length"), -100.0 / want, b)?,
        Err(e) => fail!("{what}: beat length {beat:?}: {e}"),
    }
    let read = match fs::<TimingPoint>(&line, 14) {
        Ok(Some(g)) => g,
        r => fail!("{line:?} read as {r:?}"),
    };
    same(format_args!("{line:?} read"), &p, &read)?;
    same(
        format_args!("{line:?} velocity"),
        p.calc_slider_velocity_multiplier(),
        read.calc_slider_velocity_multiplier(),
    )
}

fn uninherited(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let beat = positive(s, 1_000_000);
    let r = Rest::gen(s);
    let (volume, effects) = r.parts();
    let p = TimingPoint::new_uninherited(
        r.time,
        Decimal::new(beat),
        r.meter,
        set_of(r.set),
        index_of(r.index),
        volume,
        effects,
    );
    c.sample(|| format!("beat of {beat} ms"));
    if digits(&beat) >= 3 {
        c.nontrivial(&beat.to_string());
    }
    r.check(&p, true)?;
    let what = format!("beat of {beat} ms");
    let want = 60000.0 / beat.to_f64().ok_or("no float")?;
    match p.calc_bpm() {
        Some(g) => close(&what, want, g)?,
        None => fail!("{what}: no bpm"),
    }
    same(format_args!("{what}: velocity"), None, p.calc_slider_velocity_multiplier())?;
    let (line, text) = r.written(&p, true)?;
    same("beat length", beat.to_string(), text)?;
    let mut read = match fs::<TimingPoint>(&line, 14) {
        Ok(Some(g)) => g,
        r => fail!("{line:?} read as {r:?}"),
    };
    same(format_args!("{line:?} read"), &p, &read)?;
    same(format_args!("{line:?} bpm"), p.calc_bpm(), read.calc_bpm())?;

    // the same point as an inherited one
    read.set_uninherited(false);
    let what = format!("{line:?} made inherited");
    same(format_args!("{what}: bpm"), None, read.calc_bpm())?;
    match read.calc_slider_velocity_multiplier() {
        Some(g) => close(&what, -100.0 / beat.to_f64().ok_or("no float")?, g),
        None => fail!("{what}: no velocity"),
    }
}

fn conversions(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut x = positive(s, 1_000_000);
    if s.chance(1, 4) {
        x = -x;
    }
    c.sample(|| x.to_string());
    if digits(&x) >= 3 {
        c.nontrivial(&x.to_string());
    }
    let f = x.to_f64().ok_or("no float")?;
    let bpm = TimingPoint::beat_duration_ms_to_bpm(x);
    close(&format!("bpm of a beat of {x} ms"), 60000.0 / f, bpm)?;
    let ms = TimingPoint::bpm_to_beat_duration_ms(x);
    close(&format!("duration of a beat at {x} bpm"), 60000.0 / f, ms)?;
    close(&format!("{x} ms to bpm and back"), f, TimingPoint::bpm_to_beat_duration_ms(bpm))?;
    close(&format!("{x} bpm to ms and back"), f, TimingPoint::beat_duration_ms_to_bpm(ms))
}

/// Numbers close to zero, huge numbers, zero, and what isn't a number.
fn nothing(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let r = Rest::gen(s);
    let (volume, effects) = r.parts();
    let (beat, exact) = match s.weighted(&[2, 2, 4, 2]) {
        0 => (Num::Text(odd_num_text(s)), Some(None)),
        1 => (Num::Dec(Dec::new(0, s.size(0, 28) as u32)), Some(None)),
        2 => {
            // 10^-k
            let k = s.size(0, 26) as u32;
            let d = Dec::new(if s.bool() { 1 } else { -1 }, k);
            (Num::Dec(d), Some(Some(k)))
        }
        _ => (
            Num::Dec(Dec::from_i128_with_scale(
                (s.range(i64::MIN / 2, i64::MAX / 2) as i128) * (s.range(1, 4_000_000_000) as i128),
                s.size(0, 28) as u32,
            )),
            None,
        ),
    };
    let up = s.bool();
    let mut p =
        TimingPoint::new_uninherited(r.time, beat.to_crate(), r.meter, set_of(r.set), index_of(r.index), volume, effects);
    p.set_uninherited(up);
    c.sample(|| format!("beat length {beat:?}, uninherited {up}"));
    c.nontrivial(&format!("{beat:?} {up}"));
    r.check(&p, up)?;
    let what = format!("beat length {beat:?}, uninherited {up}");
    let (bpm, sv) = (p.calc_bpm(), p.calc_slider_velocity_multiplier());
    if up {
        same(format_args!("{what}: velocity"), None, sv)?;
    } else {
        same(format_args!("{what}: bpm"), None, bpm)?;
    }
    match exact {
        Some(None) => {
            same(format_args!("{what}: bpm"), None, bpm)?;
            same(format_args!("{what}: velocity"), None, sv)
        }
        Some(Some(k)) => {
            let sign = if beat.print().starts_with('-') { -1 } else { 1 };
            if up {
                // 60000 * 10^k
                let want = 10i128
                    .checked_pow(k)
                    .and_then(|p| p.checked_mul(60000 * sign))
                    .filter(|n| n.unsigned_abs() < 1 << 96)
                    .map(|n| Dec::from_i128_with_scale(n, 0));
                same(format_args!("{what}: bpm"), want, bpm)
            } else {
                // -100 * 10^k
                let want = 10i128
                    .checked_pow(k)
                    .and_then(|p| p.checked_mul(-100 * sign))
                    .filter(|n| n.unsigned_abs() < 1 << 96)
                    .map(|n| Dec::from_i128_with_scale(n, 0));
                same(format_args!("{what}: velocity"), want, sv)
            }
        }
        None => {
            let f = match &beat {
                Num::Dec(d) => d.to_f64().ok_or("no float")?,
                Num::Text(_) => return Ok(()),
            };
            // only what has enough digits can be compared
            let want = if up { 60000.0 / f } else { -100.0 / f };
            let got = if up { bpm } else { sv };
            match got {
                Some(g) if (1e-6..1e20).contains(&f.abs()) => {
                    let g = g.to_f64().ok_or("no float")?;
                    let err = (g - want).abs();
                    ensure!(err <= 1e-11 * want.abs() + 1e-20, "{what}: expected {want}, got {g}");
                    Ok(())
                }
                None if (1e-6..1e20).contains(&f.abs()) => Err(format!("{what}: no result")),
                _ => Ok(()),
            }
        }
    }
}

/// Points of versions whose points don't have to state their kind: these start a tempo, so they have no velocity. Whether
/// the tempo is there isn't settled, but if it is it's the right one.
fn old(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = s.range(3, 6) as u8;
    let mut x = positive(s, 1_000_000);
    let negative = s.bool();
    if negative {
        x = -x;
    }
    let time = int(s);
    let line = match v {
        3 => format!("{time},{x}"),
        4 => format!("{time},{x},{},{},{}", int(s), s.range(0, 3), s.range(0, 9)),
        _ => format!("{time},{x},{},{},{},{}", int(s), s.range(0, 3), s.range(0, 9), s.range(0, 100)),
    };
    c.sample(|| format!("v{v} {line}"));
    if digits(&x) >= 3 {
        c.nontrivial(&line);
    }
    let mut p = match fs::<TimingPoint>(&line, v) {
        Ok(Some(p)) => p,
        r => fail!("v{v} {line:?} read as {r:?}"),
    };
    let f = x.to_f64().ok_or("no float")?;
    same(format_args!("v{v} {line:?}: uninherited"), true, p.uninherited())?;
    same(format_args!("v{v} {line:?}: velocity"), None, p.calc_slider_velocity_multiplier())?;
    if let Some(bpm) = p.calc_bpm() {
        close(&format!("v{v} {line:?}: bpm"), 60000.0 / f, bpm)?;
    }
    p.set_uninherited(true);
    match p.calc_bpm() {
        Some(bpm) => close(&format!("v{v} {line:?} set to uninherited: bpm"), 60000.0 / f, bpm)?,
        None => fail!("v{v} {line:?} set to uninherited: no bpm"),
    }
    same(format_args!("v{v} {line:?} set to uninherited: velocity"), None, p.calc_slider_velocity_multiplier())?;
    p.set_uninherited(false);
    match p.calc_slider_velocity_multiplier() {
        Some(m) => close(&format!("v{v} {line:?} set to inherited: velocity"), -100.0 / f, m)?,
        None => fail!("v{v} {line:?} set to inherited: no velocity"),
    }
    same(format_args!("v{v} {line:?} set to inherited: bpm"), None, p.calc_bpm())
}

fn fixed(f: &mut Fixed) {
    for beat in ["0", "0.0000000000000000000000000001", "-0.0000000000000000000000000001", "79228162514264337593543950335"] {
        for up in [0, 1] {
            f.case(format!("beat length {beat} uninherited {up}"), || {
                let p = match fs::<TimingPoint>(&format!("0,{beat},4,1,1,100,{up},0"), 14) {
                    Ok(Some(p)) => p,
                    r => fail!("read as {r:?}"),
                };
                p.calc_bpm();
                p.calc_slider_velocity_multiplier();
                Ok(())
            });
        }
    }
    f.case("120 bpm", || {
        same("ms", Dec::from(500), TimingPoint::bpm_to_beat_duration_ms(Dec::from(120)))?;
        same("bpm", Dec::from(120), TimingPoint::beat_duration_ms_to_bpm(Dec::from(500)))
    });
}

//! Numbers are stored exactly.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::same;
use either::Either;
use crate::model::{fs, ts};
use osu_file_parser::events::storyboard::cmds::{Command, CommandProperties};
use osu_file_parser::events::storyboard::sprites::Object;
use osu_file_parser::events::SampleLegacy;
use osu_file_parser::hitobjects::{HitObject, HitObjectParams};
use osu_file_parser::timingpoints::TimingPoint;
use osu_file_parser::{Decimal, Position};
use rust_decimal::Decimal as Dec;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

pub const CHECK: Check = Check {
    id: "C20",
    rule: "a number with at least two digits, or text that isn't a number",
    assumptions: &["at most 28 digits: what is beyond isn't representable by the number type"],
    fixed,
    parts: &[
        Part { name: "numbers", case: numbers, quick: 200_000, thorough: 8_000_000 },
        Part { name: "other text", case: other, quick: 150_000, thorough: 6_000_000 },
        Part { name: "fields", case: fields, quick: 120_000, thorough: 4_000_000 },
        Part { name: "histories", case: histories, quick: 100_000, thorough: 4_000_000 },
        Part { name: "equality", case: equality, quick: 150_000, thorough: 5_000_000 },
    ],
};

/// The text of a number and how it's written: without plus sign and without zeros at the start.
fn number(s: &mut Src) -> (String, String) {
    let digits = match s.weighted(&[5, 3, 1]) {
        0 => s.size(1, 6),
        1 => s.size(1, 18),
        _ => s.size(19, 28),
    };
    let fraction = if s.bool() { s.size(0, digits) } else { 0 };
    let all: String = (0..digits)
        .map(|_| {
            // many zeros and nines
            match s.weighted(&[6, 2, 1]) {
                0 => char::from(b'0' + s.below(10) as u8),
                1 => '0',
                _ => '9',
            }
        })
        .collect();
    let (whole, frac) = all.split_at(digits - fraction);
    let sign = s.pick(&["", "", "", "-", "-", "+"]);
    let mut text = format!("{sign}{whole}");
    if !frac.is_empty() || (!whole.is_empty() && s.chance(1, 8)) {
        text.push('.');
        text.push_str(frac);
    }
    let w = whole.trim_start_matches('0');
    let zero = all.bytes().all(|b| b == b'0');
    let mut canon = String::new();
    if sign == "-" && !zero {
        canon.push('-');
    }
    canon.push_str(if w.is_empty() { "0" } else { w });
    if !frac.is_empty() {
        canon.push('.');
        canon.push_str(frac);
    }
    (text, canon)
}

fn left(what: &str, d: &Decimal) -> Result<Dec, String> {
    match d.get() {
        Either::Left(d) => Ok(*d),
        Either::Right(t) => Err(format!("{what} isn't a number: {t:?}")),
    }
}

fn numbers(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (text, canon) = number(s);
    let zero = !canon.bytes().any(|b| (b'1'..=b'9').contains(&b));
    c.sample(|| format!("{text:?} is {canon:?}"));
    if canon.len() > 1 {
        c.nontrivial(&text);
    }
    c.label_if(zero, "zeros");
    let d = Decimal::from(text.as_str());
    let n = left(&format!("{text:?}"), &d)?;
    // a zero can have a sign
    let strip = |t: String| if zero { t.trim_start_matches('-').to_string() } else { t };
    same(format_args!("{text:?} written"), canon.clone(), strip(d.to_string()))?;
    same(format_args!("{text:?} as a string value"), Ok(d.clone()), Decimal::from_str(&text))?;
    let mut late = Decimal::new_from_str(&text);
    same(format_args!("{text:?} before it's made a number"), text.clone(), late.to_string())?;
    same(format_args!("{text:?} before it's made a number"), &Either::Right(text.clone()), late.get())?;
    ensure!(late.try_make_decimal().is_ok(), "{text:?} isn't made a number");
    same(format_args!("{text:?} made a number"), &d, &late)?;
    ensure!(late.try_make_decimal().is_ok(), "{text:?} isn't made a number twice");
    same(format_args!("{text:?} made a number twice"), &d, &late)?;
    same(format_args!("{text:?} from the number"), &d, &Decimal::from(n))?;
    same(format_args!("{text:?} new with the number"), &d, &Decimal::new(n))?;

    // what's written is the same number
    let again = Decimal::from(d.to_string().as_str());
    same(format_args!("{text:?} written and read"), &d, &again)?;
    same(format_args!("{text:?} written twice"), strip(d.to_string()), strip(again.to_string()))?;

    // numbers compare by value
    let (other, other_canon) = if s.bool() { number(s) } else { (format!("{canon}{}", if canon.contains('.') { "0" } else { ".0" }), canon.clone()) };
    let e = Decimal::from(other.as_str());
    if other_canon.len() < 27 && canon.len() < 27 {
        let value = |t: &str| {
            let t = if t.contains('.') { t.trim_end_matches('0').trim_end_matches('.') } else { t };
            if t == "-0" { "0".to_string() } else { t.to_string() }
        };
        same(format_args!("{text:?} equals {other:?}"), value(&canon) == value(&other_canon), d == e)?;
    }
    let i = int(s);
    same("integer", i.to_string(), Decimal::from(i).to_string())?;
    same("integer and text", Decimal::from(i.to_string().as_str()), Decimal::from(i))
}

fn other(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let text = match s.weighted(&[3, 2, 2, 1]) {
        0 => odd_num_text(s),
        1 => {
            // a number with something in it
            let (mut t, _) = number(s);
            let junk = if s.bool() {
                s.pick(&["x", "-", ".", "..", "e5", "E", "é", "٣", ":", " ", "/"]).to_string()
            } else {
                char::from(s.range(0x20, 0x7e) as u8).to_string()
            };
            let at = match s.below(3) {
                0 => 0,
                1 => t.len(),
                _ => s.size(0, t.len()),
            };
            t.insert_str(at, &junk);
            t
        }
        2 => crate::gen::text(s, 12),
        _ => s.pick(&["", "-", "+", ".", "-.", "+-1", "--1", "1-", "0x1", "1e5", "NaN", "inf", "1,5", "_", "_1"]).to_string(),
    };
    let d = Decimal::from(text.as_str());
    let is_number = Dec::from_str(&text).is_ok();
    c.label(if is_number { "a number" } else { "not a number" });
    c.sample(|| format!("{text:?}"));
    c.nontrivial(&text);
    // a sign, digits with at most one point, separated by nothing
    let plain = {
        let t = text.strip_prefix(['-', '+']).unwrap_or(&text);
        !t.is_empty()
            && t.bytes().all(|b| b.is_ascii_digit() || b == b'.')
            && t.bytes().filter(|b| *b == b'.').count() <= 1
            && t.bytes().any(|b| b.is_ascii_digit())
    };
    if plain && text.len() < 28 {
        left(&format!("{text:?}"), &d)?;
    }
    if !plain && !text.contains('_') && !text.chars().any(|c| c == 'e' || c == 'E') {
        same(format_args!("{text:?} stored"), &Either::Right(text.clone()), d.get())?;
        same(format_args!("{text:?} written"), text.clone(), d.to_string())?;
        let mut late = Decimal::new_from_str(&text);
        ensure!(late.try_make_decimal().is_err(), "{text:?} made a number: {late:?}");
        same(format_args!("{text:?} after it can't be made a number"), &Either::Right(text.clone()), late.get())?;
    }
    // whatever it is, text stays text until it's made a number
    let mut late = Decimal::new_from_str(&text);
    same(format_args!("{text:?}"), text.clone(), late.to_string())?;
    let made = late.try_make_decimal().is_ok();
    same(format_args!("{text:?} is a number"), is_number, made)?;
    same(format_args!("{text:?} read and made"), &d, &late)?;
    same(format_args!("{text:?} read and parsed"), Ok(d.clone()), text.parse::<Decimal>())
}

/// Text that can be a field of an item.
fn field_text(s: &mut Src) -> String {
    let text = match s.weighted(&[3, 2, 2, 1]) {
        0 => number(s).0,
        1 => {
            let pad = |s: &mut Src| s.pick(&["", " ", "\t", "  ", "\u{a0}"]);
            let (a, b) = (pad(s), pad(s));
            format!("{a}{}{b}", number(s).0)
        }
        2 => odd_num_text(s),
        _ => {
            let (mut t, _) = number(s);
            let at = if s.bool() { t.len() } else { s.size(0, t.len()) };
            t.insert(at, char::from(s.range(0x20, 0x7e) as u8));
            t
        }
    };
    text.replace([',', ':', '|', '\n', '\r', '"'], "")
}

/// What's in a field of an item is the number its text is.
fn fields(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (a, b) = (field_text(s), field_text(s));
    c.sample(|| format!("{a:?} {b:?}"));
    c.nontrivial(&format!("{a},{b}"));
    let check = |line: &str, what: &str, text: &str, got: &Decimal| -> CaseResult {
        let want = Decimal::from(text);
        same(format_args!("{line:?}: {what}"), want.get(), got.get())?;
        same(format_args!("{line:?}: {what} as text"), want.to_string(), got.to_string())
    };
    macro_rules! item {
        ($ty:ty, $line:expr) => {{
            let line: String = $line;
            match fs::<$ty>(&line, 14) {
                Ok(Some(x)) => {
                    let out = ts(&x, 14).unwrap_or_default();
                    for text in [&a, &b] {
                        let want = Decimal::from(text.as_str()).to_string();
                        ensure!(out.contains(&want), "{line:?} is written as {out:?}, without {want:?}");
                    }
                    (line, x)
                }
                Ok(None) => fail!("{line:?} isn't read"),
                Err(e) => fail!("{line:?} isn't read: {e}"),
            }
        }};
    }
    match s.below(9) {
        0 => {
            let (line, x) = item!(HitObject, format!("1,{a},{b},1,0"));
            check(&line, "y", &a, &x.position.y)?;
            check(&line, "time", &b, &x.time)
        }
        1 => {
            let (line, x) = item!(HitObject, format!("{a},2,3,2,0,B|4:5,1,{b},0|0,0:0|0:0,0:0:0:0:"));
            check(&line, "x", &a, &x.position.x)?;
            match &x.obj_params {
                HitObjectParams::Slider(p) => check(&line, "length", &b, &p.length),
                p => fail!("{line:?} is {p:?}"),
            }
        }
        2 => {
            let (line, x) = item!(HitObject, format!("1,2,3,2,0,B|{a}:5|6:{b},1,10"));
            match &x.obj_params {
                HitObjectParams::Slider(p) if p.curve_points.len() == 2 => {
                    check(&line, "x of a point", &a, &p.curve_points[0].0.x)?;
                    check(&line, "y of a point", &b, &p.curve_points[1].0.y)
                }
                p => fail!("{line:?} is {p:?}"),
            }
        }
        3 => {
            let (line, x) = item!(HitObject, format!("1,{a},3,12,0,{b},0:0:0:0:"));
            check(&line, "y", &a, &x.position.y)?;
            match &x.obj_params {
                HitObjectParams::Spinner { end_time } => check(&line, "end", &b, end_time),
                p => fail!("{line:?} is {p:?}"),
            }
        }
        4 => {
            let (line, x) = item!(TimingPoint, format!("{a},{b},4,2,1,50,1,0"));
            check(&line, "time", &a, x.time())?;
            let want = format!("{},{},4,2,1,50,1,0", Decimal::from(a.as_str()), Decimal::from(b.as_str()));
            same(format_args!("{line:?} written"), Some(want), ts(&x, 14))
        }
        5 => {
            let (line, x) = item!(Object, format!("Sprite,Pass,Centre,a.png,{a},{b}"));
            check(&line, "x", &a, &x.position.x)?;
            check(&line, "y", &b, &x.position.y)
        }
        6 => {
            let (line, x) = item!(Command, format!("S,0,1,,{a},{b}"));
            match &x.properties {
                CommandProperties::Scale { start_scale, continuing_scales, .. } if continuing_scales.len() == 1 => {
                    check(&line, "first", &a, start_scale)?;
                    check(&line, "second", &b, &continuing_scales[0])
                }
                p => fail!("{line:?} is {p:?}"),
            }
        }
        7 => {
            let (line, x) = item!(Command, format!("M,0,1,,{a},{b}"));
            match &x.properties {
                CommandProperties::Move { positions_xy, .. } => {
                    check(&line, "x", &a, &positions_xy.start_values().0)?;
                    check(&line, "y", &b, &positions_xy.start_values().1)
                }
                p => fail!("{line:?} is {p:?}"),
            }
        }
        _ => {
            let line = format!("6,{a},0,b.wav");
            let x = match fs::<SampleLegacy>(&line, 14) {
                Ok(Some(x)) => x,
                r => fail!("{line:?} is read as {r:?}"),
            };
            same(format_args!("{line:?} written"), Some(format!("6,{},0,b.wav", Decimal::from(a.as_str()))), ts(&x, 14))?;
            check(&line, "time", &a, &x.time)
        }
    }
}

/// A value changed in place.
fn histories(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut d = Decimal::default();
    let mut model: Either<Dec, String> = Either::Left(Dec::from(0));
    let mut log = String::new();
    let n = s.steps(1, 8);
    for _ in 0..n {
        match s.below(4) {
            0 => {
                let x = num(s);
                log.push_str(&format!("set {x:?}; "));
                match &x {
                    Num::Dec(n) => {
                        *d.get_mut() = Either::Left(*n);
                        model = Either::Left(*n);
                    }
                    Num::Text(t) => {
                        *d.get_mut() = Either::Right(t.clone());
                        model = Either::Right(t.clone());
                    }
                }
            }
            1 => {
                let (t, _) = number(s);
                log.push_str(&format!("text {t:?}; "));
                d = Decimal::new_from_str(&t);
                model = Either::Right(t);
            }
            2 => {
                log.push_str("make; ");
                let r = d.try_make_decimal();
                let want = match &model {
                    Either::Left(_) => true,
                    Either::Right(t) => match Dec::from_str(t) {
                        Ok(n) => {
                            model = Either::Left(n);
                            true
                        }
                        Err(_) => false,
                    },
                };
                same(format_args!("{log}is a number"), want, r.is_ok())?;
            }
            _ => {
                log.push_str("copy; ");
                let old = d.clone();
                if let Either::Left(n) = d.get_mut() {
                    *n = Dec::from(7);
                    model = Either::Left(Dec::from(7));
                }
                same(format_args!("{log}the copy stays"), true, old == d || matches!(model, Either::Left(_)))?;
            }
        }
        same(format_args!("{log}value"), &model, d.get())?;
        same(format_args!("{log}written"), model.to_string(), d.to_string())?;
    }
    c.sample(|| log.clone());
    if n > 1 {
        c.nontrivial(&log);
    }
    Ok(())
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Numbers are equal if their values are, whatever zeros they're written with; texts if they're the same. What's equal has
/// the same hash.
fn equality(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (t, canon) = number(s);
    let a = Decimal::from(t.as_str());
    // another spelling of the same value
    let digits = canon.chars().filter(|c| c.is_ascii_digit()).count();
    let mut other = canon.clone();
    if digits < 20 {
        if !other.contains('.') {
            other.push('.');
        }
        other.push_str(&"0".repeat(s.size(1, 6)));
    }
    let b = Decimal::from(other.as_str());
    // a value that's another one: the last digit that isn't a zero is changed
    let mut wrong: Vec<u8> = canon.clone().into_bytes();
    let at = wrong.iter().rposition(|b| b.is_ascii_digit()).ok_or("no digit")?;
    wrong[at] = b'0' + (wrong[at] - b'0' + s.range(1, 9) as u8) % 10;
    let wrong = String::from_utf8(wrong).map_err(|e| e.to_string())?;
    let w = Decimal::from(wrong.as_str());
    // the same as text
    let x = Decimal::new_from_str(&canon);
    c.sample(|| format!("{t} {other} {wrong}"));
    if digits >= 2 {
        c.nontrivial(&t);
    }
    let zero = |t: &str| t.bytes().all(|b| !b.is_ascii_digit() || b == b'0');
    let differ = !(zero(&wrong) && zero(&canon));
    for (l, r, want, what) in [
        (&a, &b, true, format!("{t} and {other}")),
        (&b, &a, true, format!("{other} and {t}")),
        (&a, &w, !differ, format!("{t} and {wrong}")),
        (&a, &x, false, format!("{t} and the text {canon:?}")),
        (&x, &x.clone(), true, format!("the text {canon:?} and itself")),
    ] {
        same(format_args!("{what} are equal"), want, l == r)?;
        if want {
            same(format_args!("{what}: hash"), hash(l), hash(r))?;
        }
        let p = |x: &Decimal, y: &Decimal| Position { x: x.clone(), y: y.clone() };
        same(format_args!("positions of {what} are equal"), want, p(l, &a) == p(r, &a))?;
        same(format_args!("positions of {what} are equal"), want, p(&a, l) == p(&a, r))?;
        if want {
            same(format_args!("positions of {what}: hash"), hash(&p(l, r)), hash(&p(r, l)))?;
        }
    }
    Ok(())
}

fn fixed(f: &mut Fixed) {
    f.case("default position", || {
        let p = Position::default();
        same("x", "256", &p.x.to_string())?;
        same("y", "192", &p.y.to_string())?;
        same("zero", "0", &Decimal::default().to_string())
    });
    for (t, want) in [("007.50", "7.50"), ("-0.10", "-0.10"), ("+3", "3"), (".5", "0.5"), ("5.", "5"), ("1.000", "1.000")] {
        f.case(format!("{t} is {want}"), || same("written", want, &Decimal::from(t).to_string()));
    }
}

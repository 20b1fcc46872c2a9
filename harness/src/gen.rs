//! Generators of primitive values, and the spellings they're written with.

use crate::engine::Src;
use either::Either;
use osu_file_parser::{Decimal, FilePath, Integer};
use rust_decimal::Decimal as Dec;
use std::str::FromStr;

/// A value of the crate's `Decimal`: a decimal number, or text that isn't one.
#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    Dec(Dec),
    Text(String),
}

impl Num {
    pub fn int(v: i64) -> Num {
        Num::Dec(Dec::from(v))
    }

    /// How the number is written by the crate.
    pub fn print(&self) -> String {
        match self {
            Num::Dec(d) => d.to_string(),
            Num::Text(t) => t.clone(),
        }
    }

    /// The number moved by `by`.
    pub fn shift(&self, by: i64) -> Num {
        match self {
            Num::Dec(d) => Num::Dec(*d + Dec::from(by)),
            t => t.clone(),
        }
    }

    pub fn to_crate(&self) -> Decimal {
        match self {
            Num::Dec(d) => Decimal::new(*d),
            Num::Text(t) => Decimal::new_from_str(t),
        }
    }

    /// Exact comparison, including how it's going to be written.
    pub fn same(&self, d: &Decimal) -> bool {
        match (self, d.get()) {
            (Num::Dec(a), Either::Left(b)) => a == b && a.to_string() == b.to_string(),
            (Num::Text(a), Either::Right(b)) => a == b,
            _ => false,
        }
    }
}

const INT_EDGES: [i32; 26] = [
    0,
    1,
    -1,
    2,
    3,
    4,
    7,
    8,
    9,
    10,
    24,
    99,
    100,
    101,
    127,
    128,
    255,
    256,
    1000,
    32767,
    65535,
    65536,
    2147483646,
    2147483647,
    -2147483648,
    -2147483647,
];

pub fn int(s: &mut Src) -> Integer {
    match s.weighted(&[5, 4, 3, 2, 1, 1]) {
        0 => s.range(0, 9) as i32,
        1 => s.range(0, 400_000) as i32,
        2 => s.pick(&INT_EDGES),
        3 => -(s.range(0, 5000) as i32),
        4 => s.range(i32::MIN as i64, i32::MAX as i64) as i32,
        _ => -(s.pick(&INT_EDGES).saturating_abs()),
    }
}

/// An integer that can be moved by 24 both ways without leaving the range of the type.
pub fn time_int(s: &mut Src) -> Integer {
    int(s).clamp(i32::MIN + 24, i32::MAX - 24)
}

pub fn uint(s: &mut Src, max: u64) -> u64 {
    let v = match s.weighted(&[6, 4, 2, 1, 1]) {
        0 => s.draw(10),
        1 => s.draw(1000),
        2 => s.pick(&INT_EDGES).unsigned_abs() as u64,
        3 => max - s.draw(3),
        _ => s.draw(max),
    };
    v.min(max)
}

pub fn byte(s: &mut Src) -> u8 {
    match s.weighted(&[4, 2, 3]) {
        0 => s.draw(10) as u8,
        1 => s.pick(&[0u8, 1, 9, 10, 99, 100, 127, 128, 199, 200, 249, 250, 254, 255]),
        _ => s.draw(256) as u8,
    }
}

/// A decimal number the crate's decimal type stores exactly, also after it's moved by 24.
pub fn dec(s: &mut Src) -> Dec {
    let d = match s.weighted(&[5, 4, 4, 3, 2, 2]) {
        0 => Dec::from(s.range(0, 9)),
        1 => Dec::from(s.range(0, 600_000)),
        2 => {
            let scale = s.size(1, 4) as u32;
            Dec::new(s.range(0, 99_999_999), scale)
        }
        3 => -Dec::new(s.range(0, 999_999), s.size(0, 4) as u32),
        4 => Dec::from(s.pick(&INT_EDGES)),
        _ => {
            let scale = s.size(0, 18) as u32;
            Dec::new(s.range(i64::MIN / 2, i64::MAX / 2), scale)
        }
    };
    // -0 isn't a number of its own
    if d.is_zero() {
        d.abs()
    } else {
        d
    }
}

const WORDS: [&str; 24] = [
    "NaN", "inf", "-Infinity", "1e3", "2E-5", "0x10", "abc", "1.2.3f", "Ω", "あ1", "5px", "null", "1a", "x",
    "-e", "1e", "٣a", "½b", "é", "1 000a", "a.b", "E5", "#1c", "1-2z",
];

/// Text that isn't a decimal number and that has none of the separators of the format.
pub fn odd_num_text(s: &mut Src) -> String {
    if s.chance(1, 2) {
        let mut t = String::new();
        for _ in 0..s.size(0, 4) {
            t.push(s.pick(&['1', '0', '.', '-', 'e', 'Z', 'é', '$', '#', '(', '&', '漢']));
        }
        t.push(match s.below(3) {
            0 => s.pick(&['x', 'q', 'Ä', '音']),
            1 => char::from(b'a' + s.below(26) as u8),
            _ => char::from(b'A' + s.below(26) as u8),
        });
        t
    } else {
        s.pick(&WORDS).to_string()
    }
}

pub fn num(s: &mut Src) -> Num {
    if s.chance(1, 12) {
        Num::Text(odd_num_text(s))
    } else {
        Num::Dec(dec(s))
    }
}

/// A number whose move by 24 keeps its written form unambiguous, for times of old versions.
pub fn time_num(s: &mut Src) -> Num {
    match num(s) {
        Num::Dec(d) => {
            let hits_zero = [-48i64, -24, 0, 24, 48]
                .iter()
                .any(|z| d == Dec::from(*z));
            if hits_zero {
                Num::Dec(d.trunc())
            } else {
                Num::Dec(d)
            }
        }
        n => n,
    }
}

/// One of the ways to spell an integer.
pub fn spell_int(s: &mut Src, v: i64) -> String {
    match s.weighted(&[14, 1, 1]) {
        0 => v.to_string(),
        1 if v >= 0 => format!("+{v}"),
        2 => {
            let zeros = "0".repeat(s.size(1, 3));
            if v < 0 {
                format!("-{zeros}{}", (v as i128).unsigned_abs())
            } else {
                format!("{zeros}{v}")
            }
        }
        _ => v.to_string(),
    }
}

pub fn spell_uint(s: &mut Src, v: u64) -> String {
    match s.weighted(&[14, 1]) {
        0 => v.to_string(),
        _ => format!("{}{v}", "0".repeat(s.size(1, 3))),
    }
}

/// One of the ways to spell a number. All of them are read as the same value with the same amount of decimals.
pub fn spell_num(s: &mut Src, n: &Num) -> String {
    match n {
        Num::Text(t) => t.clone(),
        Num::Dec(d) => {
            let canon = d.to_string();
            let (neg, body) = match canon.strip_prefix('-') {
                Some(b) => (true, b),
                None => (false, canon.as_str()),
            };
            let sign = if neg { "-" } else { "" };
            match s.weighted(&[20, 1, 1, 1]) {
                0 => canon,
                1 if !neg => format!("+{body}"),
                2 => format!("{sign}{}{body}", "0".repeat(s.size(1, 3))),
                3 if body.starts_with("0.") => format!("{sign}{}", &body[1..]),
                3 if !body.contains('.') => format!("{sign}{body}."),
                _ => canon,
            }
        }
    }
}

/// A boolean as written in key value fields.
pub fn spell_bool(s: &mut Src, b: bool) -> String {
    let v = u8::from(b);
    match s.weighted(&[18, 1, 1]) {
        0 => v.to_string(),
        1 => format!("+{v}"),
        _ => format!("0{v}"),
    }
}

const TEXT_CHARS: [char; 48] = [
    'a', 'b', 'z', 'A', 'Z', '0', '1', '9', ' ', '.', '-', '_', '(', ')', '!', '?', '\'', '&', '+', '=', '~', '*',
    ';', '<', '>', '@', '^', '`', '%', '$', '#', '/', '\\', '|', ':', ',', '[', ']', '{', '"', 'é', 'ß', '漢', '音',
    '\u{3000}', '😀', '\u{a0}', '\t',
];

/// Text of one line without some chars, and without whitespace at the start and end.
pub fn text_without(s: &mut Src, max: usize, without: &[char]) -> String {
    let n = s.len(max);
    let mut t = String::new();
    for _ in 0..n {
        let c = s.pick(&TEXT_CHARS);
        if !without.contains(&c) {
            t.push(c);
        }
    }
    t.trim().to_string()
}

/// Text of a line.
pub fn text(s: &mut Src, max: usize) -> String {
    text_without(s, max, &[])
}

pub fn word(s: &mut Src) -> String {
    let n = s.steps(1, 8);
    (0..n)
        .map(|_| s.pick(&['a', 'b', 'c', 'x', 'y', 'z', 'K', 'Q', '1', '7', '_', 'é', '字']))
        .collect()
}

/// A file path that reads back as itself: anything with a space is in quotes.
pub fn file_path(s: &mut Src) -> String {
    let mut t = match s.weighted(&[4, 4, 1]) {
        0 => format!("{}.{}", word(s), s.pick(&["png", "jpg", "mp3", "avi", "ogg"])),
        1 => {
            let mut t = String::new();
            for _ in 0..s.size(1, 4) {
                t.push_str(&word(s));
                t.push_str(s.pick(&["/", "\\", " ", ".", "-", "'", ":", "|", "//"]));
            }
            t.push_str(s.pick(&["png", "jpg", "wav", "a", "Z9"]));
            t
        }
        _ => {
            let t = text_without(s, 12, &[',', '"']);
            if t.is_empty() {
                "a.png".to_string()
            } else {
                t
            }
        }
    };
    if t.contains(' ') || s.chance(1, 4) {
        t = format!("\"{t}\"");
    }
    t
}

pub fn path_of(t: &str) -> FilePath {
    FilePath::from(t)
}

pub fn dec_from(t: &str) -> Dec {
    Dec::from_str(t).expect("decimal")
}

/// A list with a small tail of longer lists. Some of them have items that are there more than once.
pub fn vec_of<T: Clone>(s: &mut Src, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
    let n = s.len(max);
    let mut list: Vec<T> = Vec::with_capacity(n);
    let repeats = n > 1 && s.chance(1, 4);
    for i in 0..n {
        let item = match i {
            0 => f(s),
            _ if !repeats => f(s),
            _ => match s.below(4) {
                0 | 1 => f(s),
                2 => list[i - 1].clone(),
                _ => list[s.below(i)].clone(),
            },
        };
        list.push(item);
    }
    list
}

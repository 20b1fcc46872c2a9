//! Small edits of text that's made by the generators, and text made of pieces of the format.

use crate::engine::Src;
use crate::gen::*;
use crate::model::cmds::{ADDITIONS, ONES, TRIG_SETS, TWOS};
use crate::model::events::{LAYERS, ORIGINS};
use crate::model::kv;

const NUMBERS: [&str; 40] = [
    "0",
    "1",
    "-1",
    "2",
    "3",
    "4",
    "5",
    "6",
    "7",
    "8",
    "9",
    "10",
    "12",
    "100",
    "101",
    "128",
    "255",
    "256",
    "2147483647",
    "2147483648",
    "-2147483648",
    "-2147483649",
    "4294967295",
    "4294967296",
    "9223372036854775807",
    "-9223372036854775808",
    "18446744073709551615",
    "18446744073709551616",
    "0.5",
    "-0",
    "1e3",
    "NaN",
    "79228162514264337593543950335",
    "79228162514264337593543950336",
    "-79228162514264337593543950335",
    "0.0000000000000000000000000001",
    "1.",
    ".5",
    "+7",
    "00012",
];

const WORDS: [&str; 52] = [
    "Sprite",
    "Animation",
    "Sample",
    "Video",
    "Break",
    "LoopForever",
    "LoopOnce",
    "HitSound",
    "Passing",
    "Failing",
    "Normal",
    "Soft",
    "Drum",
    "None",
    "NoChange",
    "Below",
    "Above",
    "Combo1",
    "Combo",
    "SliderBorder",
    "Sliderborder",
    "SliderTrackOverride",
    "B",
    "C",
    "L",
    "P",
    "B|1:2|3:4",
    "P|",
    "L|1",
    "H",
    "V",
    "A",
    "T",
    "//",
    "// x",
    "$",
    "$a",
    "$a=1",
    "\"a b.png\"",
    "a b.png",
    "a.png",
    "\"",
    "0:0:0:0:",
    "1:2:3:100:x.wav",
    "0:0|1:1",
    "2|4|8",
    "[Events]",
    "[Variables]",
    "[HitObjects]",
    "[",
    "]",
    "osu file format v14",
];

const CHARS: [char; 40] = [
    ',', ':', '|', ' ', '_', '\t', '\n', '\r', '[', ']', '/', '"', '$', '=', '.', '-', '+', '0', '1', '9', 'A', 'e',
    'B', 'C', 'T', 'L', 'é', '漢', '\u{feff}', '\u{a0}', '\u{3000}', '😀', '\0', '\u{2028}', '\u{85}', '\\', '%', '½',
    '٣', '\u{b}',
];

pub fn piece(s: &mut Src) -> String {
    match s.weighted(&[6, 5, 3, 2, 2]) {
        0 => s.pick(&NUMBERS).to_string(),
        1 => s.pick(&WORDS).to_string(),
        2 => {
            let sec = s.pick(&kv::SECS);
            let all = kv::fields(sec);
            all[s.below(all.len())].0.to_string()
        }
        3 => match s.below(5) {
            0 => s.pick(&ONES).to_string(),
            1 => s.pick(&TWOS).to_string(),
            2 => s.pick(&LAYERS).to_string(),
            3 => s.pick(&ORIGINS).to_string(),
            _ => format!("{}{}", s.pick(&TRIG_SETS), s.pick(&ADDITIONS)),
        },
        _ => odd_num_text(s),
    }
}

fn separator(s: &mut Src) -> &'static str {
    s.pick(&[",", ",", ",", ":", "|", "", " ", "\n", "\n ", "=", ": ", " : ", "\r\n"])
}

/// Pieces of the format in any order.
pub fn soup(s: &mut Src, max: usize) -> String {
    let n = s.len(max);
    let mut t = String::new();
    for _ in 0..n {
        if s.chance(1, 10) {
            t.push(s.pick(&CHARS));
        } else {
            t.push_str(&piece(s));
        }
        t.push_str(separator(s));
    }
    t
}

/// Any chars, with a preference for those with a meaning.
pub fn any_text(s: &mut Src, max: usize) -> String {
    let n = s.len(max);
    (0..n)
        .map(|_| match s.weighted(&[4, 2, 1]) {
            0 => s.pick(&CHARS),
            1 => char::from(s.below(128) as u8),
            _ => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
        })
        .collect()
}

fn is_separator(c: char) -> bool {
    matches!(c, ',' | ':' | '|' | '\n' | '=' | '[' | ']')
}

/// Start and end of the fields of the text.
fn spans(t: &str) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut start = 0;
    for (i, c) in t.char_indices() {
        if is_separator(c) {
            out.push((start, i));
            start = i + c.len_utf8();
        }
    }
    out.push((start, t.len()));
    out
}

pub fn mutate_once(s: &mut Src, t: &str) -> String {
    let mut out = t.to_string();
    match s.weighted(&[6, 3, 3, 3, 2, 2, 2, 2, 1, 2]) {
        0 => {
            // another value of a field
            let sp = spans(t);
            let (a, b) = sp[s.below(sp.len())];
            let p = piece(s);
            out.replace_range(a..b, &p);
        }
        1 => {
            // another char
            let idx: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
            if !idx.is_empty() {
                let i = idx[s.below(idx.len())];
                let len = out[i..].chars().next().unwrap().len_utf8();
                let c = s.pick(&CHARS);
                out.replace_range(i..i + len, &c.to_string());
            }
        }
        2 => {
            // one char more
            let mut idx: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
            idx.push(t.len());
            let i = idx[s.below(idx.len())];
            out.insert(i, s.pick(&CHARS));
        }
        3 => {
            // a field less, with its separator
            let sp = spans(t);
            let (a, b) = sp[s.below(sp.len())];
            let end = (b + 1).min(t.len());
            out.replace_range(a..end, "");
        }
        4 => {
            // a field twice
            let sp = spans(t);
            let (a, b) = sp[s.below(sp.len())];
            let end = (b + 1).min(t.len());
            let f = t[a..end].to_string();
            out.insert_str(a, &f);
        }
        5..=8 => {
            let mut lines: Vec<String> = t.split('\n').map(|l| l.to_string()).collect();
            let i = s.below(lines.len());
            match s.below(5) {
                0 => {
                    lines.remove(i);
                }
                1 => {
                    let l = lines[i].clone();
                    lines.insert(i, l);
                }
                2 => {
                    let j = s.below(lines.len());
                    lines.swap(i, j);
                }
                3 => {
                    let pre = s.pick(&[" ", "  ", "_", "\t", "//", "   "]);
                    lines[i].insert_str(0, pre);
                }
                _ => {
                    let p = soup(s, 5);
                    lines.insert(i, p);
                }
            }
            out = lines.join("\n");
        }
        _ => {
            // the text ends early
            let idx: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
            if !idx.is_empty() {
                out.truncate(idx[idx.len() - 1 - s.below(idx.len())]);
            }
        }
    }
    out
}

pub fn mutate(s: &mut Src, t: &str) -> String {
    let n = s.pick(&[1usize, 1, 1, 2, 2, 3, 5, 12]);
    let mut t = t.to_string();
    for _ in 0..n {
        t = mutate_once(s, &t);
    }
    t
}

//! The reference model: values as the format defines them, how they're spelled in a source, how they're written by
//! the crate in every version, and how they compare to what the crate stored.

pub mod cmds;
pub mod colours;
pub mod events;
pub mod file;
pub mod hitobjects;
pub mod kv;
pub mod timing;

use crate::engine::Src;
use osu_file_parser::{Decimal, Position, Version, VersionedFromStr, VersionedToString};

use crate::gen::Num;

pub const VERSIONS: [Version; 12] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];

/// Any version, the latest most of the time.
pub fn version(s: &mut Src) -> Version {
    match s.weighted(&[2, 5]) {
        0 => 14,
        _ => 14 - s.below(12) as Version,
    }
}

pub fn is_old(v: Version) -> bool {
    v == 3 || v == 4
}

pub fn ts<T: VersionedToString>(t: &T, v: Version) -> Option<String> {
    VersionedToString::to_string(t, v)
}

pub fn fs<T: VersionedFromStr>(s: &str, v: Version) -> Result<Option<T>, T::Err> {
    <T as VersionedFromStr>::from_str(s, v)
}

pub fn pos(x: &Num, y: &Num) -> Position {
    Position {
        x: x.to_crate(),
        y: y.to_crate(),
    }
}

pub fn same_num(what: impl std::fmt::Display, model: &Num, got: &Decimal) -> Result<(), String> {
    if model.same(got) {
        Ok(())
    } else {
        Err(format!("{what}: expected {model:?}, got {got:?}"))
    }
}

pub fn same<T: PartialEq + std::fmt::Debug>(what: impl std::fmt::Display, model: T, got: T) -> Result<(), String> {
    if model == got {
        Ok(())
    } else {
        Err(format!("{what}: expected {model:?}, got {got:?}"))
    }
}

/// How a list of lines is laid out in a section.
pub struct Laid {
    pub text: String,
    /// Line index of every given line.
    pub at: Vec<usize>,
}

/// Lays lines out with blank lines in between, before and after.
pub fn lay_out(s: &mut Src, lines: &[String]) -> Laid {
    let noisy = s.chance(1, 3);
    let mut text = String::new();
    let mut at = Vec::new();
    let mut n = 0;
    let mut blank = |s: &mut Src, text: &mut String, n: &mut usize| {
        if noisy {
            while s.chance(1, 5) {
                text.push_str(s.pick(&["\n", " \n", "\t\n", "   \n"]));
                *n += 1;
            }
        }
    };
    blank(s, &mut text, &mut n);
    for (i, line) in lines.iter().enumerate() {
        at.push(n);
        text.push_str(line);
        if i + 1 < lines.len() {
            text.push('\n');
            n += 1;
            blank(s, &mut text, &mut n);
        }
    }
    if noisy && s.chance(1, 2) {
        text.push('\n');
        while s.chance(1, 3) {
            text.push('\n');
        }
    }
    Laid { text, at }
}

/// Lines joined in the way the crate writes them.
pub fn join(lines: impl Iterator<Item = Option<String>>) -> String {
    lines.flatten().collect::<Vec<_>>().join("\n")
}

/// Shows a value of `Option<String>` for messages.
pub fn show(s: &Option<String>) -> String {
    match s {
        Some(s) => format!("{s:?}"),
        None => "nothing".to_string(),
    }
}

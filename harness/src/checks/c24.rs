//! File paths.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::events::{Ev, Kind, Orig};
use crate::model::*;
use osu_file_parser::events::storyboard::sprites::{Animation, LoopType, ObjectType, Sprite};
use osu_file_parser::events::Event;
use osu_file_parser::*;
use std::path::{Path, PathBuf};

pub const CHECK: Check = Check {
    id: "C24",
    rule: "the path has more than a plain file name, or there are at least two frames",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "frames", case: frames, quick: 100_000, thorough: 4_000_000 },
        Part { name: "paths", case: paths, quick: 100_000, thorough: 4_000_000 },
        Part { name: "sprites", case: sprites, quick: 60_000, thorough: 2_000_000 },
    ],
};

fn name(s: &mut Src) -> String {
    let mut t = word(s);
    for _ in 0..s.below(3) {
        t.push_str(s.pick(&["-", "_", "'", "(1)", "é", "字", "0", "\\"]));
        t.push_str(&word(s));
    }
    t
}

fn folders(s: &mut Src) -> String {
    let mut t = String::new();
    for _ in 0..s.below(4) {
        t.push_str(&match s.weighted(&[5, 1, 1, 1]) {
            0 => name(s),
            1 => format!("{}.{}", name(s), name(s)),
            2 => "..".to_string(),
            _ => ".".to_string(),
        });
        t.push('/');
    }
    t
}

fn animation(s: &mut Src, file: String, frames: u32) -> Ev {
    Ev {
        kind: Kind::Animation {
            layer: s.below(5),
            origin: Orig::Name(s.below(3)),
            file,
            at: (num(s), num(s)),
            frames,
            delay: dec(s),
            once: Some(s.bool()),
        },
        cmds: Vec::new(),
    }
}

/// The frames of an animation are numbered in front of the extension.
fn frames(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let folders = folders(s);
    let mut stem = name(s);
    while s.chance(1, 4) {
        stem.push('.');
        stem.push_str(&name(s));
    }
    let (stem, ext) = match s.weighted(&[8, 2, 1, 1]) {
        0 => (stem, s.pick(&[".png", ".jpg", ".p", ".0", ".PNG", ".é"]).to_string()),
        1 if !stem.contains('.') => (stem, String::new()),
        2 => (stem, ".".to_string()),
        3 => (format!(".{}", word(s)), String::new()),
        _ => (stem, ".png".to_string()),
    };
    let file = format!("{folders}{stem}{ext}");
    let count = match s.weighted(&[3, 1]) {
        0 => s.size(0, 4),
        _ => s.size(5, 130),
    };
    let expected: Vec<PathBuf> = (0..count).map(|i| PathBuf::from(format!("{stem}{i}{ext}"))).collect();
    c.sample(|| format!("{file} {count}"));
    c.label_if(!folders.is_empty(), "folders");
    c.label_if(ext.is_empty(), "no extension");
    if count >= 2 {
        c.nontrivial(&format!("{file} {count}"));
    }
    let made = Animation {
        frame_count: count as u32,
        frame_delay: Default::default(),
        loop_type: LoopType::LoopForever,
        filepath: path_of(&file),
    };
    same(format_args!("{count} frames of {file:?}"), expected.clone(), made.frame_file_names())?;
    // the same when it's read
    let text = animation(s, file, count as u32).lines(s, 14).join("\n");
    let got = match fs::<Events>(&text, 14) {
        Ok(Some(g)) => g,
        r => fail!("{text:?} isn't read: {r:?}"),
    };
    match got.0.first() {
        Some(Event::StoryboardObject(o)) => match &o.object_type {
            ObjectType::Animation(a) => same(format_args!("frames of {text:?}"), expected, a.frame_file_names()),
            t => Err(format!("{text:?} read as {t:?}")),
        },
        e => Err(format!("{text:?} read as {e:?}")),
    }
}

/// Any path is kept as it is, and is written in quotes if there's a space in it.
fn paths(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let gen = |s: &mut Src| match s.weighted(&[3, 3, 2, 1, 2]) {
        0 => format!("{}{}.png", folders(s), name(s)),
        1 => format!("{} {}.png", name(s), word(s)),
        2 => file_path(s),
        3 => text_without(s, 12, &[',', '"']),
        // quotes and spaces anywhere
        _ => (0..s.size(1, 6)).map(|_| s.pick(&["\"", "\"", " ", "a", "é.png", "b/"])).collect(),
    };
    let v = version(s);
    let t = gen(s);
    let mut p = match s.below(3) {
        0 => FilePath::from(t.as_str()),
        1 => FilePath::from(PathBuf::from(&t)),
        _ => FilePath::from(Path::new(&t)),
    };
    let mut now = t;
    c.sample(|| now.clone());
    for i in 0..s.steps(1, 4) {
        if i > 0 {
            now = gen(s);
            match s.below(2) {
                0 => p.set(&now),
                _ => p.set(PathBuf::from(&now)),
            }
        }
        if now.contains(['/', ' ', '"']) {
            c.nontrivial(&now);
        }
        same("path", now.as_str(), p.get().to_str().unwrap_or("?"))?;
        let quoted = now.starts_with('"') && now.ends_with('"') && now.len() >= 2;
        let expected = if now.contains(' ') && !quoted {
            c.label("quotes");
            format!("\"{now}\"")
        } else {
            now.clone()
        };
        same(format_args!("{now:?} written"), Some(expected.clone()), ts(&p, v))?;
        // in an event it's read again as what's written
        if expected.trim() == expected && !expected.is_empty() {
            let line = format!("0,0,{expected},0,0");
            let got = match fs::<Events>(&line, v) {
                Ok(Some(g)) => g,
                r => fail!("{line:?} isn't read: {r:?}"),
            };
            match got.0.first() {
                Some(Event::Background(b)) => {
                    same(format_args!("path of {line:?}"), expected.as_str(), b.file_name.get().to_str().unwrap_or("?"))?
                }
                e => fail!("{line:?} read as {e:?}"),
            }
            same(format_args!("{line:?} written"), Some(line.clone()), ts(&got, v))?;
        }
    }
    Ok(())
}

/// Only relative paths are for sprites.
fn sprites(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut t = format!("{}{}.png", folders(s), name(s));
    let absolute = s.bool();
    if absolute {
        t.insert_str(0, s.pick(&["/", "//", "/../"]));
    }
    c.sample(|| t.clone());
    c.nontrivial(&t);
    match (Sprite::new(Path::new(&t)), absolute) {
        (Ok(p), false) => same("path", t.as_str(), p.filepath.get().to_str().unwrap_or("?")),
        (Err(_), true) => Ok(()),
        (r, _) => Err(format!("{t:?} made {r:?}")),
    }
}

fn fixed(f: &mut Fixed) {
    f.case("no file name", || {
        for t in ["", "..", "/", "a/.."] {
            let a = Animation {
                frame_count: 3,
                frame_delay: Default::default(),
                loop_type: LoopType::LoopForever,
                filepath: path_of(t),
            };
            same(t, Vec::<PathBuf>::new(), a.frame_file_names())?;
        }
        Ok(())
    });
}

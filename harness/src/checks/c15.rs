//! Commands that are added to sprites.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cmds::{print_all, Cmd, Kind};
use crate::model::events::{self as me, Ev, Orig};
use crate::model::*;
use osu_file_parser::events::storyboard::cmds::{Command, CommandProperties};
use osu_file_parser::events::{Event, EventWithCommands};
use osu_file_parser::osu_file::events as ev;
use osu_file_parser::Events;

pub const CHECK: Check = Check {
    id: "C15",
    rule: "at least two commands are added, one of them in another one",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "added", case: added, quick: 200_000, thorough: 8_000_000 },
        Part { name: "read", case: read, quick: 150_000, thorough: 6_000_000 },
    ],
};

/// A command without sub commands, most often one that can have them.
fn cmd(s: &mut Src) -> Cmd {
    let mut m = Cmd::gen(s, 0);
    match s.weighted(&[4, 2, 3]) {
        0 => {
            m.kind = Kind::Loop(s.below(9) as u32);
            m.start = Some(int(s));
            m.end = None;
        }
        1 => {
            m.kind = Kind::Trigger(crate::model::cmds::Trig::gen(s), None);
        }
        _ => {}
    }
    m
}

fn can_have_subs(m: &Cmd) -> bool {
    matches!(m.kind, Kind::Loop(_) | Kind::Trigger(..))
}

/// The list where a command of the level is added, if there's one.
fn place(list: &mut Vec<Cmd>, level: usize) -> Option<&mut Vec<Cmd>> {
    match level {
        0 => None,
        1 => Some(list),
        _ => {
            let last = list.last_mut()?;
            if can_have_subs(last) {
                place(&mut last.subs, level - 1)
            } else {
                None
            }
        }
    }
}

fn event(s: &mut Src) -> Ev {
    super::c07::sprite(s, Vec::new())
}

fn with_cmds(e: &mut Event) -> Option<&mut dyn EventWithCommands> {
    Some(match e {
        Event::Background(e) => e,
        Event::Video(e) => e,
        Event::SpriteLegacy(e) => e,
        Event::AnimationLegacy(e) => e,
        Event::SampleLegacy(e) => e,
        Event::StoryboardObject(e) => e,
        _ => return None,
    })
}

fn levels(s: &mut Src, deep: usize) -> usize {
    match s.weighted(&[3, 6, 1]) {
        0 => 1,
        1 => s.size(1, deep + 2),
        _ => s.pick(&[0usize, 2, 3, 10, 1000]),
    }
}

fn depth(list: &[Cmd]) -> usize {
    match list.last() {
        Some(m) => 1 + depth(&m.subs),
        None => 0,
    }
}

fn added(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let e = event(s);
    let Some(mut val) = e.to_crate() else { return Ok(()) };
    let mut model: Vec<Cmd> = Vec::new();
    let mut log = String::new();
    let (mut ok, mut inner) = (0, 0);
    for _ in 0..s.steps(1, 14) {
        let m = cmd(s);
        let level = levels(s, depth(&model));
        log.push_str(&format!("; {level} {}", m.print()));
        let Some(val) = with_cmds(&mut val) else { return Ok(()) };
        let r = val.try_push_cmd(m.to_crate(), level);
        match (place(&mut model, level), r) {
            (Some(list), Ok(())) => {
                list.push(m);
                ok += 1;
                inner += usize::from_bool(level > 1);
            }
            (None, Err(e)) => {
                c.label("rejected");
                let t = e.to_string();
                ensure!(t.ends_with(&format!("got {level}")), "{log}: rejected with {t:?}");
            }
            (Some(_), Err(e)) => fail!("{log}: not accepted: {e}"),
            (None, Ok(())) => fail!("{log}: accepted"),
        }
        let expected: Vec<Command> = model.iter().map(|m| m.to_crate()).collect();
        ensure!(
            expected == val.commands(),
            "{log}: expected {expected:?}, got {:?}",
            val.commands()
        );
    }
    c.sample(|| log.clone());
    if ok >= 2 && inner > 0 {
        c.nontrivial(&log);
    }
    let mut whole = e.clone();
    whole.cmds = model;
    for v in [14, 10, 5] {
        same(format_args!("{log}: written in v{v}"), whole.print(v), ts(&val, v))?;
    }
    Ok(())
}

trait FromBool {
    fn from_bool(b: bool) -> Self;
}

impl FromBool for usize {
    fn from_bool(b: bool) -> usize {
        b as usize
    }
}

/// Lines of commands with any indentation build the same list as adding them, and the first one that can't be added is
/// what's reported.
fn read(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let e = event(s);
    let mut lines: Vec<String> = e.lines(s, 14);
    let head = lines.len();
    let mut model: Vec<Cmd> = Vec::new();
    let mut bad = None;
    let mut inner = 0;
    for _ in 0..s.steps(1, 12) {
        let m = cmd(s);
        let level = levels(s, depth(&model)).clamp(1, 12);
        let unit = s.pick(&[" ", " ", "_"]);
        lines.push(format!("{}{}", unit.repeat(level), m.line(s)));
        if bad.is_some() {
            continue;
        }
        match place(&mut model, level) {
            Some(list) => {
                list.push(m);
                inner += usize::from_bool(level > 1);
            }
            None => bad = Some(lines.len() - 1),
        }
    }
    let text = lines.join("\n");
    c.sample(|| text.clone());
    c.label(if bad.is_some() { "rejected" } else { "accepted" });
    if lines.len() >= head + 2 && inner > 0 {
        c.nontrivial(&text);
    }
    match (fs::<Events>(&text, 14), bad) {
        (Ok(Some(got)), None) => {
            let mut whole = e.clone();
            whole.cmds = model;
            crate::model::file::check_events(std::slice::from_ref(&whole), &got)
                .map_err(|e| format!("{text:?} read wrong: {e}"))?;
            same(format_args!("{text:?} written"), whole.print(14), ts(&got, 14))
        }
        (Err(e), Some(i)) => {
            ensure!(
                matches!(e.error(), ev::ParseError::CommandPushError(_)),
                "{text:?}: line index {i} can't be added, reported as {e:?}"
            );
            same(format_args!("{text:?}: line index of {e}"), i, e.line_index())
        }
        (r, bad) => Err(format!("{text:?} with {bad:?} as the line that can't be added read as {r:?}")),
    }
}

fn fixed(f: &mut Fixed) {
    f.case("all levels", || {
        // every list of at most 5 loops and fades with every indentation of 0 to 4
        fn go(f: &mut dyn FnMut(&[(bool, usize)]) -> CaseResult, ops: &mut Vec<(bool, usize)>) -> CaseResult {
            f(ops)?;
            if ops.len() < 4 {
                for is_loop in [false, true] {
                    for level in 0..5 {
                        ops.push((is_loop, level));
                        go(f, ops)?;
                        ops.pop();
                    }
                }
            }
            Ok(())
        }
        let mut run = |ops: &[(bool, usize)]| -> CaseResult {
            let e = Ev {
                kind: me::Kind::Sprite {
                    layer: 0,
                    origin: Orig::Name(1),
                    file: "a.png".to_string(),
                    at: (Num::int(1), Num::int(2)),
                },
                cmds: Vec::new(),
            };
            let mut val = e.to_crate().ok_or("no event")?;
            let val = with_cmds(&mut val).ok_or("no commands")?;
            let mut model = Vec::new();
            for (i, (is_loop, level)) in ops.iter().enumerate() {
                let m = Cmd {
                    easing: 0,
                    start: Some(i as i32),
                    end: None,
                    kind: if *is_loop { Kind::Loop(2) } else { Kind::One(0, Num::int(1), vec![]) },
                    subs: Vec::new(),
                };
                let r = val.try_push_cmd(m.to_crate(), *level);
                match place(&mut model, *level) {
                    Some(list) => {
                        ensure!(r.is_ok(), "{ops:?}: {i} isn't accepted");
                        list.push(m);
                    }
                    None => ensure!(r.is_err(), "{ops:?}: {i} is accepted"),
                }
                let expected: Vec<Command> = model.iter().map(|m| m.to_crate()).collect();
                ensure!(expected == val.commands(), "{ops:?}: expected {expected:?}, got {:?}", val.commands());
            }
            Ok(())
        };
        go(&mut run, &mut Vec::new())
    });
}

//! Storyboard commands.

use super::list::*;
use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cmds::*;
use crate::model::events::{self, Ev, Orig};
use crate::model::*;
use osu_file_parser::events::storyboard::cmds::Command;
use osu_file_parser::Version;

pub const CHECK: Check = Check {
    id: "C07",
    rule: "at least two commands, or a command with further values",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "commands", case: commands, quick: 120_000, thorough: 6_000_000 },
        Part { name: "nesting", case: nesting, quick: 60_000, thorough: 3_000_000 },
        Part { name: "single", case: single, quick: 200_000, thorough: 8_000_000 },
    ],
};

pub fn sprite(s: &mut Src, cmds: Vec<Cmd>) -> Ev {
    let mut e = loop {
        // any event that can have commands
        let e = Ev::gen(s, 14);
        if e.can_have_cmds() {
            break e;
        }
        if s.rec.len() > 10_000 {
            break Ev {
                kind: events::Kind::Sprite {
                    layer: 0,
                    origin: Orig::Name(1),
                    file: "a.png".to_string(),
                    at: (Num::int(1), Num::int(2)),
                },
                cmds: Vec::new(),
            };
        }
    };
    e.cmds = cmds;
    e
}

fn labels(c: &mut Ctx, cmds: &[Cmd]) {
    fn walk(c: &mut Ctx, cmds: &[Cmd]) {
        for m in cmds {
            c.label(match m.kind {
                Kind::One(..) => "F MX MY S R",
                Kind::Two(..) => "M V",
                Kind::Colour(..) => "C",
                Kind::Param(..) => "P",
                Kind::Loop(_) => "L",
                Kind::Trigger(..) => "T",
            });
            walk(c, &m.subs);
        }
    }
    walk(c, cmds);
    c.label_if(cmds.iter().any(|m| m.depth() >= 3), "3+ levels");
    c.label_if(cmds.iter().any(|m| m.depth() >= 6), "6+ levels");
}

fn commands(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let cmds = Cmd::list(s);
    labels(c, &cmds);
    if total(&cmds) >= 2 {
        c.nontrivial(&format!("{cmds:?}"));
    }
    let v = version(s);
    let model = vec![fix(sprite(s, cmds), v)];
    list_case(s, c, v, &model, &super::c06::SPEC)
}

/// Moves the times into what old versions can hold.
fn fix(mut e: Ev, v: Version) -> Ev {
    if is_old(v) {
        if let events::Kind::Video { time, .. } = &mut e.kind {
            *time = (*time).clamp(i32::MIN + 24, i32::MAX - 24);
        }
    }
    e
}

/// A tree of loops and triggers, with few other commands.
fn tree(s: &mut Src, depth: usize) -> Cmd {
    let mut m = Cmd::gen(s, 0);
    if depth > 0 && s.chance(4, 5) {
        m = if s.bool() {
            Cmd { kind: Kind::Loop(s.below(9) as u32), start: Some(int(s)), end: None, ..m }
        } else {
            Cmd { kind: Kind::Trigger(Trig::gen(s), None), start: Some(1), end: Some(2), ..m }
        };
        let n = s.pick(&[0usize, 1, 1, 2, 2, 3]);
        m.subs = (0..n).map(|_| tree(s, depth - 1)).collect();
    }
    m
}

fn nesting(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let depth = s.size(1, 7);
    let n = s.steps(1, 4);
    let mut cmds: Vec<Cmd> = (0..n).map(|_| tree(s, depth)).collect();
    if s.chance(1, 40) {
        for _ in 0..s.size(1, 60) {
            let m = Cmd::gen(s, 0);
            let after = (0..s.pick(&[0usize, 0, 0, 1])).map(|_| Cmd::gen(s, 0)).collect::<Vec<_>>();
            let looped = Cmd { kind: Kind::Loop(uint(s, 9) as u32), start: Some(1), end: None, subs: cmds, ..m };
            cmds = vec![looped];
            cmds.extend(after);
        }
        c.label("nested deeply");
    }
    labels(c, &cmds);
    if total(&cmds) >= 2 {
        c.nontrivial(&format!("{cmds:?}"));
    }
    let model = vec![Ev {
        kind: events::Kind::Sprite {
            layer: 0,
            origin: Orig::Name(1),
            file: "a.png".to_string(),
            at: (Num::int(1), Num::int(2)),
        },
        cmds,
    }];
    list_case(s, c, 14, &model, &super::c06::SPEC)
}

fn single(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let m = Cmd::gen(s, 0);
    labels(c, std::slice::from_ref(&m));
    let line = m.line(s);
    c.sample(|| line.clone());
    if match &m.kind {
        Kind::One(_, _, x) => !x.is_empty(),
        Kind::Two(_, _, x) => !x.is_empty(),
        Kind::Colour(_, x) => !x.is_empty(),
        Kind::Param(_, x) => !x.is_empty(),
        Kind::Loop(_) => m.start.is_some(),
        Kind::Trigger(..) => true,
    } {
        c.nontrivial(&line);
    }
    for indent in ["", " ", "   ", "_", " _"] {
        let text = format!("{indent}{line}");
        let got = match fs::<Command>(&text, v) {
            Ok(Some(g)) => g,
            r => fail!("{text:?} isn't read: {r:?}"),
        };
        ensure!(
            got == m.to_crate(),
            "{text:?} read as {got:?}, expected {:?}",
            m.to_crate()
        );
        let printed = ts(&got, v);
        ensure!(
            printed == Some(m.print()),
            "{text:?} written as {}, expected {:?}",
            show(&printed),
            m.print()
        );
        c.extra_evals += 1;
    }
    Ok(())
}

fn fixed(f: &mut Fixed) {
    super::large::commands(f);
    f.case("command header of multiple bytes", || {
        for text in [" é,0,0,0,1", " 漢漢,0", "_😀"] {
            let r = fs::<Command>(text, 14);
            ensure!(r.is_err(), "{text:?} read as {r:?}, expected an error");
        }
        Ok(())
    });
    f.case("custom sample sets of triggers", || {
        for (name, custom) in [("HitSound10", 10usize), ("HitSoundSoftClap123", 123), ("HitSound4294967296", 4294967296)] {
            let line = format!(" T,{name},1,2");
            match fs::<Command>(&line, 14) {
                Ok(Some(g)) => {
                    ensure!(
                        format!("{g:?}").contains(&format!("custom_sample_set: Some({custom})")),
                        "{line:?} read as {g:?}"
                    );
                    same("written", Some(line[1..].to_string()), ts(&g, 14))?;
                }
                r => fail!("{line:?} isn't read: {r:?}"),
            }
        }
        Ok(())
    });
    f.case("misplaced trigger fields", || {
        for name in ["HitSound1Soft", "HitSoundClapSoft", "HitSoundAllSoftDrum", "HitSoundClapClap", "HitSoundX", "Hit", "PassingX"] {
            let line = format!(" T,{name},1,2");
            let r = fs::<Command>(&line, 14);
            ensure!(r.is_err(), "{line:?} read as {r:?}, expected an error");
        }
        Ok(())
    });
}

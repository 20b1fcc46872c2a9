//! Changes of the values of storyboard commands.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::{fs, same, ts, version};
use osu_file_parser::events::storyboard::cmds::{Colours, Command, CommandProperties, ContinuingFields};
use osu_file_parser::events::storyboard::types::Easing;
use osu_file_parser::Decimal;
use std::fmt::Debug;

pub const CHECK: Check = Check {
    id: "C14",
    rule: "at least two changes, one of them accepted",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "pairs", case: pairs, quick: 150_000, thorough: 6_000_000 },
        Part { name: "colours", case: colours, quick: 150_000, thorough: 6_000_000 },
    ],
};

/// Pairs of numbers as a list. Only the last pair can be without its second number.
#[derive(Clone, Debug, PartialEq)]
struct Pairs {
    start: (i64, i64),
    rest: Vec<(i64, Option<i64>)>,
}

impl Pairs {
    fn legal(rest: &[(i64, Option<i64>)]) -> bool {
        rest.iter().rev().skip(1).all(|p| p.1.is_some())
    }

    fn push(&mut self, p: (i64, Option<i64>)) {
        let n = self.rest.len();
        if n > 0 && self.rest[n - 1].1.is_none() {
            // the last one stays as it was before
            let before = if n > 1 { self.rest[n - 2].1 } else { Some(self.start.1) };
            self.rest[n - 1].1 = before;
        }
        self.rest.push(p);
    }

    fn text(&self) -> String {
        let mut t = vec![self.start.0.to_string(), self.start.1.to_string()];
        for p in &self.rest {
            t.push(p.0.to_string());
            t.extend(p.1.map(|x| x.to_string()));
        }
        t.join(",")
    }
}

fn small(s: &mut Src) -> i64 {
    s.range(-3, 99)
}

fn pair(s: &mut Src) -> (i64, Option<i64>) {
    (small(s), if s.chance(1, 3) { None } else { Some(small(s)) })
}

fn pairs(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let mut log = String::new();
    let mut accepted = 0;
    let mut model = Pairs { start: (small(s), small(s)), rest: Vec::new() };
    let first: Vec<_> = (0..s.steps(0, 4)).map(|_| pair(s)).collect();
    log.push_str(&format!("new {:?} {first:?}", model.start));
    let mut val = match (ContinuingFields::new(model.start, first.clone()), Pairs::legal(&first)) {
        (Ok(val), true) => {
            model.rest = first;
            val
        }
        (Err(_), false) => match ContinuingFields::new(model.start, Vec::new()) {
            Ok(v) => v,
            Err(e) => fail!("no continuing fields: {e}"),
        },
        (r, _) => fail!("{log}: {r:?}"),
    };
    let n = s.steps(1, 10);
    for _ in 0..n {
        match s.weighted(&[4, 5, 1]) {
            0 => {
                let p = pair(s);
                log.push_str(&format!("; push {p:?}"));
                val.push_continuing_fields(p);
                model.push(p);
                accepted += 1;
            }
            1 => {
                let i = match s.weighted(&[5, 1]) {
                    0 => s.size(0, model.rest.len()),
                    _ => s.pick(&[usize::MAX, usize::MAX - 1, 100]),
                };
                let p = pair(s);
                log.push_str(&format!("; set {i} {p:?}"));
                let legal = i < model.rest.len() && (p.1.is_some() || i + 1 == model.rest.len());
                let r = val.set_continuing_fields(i, p);
                same(format_args!("{log}: the change is accepted"), legal, r.is_ok())?;
                if legal {
                    model.rest[i] = p;
                    accepted += 1;
                }
            }
            _ => {
                let x = (small(s), small(s));
                log.push_str(&format!("; start {x:?}"));
                *val.start_values_mut() = x;
                model.start = x;
                accepted += 1;
            }
        }
        same(format_args!("{log}: start"), &model.start, val.start_values())?;
        same(format_args!("{log}: values"), model.rest.as_slice(), val.continuing_fields())?;
        same(format_args!("{log}: written"), model.text(), val.to_string())?;
    }
    c.sample(|| log.clone());
    if n >= 2 && accepted > 0 {
        c.nontrivial(&log);
    }

    // what was built is what's read
    let dec = |x: i64| Decimal::from(x as i32);
    let rest = model.rest.iter().map(|(a, b)| (dec(*a), b.map(dec))).collect();
    let fields = match ContinuingFields::new((dec(model.start.0), dec(model.start.1)), rest) {
        Ok(f) => f,
        Err(e) => fail!("{log}: {:?} isn't legal: {e}", model.rest),
    };
    let scale = s.bool();
    let properties = if scale {
        CommandProperties::VectorScale { easing: Easing::Linear, end_time: Some(5), scales_xy: fields }
    } else {
        CommandProperties::Move { easing: Easing::Linear, end_time: Some(5), positions_xy: fields }
    };
    let cmd = Command { start_time: Some(1), properties };
    let line = format!("{},0,1,5,{}", if scale { "V" } else { "M" }, model.text());
    same(format_args!("{log}: written"), Some(line.clone()), ts(&cmd, v))?;
    match fs::<Command>(&line, v) {
        Ok(Some(g)) => same(format_args!("{line:?} read"), cmd, g),
        r => Err(format!("{line:?} read as {r:?}")),
    }
}

type Rgb = (u8, Option<u8>, Option<u8>);

#[derive(Clone, Debug, PartialEq)]
struct Model {
    start: (u8, u8, u8),
    rest: Vec<Rgb>,
}

fn whole(c: &Rgb) -> bool {
    c.1.is_some() && c.2.is_some()
}

/// Blue can't be there without green.
fn possible(c: &Rgb) -> bool {
    c.1.is_some() || c.2.is_none()
}

impl Model {
    fn legal(rest: &[Rgb]) -> bool {
        rest.iter().rev().skip(1).all(whole) && rest.iter().all(possible)
    }

    fn push(&mut self, c: Rgb) {
        let n = self.rest.len();
        if n > 0 {
            let before = match n {
                1 => (Some(self.start.1), Some(self.start.2)),
                _ => (self.rest[n - 2].1, self.rest[n - 2].2),
            };
            let last = &mut self.rest[n - 1];
            last.1 = last.1.or(before.0);
            last.2 = last.2.or(before.1);
        }
        // blue can't be there without green
        let green = match self.rest.last() {
            _ if possible(&c) => c.1,
            Some(last) => last.1,
            None => Some(self.start.1),
        };
        self.rest.push((c.0, green, c.2));
    }

    fn text(&self) -> String {
        let mut t = vec![self.start.0, self.start.1, self.start.2];
        for c in &self.rest {
            t.push(c.0);
            t.extend(c.1);
            t.extend(c.2);
        }
        t.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(",")
    }
}

fn rgb(s: &mut Src) -> Rgb {
    let (a, b, c) = (byte(s), byte(s), byte(s));
    match s.weighted(&[5, 2, 2, 1]) {
        0 => (a, Some(b), Some(c)),
        1 => (a, Some(b), None),
        2 => (a, None, None),
        _ => (a, None, Some(c)),
    }
}

fn colours(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let mut log = String::new();
    let mut accepted = 0;
    let mut model = Model { start: (byte(s), byte(s), byte(s)), rest: Vec::new() };
    let first: Vec<_> = (0..s.size(0, 3)).map(|_| rgb(s)).collect();
    log.push_str(&format!("new {:?} {first:?}", model.start));
    let mut val = match (Colours::new(model.start, first.clone()), Model::legal(&first)) {
        (Ok(val), true) => {
            model.rest = first;
            val
        }
        (Err(_), false) => match Colours::new(model.start, Vec::new()) {
            Ok(v) => v,
            Err(e) => fail!("no further colours: {e}"),
        },
        (r, _) => fail!("{log}: {r:?}"),
    };
    let n = s.steps(1, 10);
    for _ in 0..n {
        match s.weighted(&[4, 5, 1]) {
            0 => {
                let x = rgb(s);
                log.push_str(&format!("; push {x:?}"));
                val.push_continuing_rgbs(x);
                model.push(x);
                accepted += 1;
            }
            1 => {
                let i = match s.weighted(&[5, 1]) {
                    0 => s.size(0, model.rest.len()),
                    _ => s.pick(&[usize::MAX, usize::MAX - 1, 100]),
                };
                let x = rgb(s);
                log.push_str(&format!("; set {i} {x:?}"));
                let legal = i < model.rest.len() && possible(&x) && (whole(&x) || i + 1 == model.rest.len());
                let r = val.set_continuing_rgbs(i, x);
                same(format_args!("{log}: the change is accepted"), legal, r.is_ok())?;
                if legal {
                    model.rest[i] = x;
                    accepted += 1;
                }
            }
            _ => {
                let x = (byte(s), byte(s), byte(s));
                log.push_str(&format!("; start {x:?}"));
                *val.start_rgb_mut() = x;
                model.start = x;
                accepted += 1;
            }
        }
        same(format_args!("{log}: start"), &model.start, val.start_rgb())?;
        same(format_args!("{log}: values"), model.rest.as_slice(), val.continuing_fields())?;
        same(format_args!("{log}: written"), Some(model.text()), ts(&val, v))?;
    }
    c.sample(|| log.clone());
    if n >= 2 && accepted > 0 {
        c.nontrivial(&log);
    }

    let cmd = Command {
        start_time: Some(1),
        properties: CommandProperties::Colour { easing: Easing::Linear, end_time: None, colours: val },
    };
    let line = format!("C,0,1,,{}", model.text());
    same(format_args!("{log}: written"), Some(line.clone()), ts(&cmd, v))?;
    match fs::<Command>(&line, v) {
        Ok(Some(g)) => same(format_args!("{line:?} read"), cmd, g),
        r => Err(format!("{line:?} read as {r:?}")),
    }
}

fn fixed(f: &mut Fixed) {
    f.case("push behind a single pair without second number", || {
        let mut x = ContinuingFields::new((1, 2), vec![(3, None)]).map_err(|e| e.to_string())?;
        x.push_continuing_fields((4, None));
        same("values", &[(3, Some(2)), (4, None)][..], x.continuing_fields())?;
        x.push_continuing_fields((5, Some(6)));
        same("values", &[(3, Some(2)), (4, Some(2)), (5, Some(6))][..], x.continuing_fields())
    });
    f.case("set in an empty list", || {
        let mut x = ContinuingFields::new((1, 2), vec![]).map_err(|e| e.to_string())?;
        ensure!(x.set_continuing_fields(0, (1, None)).is_err(), "there's nothing to set");
        ensure!(x.set_continuing_fields(0, (1, Some(1))).is_err(), "there's nothing to set");
        let mut x = Colours::new((1, 2, 3), vec![]).map_err(|e| e.to_string())?;
        ensure!(x.set_continuing_rgbs(0, (1, None, None)).is_err(), "there's nothing to set");
        ensure!(x.set_continuing_rgbs(0, (1, Some(1), Some(1))).is_err(), "there's nothing to set");
        Ok(())
    });
    f.case("push behind a single colour without green and blue", || {
        let mut x = Colours::new((1, 2, 3), vec![(4, None, None)]).map_err(|e| e.to_string())?;
        x.push_continuing_rgbs((5, Some(6), None));
        x.push_continuing_rgbs((7, None, None));
        same(
            "values",
            &[(4, Some(2), Some(3)), (5, Some(6), Some(3)), (7, None, None)][..],
            x.continuing_fields(),
        )
    });
}

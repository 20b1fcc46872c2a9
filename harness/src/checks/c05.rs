//! Timing points.

use super::list::*;
use super::*;
use crate::engine::*;
use crate::gen::vec_of;
use crate::model::file::check_timing;
use crate::model::timing::*;
use crate::model::*;
use osu_file_parser::timingpoints::*;
use osu_file_parser::Version;

pub const CHECK: Check = Check {
    id: "C05",
    rule: "there's at least one timing point",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "points", case: points, quick: 200_000, thorough: 10_000_000 },
        Part { name: "single", case: single, quick: 200_000, thorough: 8_000_000 },
    ],
};

pub const SPEC: Spec<Tp, TimingPoints> = Spec {
    name: "TimingPoints",
    lines: |m, s, v| vec![m.line(s, v)],
    print: |m, _, w| Some(join(m.iter().map(|m| m.print(w)))),
    check: check_timing,
    left: |_, _| {},
};

fn points(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let model = vec_of(s, 20, |s| Tp::gen(s, v));
    labels(c, v, &model);
    list_case(s, c, v, &model, &SPEC)
}

fn labels(c: &mut Ctx, v: Version, model: &[Tp]) {
    c.label_if(v == 3, "v3");
    c.label_if(v == 4, "v4");
    c.label_if(v == 5, "v5");
    c.label_if(v > 5, "v6+");
    c.label_if(model.iter().any(|m| m.effects.is_some()), "effects");
    c.label_if(model.iter().any(|m| m.uninherited == Some(false)), "inherited");
    if !model.is_empty() {
        c.nontrivial(&format!("{v}{model:?}"));
    }
}

fn single(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let m = Tp::gen(s, v);
    labels(c, v, std::slice::from_ref(&m));
    let line = m.line(s, v);
    c.sample(|| format!("v{v} {line}"));
    let got = match fs::<TimingPoint>(&line, v) {
        Ok(Some(g)) => g,
        r => fail!("v{v} {line:?} isn't read: {r:?}"),
    };
    if let Err(e) = m.check(&got) {
        fail!("v{v} {line:?} read wrong: {e}");
    }
    for w in VERSIONS {
        let printed = ts(&got, w);
        ensure!(
            printed == m.print(w),
            "v{v} {line:?} written in v{w} as {}, expected {}",
            show(&printed),
            show(&m.print(w))
        );
    }
    Ok(())
}

fn fixed(f: &mut Fixed) {
    super::large::timing_points(f);
    f.case("sample index over i32", || {
        for v in 5..=14 {
            let line = "1,2,4,1,4294967295,100,1,0";
            match fs::<TimingPoint>(line, v) {
                Ok(Some(g)) => same("written", Some(line.to_string()), ts(&g, v))?,
                r => fail!("{line:?} isn't read: {r:?}"),
            }
        }
        Ok(())
    });
    f.case("effects", || {
        for e in 0..=64u32 {
            let line = format!("1,2,4,1,0,100,1,{e}");
            match fs::<TimingPoint>(&line, 14) {
                Ok(Some(g)) => {
                    let Some(got) = g.effects() else { fail!("{line:?} has no effects") };
                    same(&line, e & 1 == 1, got.kiai_time_enabled())?;
                    same(&line, e & 8 == 8, got.no_first_barline_in_taiko_mania())?;
                    same(&line, Some(line.clone()), ts(&g, 14))?;
                }
                r => fail!("{line:?} isn't read: {r:?}"),
            }
        }
        Ok(())
    });
}

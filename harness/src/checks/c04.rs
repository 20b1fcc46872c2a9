//! Hit objects.

use super::list::*;
use super::*;
use crate::engine::*;
use crate::gen::vec_of;
use crate::model::file::check_hits;
use crate::model::hitobjects::*;
use crate::model::*;
use osu_file_parser::hitobjects::*;
use osu_file_parser::*;

pub const CHECK: Check = Check {
    id: "C04",
    rule: "at least one object is a slider, or has a hit sample",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "objects", case: objects, quick: 150_000, thorough: 8_000_000 },
        Part { name: "single", case: single, quick: 150_000, thorough: 6_000_000 },
    ],
};

pub const SPEC: Spec<Ho, HitObjects> = Spec {
    name: "HitObjects",
    lines: |m, s, v| vec![m.line(s, v)],
    print: |m, _, w| Some(join(m.iter().map(|m| m.print(w)))),
    check: check_hits,
    left: |m, v| m.retain_printed(v),
};

fn labels(c: &mut Ctx, v: Version, model: &[Ho]) {
    let any = |f: fn(&Ho) -> bool| model.iter().any(f);
    c.label_if(any(|m| matches!(m.kind, Kind::Circle)), "circle");
    c.label_if(any(|m| matches!(m.kind, Kind::Slider { .. })), "slider");
    c.label_if(any(|m| matches!(m.kind, Kind::Spinner { .. })), "spinner");
    c.label_if(any(|m| matches!(m.kind, Kind::Hold { .. })), "hold");
    c.label_if(
        any(|m| matches!(&m.kind, Kind::Slider { tail: Tail::Sets(_, s), .. } if !s.is_empty())),
        "slider with edge sets",
    );
    c.label_if(any(|m| m.sample.is_some()), "hit sample");
    c.label_if(is_old(v), "v3-4");
    if any(|m| m.sample.is_some() || matches!(m.kind, Kind::Slider { .. })) {
        c.nontrivial(&format!("{v}{model:?}"));
    }
}

fn objects(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let model = vec_of(s, 12, |s| Ho::gen(s, v));
    labels(c, v, &model);
    list_case(s, c, v, &model, &SPEC)
}

fn single(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let m = Ho::gen(s, v);
    labels(c, v, std::slice::from_ref(&m));
    let line = m.line(s, v);
    c.sample(|| format!("v{v} {line}"));
    let got = match fs::<HitObject>(&line, v) {
        Ok(Some(g)) => g,
        r => fail!("v{v} {line:?} isn't read: {r:?}"),
    };
    if let Err(e) = m.check(&got) {
        fail!("v{v} {line:?} read wrong: {e}");
    }
    for w in VERSIONS {
        let printed = ts(&got, w);
        ensure!(
            printed == m.print(w),
            "v{v} {line:?} written in v{w} as {}, expected {}",
            show(&printed),
            show(&m.print(w))
        );
    }
    Ok(())
}

fn fixed(f: &mut Fixed) {
    super::large::hit_objects(f);
    // the type number: the lowest type bit decides the object
    for v in VERSIONS {
        f.case(format!("type numbers v{v}"), || {
            for ty in 0..1024i64 {
                let rest = ["", "B|1:1,1,2", "50", "50:0:0:0:0:"];
                let (kind, rest) = if ty & 1 == 1 {
                    (0, rest[0])
                } else if ty & 2 == 2 {
                    (1, rest[1])
                } else if ty & 8 == 8 {
                    (2, rest[2])
                } else if ty & 128 == 128 {
                    (3, rest[3])
                } else {
                    (4, rest[0])
                };
                let line = if rest.is_empty() {
                    format!("1,2,3,{ty},0")
                } else {
                    format!("1,2,3,{ty},0,{rest}")
                };
                let got = fs::<HitObject>(&line, v);
                if kind == 4 {
                    ensure!(got.is_err(), "v{v} {line:?} read as {got:?}, expected an error");
                    continue;
                }
                let got = match got {
                    Ok(Some(g)) => g,
                    r => fail!("v{v} {line:?} isn't read: {r:?}"),
                };
                let got_kind = match got.obj_params {
                    HitObjectParams::HitCircle => 0,
                    HitObjectParams::Slider(_) => 1,
                    HitObjectParams::Spinner { .. } => 2,
                    HitObjectParams::OsuManiaHold { .. } => 3,
                    _ => 9,
                };
                same(format_args!("v{v} {line:?} kind"), kind, got_kind)?;
                same(format_args!("v{v} {line:?} new combo"), ty & 4 == 4, got.new_combo)?;
                same(
                    format_args!("v{v} {line:?} combo skip"),
                    (ty >> 4 & 7) as u8,
                    got.combo_skip_count.get(),
                )?;
            }
            Ok(())
        });
        f.case(format!("hitsounds v{v}"), || {
            for h in 0..=255u8 {
                let line = format!("1,2,3,1,{h}");
                match fs::<HitObject>(&line, v) {
                    Ok(Some(g)) => same(&line, hitsound_of(h & 15), g.hitsound)?,
                    r => fail!("v{v} {line:?} isn't read: {r:?}"),
                }
            }
            Ok(())
        });
    }
    f.case("hold without sample", || {
        for v in VERSIONS {
            match fs::<HitObject>("1,2,3,128,0,50:", v) {
                Ok(Some(g)) => {
                    same("hitsample", None, g.hitsample.clone())?;
                    let t = ts(&g, v);
                    same("written", Some("1,2,3,128,0,50:".to_string()), t)?;
                }
                r => fail!("isn't read: {r:?}"),
            }
        }
        Ok(())
    });
}

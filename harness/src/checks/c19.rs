//! Colours.

use super::list::*;
use super::*;
use crate::engine::*;
use crate::gen::vec_of;
use crate::model::colours::*;
use crate::model::file::check_colours;
use crate::model::*;
use osu_file_parser::colours::*;

pub const CHECK: Check = Check {
    id: "C19",
    rule: "there's at least one colour",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "colours", case: colours, quick: 250_000, thorough: 10_000_000 },
    ],
};

pub const SPEC: Spec<Col, Colours> = Spec {
    name: "Colours",
    lines: |m, s, _| vec![m.line(s)],
    print: |m, _, w| {
        if w < 5 {
            None
        } else {
            Some(join(m.iter().map(|m| Some(m.print()))))
        }
    },
    check: check_colours,
    left: |_, _| {},
};

fn colours(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let model = vec_of(s, 14, Col::gen);
    c.label_if(v < 5, "v3-4");
    c.label_if(model.iter().any(|m| matches!(m.kind, Kind::Track)), "slider track");
    c.label_if(model.iter().any(|m| matches!(m.kind, Kind::Border)), "slider border");
    if !model.is_empty() {
        c.nontrivial(&format!("{v}{model:?}"));
    }
    if v < 5 {
        let lines: Vec<String> = model.iter().map(|m| m.line(s)).collect();
        let text = lay_out(s, &lines).text;
        let got = fs::<Colours>(&text, v);
        return match got {
            Ok(None) => Ok(()),
            r => Err(format!("v{v} {text:?} read as {r:?}, there are no colours in the version")),
        };
    }
    for m in &model {
        let line = m.line(s);
        match fs::<Colour>(&line, v) {
            Ok(Some(g)) => {
                same(format_args!("{line:?}"), m.to_crate(), g)?;
                same(format_args!("{line:?} written"), Some(m.print()), ts(&g, v))?;
            }
            r => fail!("v{v} {line:?} isn't read: {r:?}"),
        }
    }
    list_case(s, c, v, &model, &SPEC)
}

fn fixed(f: &mut Fixed) {
    super::large::colours(f);
    // every value of every channel
    f.case("channels", || {
        for i in 0..=255u8 {
            for (r, g, b) in [(i, 0, 255), (7, i, 1), (255, 128, i)] {
                let line = format!("Combo1 : {r},{g},{b}");
                let expected = Colour::Combo(1, Rgb { red: r, green: g, blue: b });
                match fs::<Colour>(&line, 14) {
                    Ok(Some(got)) => same(&line, expected, got)?,
                    r => fail!("{line:?} isn't read: {r:?}"),
                }
                same(&line, Some(line.clone()), ts(&expected, 14))?;
            }
        }
        Ok(())
    });
}

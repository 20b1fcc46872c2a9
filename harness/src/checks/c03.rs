//! Key value sections.

use super::*;
use crate::engine::*;
use crate::model::kv::*;
use crate::model::*;

pub const CHECK: Check = Check {
    id: "C03",
    rule: "the section has at least two fields",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "general", case: general, quick: 120_000, thorough: 6_000_000 },
        Part { name: "editor", case: editor, quick: 80_000, thorough: 3_000_000 },
        Part { name: "metadata", case: metadata, quick: 120_000, thorough: 6_000_000 },
        Part { name: "difficulty", case: difficulty, quick: 80_000, thorough: 3_000_000 },
    ],
};

fn general(s: &mut Src, c: &mut Ctx) -> CaseResult {
    section(s, c, Sec::General)
}

fn editor(s: &mut Src, c: &mut Ctx) -> CaseResult {
    section(s, c, Sec::Editor)
}

fn metadata(s: &mut Src, c: &mut Ctx) -> CaseResult {
    section(s, c, Sec::Metadata)
}

fn difficulty(s: &mut Src, c: &mut Ctx) -> CaseResult {
    section(s, c, Sec::Difficulty)
}

fn section(s: &mut Src, c: &mut Ctx, sec: Sec) -> CaseResult {
    let v = version(s);
    let kv = Kv::gen(s, sec);
    let lines = kv.lines(s);
    // a section starts with its first field
    let text = lay_out(s, &lines).text.trim_start().to_string();
    c.sample(|| format!("v{v} [{}]\n{text}", name(sec)));
    if kv.fields.len() >= 2 {
        c.nontrivial(&format!("{v}{text}"));
    }
    c.label(match kv.fields.len() {
        0 => "no fields",
        1..=4 => "1-4 fields",
        5..=9 => "5-9 fields",
        _ => "10+ fields",
    });

    let got = match parse(sec, &text, v) {
        Ok(Some(got)) => got,
        r => fail!("v{v} [{}] {text:?} isn't read: {r:?}", name(sec)),
    };
    let expected = kv.expected(v);
    ensure!(
        got == expected,
        "v{v} [{}] {text:?} read as {got:?}, expected {expected:?}",
        name(sec)
    );

    for w in VERSIONS {
        let printed = got.print(w);
        let expected = kv.print(v, w);
        ensure!(
            printed.as_deref() == Some(expected.as_str()),
            "v{v} [{}] {text:?} written in v{w} as {}, expected {expected:?}",
            name(sec),
            show(&printed)
        );
        c.extra_evals += 1;
    }

    // what's written is read as the same fields
    let printed = kv.print(v, v);
    let again = match parse(sec, &printed, v) {
        Ok(Some(again)) => again,
        r => fail!("v{v} [{}] written {printed:?} isn't read: {r:?}", name(sec)),
    };
    let mut left = kv.clone();
    left.retain_printed(v);
    ensure!(
        again == left.expected(v),
        "v{v} [{}] written {printed:?} read as {again:?}, expected {:?}",
        name(sec),
        left.expected(v)
    );
    Ok(())
}

fn fixed(f: &mut Fixed) {
    super::large::fields(f);
    for v in VERSIONS {
        f.case(format!("empty tags v{v}"), || {
            let kv = Kv {
                sec: Sec::Metadata,
                fields: vec![Field { key: "Tags", val: Val::Tags(vec![]) }],
            };
            for text in ["Tags:", "Tags: ", "Tags:   "] {
                let got = parse(Sec::Metadata, text, v);
                match got {
                    Ok(Some(ref g)) if *g == kv.expected(v) => {}
                    g => fail!("{text:?} read as {g:?}, expected no tags"),
                }
            }
            Ok(())
        });
        for key in ["BeatmapID", "BeatmapSetID"] {
            f.case(format!("non integer {key} v{v}"), || {
                match parse(Sec::Metadata, &format!("{key}:abc"), v) {
                    Err((0, _, _)) => Ok(()),
                    g => fail!("{key}:abc read as {g:?}, expected an error"),
                }
            });
        }
    }
}

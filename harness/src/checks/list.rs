//! Sections that are lists of lines.

use crate::engine::*;
use crate::model::*;
use osu_file_parser::{Error, Version, VersionedFromStr, VersionedToString};
use std::fmt::Debug;

pub struct Spec<M, T> {
    pub name: &'static str,
    /// Lines of an item in a source.
    pub lines: fn(&M, &mut Src, Version) -> Vec<String>,
    pub print: fn(&[M], Version, Version) -> Option<String>,
    pub check: fn(&[M], &T) -> Result<(), String>,
    /// What's left of an item after it's written and read in the version.
    pub left: fn(&mut M, Version),
}

/// Reads the items of the model in version `v`, and writes them in every version.
pub fn list_case<M: Clone + Debug, T, E>(
    s: &mut Src,
    c: &mut Ctx,
    v: Version,
    model: &[M],
    spec: &Spec<M, T>,
) -> CaseResult
where
    T: VersionedFromStr<Err = Error<E>> + VersionedToString + Debug + PartialEq,
    E: Debug,
{
    let name = spec.name;
    let lines: Vec<String> = model.iter().flat_map(|m| (spec.lines)(m, s, v)).collect();
    let text = lay_out(s, &lines).text;
    c.sample(|| format!("v{v} [{name}]\n{text}"));

    let got = match fs::<T>(&text, v) {
        Ok(Some(got)) => got,
        r => fail!("v{v} [{name}] {text:?} isn't read: {r:?}"),
    };
    if let Err(e) = (spec.check)(model, &got) {
        fail!("v{v} [{name}] {text:?} read wrong: {e}");
    }

    for w in VERSIONS {
        let printed = ts(&got, w);
        let expected = (spec.print)(model, v, w);
        ensure!(
            printed == expected,
            "v{v} [{name}] {text:?} written in v{w} as {}, expected {}",
            show(&printed),
            show(&expected)
        );
        c.extra_evals += 1;
    }

    // what's written is read as the same items
    if let Some(printed) = (spec.print)(model, v, v) {
        let mut left: Vec<M> = model.to_vec();
        for m in &mut left {
            (spec.left)(m, v);
        }
        let again = match fs::<T>(&printed, v) {
            Ok(Some(again)) => again,
            r => fail!("v{v} [{name}] written {printed:?} isn't read: {r:?}"),
        };
        if let Err(e) = (spec.check)(&left, &again) {
            fail!("v{v} [{name}] written {printed:?} read wrong: {e}");
        }
    }
    Ok(())
}

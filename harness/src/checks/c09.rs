//! Places of errors.

use super::broken::*;
use super::*;
use crate::engine::*;
use crate::gen::text;
use crate::model::*;
use osu_file_parser::*;
use std::fmt::Display;
use std::sync::OnceLock;

pub const CHECK: Check = Check {
    id: "C09",
    rule: "the broken line isn't one of the first two lines",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "files", case: files, quick: 120_000, thorough: 6_000_000 },
        Part { name: "storyboards", case: storyboards, quick: 100_000, thorough: 5_000_000 },
        Part { name: "sections", case: sections, quick: 150_000, thorough: 6_000_000 },
        Part { name: "error values", case: values, quick: 100_000, thorough: 3_000_000 },
    ],
};

const KNOWN: &str = "blank-line-before-section: an error behind a section that ends with an empty line is reported one line too low for every such section";

/// If the finding is listed in the file of known findings.
fn listed() -> bool {
    static LISTED: OnceLock<bool> = OnceLock::new();
    *LISTED.get_or_init(|| {
        let dir = std::env::var("OSUVERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
        std::fs::read_to_string(format!("{dir}/known-findings.txt"))
            .unwrap_or_default()
            .lines()
            .any(|l| l.starts_with("known: property=C09 blank-line-before-section"))
    })
}

/// The messages that have the line in them.
fn messages<E: Display>(text: &str, e: &Error<E>) -> CaseResult {
    let i = e.line_index();
    same(
        format_args!("{text:?}: message"),
        format!("Line {}, {}", i + 1, e.error()),
        e.to_string(),
    )?;
    let line = text.lines().nth(i).unwrap_or_default();
    same(
        format_args!("{text:?}: message with the line"),
        format!("Line {}: {line}, {}", i + 1, e.error()),
        e.display_error_with_line(text),
    )
}

fn files(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (_, b) = broken_file(s);
    let text = b.source.text();
    c.sample(|| format!("line index {}, {:?}\n{text}", b.at, b.fault));
    if b.at >= 2 {
        c.nontrivial(&text);
    }
    c.label(match b.fault {
        Fault::Line(..) => "line of a section",
        Fault::UnexpectedLine => "line before the sections",
        Fault::VersionDefinition | Fault::VersionNumber => "version",
        _ => "section name",
    });
    let e = match text.parse::<OsuFile>() {
        Ok(_) => fail!("{text:?} is accepted, with {:?} in line index {}", b.fault, b.at),
        Err(e) => e,
    };
    messages(&text, &e)?;
    let got = e.line_index();
    c.label_if(b.blank_ended == 0, "no section before it ends with an empty line");
    if got == b.at {
        return Ok(());
    }
    if listed() && b.blank_ended > 0 && got + b.blank_ended == b.at {
        c.known.push(KNOWN);
        return Ok(());
    }
    fail!(
        "{text:?}: {:?} is in line index {}, reported in line index {got}: {}",
        b.fault,
        b.at,
        e.error()
    )
}

fn storyboards(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let b = broken_osb(s);
    let text = b.source.text();
    c.sample(|| format!("line index {}, {:?}\n{text}", b.at, b.fault));
    if b.at >= 2 {
        c.nontrivial(&text);
    }
    let mut file = OsuFile::new(14);
    let e = match file.append_osb(&text) {
        Ok(_) => fail!("{text:?} is accepted, with {:?} in line index {}", b.fault, b.at),
        Err(e) => e,
    };
    messages(&text, &e)?;
    ensure!(
        e.line_index() == b.at,
        "{text:?}: {:?} is in line index {}, reported in line index {}: {}",
        b.fault,
        b.at,
        e.line_index(),
        e.error()
    );
    Ok(())
}

/// Line index of the error of reading a section.
pub fn section_error(name: &str, text: &str, v: Version) -> Result<Option<(usize, String)>, String> {
    macro_rules! read {
        ($r:expr) => {
            match $r {
                Ok(_) => Ok(None),
                Err(e) => {
                    messages(text, &e)?;
                    Ok(Some((e.line_index(), format!("{:?}", e.error()))))
                }
            }
        };
    }
    match name {
        "General" => read!(General::from_str(text, v)),
        "Editor" => read!(Editor::from_str(text, v)),
        "Metadata" => read!(Metadata::from_str(text, v)),
        "Difficulty" => read!(Difficulty::from_str(text, v)),
        "Events" => read!(fs::<Events>(text, v)),
        "TimingPoints" => read!(fs::<TimingPoints>(text, v)),
        "Colours" => read!(fs::<Colours>(text, v)),
        _ => read!(fs::<HitObjects>(text, v)),
    }
}

fn sections(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let (name, fault, text, at) = broken_section(s, v);
    c.sample(|| format!("v{v} [{name}] line index {at}, {fault:?}\n{text}"));
    if at >= 2 {
        c.nontrivial(&text);
    }
    match section_error(name, &text, v)? {
        None => fail!("v{v} [{name}] {text:?} is accepted, with {fault:?} in line index {at}"),
        Some((got, e)) => ensure!(
            got == at,
            "v{v} [{name}] {text:?}: {fault:?} is in line index {at}, reported in line index {got}: {e}"
        ),
    }
    Ok(())
}

/// An error of a program, and another one that's made from it.
#[derive(Debug)]
struct Inner(String);

#[derive(Debug)]
struct Outer(String);

impl Display for Inner {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl Display for Outer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl From<Inner> for Outer {
    fn from(e: Inner) -> Self {
        Outer(format!("outer {}", e.0))
    }
}

impl From<Outer> for Inner {
    fn from(e: Outer) -> Self {
        Inner(format!("inner {}", e.0))
    }
}

/// Errors made and passed on in every way keep their line, or move it by the lines before.
fn values(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let content = text(s, 8);
    let mut line = s.size(0, 40);
    let mut log;
    let mut model = content.clone();
    let mut e: Error<Inner> = match s.below(6) {
        0 => {
            log = format!("new at {line}");
            Error::new(Inner(content), line)
        }
        1 => {
            log = format!("new_into at {line}");
            model = format!("inner {model}");
            Error::new_into(Outer(content), line)
        }
        2 => {
            log = format!("new_from_result at {line}");
            match Error::new_from_result::<()>(Err(Inner(content)), line) {
                Err(e) => e,
                Ok(()) => fail!("{log}: an error is none"),
            }
        }
        3 => {
            log = format!("new_from_result_into at {line}");
            model = format!("inner {model}");
            match Error::new_from_result_into::<(), Inner>(Err(Outer(content)), line) {
                Err(e) => e,
                Ok(()) => fail!("{log}: an error is none"),
            }
        }
        4 => {
            line = 0;
            log = "from".to_string();
            Error::from(Inner(content))
        }
        _ => {
            log = format!("values at {line}");
            let n = line as u64;
            ensure!(matches!(Error::<Inner>::new_from_result(Ok(n), line), Ok(m) if m == n), "a value is none");
            let r: Result<u64, Error<Outer>> = Error::<Inner>::new_from_result_into(Ok(n), line);
            ensure!(matches!(r, Ok(m) if m == n), "a value is none");
            let r: Result<u64, Error<Outer>> = Error::<Inner>::error_result_into(Ok(n));
            ensure!(matches!(r, Ok(m) if m == n), "a value is none");
            let r: Result<u64, Error<Outer>> = Error::<Inner>::processing_line(Ok(n), line);
            ensure!(matches!(r, Ok(m) if m == n), "a value is none");
            Error::new(Inner(content), line)
        }
    };
    for _ in 0..s.steps(0, 6) {
        let outer: Error<Outer> = match s.below(3) {
            0 => {
                log.push_str(", error_into");
                e.error_into()
            }
            1 => {
                log.push_str(", error_result_into");
                match Error::error_result_into::<(), Outer>(Err(e)) {
                    Err(e) => e,
                    Ok(()) => fail!("{log}: an error is none"),
                }
            }
            _ => {
                let k = s.size(0, 40);
                line += k;
                log.push_str(&format!(", processing_line {k}"));
                match Error::processing_line::<(), Outer>(Err(e), k) {
                    Err(e) => e,
                    Ok(()) => fail!("{log}: an error is none"),
                }
            }
        };
        model = format!("outer {model}");
        same(format_args!("{log}: line"), line, outer.line_index())?;
        same(format_args!("{log}: error"), &model, &outer.error().0)?;
        same(format_args!("{log}: message"), format!("Line {}, {model}", line + 1), outer.to_string())?;
        model = format!("inner {model}");
        e = outer.error_into();
    }
    let lines: Vec<String> = (0..s.size(0, 50)).map(|_| text(s, 6)).collect();
    let file = lines.join(s.pick(&["\n", "\r\n"]));
    c.sample(|| format!("{log}: {e}"));
    if line > 0 {
        c.nontrivial(&format!("{log} {model}"));
    }
    same(format_args!("{log}: line"), line, e.line_index())?;
    same(format_args!("{log}: error"), &model, &e.error().0)?;
    messages(&file, &e)
}

fn fixed(f: &mut Fixed) {
    super::large::error_lines(f);
    for (name, text, at) in [
        ("blank lines before the version", "\n\n\nosu file format v14\n\nx", 5usize),
        ("indented header behind blank lines", "osu file format v14\n\n\n[Foo]", 3),
        ("second section", "osu file format v14\n[General]\nMode: 0\n[Editor]\nx", 4),
        ("blank lines behind a header", "osu file format v14\n[General]\n\n\nx", 4),
        ("crlf", "osu file format v14\r\n[General]\r\nMode: 0\r\n[Editor]\r\nx", 4),
    ] {
        f.case(name, || match text.parse::<OsuFile>() {
            Err(e) => same(format_args!("{text:?}"), at, e.line_index()),
            Ok(_) => Err(format!("{text:?} is accepted")),
        });
    }
}

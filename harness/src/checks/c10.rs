//! Files that aren't structured as they have to be.

use super::broken::*;
use super::*;
use crate::engine::*;
use crate::model::same;
use osu_file_parser::*;

pub const CHECK: Check = Check {
    id: "C10",
    rule: "a valid file or storyboard with one fault put in at a known place; every case is non-trivial",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "files", case: files, quick: 150_000, thorough: 6_000_000 },
        Part { name: "storyboards", case: storyboards, quick: 120_000, thorough: 5_000_000 },
    ],
};

fn expect(what: &str, got: &str, expected: bool) -> CaseResult {
    if expected {
        Ok(())
    } else {
        Err(format!("{what}: reported as {got}"))
    }
}

fn files(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let (v, b) = broken_file(s);
    let text = b.source.text();
    c.sample(|| format!("{:?}\n{text}", b.fault));
    c.nontrivial(&text);
    c.label(match b.fault {
        Fault::UnknownSection => "unknown section",
        Fault::DuplicateSection => "duplicate section",
        Fault::NoClose(_) => "no closing bracket",
        Fault::NoOpen(_) => "no opening bracket",
        Fault::UnexpectedLine => "unexpected line",
        Fault::VersionDefinition => "version definition",
        Fault::VersionNumber => "version number",
        Fault::Line(..) => "line of a section",
    });
    let e = match text.parse::<OsuFile>() {
        Ok(_) => fail!("v{v} {text:?} is accepted, with {:?} in line index {}", b.fault, b.at),
        Err(e) => e,
    };
    let what = format!("v{v} {text:?} has {:?} in line index {}", b.fault, b.at);
    let dbg = format!("{:?}", e.error());
    let e = e.error();
    let ok = match &b.fault {
        Fault::UnknownSection => matches!(e, ParseError::UnknownSection),
        Fault::DuplicateSection => matches!(e, ParseError::DuplicateSections),
        Fault::NoClose(n) => matches!(e, ParseError::SectionNameNoCloseBracket(g) if g == n),
        Fault::NoOpen(n) => matches!(e, ParseError::SectionNameNoOpenBracket(g) if *g == format!("{n}]")),
        Fault::UnexpectedLine => matches!(e, ParseError::UnexpectedLine),
        Fault::VersionDefinition => matches!(e, ParseError::FileVersionDefinedWrong),
        Fault::VersionNumber => matches!(e, ParseError::InvalidFileVersion),
        Fault::Line(name, fault) => {
            return line_error(&what, name, *fault, e);
        }
    };
    expect(&what, &dbg, ok)
}

fn line_error(what: &str, name: &str, fault: LineFault, e: &ParseError) -> CaseResult {
    let dbg = format!("{e:?}");
    macro_rules! kv {
        ($section:ident, $source:expr, [$($other:ident),*]) => {{
            #[allow(unused_imports)]
            use osu_file_parser::osu_file::$section::ParseError as E;
            match fault {
                LineFault::NoColon => matches!($source, E::InvalidColonSet),
                LineFault::UnknownKey => matches!($source, E::InvalidKey),
                LineFault::DuplicateKey => matches!($source, E::DuplicateField),
                // the value of the field
                _ => !matches!($source, E::InvalidColonSet | E::InvalidKey | E::DuplicateField),
            }
        }};
    }
    let ok = match (name, e) {
        ("General", ParseError::ParseGeneralError { source }) => {
            use osu_file_parser::general::ParseError as E;
            match fault {
                LineFault::NotAnInteger => matches!(source, E::ParseIntError(_)),
                LineFault::NotABool => matches!(source, E::ParseZeroOneBoolError(_)),
                LineFault::CommaList => matches!(source, E::ParseIntError(_) | E::InvalidCommaList),
                _ => kv!(general, source, []),
            }
        }
        ("Editor", ParseError::ParseEditorError { source }) => {
            use osu_file_parser::editor::ParseError as E;
            match fault {
                LineFault::NotAnInteger => matches!(source, E::ParseIntError(_)),
                LineFault::CommaList => matches!(source, E::ParseIntError(_) | E::InvalidCommaList),
                _ => kv!(editor, source, []),
            }
        }
        ("Metadata", ParseError::ParseMetadataError { source }) => {
            use osu_file_parser::metadata::ParseError as E;
            match fault {
                LineFault::NotAnInteger => matches!(source, E::ParseIntError(_)),
                _ => kv!(metadata, source, []),
            }
        }
        ("Difficulty", ParseError::ParseDifficultyError { source }) => kv!(difficulty, source, []),
        ("Events", ParseError::ParseEventsError { source }) => event_error(fault, source),
        ("TimingPoints", ParseError::ParseTimingPointsError { .. }) => true,
        ("Colours", ParseError::ParseColoursError { .. }) => true,
        ("HitObjects", ParseError::ParseHitObjectsError { .. }) => true,
        _ => false,
    };
    expect(what, &dbg, ok)
}

fn event_error(fault: LineFault, e: &events::ParseError) -> bool {
    use events::ParseError as E;
    match fault {
        LineFault::UnknownEvent => matches!(e, E::UnknownEventType),
        LineFault::NoSprite => matches!(e, E::StoryboardCmdWithNoSprite),
        LineFault::Indentation => matches!(e, E::CommandPushError(_)),
        _ => !matches!(e, E::UnknownEventType),
    }
}

fn storyboards(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let b = broken_osb(s);
    let text = b.source.text();
    c.sample(|| format!("{:?}\n{text}", b.fault));
    c.nontrivial(&text);
    let mut file = OsuFile::new(14);
    let e = match file.append_osb(&text) {
        Ok(_) => fail!("{text:?} is accepted, with {:?} in line index {}", b.fault, b.at),
        Err(e) => e,
    };
    let what = format!("{text:?} has {:?} in line index {}", b.fault, b.at);
    let dbg = format!("{:?}", e.error());
    use osb::{ParseError as E, ParseVariableError as V};
    let ok = match (&b.fault, e.error()) {
        (Fault::UnknownSection, E::UnknownSection) => true,
        (Fault::DuplicateSection, E::DuplicateSections) => true,
        (Fault::NoClose(n), E::SectionNameNoCloseBracket(g)) => n == g,
        (Fault::NoOpen(n), E::SectionNameNoOpenBracket(g)) => format!("{n}]") == *g,
        (Fault::UnexpectedLine, E::UnexpectedLine) => true,
        (Fault::Line("Events", f), E::ParseEventsError(e)) => event_error(*f, e),
        (Fault::Line(_, LineFault::VariableHeader), E::ParseVariableError(V::MissingHeader)) => true,
        (Fault::Line(_, LineFault::VariableEquals), E::ParseVariableError(V::MissingEquals)) => true,
        _ => false,
    };
    expect(&what, &dbg, ok)?;
    // nothing is stored
    same(&what, None, file.osb)
}

fn fixed(f: &mut Fixed) {
    // every version
    for n in 0..=300u32 {
        f.case(format!("version {n}"), || {
            let text = format!("osu file format v{n}");
            match (text.parse::<OsuFile>(), (3..=14).contains(&n)) {
                (Ok(file), true) => same("version", n as u8, file.version),
                (Err(e), false) if matches!(e.error(), ParseError::InvalidFileVersion) => Ok(()),
                (r, _) => Err(format!("{text:?} read as {r:?}")),
            }
        });
    }
    for (name, text) in [
        ("name without opening bracket", "osu file format v14\nGeneral]\nMode: 0"),
        ("name without closing bracket", "osu file format v14\n[General]\nMode: 0\n[Editor\nGridSize: 1"),
        ("empty text", ""),
        ("only a byte order mark", "\u{feff}"),
        ("only sections", "[General]\nMode: 0"),
    ] {
        f.case(name, || {
            let r = text.parse::<OsuFile>();
            ensure!(r.is_err(), "{text:?} read as {r:?}, expected an error");
            Ok(())
        });
    }
}

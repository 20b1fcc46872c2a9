//! Whole files.

use super::colours::Col;
use super::events::{gen_events, print_events, Ev};
use super::hitobjects::Ho;
use super::kv::{self, Kv, Sec};
use super::timing::Tp;
use super::*;
use crate::engine::Src;
use crate::gen::*;
use osu_file_parser::{Colours, Events, HitObjects, OsuFile, TimingPoints};

#[derive(Clone, Debug)]
pub enum Section {
    Kv(Kv),
    Events(Vec<Ev>),
    Timing(Vec<Tp>),
    Colours(Vec<Col>),
    Hits(Vec<Ho>),
}

/// Section names in the order they're written.
pub const NAMES: [&str; 8] = [
    "General",
    "Editor",
    "Metadata",
    "Difficulty",
    "Events",
    "TimingPoints",
    "Colours",
    "HitObjects",
];

impl Section {
    pub fn name(&self) -> &'static str {
        match self {
            Section::Kv(k) => kv::name(k.sec),
            Section::Events(_) => "Events",
            Section::Timing(_) => "TimingPoints",
            Section::Colours(_) => "Colours",
            Section::Hits(_) => "HitObjects",
        }
    }

    pub fn gen(s: &mut Src, i: usize, v: Version) -> Section {
        match i {
            0 => Section::Kv(Kv::gen(s, Sec::General)),
            1 => Section::Kv(Kv::gen(s, Sec::Editor)),
            2 => Section::Kv(Kv::gen(s, Sec::Metadata)),
            3 => Section::Kv(Kv::gen(s, Sec::Difficulty)),
            4 => Section::Events(gen_events(s, v)),
            5 => Section::Timing(vec_of(s, 15, |s| Tp::gen(s, v))),
            6 => Section::Colours(vec_of(s, 10, Col::gen)),
            _ => Section::Hits(vec_of(s, 20, |s| Ho::gen(s, v))),
        }
    }

    /// The lines of the section, one list for every item of it.
    pub fn items(&self, s: &mut Src, v: Version) -> Vec<Vec<String>> {
        match self {
            Section::Kv(k) => k.lines(s).into_iter().map(|l| vec![l]).collect(),
            Section::Events(e) => e.iter().map(|e| e.lines(s, v)).collect(),
            Section::Timing(t) => t.iter().map(|t| vec![t.line(s, v)]).collect(),
            Section::Colours(c) => c.iter().map(|c| vec![c.line(s)]).collect(),
            Section::Hits(h) => h.iter().map(|h| vec![h.line(s, v)]).collect(),
        }
    }

    /// What the section is written as in version `v` after it's read in version `from`.
    pub fn print(&self, from: Version, v: Version) -> Option<String> {
        match self {
            Section::Kv(k) => Some(k.print(from, v)),
            Section::Events(e) => Some(print_events(e, v)),
            Section::Timing(t) => Some(join(t.iter().map(|t| t.print(v)))),
            Section::Colours(c) => {
                if from < 5 || v < 5 {
                    None
                } else {
                    Some(join(c.iter().map(|c| Some(c.print()))))
                }
            }
            Section::Hits(h) => Some(join(h.iter().map(|h| h.print(v)))),
        }
    }

    pub fn len(&self) -> usize {
        match self {
            Section::Kv(k) => k.fields.len(),
            Section::Events(e) => e.len(),
            Section::Timing(t) => t.len(),
            Section::Colours(c) => c.len(),
            Section::Hits(h) => h.len(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct File {
    pub version: Version,
    /// In the order of the source.
    pub sections: Vec<Section>,
}

/// How the text of a file is laid out.
#[derive(Clone, Debug, Default)]
pub struct Noise {
    pub bom: bool,
    pub crlf: bool,
    /// Blank lines before the version.
    pub lead: usize,
    /// Amount in 16 of blank lines in between.
    pub blanks: u64,
    pub comments: bool,
    pub end_lines: usize,
}

impl Noise {
    pub fn gen(s: &mut Src) -> Noise {
        Noise {
            bom: s.chance(1, 5),
            crlf: s.chance(1, 3),
            lead: if s.chance(1, 6) { s.size(1, 4) } else { 0 },
            blanks: s.pick(&[0, 0, 1, 4]),
            comments: s.chance(1, 4),
            end_lines: s.pick(&[0usize, 1, 1, 2, 4]),
        }
    }
}

/// Text of a file with the places of what's in it.
#[derive(Clone, Debug, Default)]
pub struct Source {
    pub lines: Vec<String>,
    /// Line index of the section names.
    pub headers: Vec<usize>,
    /// Line indexes of the lines of the sections.
    pub at: Vec<Vec<usize>>,
    pub noise: Noise,
}

impl Source {
    pub fn text(&self) -> String {
        let nl = if self.noise.crlf { "\r\n" } else { "\n" };
        let mut t = String::new();
        if self.noise.bom {
            t.push('\u{feff}');
        }
        t.push_str(&self.lines.join(nl));
        for _ in 0..self.noise.end_lines {
            t.push_str(nl);
        }
        t
    }
}

fn blank(s: &mut Src) -> String {
    s.pick(&["", "", "", " ", "\t", "   "]).to_string()
}

/// Lays a file out. `first` is the version line.
pub fn build(s: &mut Src, first: Option<&str>, sections: &[(String, Vec<String>)], noise: Noise) -> Source {
    let mut src = Source::default();
    for _ in 0..noise.lead {
        let b = if noise.bom && src.lines.is_empty() {
            // nothing can be before the byte order mark
            break;
        } else {
            blank(s)
        };
        src.lines.push(b);
    }
    if let Some(first) = first {
        src.lines.push(first.to_string());
    }
    let mut between = |s: &mut Src, src: &mut Source, comments: bool| loop {
        if comments && noise.comments && s.chance(1, 3) {
            let t = text(s, 12);
            let indent = if s.chance(1, 4) { s.pick(&[" ", "\t", "  "]) } else { "" };
            let end = if s.chance(1, 6) { "]" } else { "" };
            src.lines.push(format!("{indent}//{t}{end}"));
        } else if s.chance(noise.blanks, 16) {
            let b = blank(s);
            src.lines.push(b);
        } else {
            break;
        }
    };
    between(s, &mut src, true);
    for (i, (name, lines)) in sections.iter().enumerate() {
        if i > 0 && noise.blanks != 4 {
            // the usual way of separating sections
            src.lines.push(String::new());
        }
        src.headers.push(src.lines.len());
        src.lines.push(format!("[{name}]"));
        let mut at = Vec::new();
        between(s, &mut src, false);
        for line in lines {
            at.push(src.lines.len());
            src.lines.push(line.clone());
            between(s, &mut src, false);
        }
        src.at.push(at);
    }
    src.noise = noise;
    src
}

impl File {
    pub fn gen(s: &mut Src, v: Version) -> File {
        let many = s.bool();
        let mut sections = Vec::new();
        for i in 0..8 {
            let take = if many { !s.chance(1, 8) } else { s.chance(1, 3) };
            if take {
                sections.push(Section::gen(s, i, v));
            }
        }
        if s.chance(1, 3) {
            s.shuffle(&mut sections);
        }
        File {
            version: v,
            sections,
        }
    }

    /// A file where everything in it is written in its version.
    pub fn gen_stable(s: &mut Src, v: Version) -> File {
        let mut f = File::gen(s, v);
        f.retain_printed();
        f
    }

    pub fn retain_printed(&mut self) {
        let v = self.version;
        self.sections.retain(|s| v >= 5 || !matches!(s, Section::Colours(_)));
        for sec in &mut self.sections {
            match sec {
                Section::Kv(k) => k.retain_printed(v),
                Section::Hits(h) => {
                    for h in h {
                        h.retain_printed(v);
                    }
                }
                _ => {}
            }
        }
    }

    pub fn version_line(&self) -> String {
        format!("osu file format v{}", self.version)
    }

    pub fn section_lines(&self, s: &mut Src) -> Vec<(String, Vec<String>)> {
        self.sections
            .iter()
            .map(|sec| {
                (
                    sec.name().to_string(),
                    sec.items(s, self.version).into_iter().flatten().collect(),
                )
            })
            .collect()
    }

    pub fn source(&self, s: &mut Src, noise: Noise) -> Source {
        let lines = self.section_lines(s);
        build(s, Some(&self.version_line()), &lines, noise)
    }

    pub fn get(&self, name: &str) -> Option<&Section> {
        self.sections.iter().find(|s| s.name() == name)
    }

    /// What the file is written as in version `v`.
    pub fn print(&self, v: Version) -> String {
        let mut parts = Vec::new();
        for name in NAMES {
            if let Some(text) = self.get(name).and_then(|s| s.print(self.version, v)) {
                parts.push(format!("[{name}]\n{text}"));
            }
        }
        format!("osu file format v{v}\n\n{}", parts.join("\n\n"))
    }

    pub fn check(&self, got: &OsuFile) -> Result<(), String> {
        same("version", self.version, got.version)?;
        for name in NAMES {
            self.check_section(name, got).map_err(|e| format!("[{name}] {e}"))?;
        }
        ensure_none(got)
    }

    fn check_section(&self, name: &str, got: &OsuFile) -> Result<(), String> {
        let sec = self.get(name);
        let v = self.version;
        let kv = sec.and_then(|s| match s {
            Section::Kv(k) => Some(k),
            _ => None,
        });
        match name {
            "General" => same("section", kv.map(|k| k.general(v)), got.general.clone()),
            "Editor" => same("section", kv.map(|k| k.editor(v)), got.editor.clone()),
            "Metadata" => same("section", kv.map(|k| k.metadata(v)), got.metadata.clone()),
            "Difficulty" => same("section", kv.map(|k| k.difficulty(v)), got.difficulty.clone()),
            "Events" => match (sec, &got.events) {
                (Some(Section::Events(m)), Some(g)) => check_events(m, g),
                (None, None) => Ok(()),
                (_, g) => Err(format!("expected {}, got {g:?}", presence(sec))),
            },
            "TimingPoints" => match (sec, &got.timing_points) {
                (Some(Section::Timing(m)), Some(g)) => check_timing(m, g),
                (None, None) => Ok(()),
                (_, g) => Err(format!("expected {}, got {g:?}", presence(sec))),
            },
            "Colours" => match (sec, &got.colours) {
                (Some(Section::Colours(m)), Some(g)) if v >= 5 => check_colours(m, g),
                (Some(_), None) if v < 5 => Ok(()),
                (None, None) => Ok(()),
                (_, g) => Err(format!("expected {}, got {g:?}", presence(sec))),
            },
            _ => match (sec, &got.hitobjects) {
                (Some(Section::Hits(m)), Some(g)) => check_hits(m, g),
                (None, None) => Ok(()),
                (_, g) => Err(format!("expected {}, got {g:?}", presence(sec))),
            },
        }
    }

    pub fn items(&self) -> usize {
        self.sections.iter().map(|s| s.len()).sum()
    }
}

fn presence(s: Option<&Section>) -> &'static str {
    if s.is_some() {
        "a section"
    } else {
        "no section"
    }
}

fn ensure_none(got: &OsuFile) -> Result<(), String> {
    same("osb", None, got.osb.clone())
}

fn numbered<M, G>(m: &[M], g: &[G], f: impl Fn(&M, &G) -> Result<(), String>) -> Result<(), String> {
    same("amount of items", m.len(), g.len())?;
    for (i, (m, g)) in m.iter().zip(g).enumerate() {
        f(m, g).map_err(|e| format!("item {i}: {e}"))?;
    }
    Ok(())
}

pub fn check_events(m: &[Ev], g: &Events) -> Result<(), String> {
    numbered(m, &g.0, |m, g| m.check(g))
}

pub fn check_timing(m: &[Tp], g: &TimingPoints) -> Result<(), String> {
    numbered(m, &g.0, |m, g| m.check(g))
}

pub fn check_colours(m: &[Col], g: &Colours) -> Result<(), String> {
    numbered(m, &g.0, |m, g| same("colour", m.to_crate(), *g))
}

pub fn check_hits(m: &[Ho], g: &HitObjects) -> Result<(), String> {
    numbered(m, &g.0, |m, g| m.check(g))
}

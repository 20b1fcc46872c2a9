//! Comparing the text of files.

use super::*;
use crate::engine::*;
use crate::model::file::*;
use crate::model::*;
use crate::mutate::*;
use osu_file_parser::*;

pub const CHECK: Check = Check {
    id: "C22",
    rule: "there are at least two lines of content",
    assumptions: &[],
    fixed,
    parts: &[
        Part { name: "same", case: equal, quick: 30_000, thorough: 1_500_000 },
        Part { name: "written", case: written, quick: 20_000, thorough: 1_000_000 },
        Part { name: "different", case: different, quick: 60_000, thorough: 3_000_000 },
        Part { name: "order", case: order, quick: 40_000, thorough: 2_000_000 },
        Part { name: "edited", case: edited, quick: 40_000, thorough: 2_000_000 },
    ],
};

/// All the ways of comparing agree.
fn compare(a: &str, b: &str, expected: bool) -> Result<(), String> {
    for (a, b) in [(a, b), (b, a)] {
        same(format_args!("{a:?} is equal to {b:?}"), expected, osu_str_eq(a, b))?;
        let r = no_panic("assert", || assert_eq_osu_str(a, b));
        same(format_args!("{a:?} is asserted to be equal to {b:?}"), expected, r.is_ok())?;
    }
    same(format_args!("{a:?} and {b:?} are trimmed to the same"), expected, osu_str_trimmer(a) == osu_str_trimmer(b))
}

fn is_kv(name: &str) -> bool {
    ["General", "Editor", "Metadata", "Difficulty"].contains(&name)
}

/// Another order and spacing of key and value pairs.
fn respell(s: &mut Src, secs: &mut [(String, Vec<String>)], readable: bool) {
    for (name, lines) in secs {
        if !is_kv(name) {
            continue;
        }
        if s.bool() {
            s.shuffle(lines);
        }
        for line in lines {
            if let Some((key, value)) = line.split_once(':') {
                if s.chance(1, 2) {
                    continue;
                }
                let spacing = |s: &mut Src| s.pick(&["", " ", "  ", "\t"]);
                let (a, b, c, d) = (spacing(s), spacing(s), spacing(s), spacing(s));
                // the sections are only read with the spacing behind the colon
                let (a, b) = if readable { ("", "") } else { (a, b) };
                let d = if readable { "" } else { d };
                *line = format!("{a}{}{b}:{c}{}{d}", key.trim(), value.trim());
            }
        }
    }
}

fn gen(s: &mut Src) -> File {
    let v = version(s);
    let mut f = File::gen(s, v);
    f.sections.sort_by_key(|x| NAMES.iter().position(|n| *n == x.name()));
    f
}

fn equal(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let f = gen(s);
    let mut secs = f.section_lines(s);
    if s.bool() {
        s.shuffle(&mut secs);
    }
    let first = f.version_line();
    let na = Noise::gen(s);
    let a = build(s, Some(&first), &secs, na).text();
    respell(s, &mut secs, false);
    let nb = Noise::gen(s);
    let b = build(s, Some(&first), &secs, nb).text();
    c.sample(|| format!("{a:?} and {b:?}"));
    c.label_if(a != b, "text differs");
    if f.items() >= 2 && a != b {
        c.nontrivial(&format!("{a}{b}"));
    }
    compare(&a, &b, true)
}

/// What's written is the same as what's read, as long as that's spelled the way it's written.
fn written(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let mut f = gen(s);
    f.retain_printed();
    let v = f.version;
    let mut secs: Vec<(String, Vec<String>)> = f
        .sections
        .iter()
        .filter_map(|sec| {
            let text = sec.print(v, v)?;
            Some((sec.name().to_string(), text.lines().map(|l| l.to_string()).collect()))
        })
        .collect();
    respell(s, &mut secs, true);
    let noise = Noise::gen(s);
    let text = build(s, Some(&f.version_line()), &secs, noise).text();
    c.sample(|| text.clone());
    if f.items() >= 2 {
        c.nontrivial(&text);
    }
    let got = match text.parse::<OsuFile>() {
        Ok(g) => g.to_string(),
        Err(e) => fail!("{text:?} isn't read: {e}"),
    };
    compare(&got, &text, true)
}

/// Any change of the content is noticed.
fn different(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let f = gen(s);
    let secs = f.section_lines(s);
    let first = f.version_line();
    let na = Noise::gen(s);
    let a = build(s, Some(&first), &secs, na).text();
    let (mut first_b, mut secs_b) = (first.clone(), secs.clone());
    // line 0 is the version, line 0 of a section its name
    let mut places: Vec<(usize, usize)> = vec![(usize::MAX, 0)];
    for (i, (_, lines)) in secs.iter().enumerate() {
        places.push((i, 0));
        for j in 0..lines.len() {
            if !lines[j].trim().is_empty() && !lines[j].trim().starts_with('[') {
                // lines are picked more often than names
                places.extend([(i, j + 1), (i, j + 1)]);
            }
        }
    }
    let (i, j) = s.pick(&places);
    let what = s.weighted(&[4, 2, 2, 2, 1]);
    if i == usize::MAX || j == 0 {
        // a character of the version or of the name of a section
        let t = if i == usize::MAX { &mut first_b } else { &mut secs_b[i].0 };
        let chars: Vec<char> = t.chars().collect();
        let k = s.below(chars.len());
        let to = s.pick(&['x', '7', 'Q', 'é']);
        if chars[k] == ' ' || chars[k] == to {
            return Ok(());
        }
        *t = chars.iter().enumerate().map(|(n, ch)| if n == k { to } else { *ch }).collect();
        c.label(if i == usize::MAX { "version" } else { "section name" });
    } else {
        let kv = is_kv(&secs[i].0);
        let lines = &mut secs_b[i].1;
        let line = lines[j - 1].clone();
        match what {
            0 | 1 => {
                // one character is another one, is gone, or is there twice
                let chars: Vec<char> = line.trim().chars().collect();
                let k = s.below(chars.len());
                let ch = chars[k];
                if ch.is_whitespace() || ch == ':' || ch == '\u{feff}' || ch == '[' || ch == ']' {
                    return Ok(());
                }
                let to = s.pick(&['x', '7', 'Q', 'é', '-']);
                let with = match s.below(3) {
                    0 if ch != to => to.to_string(),
                    1 => String::new(),
                    _ => format!("{ch}{ch}"),
                };
                let mut out: String = chars[..k].iter().collect();
                out.push_str(&with);
                out.extend(&chars[k + 1..]);
                if out.trim() != out || out.is_empty() {
                    return Ok(());
                }
                lines[j - 1] = out;
                c.label("character");
            }
            2 => {
                lines.remove(j - 1);
                c.label("line is gone");
            }
            3 => {
                lines.insert(j - 1, line);
                c.label("line is there twice");
            }
            _ => {
                // spacing in the text of a value
                let Some(at) = line.find(':').filter(|_| kv) else { return Ok(()) };
                let value: Vec<char> = line[at + 1..].trim().chars().collect();
                if value.len() < 2 {
                    return Ok(());
                }
                let k = s.size(1, value.len() - 1);
                let (l, r): (String, String) = (value[..k].iter().collect(), value[k..].iter().collect());
                lines[j - 1] = format!("{}: {l} {r}", &line[..at]);
                c.label("spacing in a value");
            }
        }
    }
    let nb = Noise::gen(s);
    let b = build(s, Some(&first_b), &secs_b, nb).text();
    c.sample(|| format!("{a:?} and {b:?}"));
    if f.items() >= 2 {
        c.nontrivial(&format!("{a}{b}"));
    }
    compare(&a, &b, false)
}

/// The order of lines is noticed behind a line that isn't a key with a value.
fn order(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = version(s);
    let i = s.pick(&[4usize, 7, 7]);
    let name = NAMES[i].to_string();
    let mut lines: Vec<String> = Vec::new();
    for _ in 0..s.size(1, 3) {
        lines.extend(Section::gen(s, i, v).items(s, v).into_iter().flatten().filter(|l| !l.trim().is_empty()));
    }
    if s.chance(1, 3) {
        let at = s.size(0, lines.len());
        lines.insert(at, s.pick(&["//", "// end", "1,2,3", "Sprite"]).to_string());
    }
    let bare = |l: &String| l.split_whitespace().collect::<String>();
    let Some(first) = lines.iter().position(|l| !l.contains(':')) else { return Ok(()) };
    if lines.len() < first + 3 || lines.iter().any(|l| l.trim().starts_with('[')) {
        return Ok(());
    }
    let a = s.size(first + 1, lines.len() - 2);
    let b = s.size(a + 1, lines.len() - 1);
    if bare(&lines[a]) == bare(&lines[b]) {
        return Ok(());
    }
    let mut other = lines.clone();
    other.swap(a, b);
    let first = format!("osu file format v{v}");
    let na = Noise::gen(s);
    let x = build(s, Some(&first), &[(name.clone(), lines)], na).text();
    let nb = Noise::gen(s);
    let y = build(s, Some(&first), &[(name, other)], nb).text();
    c.sample(|| format!("{x:?} and {y:?}"));
    c.nontrivial(&format!("{x}{y}"));
    compare(&x, &y, false)
}

/// For any text, trimming is done once, and doesn't depend on line ends and blank lines.
fn edited(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let f = gen(s);
    let text = f.source(s, Noise::default()).text();
    let text = mutate(s, &text);
    if text.contains('\u{feff}') || text.contains('\r') {
        return Ok(());
    }
    c.sample(|| text.clone());
    if text.lines().count() >= 3 {
        c.nontrivial(&text);
    }
    let t = osu_str_trimmer(&text);
    let again = osu_str_trimmer(&t);
    ensure!(t == again, "{text:?} is trimmed to {t:?}, and that to {again:?}");
    compare(&text, &text, true)?;
    compare(&text, &t, true)?;
    let bom = if text.starts_with("osu") { "\u{feff}" } else { "" };
    let other = format!("{bom}{}", text.replace('\n', s.pick(&["\r\n", "\n\n", " \n\t", "\n \t\r\n"])));
    compare(&text, &other, true)
}

fn fixed(f: &mut Fixed) {
    super::large::comparison(f);
    f.case("spacing in values", || {
        let a = "osu file format v14\n[Metadata]\nTitle:a b\nArtist:c";
        compare(a, "osu file format v14\n[Metadata]\nArtist : c\nTitle :  a b", true)?;
        compare(a, "osu file format v14\n[Metadata]\nTitle:ab\nArtist:c", false)?;
        compare(a, "osu file format v14\n[Metadata]\nTitle:a  b\nArtist:c", false)
    });
    f.case("nothing", || {
        compare("", "\r\n \n", true)?;
        compare("", "osu file format v14", false)?;
        compare("osu file format v14", "osu file format v13", false)
    });
}

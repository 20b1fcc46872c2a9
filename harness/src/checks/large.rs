//! Texts that are large in one way. They're bigger than what two bytes count, and than what the generators make.

use super::*;
use osu_file_parser::*;

/// More than 65536, and not a round number.
const MANY: usize = 70_003;

/// The texts are equal, with the first line that differs if they aren't.
fn same_text(what: &str, want: &str, got: &str) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    let (a, b): (Vec<_>, Vec<_>) = (want.lines().collect(), got.lines().collect());
    let at = a.iter().zip(&b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
    let cut = |l: Option<&&str>| l.map(|l| l.chars().take(60).collect::<String>());
    fail!(
        "{what}: {} lines and {} bytes, written as {} lines and {} bytes, line {at} {:?} as {:?}",
        a.len(),
        want.len(),
        b.len(),
        got.len(),
        cut(a.get(at)),
        cut(b.get(at))
    )
}

/// Lines, the sections they're in and the version.
fn file(v: Version, section: &str, lines: impl Iterator<Item = String>) -> String {
    let mut t = format!("osu file format v{v}\n\n[{section}]");
    for l in lines {
        t.push('\n');
        t.push_str(&l);
    }
    t
}

fn read(text: &str) -> Result<OsuFile, String> {
    text.parse::<OsuFile>().map_err(|e| format!("not read: {e}"))
}

/// The file is read and written as the same.
fn unchanged(what: &str, text: &str) -> Result<OsuFile, String> {
    let f = read(text)?;
    same_text(what, text, &f.to_string())?;
    Ok(f)
}

fn amount(what: &str, got: usize) -> Result<(), String> {
    ensure!(got == MANY, "{what}: {got} of {MANY} are read");
    Ok(())
}

pub fn fields(f: &mut Fixed) {
    f.case("long text", || {
        for c in ["a", "é", "漢", "a b"] {
            let t = c.repeat(MANY);
            let file = unchanged("title", &file(14, "Metadata", std::iter::once(format!("Title:{t}"))))?;
            let title: Option<String> = file.metadata.and_then(|m| m.title).map(|t| t.into());
            ensure!(title.as_ref() == Some(&t), "title of {MANY} {c:?} has {:?} bytes", title.map(|t| t.len()));
        }
        Ok(())
    });
    f.case("many bookmarks and tags", || {
        let list: Vec<String> = (0..MANY).map(|i| i.to_string()).collect();
        let file_ = unchanged("bookmarks", &file(14, "Editor", std::iter::once(format!("Bookmarks: {}", list.join(",")))))?;
        let got: Vec<Integer> = file_.editor.and_then(|e| e.bookmarks).map(|b| b.into()).unwrap_or_default();
        amount("bookmarks", got.len())?;
        ensure!(got.iter().enumerate().all(|(i, b)| i as i32 == *b), "the bookmarks are others");
        let file_ = unchanged("tags", &file(14, "Metadata", std::iter::once(format!("Tags:{}", list.join(" ")))))?;
        let got: Vec<String> = file_.metadata.and_then(|m| m.tags).map(|t| t.into()).unwrap_or_default();
        ensure!(got == list, "{} of {MANY} tags are read", got.len());
        Ok(())
    });
}

pub fn hit_objects(f: &mut Fixed) {
    f.case("many hit objects", || {
        let line = |i: usize| match i % 4 {
            0 => format!("1,2,{i},1,0"),
            1 => format!("1,2,{i},2,0,B|1:2,1,100"),
            2 => format!("1,2,{i},8,0,{}", i + 1),
            _ => format!("1,2,{i},128,0,{}:0:0:0:0:", i + 1),
        };
        let got = unchanged("hit objects", &file(14, "HitObjects", (0..MANY).map(line)))?;
        amount("hit objects", got.hitobjects.map_or(0, |h| h.0.len()))
    });
    f.case("long slider", || {
        let list = |t: &str| vec![t; MANY].join("|");
        let points: Vec<String> = (0..MANY).map(|i| format!("{i}:{}", -(i as i64))).collect();
        let line = format!("1,2,3,2,0,B|{},1,100,{},{},0:0:0:0:", points.join("|"), list("2"), list("1:2"));
        let got = unchanged("slider", &file(14, "HitObjects", std::iter::once(line)))?;
        match got.hitobjects.as_ref().and_then(|h| h.0.first()).map(|h| &h.obj_params) {
            Some(hitobjects::HitObjectParams::Slider(p)) => {
                amount("curve points", p.curve_points.len())?;
                amount("edge sounds", p.edge_sounds.len())?;
                amount("edge sets", p.edge_sets.len())
            }
            _ => fail!("the slider isn't read"),
        }
    });
}

pub fn timing_points(f: &mut Fixed) {
    f.case("many timing points", || {
        let line = |i: usize| format!("{i},{},4,1,{i},100,{},0", if i % 2 == 0 { "500" } else { "-100" }, (i + 1) % 2);
        let got = unchanged("timing points", &file(14, "TimingPoints", (0..MANY).map(line)))?;
        amount("timing points", got.timing_points.map_or(0, |t| t.0.len()))
    });
}

pub fn colours(f: &mut Fixed) {
    f.case("many colours", || {
        let line = |i: usize| format!("Combo{i} : {},{},{}", i % 256, i / 256 % 256, i % 7);
        let got = unchanged("colours", &file(14, "Colours", (0..MANY).map(line)))?;
        amount("colours", got.colours.map_or(0, |c| c.0.len()))
    });
}

pub fn events(f: &mut Fixed) {
    f.case("many events", || {
        let line = |i: usize| match i % 5 {
            0 => format!("0,{i},\"a.png\""),
            1 => format!("2,{i},{}", i + 1),
            2 => format!("// {i}"),
            3 => format!("Sprite,Pass,Centre,\"a.png\",{i},2\n F,0,{i},,1"),
            _ => format!("Sample,{i},0,\"a.wav\",50"),
        };
        let text = file(14, "Events", (0..MANY).map(line));
        let got = unchanged("events", &text)?;
        amount("events", got.events.map_or(0, |e| e.0.len()))
    });
}

pub fn commands(f: &mut Fixed) {
    const SPRITE: &str = "Sprite,Pass,Centre,\"a.png\",1,2";
    f.case("many commands", || {
        for (before, indent) in [("", " "), (" L,0,2\n", "  "), (" T,Passing,0,1\n  L,1,1\n", "   ")] {
            let commands: Vec<String> = (0..MANY).map(|i| format!("{indent}F,0,{i},,1")).collect();
            let line = format!("{SPRITE}\n{before}{}", commands.join("\n"));
            unchanged("commands", &file(14, "Events", std::iter::once(line)))?;
        }
        Ok(())
    });
    f.case("many values", || {
        let list = |t: &str| vec![t; MANY].join(",");
        for line in [
            format!(" F,0,1,2,1,{}", list("0.5")),
            format!(" M,0,1,2,1,2,{}", list("3,4")),
            format!(" MX,0,1,2,1,{}", list("-5")),
            format!(" MY,0,1,2,1,{}", list("6")),
            format!(" S,0,1,2,1,{}", list("1.25")),
            format!(" V,0,1,2,1,2,{},7", list("3,4")),
            format!(" R,0,1,2,1,{}", list("a")),
            format!(" C,0,1,2,1,2,3,{}", list("4,5,6")),
            format!(" P,0,1,2,H,{}", list("V")),
        ] {
            unchanged(&line[..3], &file(14, "Events", std::iter::once(format!("{SPRITE}\n{line}"))))?;
        }
        Ok(())
    });
    f.case("deep loops", || {
        let depth = 700;
        let mut lines = vec![SPRITE.to_string()];
        for i in 1..depth {
            lines.push(format!("{}L,{i},2", " ".repeat(i)));
        }
        lines.push(format!("{}F,0,1,2,1", " ".repeat(depth)));
        unchanged("loops", &file(14, "Events", lines.into_iter())).map(|_| ())
    });
}

pub fn storyboard(f: &mut Fixed) {
    f.case("many variables", || {
        let n = 3000;
        let mut text = String::from("[Variables]\n");
        for i in 0..n {
            text.push_str(&format!("$v{i:05}={}\n", i + 1_000_000));
        }
        text.push_str("\n[Events]\nSprite,Pass,Centre,\"a.png\",1,2");
        for i in [0, 1, n / 2, n - 1] {
            text.push_str(&format!("\n F,0,$v{i:05},,1"));
        }
        let mut f = OsuFile::new(14);
        f.append_osb(&text).map_err(|e| format!("not read: {e}"))?;
        same_text("variables", &text, &f.osb_to_string().unwrap_or_default())
    });
}

/// An error far down in a text.
pub fn error_lines(f: &mut Fixed) {
    for (section, good, bad) in [
        ("General", "", "Mode: x"),
        ("Metadata", "", "BeatmapID: x"),
        ("Events", "2,1,2", "2,x,2"),
        ("Events", "// a", "x"),
        ("TimingPoints", "0,500,4,1,0,100,1,0", "0,500,x,1,0,100,1,0"),
        ("Colours", "Combo1 : 1,2,3", "Combo1 : 1,2,x"),
        ("HitObjects", "1,2,3,1,0", "1,2,3,x,0"),
        ("HitObjects", "", "1,2,3,x,0"),
    ] {
        f.case(format!("error far down in {section} behind {good:?}"), || {
            let text = file(14, section, (0..MANY).map(|_| good.to_string()).chain([bad.to_string(), good.to_string()]));
            let at = 3 + MANY;
            match text.parse::<OsuFile>() {
                Ok(_) => fail!("{bad:?} is read"),
                Err(e) => {
                    ensure!(e.line_index() == at, "the line index of {bad:?} is {at}, reported as {}", e.line_index());
                    let message = e.display_error_with_line(&text);
                    ensure!(message.contains(&(at + 1).to_string()) && message.contains(bad), "{bad:?} in line {}: {message:?}", at + 1);
                    Ok(())
                }
            }
        });
    }
    for lead in ["", "// a"] {
        f.case(format!("error behind many lines {lead:?} in front of the sections"), || {
            let lines = vec![lead; MANY].join("\n");
            let text = format!("osu file format v14\n{lines}\n[Foo]\n");
            match text.parse::<OsuFile>() {
                Err(e) if e.line_index() == MANY + 1 => {}
                r => fail!("unknown section in line index {}: {:?}", MANY + 1, r.map(|_| ())),
            }
            let text = format!("{lines}\n[Events]\nx");
            let mut f = OsuFile::new(14);
            match f.append_osb(&text) {
                Err(e) if e.line_index() == MANY + 1 => Ok(()),
                r => fail!("unknown event of a storyboard in line index {}: {r:?}", MANY + 1),
            }
        });
    }
}

pub fn comparison(f: &mut Fixed) {
    f.case("many lines", || {
        let lines: Vec<String> = (0..MANY).map(|i| format!("{i},500,4,1,0,100,1,0")).collect();
        let a = file(14, "TimingPoints", lines.iter().cloned());
        let b = file(14, "TimingPoints", lines.iter().map(|l| format!(" {l} \n")));
        ensure!(osu_str_eq(&a, &b), "texts that differ in layout are different");
        for at in [0, 255, 256, 65535, 65536, MANY - 1] {
            let mut other = lines.clone();
            other[at].push('1');
            ensure!(!osu_str_eq(&a, file(14, "TimingPoints", other.iter().cloned())), "texts that differ in line {at} are equal");
            other.remove(at);
            ensure!(!osu_str_eq(&a, file(14, "TimingPoints", other.iter().cloned())), "texts without and with line {at} are equal");
        }
        let long = |end: &str| file(14, "Metadata", std::iter::once(format!("Title:{}{end}", "a".repeat(MANY))));
        ensure!(osu_str_eq(long("b"), long("b ")), "long texts that differ in layout are different");
        ensure!(!osu_str_eq(long("b"), long("c")), "long texts that differ at the end are equal");
        Ok(())
    });
}

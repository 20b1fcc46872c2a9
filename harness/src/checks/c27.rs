//! The work that's done for a text is in proportion to its length.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cmds::{self, Cmd};
use crate::model::events::gen_events;
use crate::model::file::*;
use crate::model::*;
use osu_file_parser::events::storyboard::cmds::{Command, CommandProperties};
use osu_file_parser::events::storyboard::sprites::Object;
use osu_file_parser::events::{Event, EventWithCommands};
use osu_file_parser::*;
use std::hint::black_box;

pub const CHECK: Check = Check {
    id: "C27",
    rule: "the long text is at least 16 times as long as the short one, and the short one takes at least 0.1 ms",
    assumptions: &[
        "the time the processor spends on a thread is measured, the smallest of several runs; only amounts that are more than six times of what is in proportion are reported, and only if that repeats",
    ],
    fixed,
    parts: &[
        Part { name: "texts", case: texts, quick: 900, thorough: 40_000 },
        Part { name: "edits", case: edits, quick: 200, thorough: 8_000 },
    ],
};

/// How often the short text's amount is in the long one.
const TIMES: usize = 24;
/// How far from being in proportion is too far.
const SLACK: f64 = 6.0;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Time in ns that the processor spent on this thread.
fn spent() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    let r = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(r, 0, "the clock can't be read");
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

fn time(f: &mut dyn FnMut()) -> u64 {
    let before = spent();
    f();
    spent() - before
}

fn least(runs: usize, f: &mut dyn FnMut()) -> u64 {
    (0..runs).map(|_| time(f)).min().unwrap_or(0)
}

/// The time of the long work isn't much more than what's in proportion to the one of the short work.
fn in_proportion(what: &str, short_len: usize, long_len: usize, short: &mut dyn FnMut(), long: &mut dyn FnMut()) -> Result<u64, String> {
    let times = long_len as f64 / short_len.max(1) as f64;
    let mut told = String::new();
    let mut base = least(3, short);
    let mut all = u64::MAX;
    for attempt in 0..6 {
        all = all.min(time(long));
        // a short time could be that of a warm cache only
        let limit = (base.max(30_000)) as f64 * times * SLACK;
        if (all as f64) <= limit {
            return Ok(base);
        }
        told = format!(
            "{what}: {:.3} ms for {short_len} bytes, {:.1} ms for {long_len} bytes: {times:.1} times the length takes {:.0} times as long",
            base as f64 / 1e6,
            all as f64 / 1e6,
            all as f64 / base as f64,
        );
        if attempt > 0 {
            if all as f64 > 4.0 * limit {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(20 << attempt));
            // something else could have slowed down the long one only
            base = base.max(least(2, short));
        }
    }
    Err(told)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    File,
    Storyboard,
}

/// A text that can be made of any length.
struct Shape {
    name: &'static str,
    kind: Kind,
    v: Version,
    make: Box<dyn Fn(usize) -> String>,
}

const SPRITE: &str = "Sprite,Pass,Centre,\"a.png\",1,2";

fn file(v: Version, section: &str, content: String) -> String {
    format!("osu file format v{v}\n\n[{section}]\n{content}")
}

fn repeat_lines(lines: &[String], n: usize) -> String {
    let mut out = String::new();
    for _ in 0..n {
        for l in lines {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}

fn list(one: &str, sep: &str, n: usize) -> String {
    let mut out = String::with_capacity(n * (one.len() + sep.len()));
    for i in 0..n {
        if i > 0 {
            out.push_str(sep);
        }
        out.push_str(one);
    }
    out
}

/// The amount of repetitions that makes the text about `len` bytes long.
fn amount(make: &dyn Fn(usize) -> String, len: usize) -> usize {
    let (a, b) = (make(10).len(), make(20).len());
    let each = (b - a).max(10) / 10;
    (len / each.max(1)).max(4)
}

fn shape(s: &mut Src) -> Shape {
    let v = version(s);
    let mut kind = Kind::File;
    let (name, make): (&'static str, Box<dyn Fn(usize) -> String>) = match s.below(19) {
        0 => {
            let mut lines = Vec::new();
            for e in gen_events(s, v) {
                lines.extend(e.lines(s, v));
            }
            if lines.is_empty() {
                lines.push("2,1,2".to_string());
            }
            ("events", Box::new(move |n| file(v, "Events", repeat_lines(&lines, n))))
        }
        1 => {
            let i = s.pick(&[5usize, 6, 7]);
            let sec = Section::gen(s, i, v);
            let mut lines: Vec<String> = sec.items(s, v).into_iter().flatten().collect();
            if lines.is_empty() {
                lines.push(["0,500,4,1,0,100,1,0", "Combo1 : 1,2,3", "1,2,3,1,0"][i - 5].to_string());
            }
            let name = sec.name();
            ("items", Box::new(move |n| file(v, name, repeat_lines(&lines, n))))
        }
        2 | 3 => {
            let level = s.pick(&[1usize, 1, 2, 4]);
            let list = Cmd::list(s);
            let mut lines = Vec::new();
            cmds::lines_all(s, &list, level, &mut lines);
            if lines.is_empty() {
                lines.push(format!("{}F,0,1,2,1", " ".repeat(level)));
            }
            let head: Vec<String> = std::iter::once(SPRITE.to_string()).chain((1..level).map(|i| format!("{}L,1,2", " ".repeat(i)))).collect();
            ("commands of a sprite", Box::new(move |n| file(14, "Events", head.join("\n") + "\n" + &repeat_lines(&lines, n))))
        }
        4 => {
            let (head, one) = s.pick(&[
                ("F,0,1,2,1", "0.5"),
                ("M,0,1,2,1,2", "3,4"),
                ("MX,0,1,2,1", "-5"),
                ("MY,0,1,2,1", "x"),
                ("S,0,1,2,1", "1.25"),
                ("V,0,1,2,1,2", "3,4"),
                ("R,0,1,2,1", "3.14159"),
                ("C,0,1,2,1,2,3", "4,5,6"),
                ("P,0,1,2,H", "V"),
            ]);
            ("values of a command", Box::new(move |n| file(14, "Events", format!("{SPRITE}\n {head},{}", list(one, ",", n)))))
        }
        5 => {
            let what = s.below(3);
            (
                "parts of a slider",
                Box::new(move |n| {
                    let few = |at: usize, one: &str| if at == what { list(one, "|", n) } else { one.to_string() };
                    file(14, "HitObjects", format!("1,2,3,2,0,B|{},1,100,{},{},0:0:0:0:", few(0, "12:-34"), few(1, "2"), few(2, "1:2")))
                }),
            )
        }
        6 => {
            let (section, key, one, sep) = s.pick(&[
                ("Metadata", "Tags:", "ab", " "),
                ("Metadata", "Title:", "a\u{3042} b", ""),
                ("Metadata", "Artist:", "://", ""),
                ("Editor", "Bookmarks: ", "123", ","),
                ("General", "SkinPreference:", "[x]", ""),
                ("General", "AudioFilename: ", "a b\"", ""),
                ("Difficulty", "HPDrainRate:", "5", ""),
                ("General", "StackLeniency: ", "x,", ""),
            ]);
            ("value of a field", Box::new(move |n| file(14, section, format!("{key}{}", list(one, sep, n)))))
        }
        7 => {
            let one = s.pick(&["", "// a", " ", "//[a]", "\t\t"]);
            let at = s.below(4);
            (
                "lines without content",
                Box::new(move |n| {
                    let lines = repeat_lines(&[one.to_string()], n);
                    match at {
                        0 => format!("osu file format v{v}\n{lines}[General]\nMode: 0\n"),
                        1 => format!("osu file format v{v}\n[General]\nMode: 0\n{lines}[Editor]\nGridSize: 4\n"),
                        2 => format!("osu file format v{v}\n[Events]\n2,1,2\n{lines}2,1,2\n{lines}"),
                        _ => format!("osu file format v{v}\n[HitObjects]\n1,2,3,1,0\n{lines}"),
                    }
                }),
            )
        }
        8 => {
            let (section, head, one, tail) = s.pick(&[
                ("Events", "Sprite,Pass,Centre,\"", "a ", "\",1,2"),
                ("Events", "Animation,Pass,Centre,\"", "a.", "png\",1,2,3,4,LoopForever"),
                ("Events", "0,0,\"", "\\", "\",1,2"),
                ("Events", "Sample,1,0,\"", "/", "\",50"),
                ("Events", "//", "/", ""),
                ("Events", "2,1,", "1", ""),
                ("Events", "3,100,1,2,", "0", "3"),
                ("HitObjects", "1,2,3,1,0,0:0:0:0:", "a", ".wav"),
                ("HitObjects", "1,2,3,1,0", ",", ""),
                ("HitObjects", "1,2,", "3", ",1,0"),
                ("HitObjects", "1,2,3,2,0,B", "|", ""),
                ("TimingPoints", "0,", "0", ".5,4,1,0,100,1,0"),
                ("TimingPoints", "0,500,4,1,0,100,1", ",0", ""),
                ("Colours", "Combo1 : 1,2,", "0", "3"),
                ("Colours", "Combo", "1", " : 1,2,3"),
                ("", "[", "a", "]"),
                ("", "[", "[", "]"),
                ("", "a", "]", ""),
            ]);
            ("part of a line", Box::new(move |n| file(14, section, format!("{head}{}{tail}\n", list(one, "", n)))))
        }
        9 | 10 => {
            // the amount of variables stays the same, every one of them is looked for in every line
            kind = Kind::Storyboard;
            let amount = s.size(1, 6);
            let vars: Vec<String> = (0..amount).map(|i| format!("${}={}", ["a", "bc", "b", "long", "x1", "x"][i], s.pick(&["1", "0.5", "12,34", "a"]))).collect();
            let lines: Vec<String> = (0..s.size(1, 5))
                .map(|_| {
                    s.pick(&[
                        " F,0,$a,,1",
                        " M,0,1,2,$a,$bc,$a",
                        " S,0,1,2,$b,$long,$x1,$x",
                        "Sprite,Pass,Centre,\"$a.png\",$a,2",
                        "// $a $b",
                        " L,0,2",
                        "  F,0,1,2,$a",
                        " F,0,1,2,12,34,0.5",
                    ])
                    .to_string()
                })
                .collect();
            ("lines with variables", Box::new(move |n| format!("[Variables]\n{}\n\n[Events]\n{SPRITE}\n{}", vars.join("\n"), repeat_lines(&lines, n))))
        }
        11 => {
            kind = Kind::Storyboard;
            let one = s.pick(&["$a", "1", "$ab", "$b", "1,$a", "$"]);
            ("line with variables", Box::new(move |n| format!("[Variables]\n$a=1\n$ab=2\n\n[Events]\n{SPRITE}\n F,0,1,2,{}", list(one, ",", n))))
        }
        12 => {
            kind = Kind::Storyboard;
            let (name, value) = s.pick(&[("a", ""), ("", "1"), ("", "1,"), ("ab", "="), ("", "$")]);
            ("variable", Box::new(move |n| format!("[Variables]\n${}x={}\n\n[Events]\n{SPRITE}\n F,0,1,2,$x", list(name, "", n), list(value, "", n))))
        }
        13 => {
            kind = Kind::Storyboard;
            let one = s.pick(&["", "// a", " ", "//[a]"]);
            let at = s.below(4);
            (
                "lines without content of a storyboard",
                Box::new(move |n| {
                    let lines = repeat_lines(&[one.to_string()], n);
                    match at {
                        0 => format!("{lines}[Events]\n2,1,2\n"),
                        1 => format!("[Variables]\n$a=1\n{lines}[Events]\n2,1,2\n"),
                        2 => format!("[Events]\n2,1,2\n{lines}2,1,2\n{lines}"),
                        _ => format!("[Events]\n{SPRITE}\n F,0,1,2,1\n{lines} F,0,1,2,1\n"),
                    }
                }),
            )
        }
        14 => {
            let noise = Noise::gen(s);
            let source = File::gen(s, v).source(s, noise).text();
            // whatever it is, the lines of it over and over
            let lines: Vec<String> = source.lines().map(|l| l.to_string()).collect();
            ("a text over and over", Box::new(move |n| repeat_lines(&lines, n)))
        }
        15 => {
            let one = text(s, 12);
            let before = s.pick(&["", "osu file format v14\n", "[Events]\n"]);
            if s.bool() {
                kind = Kind::Storyboard;
            }
            ("any text", Box::new(move |n| format!("{before}{}", list(&one, "", n))))
        }
        16 => {
            // levels of loops, the length is the square of the amount
            let end = s.pick(&["F,0,1,2,1", "x"]);
            (
                "loops in loops",
                Box::new(move |n| {
                    let depth = ((2 * n) as f64).sqrt() as usize;
                    let mut lines = vec![SPRITE.to_string()];
                    lines.extend((1..depth).map(|i| format!("{}L,1,2", " ".repeat(i))));
                    lines.push(format!("{}{end}", " ".repeat(depth)));
                    file(14, "Events", lines.join("\n"))
                }),
            )
        }
        17 => {
            // up and down
            let deep = s.size(2, 8);
            let lines: Vec<String> = (1..deep).map(|i| format!("{}{}", " ".repeat(i), s.pick(&["L,1,2", "T,Passing,0,1"]))).chain(std::iter::once(format!("{}F,0,1,2,1", " ".repeat(deep)))).collect();
            ("loops", Box::new(move |n| file(14, "Events", format!("{SPRITE}\n{}", repeat_lines(&lines, n)))))
        }
        _ => {
            let one = s.pick(&["[Foo]\n", "[Events]\n", "[", "]\n", "a:b\n", "x\n", "\r\n", "\u{feff}", "\"", "a\u{3042}\n"]);
            let before = s.pick(&["", "osu file format v14\n", "osu file format v14\n[General]\nMode: 0\n"]);
            ("something over and over", Box::new(move |n| format!("{before}{}", list(one, "", n))))
        }
    };
    // something that's wrong behind all of it
    let make = match s.below(4) {
        0 => {
            let end = s.pick(&["\nx", "\n[Foo]\n", "\n[", "\n2,x,2", "\na:"]);
            Box::new(move |n: usize| make(n) + end) as Box<dyn Fn(usize) -> String>
        }
        _ => make,
    };
    Shape { name, kind, v, make }
}

/// Everything that's done with one text.
fn each(kind: Kind, v: Version, texts: [&str; 2]) -> Result<u64, String> {
    let lens = [texts[0].len(), texts[1].len()];
    let mut first = 0;
    let start = std::time::Instant::now();
    macro_rules! measure {
        ($what:expr, $short:expr, $long:expr) => {{
            // the machine is busy with something else
            if start.elapsed().as_secs() > 6 {
                return Ok(first);
            }
            let t = in_proportion($what, lens[0], lens[1], &mut || { let _ = black_box($short); }, &mut || { let _ = black_box($long); })?;
            if first == 0 {
                first = t;
            }
        }};
    }
    match kind {
        Kind::File => {
            measure!("reading", texts[0].parse::<OsuFile>(), texts[1].parse::<OsuFile>());
            match (texts[0].parse::<OsuFile>(), texts[1].parse::<OsuFile>()) {
                (Ok(mut a), Ok(mut b)) => {
                    for v in [a.version, 3, 14] {
                        (a.version, b.version) = (v, v);
                        measure!("writing", a.to_string(), b.to_string());
                    }
                    measure!("copying and comparing", a.clone() == a, b.clone() == b);
                }
                (Err(a), Err(b)) => {
                    measure!("telling the error", a.display_error_with_line(texts[0]), b.display_error_with_line(texts[1]));
                }
                _ => {}
            }
        }
        Kind::Storyboard => {
            let file = |t: &str| {
                let mut f = OsuFile::new(v.max(14));
                f.append_osb(t).map(|_| f)
            };
            measure!("reading", file(texts[0]), file(texts[1]));
            match (file(texts[0]), file(texts[1])) {
                (Ok(a), Ok(b)) => {
                    measure!("writing", a.osb_to_string(), b.osb_to_string());
                    measure!("copying and comparing", a.clone() == a, b.clone() == b);
                }
                (Err(a), Err(b)) => {
                    measure!("telling the error", a.display_error_with_line(texts[0]), b.display_error_with_line(texts[1]));
                }
                _ => {}
            }
        }
    }
    measure!("comparing texts", osu_str_eq(texts[0], texts[0]), osu_str_eq(texts[1], texts[1]));
    Ok(first)
}

fn texts(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let shape = shape(s);
    let len = s.pick(&[4_000usize, 16_000, 40_000]);
    let n = amount(&*shape.make, len);
    let (short, long) = ((shape.make)(n), (shape.make)(n * TIMES));
    c.label(shape.name);
    if short.len() < 1_000 || long.len() < 16 * short.len() {
        c.label("too short");
        return Ok(());
    }
    c.sample(|| format!("{} ({:?}), {} and {} bytes: {:?}", shape.name, shape.kind, short.len(), long.len(), short.chars().take(200).collect::<String>()));
    let t = each(shape.kind, shape.v, [&short, &long]).map_err(|e| format!("{}: {e}", shape.name))?;
    if t >= 100_000 {
        c.nontrivial(&short);
    }
    Ok(())
}

/// The amount of commands, with those that are in it.
fn count(c: &Command) -> usize {
    match &c.properties {
        CommandProperties::Loop { commands, .. } | CommandProperties::Trigger { commands, .. } => 1 + commands.iter().map(count).sum::<usize>(),
        _ => 1,
    }
}

/// Making a long list by changing it step by step.
fn edits(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let what = s.below(3);
    let n = s.pick(&[300usize, 600]);
    match what {
        0 => {
            c.label("values added to a command");
            let cmd: Command = fs(" C,0,1,2,1,2,3", 14).map_err(|e| format!("{e:?}"))?.ok_or("no command")?;
            let gaps = s.bool();
            let make = |n: usize| {
                let mut c = cmd.clone();
                match &mut c.properties {
                    CommandProperties::Colour { colours: l, .. } => (0..n).for_each(|i| {
                        let last = (!gaps).then_some(2);
                        l.push_continuing_rgbs((i as u8, last, last))
                    }),
                    _ => {}
                }
                c
            };
            let n = n * 10;
            let t = in_proportion("adding values", n, n * TIMES, &mut || drop(black_box(make(n))), &mut || drop(black_box(make(n * TIMES))))?;
            if t >= 50_000 {
                c.nontrivial(&format!("{gaps} {n} {cmd:?}"));
            }
        }
        1 => {
            c.label("commands added to a sprite");
            let level = s.pick(&[1usize, 1, 2, 3]);
            let list: Vec<Command> = Cmd::list(s).iter().map(|c| c.to_crate()).collect();
            let cmd = |t: &str| fs::<Command>(t, 14).map_err(|e| format!("{e:?}"))?.ok_or("no command".to_string());
            let (one, looped) = (cmd(" F,0,1,2,1")?, cmd(" L,1,2")?);
            let object: Object = fs(SPRITE, 14).map_err(|e| format!("{e:?}"))?.ok_or("no sprite")?;
            // the commands that are in others are copied as well
            let n = (2 * n).div_ceil(list.iter().map(count).sum::<usize>() + 1);
            let make = |n: usize| {
                let mut o = object.clone();
                for i in 1..level {
                    o.try_push_cmd(looped.clone(), i).map_err(|e| format!("{e:?}"))?;
                }
                for _ in 0..n {
                    for c in list.iter().chain([&one]) {
                        o.try_push_cmd(c.clone(), level).map_err(|e| format!("{e:?}"))?;
                    }
                }
                Ok::<_, String>(o)
            };
            make(1)?;
            let t = in_proportion("adding commands", n, n * TIMES, &mut || drop(black_box(make(n))), &mut || drop(black_box(make(n * TIMES))))?;
            if t >= 50_000 {
                c.nontrivial(&format!("{level} {n} {list:?}"));
            }
        }
        _ => {
            c.label("events");
            let evs: Vec<Event> = gen_events(s, 14).iter().filter_map(|e| e.to_crate()).collect();
            let n = (2 * n).div_ceil(evs.len().max(1));
            let make = |n: usize| {
                let mut f = OsuFile::new(14);
                let mut list = Vec::new();
                for _ in 0..n {
                    list.extend(evs.iter().cloned());
                }
                f.events = Some(Events(list));
                f.to_string()
            };
            let t = in_proportion("writing events", n, n * TIMES, &mut || drop(black_box(make(n))), &mut || drop(black_box(make(n * TIMES))))?;
            if t >= 100_000 {
                c.nontrivial(&format!("{n} {evs:?}"));
            }
        }
    }
    Ok(())
}

fn fixed(_: &mut Fixed) {}

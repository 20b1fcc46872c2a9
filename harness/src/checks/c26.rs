//! Reading and writing have no memory and don't change anything.

use super::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cmds::Cmd;
use crate::model::events::gen_events;
use crate::model::file::*;
use crate::model::kv;
use crate::model::*;
use crate::mutate::*;
use osu_file_parser::colours::{Colour, Rgb};
use osu_file_parser::events::storyboard::cmds::{Command, CommandProperties};
use osu_file_parser::events::storyboard::sprites::{Object, ObjectType};
use osu_file_parser::events::{self, Event, EventWithCommands};
use osu_file_parser::hitobjects::{HitObject, HitObjectParams, HitSample};
use osu_file_parser::timingpoints::TimingPoint;
use osu_file_parser::*;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};

pub const CHECK: Check = Check {
    id: "C26",
    rule: "at least two different texts, one of them accepted",
    assumptions: &[],
    fixed: |_| {},
    parts: &[
        Part { name: "histories", case: histories, quick: 30_000, thorough: 2_500_000 },
        Part { name: "threads", case: threads, quick: 6_000, thorough: 500_000 },
        Part { name: "values", case: values, quick: 25_000, thorough: 2_000_000 },
    ],
};

/// The versions values are written in.
const SOME: [Version; 4] = [3, 5, 11, 14];

/// What a text is read as.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    File,
    Storyboard,
    Section(usize),
    Item(usize),
    Compared,
}

#[derive(Clone, Debug, PartialEq)]
struct Task {
    kind: Kind,
    v: Version,
    text: String,
}

type Reader = fn(&str, Version) -> String;

macro_rules! readers {
    ($($ty:ty),* $(,)?) => {
        [$(|t: &str, v: Version| -> String {
            match fs::<$ty>(t, v) {
                Ok(x) => {
                    let mut out = format!("{x:?}");
                    if let Some(x) = &x {
                        for w in SOME {
                            out.push_str(&format!("\nv{w} {:?}", ts(x, w)));
                        }
                        out.push_str(&format!("\n{x:?}"));
                    }
                    out
                }
                Err(e) => format!("{e:?} {e}"),
            }
        }),*]
    };
}

const LISTS: [Reader; 4] = readers![Events, TimingPoints, Colours, HitObjects];

const ITEMS: [Reader; 14] = readers![
    Command,
    HitObject,
    TimingPoint,
    Colour,
    Rgb,
    events::Background,
    events::Video,
    events::Break,
    events::SpriteLegacy,
    events::SampleLegacy,
    events::AudioSample,
    Object,
    HitSample,
    osb::Variable,
];

fn error<E: Debug + Display>(text: &str, e: &Error<E>) -> String {
    format!("{e:?} {e} {} {}", e.line_index(), e.display_error_with_line(text))
}

fn written(f: &OsuFile) -> String {
    let mut out = String::new();
    let mut g = f.clone();
    for w in SOME {
        g.version = w;
        out.push_str(&format!("{g}\n{:?}\n", g.osb_to_string()));
    }
    for p in f.timing_points.iter().flat_map(|t| &t.0) {
        out.push_str(&format!("{:?} {:?} ", p.calc_bpm(), p.calc_slider_velocity_multiplier()));
    }
    let all = f.events.iter().chain(f.osb.iter().flat_map(|o| &o.events));
    for e in all.flat_map(|e| &e.0) {
        if let Event::StoryboardObject(Object { object_type: ObjectType::Animation(a), .. }) = e {
            if a.frame_count < 50 {
                out.push_str(&format!("{:?} ", a.frame_file_names()));
            }
        }
    }
    out
}

impl Task {
    /// Everything that can be seen of reading the text.
    fn run(&self) -> String {
        let (t, v) = (&self.text, self.v);
        match self.kind {
            Kind::File => match t.parse::<OsuFile>() {
                Ok(f) => format!("{f:?}\n{}", written(&f)),
                Err(e) => error(t, &e),
            },
            Kind::Storyboard => {
                let mut f = OsuFile::new(v);
                match f.append_osb(t) {
                    Ok(()) => format!("{f:?}\n{}", written(&f)),
                    Err(e) => error(t, &e),
                }
            }
            Kind::Section(i) if i < 4 => match kv::parse(kv::SECS[i], t, v) {
                Ok(x) => {
                    let all: Vec<_> = SOME.iter().map(|w| x.as_ref().and_then(|x| x.print(*w))).collect();
                    format!("{x:?} {all:?}")
                }
                Err(e) => format!("{e:?}"),
            },
            Kind::Section(i) => LISTS[i - 4](t, v),
            Kind::Item(i) => ITEMS[i](t, v),
            Kind::Compared => {
                let trimmed = osu_str_trimmer(t);
                format!("{trimmed} {} {}", osu_str_eq(t, &trimmed), osu_str_eq(t, format!("{t}\na")))
            }
        }
    }
}

const NAMES: [&str; 3] = ["vaA", "vbB", "vcC"];

/// Puts a variable in place of one of the fields, or at the end.
fn use_variable(s: &mut Src, line: &mut String) {
    let mut fields: Vec<String> = line.split(',').map(str::to_string).collect();
    let variable = format!("${}", s.pick(&NAMES));
    if fields.len() > 1 && s.chance(5, 6) {
        let i = 1 + s.below(fields.len() - 1);
        fields[i] = variable;
    } else {
        fields.push(variable);
    }
    *line = fields.join(",");
}

/// Gives one of the variables another value, and leaves everything else as it is.
fn other_value(s: &mut Src, text: &str) -> String {
    let mut lines: Vec<String> = text.split('\n').map(str::to_string).collect();
    let defined: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].starts_with('$') && lines[*i].contains('=')).collect();
    if let Some(i) = (!defined.is_empty()).then(|| s.pick(&defined)) {
        let name = lines[i].split('=').next().unwrap_or_default().to_string();
        lines[i] = format!("{name}={}", s.below(30));
    }
    lines.join("\n")
}

fn gen_task(s: &mut Src) -> Task {
    let v = if s.bool() { 14 } else { version(s) };
    let (kind, text) = match s.weighted(&[3, 3, 4, 6, 1]) {
        0 => {
            let f = File::gen(s, v);
            (Kind::File, f.source(s, Noise::default()).text())
        }
        1 => {
            let number = s.bool();
            let value = |s: &mut Src| if number { s.below(30).to_string() } else { piece(s) };
            let vars: Vec<String> = (0..s.size(0, 3)).map(|i| format!("${}={}", NAMES[i], value(s))).collect();
            let mut lines: Vec<String> = gen_events(s, 14).iter().flat_map(|e| e.lines(s, 14)).collect();
            for l in &mut lines {
                if l.starts_with(' ') && s.chance(1, 3) {
                    use_variable(s, l);
                }
            }
            let mut secs = vec![("Variables".to_string(), vars), ("Events".to_string(), lines)];
            if s.chance(1, 12) {
                secs.remove(s.below(2));
            }
            (Kind::Storyboard, build(s, None, &secs, Noise::default()).text())
        }
        2 => {
            let i = s.below(8);
            let text: Vec<String> = Section::gen(s, i, v).items(s, v).into_iter().flatten().collect();
            (Kind::Section(i), text.join("\n"))
        }
        3 => {
            let i = s.below(ITEMS.len());
            let from = |s: &mut Src, i: usize| Section::gen(s, i, v).items(s, v).into_iter().flatten().next().unwrap_or_default();
            let text = match i {
                0 => Cmd::gen(s, 0).line(s),
                1 => from(s, 7),
                2 => from(s, 5),
                3 => from(s, 6),
                4 => format!("{},{},{}", s.below(256), s.below(256), s.below(256)),
                5..=11 => from(s, 4),
                12 => format!("{}:{}:{}:{}:{}", s.below(4), s.below(4), s.below(9), s.below(101), word(s)),
                _ => format!("${}={}", word(s), piece(s)),
            };
            (Kind::Item(i), text)
        }
        _ => {
            let f = File::gen(s, v);
            (Kind::Compared, f.source(s, Noise::default()).text())
        }
    };
    Task { kind, v, text }
}

/// Texts of which many are variations of others.
fn gen_tasks(s: &mut Src) -> Vec<Task> {
    let mut tasks = vec![gen_task(s)];
    for _ in 0..s.steps(1, 6) {
        let mut t = if s.chance(1, 3) { gen_task(s) } else { s.pick(&tasks) };
        match s.weighted(&[4, 2, 1, 1]) {
            0 if t.kind == Kind::Storyboard && s.bool() => t.text = other_value(s, &t.text),
            0 => t.text = mutate_once(s, &t.text),
            1 => t.v = version(s),
            2 => {
                t.kind = match t.kind {
                    Kind::File => Kind::Compared,
                    Kind::Compared => Kind::File,
                    Kind::Item(_) => Kind::Item(s.below(ITEMS.len())),
                    k => k,
                }
            }
            _ => {}
        }
        tasks.push(t);
    }
    tasks
}

fn describe(tasks: &[Task]) -> String {
    tasks.iter().map(|t| format!("{:?} v{} {:?}", t.kind, t.v, t.text)).collect::<Vec<_>>().join("; ")
}

fn note(c: &mut Ctx, tasks: &[Task], outcomes: &[String]) {
    let log = describe(tasks);
    c.sample(|| log.clone());
    if tasks.iter().any(|t| *t != tasks[0]) && outcomes.iter().any(|o| o.contains("Some") || o.contains("OsuFile")) {
        c.nontrivial(&log);
    }
}

fn order(s: &mut Src, n: usize) -> Vec<usize> {
    (0..s.size(n, 2 * n)).map(|_| s.below(n)).collect()
}

fn histories(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let tasks = gen_tasks(s);
    let first: Vec<String> = tasks.iter().map(Task::run).collect();
    note(c, &tasks, &first);
    let mut before = vec![];
    for i in order(s, tasks.len()) {
        let again = tasks[i].run();
        before.push(i);
        ensure!(
            again == first[i],
            "{}: after reading the texts {before:?}, text {i} gives\n{again}\nand gave\n{}",
            describe(&tasks),
            first[i]
        );
    }
    Ok(())
}

fn threads(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let tasks = gen_tasks(s);
    let first: Vec<String> = tasks.iter().map(Task::run).collect();
    note(c, &tasks, &first);
    let orders: Vec<Vec<usize>> = (0..s.steps(2, 3)).map(|_| order(s, tasks.len())).collect();
    let (tasks, first) = (&tasks, &first);
    let results: Vec<Result<(), String>> = std::thread::scope(|scope| {
        let running: Vec<_> = orders
            .iter()
            .map(|order| {
                scope.spawn(move || -> Result<(), String> {
                    for &i in order {
                        let again = no_panic("reading in a thread", || tasks[i].run())?;
                        ensure!(
                            again == first[i],
                            "{}: one of several threads, with the texts {order:?}, gives for text {i}\n{again}\nand before\n{}",
                            describe(tasks),
                            first[i]
                        );
                    }
                    Ok(())
                })
            })
            .collect();
        running.into_iter().map(|r| r.join().unwrap_or_else(|_| Err("a thread panicked".to_string()))).collect()
    });
    results.into_iter().collect()
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn change_commands(s: &mut Src, cmds: &mut Vec<Command>) {
    match s.below(4) {
        0 => {
            cmds.pop();
        }
        1 => cmds.reverse(),
        _ => {
            for c in cmds.iter_mut() {
                c.start_time = Some(s.range(-9, 9) as i32);
                match &mut c.properties {
                    CommandProperties::Loop { commands, .. } | CommandProperties::Trigger { commands, .. } => {
                        change_commands(s, commands)
                    }
                    CommandProperties::Fade { continuing_opacities, .. } => continuing_opacities.push(1.into()),
                    CommandProperties::Colour { colours, .. } => {
                        let _ = colours.set_continuing_rgbs(0, (1, Some(2), Some(3)));
                        colours.start_rgb_mut().0 ^= 1;
                    }
                    _ => {}
                }
            }
        }
    }
}

/// Changes parts of a file in place.
fn change(s: &mut Src, f: &mut OsuFile) {
    for _ in 0..s.steps(1, 4) {
        match s.below(9) {
            0 => f.version = version(s),
            1 => f.osb = None,
            2 => f.metadata = Some(Metadata::new()),
            3 => {
                for e in f.events.iter_mut().chain(f.osb.iter_mut().flat_map(|o| &mut o.events)).flat_map(|e| &mut e.0) {
                    match e {
                        Event::StoryboardObject(o) => {
                            change_commands(s, o.commands_mut());
                            match &mut o.object_type {
                                ObjectType::Sprite(x) => x.filepath.set("x.png"),
                                ObjectType::Animation(x) => x.frame_count ^= 1,
                                _ => {}
                            }
                        }
                        Event::Background(b) => change_commands(s, b.commands_mut()),
                        Event::Comment(t) => t.push('x'),
                        _ => {}
                    }
                }
            }
            4 => {
                for p in f.timing_points.iter_mut().flat_map(|t| &mut t.0) {
                    p.set_time(s.range(-9, 9) as i32);
                    p.set_meter(9);
                }
            }
            5 => {
                for o in f.hitobjects.iter_mut().flat_map(|t| &mut t.0) {
                    o.hitsound.set_clap(!o.hitsound.clap());
                    o.position.x = 7.into();
                    if let HitObjectParams::Slider(x) = &mut o.obj_params {
                        x.curve_points.clear();
                        x.slides ^= 1;
                    }
                    if let Some(x) = &mut o.hitsample {
                        x.filename.push('x');
                        x.volume.set_use_timing_point_volume();
                    }
                }
            }
            6 => {
                if let Some(x) = &mut f.colours {
                    x.0.reverse();
                }
            }
            7 => f.hitobjects = f.hitobjects.take().map(|h| HitObjects(h.0.into_iter().rev().collect())),
            _ => {
                let _ = f.append_osb("[Events]\n//changed");
            }
        }
    }
}

fn values(s: &mut Src, c: &mut Ctx) -> CaseResult {
    let v = if s.bool() { 14 } else { version(s) };
    let f = File::gen(s, v);
    let text = f.source(s, Noise::default()).text();
    let mut file = match text.parse::<OsuFile>() {
        Ok(f) => f,
        Err(e) => fail!("{text:?} isn't read: {e}"),
    };
    if v >= 14 && s.bool() {
        let lines: Vec<String> = gen_events(s, 14).iter().flat_map(|e| e.lines(s, 14)).collect();
        let osb = format!("[Variables]\n$a=10\n[Events]\n{}", lines.join("\n"));
        if let Err(e) = file.append_osb(&osb) {
            fail!("{osb:?} isn't added: {e}");
        }
    }
    c.sample(|| text.clone());
    c.nontrivial(&text);
    let seen = format!("{file:?}");
    let copy = file.clone();
    ensure!(copy == file && format!("{copy:?}") == seen, "{text:?}: the copy of {file:?} is {copy:?}");
    same(format_args!("{text:?}: hash of the copy"), hash_of(&file), hash_of(&copy))?;
    let out = written(&file);
    ensure!(format!("{file:?}") == seen, "{text:?}: writing changed {seen} to {file:?}");
    ensure!(file == copy, "{text:?}: writing changed {copy:?} to {file:?}");
    same(format_args!("{text:?}: written again"), &out, &written(&file))?;
    same(format_args!("{text:?}: hash after writing"), hash_of(&copy), hash_of(&file))?;
    // what's equal has an equal hash
    if let Ok(mut again) = file.to_string().parse::<OsuFile>() {
        again.osb = file.osb.clone();
        if again == file {
            c.label("read again as equal");
            same(format_args!("{text:?}: hash of what's written and read again"), hash_of(&file), hash_of(&again))?;
        }
    }
    // changing the copy doesn't change the original
    let mut copy = copy;
    change(s, &mut copy);
    c.label_if(copy != file, "changed");
    ensure!(format!("{file:?}") == seen, "{text:?}: changing a copy to {copy:?} changed {seen} to {file:?}");
    same(format_args!("{text:?}: written after a copy was changed"), &out, &written(&file))?;
    // and what's changed is written as what it is
    let other = copy.clone();
    same(format_args!("{text:?}: written after it was changed"), written(&other), written(&copy))
}

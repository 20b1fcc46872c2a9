//! Storyboard commands.

use super::*;
use crate::engine::Src;
use crate::gen::*;
use osu_file_parser::events::storyboard::cmds as sc;
use osu_file_parser::events::storyboard::types as st;
use osu_file_parser::VersionedFrom;

#[derive(Clone, Debug)]
pub enum Trig {
    HitSound {
        set: Option<usize>,
        additions: Option<usize>,
        addition: Option<usize>,
        custom: Option<u64>,
    },
    Passing,
    Failing,
}

pub const TRIG_SETS: [&str; 4] = ["All", "Normal", "Soft", "Drum"];
pub const ADDITIONS: [&str; 3] = ["Whistle", "Finish", "Clap"];
pub const PARAMS: [&str; 3] = ["H", "V", "A"];

impl Trig {
    pub fn gen(s: &mut Src) -> Trig {
        match s.weighted(&[1, 1, 4]) {
            0 => Trig::Passing,
            1 => Trig::Failing,
            _ => {
                let set = s.bool().then(|| s.below(4));
                Trig::HitSound {
                    set,
                    // a lone sample set is the first one
                    additions: if set.is_some() && s.bool() { Some(s.below(4)) } else { None },
                    addition: s.bool().then(|| s.below(3)),
                    custom: s.bool().then(|| uint(s, u64::MAX)),
                }
            }
        }
    }

    pub fn print(&self) -> String {
        match self {
            Trig::Passing => "Passing".to_string(),
            Trig::Failing => "Failing".to_string(),
            Trig::HitSound {
                set,
                additions,
                addition,
                custom,
            } => format!(
                "HitSound{}{}{}{}",
                set.map_or("", |i| TRIG_SETS[i]),
                additions.map_or("", |i| TRIG_SETS[i]),
                addition.map_or("", |i| ADDITIONS[i]),
                custom.map_or(String::new(), |c| c.to_string())
            ),
        }
    }

    pub fn to_crate(&self) -> st::TriggerType {
        let set_of = |i: usize| {
            [
                st::SampleSet::All,
                st::SampleSet::Normal,
                st::SampleSet::Soft,
                st::SampleSet::Drum,
            ][i]
        };
        match self {
            Trig::Passing => st::TriggerType::Passing,
            Trig::Failing => st::TriggerType::Failing,
            Trig::HitSound {
                set,
                additions,
                addition,
                custom,
            } => st::TriggerType::HitSound {
                sample_set: set.map(set_of),
                additions_sample_set: additions.map(set_of),
                addition: addition.map(|i| {
                    [st::Addition::Whistle, st::Addition::Finish, st::Addition::Clap][i]
                }),
                custom_sample_set: custom.map(|c| c as usize),
            },
        }
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    /// Commands with single numbers: F MX MY S R.
    One(usize, Num, Vec<Num>),
    /// Commands with pairs of numbers: M V.
    Two(usize, (Num, Num), Vec<(Num, Option<Num>)>),
    Colour([u8; 3], Vec<(u8, Option<u8>, Option<u8>)>),
    Param(usize, Vec<usize>),
    Loop(u32),
    Trigger(Trig, Option<i32>),
}

pub const ONES: [&str; 5] = ["F", "MX", "MY", "S", "R"];
pub const TWOS: [&str; 2] = ["M", "V"];

#[derive(Clone, Debug)]
pub struct Cmd {
    pub easing: i32,
    pub start: Option<i32>,
    pub end: Option<i32>,
    pub kind: Kind,
    /// Sub commands of a loop or trigger.
    pub subs: Vec<Cmd>,
}

fn easing(s: &mut Src) -> i32 {
    match s.weighted(&[8, 1]) {
        0 => s.range(0, 34) as i32,
        _ => int(s),
    }
}

pub fn easing_of(v: i32) -> st::Easing {
    use st::Easing::*;
    const ALL: [st::Easing; 35] = [
        Linear,
        EasingOut,
        EasingIn,
        QuadIn,
        QuadOut,
        QuadInOut,
        CubicIn,
        CubicOut,
        CubicInOut,
        QuartIn,
        QuartOut,
        QuartInOut,
        QuintIn,
        QuintOut,
        QuintInOut,
        SineIn,
        SineOut,
        SineInOut,
        ExpoIn,
        ExpoOut,
        ExpoInOut,
        CircIn,
        CircOut,
        CircInOut,
        ElasticIn,
        ElasticOut,
        ElasticHalfOut,
        ElasticQuarterOut,
        ElasticInOut,
        BackIn,
        BackOut,
        BackInOut,
        BounceIn,
        BounceOut,
        BounceInOut,
    ];
    if (0..35).contains(&v) {
        ALL[v as usize]
    } else {
        Other(v)
    }
}

pub fn param_of(i: usize) -> st::Parameter {
    [
        st::Parameter::ImageFlipHorizontal,
        st::Parameter::ImageFlipVertical,
        st::Parameter::UseAdditiveColourBlending,
    ][i]
}

impl Cmd {
    /// A command with at most `depth` levels of sub commands.
    pub fn gen(s: &mut Src, depth: usize) -> Cmd {
        let kind = match s.weighted(&[5, 3, 2, 2, 1 + depth as u64, 1 + depth as u64]) {
            0 => Kind::One(s.below(5), num(s), vec_of(s, 10, num)),
            1 => {
                let mut cont: Vec<_> = vec_of(s, 8, |s| (num(s), Some(num(s))));
                if !cont.is_empty() && s.chance(1, 3) {
                    cont.last_mut().unwrap().1 = None;
                }
                Kind::Two(s.below(2), (num(s), num(s)), cont)
            }
            2 => {
                let mut cont: Vec<_> = vec_of(s, 8, |s| (byte(s), Some(byte(s)), Some(byte(s))));
                if let Some(last) = cont.last_mut() {
                    match s.weighted(&[2, 1, 1]) {
                        0 => {}
                        1 => last.2 = None,
                        _ => {
                            last.1 = None;
                            last.2 = None;
                        }
                    }
                }
                Kind::Colour([byte(s), byte(s), byte(s)], cont)
            }
            3 => Kind::Param(s.below(3), vec_of(s, 6, |s| s.below(3))),
            4 => Kind::Loop(uint(s, u32::MAX as u64) as u32),
            _ => Kind::Trigger(Trig::gen(s), s.bool().then(|| int(s))),
        };
        let (start, end) = match kind {
            Kind::Loop(_) => (if s.chance(1, 5) { None } else { Some(int(s)) }, None),
            Kind::Trigger(..) => (s.bool().then(|| int(s)), s.bool().then(|| int(s))),
            _ => match s.weighted(&[4, 2, 1]) {
                0 => (Some(int(s)), Some(int(s))),
                1 => (Some(int(s)), None),
                _ => (None, None),
            },
        };
        let subs = if depth > 0 && matches!(kind, Kind::Loop(_) | Kind::Trigger(..)) {
            vec_of(s, 6, |s| Cmd::gen(s, depth - 1))
        } else {
            Vec::new()
        };
        Cmd {
            easing: easing(s),
            start,
            end,
            kind,
            subs,
        }
    }

    pub fn list(s: &mut Src) -> Vec<Cmd> {
        let depth = s.pick(&[0usize, 1, 1, 2, 3, 5]);
        vec_of(s, 8, |s| Cmd::gen(s, depth))
    }

    /// The text without indentation. `spell` chooses the spelling of numbers, without it they're as the crate writes.
    fn text(&self, mut spell: Option<&mut Src>) -> String {
        let mut i = |v: i64| match &mut spell {
            Some(s) => spell_int(s, v),
            None => v.to_string(),
        };
        let easing = i(self.easing as i64);
        let start = self.start.map(|t| i(t as i64));
        let end = self.end.map(|t| i(t as i64));
        let group = match &self.kind {
            Kind::Trigger(_, g) => g.map(|g| i(g as i64)),
            _ => None,
        };
        let mut n = |v: &Num| match &mut spell {
            Some(s) => spell_num(s, v),
            None => v.print(),
        };
        let head = |h: &str| {
            format!(
                "{h},{easing},{},{}",
                start.clone().unwrap_or_default(),
                end.clone().unwrap_or_default()
            )
        };
        match &self.kind {
            Kind::One(h, a, cont) => {
                let mut t = format!("{},{}", head(ONES[*h]), n(a));
                for c in cont {
                    t.push_str(&format!(",{}", n(c)));
                }
                t
            }
            Kind::Two(h, (x, y), cont) => {
                let mut t = format!("{},{},{}", head(TWOS[*h]), n(x), n(y));
                for (x, y) in cont {
                    t.push_str(&format!(",{}", n(x)));
                    if let Some(y) = y {
                        t.push_str(&format!(",{}", n(y)));
                    }
                }
                t
            }
            Kind::Colour([r, g, b], cont) => {
                let mut u = |v: u8| match &mut spell {
                    Some(s) => spell_uint(s, v as u64),
                    None => v.to_string(),
                };
                let mut t = format!("{},{},{},{}", head("C"), u(*r), u(*g), u(*b));
                for (r, g, b) in cont {
                    t.push_str(&format!(",{}", u(*r)));
                    if let Some(g) = g {
                        t.push_str(&format!(",{}", u(*g)));
                    }
                    if let Some(b) = b {
                        t.push_str(&format!(",{}", u(*b)));
                    }
                }
                t
            }
            Kind::Param(p, cont) => {
                let mut t = format!("{},{}", head("P"), PARAMS[*p]);
                for p in cont {
                    t.push_str(&format!(",{}", PARAMS[*p]));
                }
                t
            }
            Kind::Loop(count) => {
                let count = match &mut spell {
                    Some(s) => spell_uint(s, *count as u64),
                    None => count.to_string(),
                };
                format!("L,{},{count}", start.unwrap_or_default())
            }
            Kind::Trigger(t, _) => {
                let mut fields = vec![start, end, group];
                while fields.last() == Some(&None) {
                    fields.pop();
                }
                let mut t = format!("T,{}", t.print());
                for f in fields {
                    t.push_str(&format!(",{}", f.unwrap_or_default()));
                }
                t
            }
        }
    }

    /// The text as it's written, without indentation.
    pub fn print(&self) -> String {
        self.text(None)
    }

    pub fn line(&self, s: &mut Src) -> String {
        let mut t = self.text(Some(s));
        if self.end.is_none() && self.start.is_some() && s.chance(1, 8) {
            // a blank end time is no end time
            if let Kind::One(..) | Kind::Two(..) | Kind::Colour(..) | Kind::Param(..) = self.kind {
                let mut f: Vec<String> = t.split(',').map(|f| f.to_string()).collect();
                f[3] = s.pick(&[" ", "  ", "\t"]).to_string();
                t = f.join(",");
            }
        }
        if let Kind::Trigger(_, group) = &self.kind {
            if s.chance(1, 8) {
                // spacing around the type of the trigger
                let mut f: Vec<String> = t.split(',').map(|f| f.to_string()).collect();
                let space = s.pick(&[" ", "  ", "\t"]);
                f[1] = match s.below(3) {
                    0 => format!("{space}{}", f[1]),
                    1 => format!("{}{space}", f[1]),
                    _ => format!("{space}{} ", f[1]),
                };
                t = f.join(",");
            }
            if self.end.is_none() && group.is_none() && s.chance(1, 6) {
                // an empty end time is no end time
                t.push_str(if self.start.is_some() { "," } else { ",," });
            }
        }
        t
    }

    pub fn to_crate(&self) -> sc::Command {
        let easing = easing_of(self.easing);
        let end_time = self.end;
        let properties = match &self.kind {
            Kind::One(h, a, cont) => {
                let a = a.to_crate();
                let cont: Vec<_> = cont.iter().map(|n| n.to_crate()).collect();
                match h {
                    0 => sc::CommandProperties::Fade {
                        easing,
                        end_time,
                        start_opacity: a,
                        continuing_opacities: cont,
                    },
                    1 => sc::CommandProperties::MoveX {
                        easing,
                        end_time,
                        start_x: a,
                        continuing_x: cont,
                    },
                    2 => sc::CommandProperties::MoveY {
                        easing,
                        end_time,
                        start_y: a,
                        continuing_y: cont,
                    },
                    3 => sc::CommandProperties::Scale {
                        easing,
                        end_time,
                        start_scale: a,
                        continuing_scales: cont,
                    },
                    _ => sc::CommandProperties::Rotate {
                        easing,
                        end_time,
                        start_rotation: a,
                        continuing_rotations: cont,
                    },
                }
            }
            Kind::Two(h, (x, y), cont) => {
                let fields = sc::ContinuingFields::new(
                    (x.to_crate(), y.to_crate()),
                    cont.iter()
                        .map(|(x, y)| (x.to_crate(), y.as_ref().map(|y| y.to_crate())))
                        .collect(),
                )
                .expect("valid continuing fields");
                if *h == 0 {
                    sc::CommandProperties::Move {
                        easing,
                        end_time,
                        positions_xy: fields,
                    }
                } else {
                    sc::CommandProperties::VectorScale {
                        easing,
                        end_time,
                        scales_xy: fields,
                    }
                }
            }
            Kind::Colour([r, g, b], cont) => sc::CommandProperties::Colour {
                easing,
                end_time,
                colours: sc::Colours::new((*r, *g, *b), cont.clone()).expect("valid colours"),
            },
            Kind::Param(p, cont) => sc::CommandProperties::Parameter {
                easing,
                end_time,
                parameter: param_of(*p),
                continuing_parameters: cont.iter().map(|p| param_of(*p)).collect(),
            },
            Kind::Loop(loop_count) => sc::CommandProperties::Loop {
                loop_count: *loop_count,
                commands: self.subs.iter().map(|c| c.to_crate()).collect(),
            },
            Kind::Trigger(t, group_number) => sc::CommandProperties::Trigger {
                trigger_type: t.to_crate(),
                end_time,
                group_number: *group_number,
                commands: self.subs.iter().map(|c| c.to_crate()).collect(),
            },
        };
        sc::Command {
            start_time: self.start,
            properties,
        }
    }

    pub fn count(&self) -> usize {
        1 + self.subs.iter().map(|c| c.count()).sum::<usize>()
    }

    pub fn depth(&self) -> usize {
        1 + self.subs.iter().map(|c| c.depth()).max().unwrap_or(0)
    }
}

/// The lines of commands as they're written.
pub fn print_all(cmds: &[Cmd], level: usize, out: &mut Vec<String>) {
    for c in cmds {
        out.push(format!("{}{}", " ".repeat(level), c.print()));
        print_all(&c.subs, level + 1, out);
    }
}

/// The lines of commands as they're spelled in a source.
pub fn lines_all(s: &mut Src, cmds: &[Cmd], level: usize, out: &mut Vec<String>) {
    for c in cmds {
        let under = s.chance(1, 6);
        let indent: String = (0..level)
            .map(|_| if under && s.bool() { '_' } else { ' ' })
            .collect();
        out.push(format!("{indent}{}", c.line(s)));
        lines_all(s, &c.subs, level + 1, out);
    }
}

/// Written text of the numbers of crate values, which equality of values doesn't tell apart.
pub fn crate_easing(v: i32) -> st::Easing {
    <st::Easing as VersionedFrom<i32>>::from(v, 14).unwrap()
}

pub fn total(cmds: &[Cmd]) -> usize {
    cmds.iter().map(|c| c.count()).sum()
}

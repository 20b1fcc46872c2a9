use super::*;
use crate::engine::Src;
use crate::gen::*;
use osu_file_parser::colours::*;

#[derive(Clone, Debug)]
pub enum Kind {
    Combo(i32),
    Track,
    Border,
}

#[derive(Clone, Debug)]
pub struct Col {
    pub kind: Kind,
    pub rgb: [u8; 3],
}

fn space(s: &mut Src) -> &'static str {
    s.pick(&["", "", " ", " ", "  ", "\t"])
}

impl Col {
    pub fn gen(s: &mut Src) -> Col {
        let kind = match s.weighted(&[6, 1, 1]) {
            0 => Kind::Combo(match s.weighted(&[5, 1]) {
                0 => s.range(1, 8) as i32,
                _ => uint(s, i32::MAX as u64) as i32,
            }),
            1 => Kind::Track,
            _ => Kind::Border,
        };
        Col {
            kind,
            rgb: [byte(s), byte(s), byte(s)],
        }
    }

    pub fn line(&self, s: &mut Src) -> String {
        let name = match self.kind {
            Kind::Combo(n) => format!("Combo{}", spell_uint(s, n as u64)),
            Kind::Track => "SliderTrackOverride".to_string(),
            Kind::Border => s.pick(&["SliderBorder", "Sliderborder"]).to_string(),
        };
        let plain = s.chance(2, 3);
        let mut sp = |s: &mut Src| if plain { "" } else { space(s) };
        let sep = if plain { " : ".to_string() } else { format!("{}:{}", space(s), space(s)) };
        let [r, g, b] = self.rgb.map(|c| c as u64);
        let (r, g, b) = (spell_uint(s, r), spell_uint(s, g), spell_uint(s, b));
        format!(
            "{}{name}{sep}{r}{},{}{g}{},{}{b}{}",
            sp(s),
            sp(s),
            sp(s),
            sp(s),
            sp(s),
            sp(s)
        )
    }

    pub fn print(&self) -> String {
        let name = match self.kind {
            Kind::Combo(n) => format!("Combo{n}"),
            Kind::Track => "SliderTrackOverride".to_string(),
            Kind::Border => "SliderBorder".to_string(),
        };
        let [r, g, b] = self.rgb;
        format!("{name} : {r},{g},{b}")
    }

    pub fn to_crate(&self) -> Colour {
        let [red, green, blue] = self.rgb;
        let rgb = Rgb { red, green, blue };
        match self.kind {
            Kind::Combo(n) => Colour::Combo(n, rgb),
            Kind::Track => Colour::SliderTrackOverride(rgb),
            Kind::Border => Colour::SliderBorder(rgb),
        }
    }
}

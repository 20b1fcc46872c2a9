//! The checks, one for every property.

use crate::engine::Part;

pub mod broken;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod large;
pub mod list;

/// Inputs that are always tried first: minimal inputs of defects that were found, and exhaustive tables.
pub struct Fixed {
    /// Only the case with this name is run.
    pub only: Option<String>,
    pub ran: u64,
    pub failed: Vec<(String, String)>,
    pub before: Box<dyn Fn(u64)>,
}

impl Fixed {
    pub fn case(&mut self, name: impl Into<String>, f: impl FnOnce() -> Result<(), String>) {
        let name = name.into();
        if let Some(only) = &self.only {
            if *only != name {
                return;
            }
        }
        (self.before)(self.ran);
        self.ran += 1;
        let r = match crate::engine::no_panic("the case", f) {
            Ok(r) => r,
            Err(e) => Err(e),
        };
        if let Err(e) = r {
            self.failed.push((name, e));
        }
    }
}

pub struct Check {
    pub id: &'static str,
    /// When a case is non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub fixed: fn(&mut Fixed),
    pub parts: &'static [Part],
}

pub fn all() -> Vec<Check> {
    vec![c01::CHECK, c02::CHECK, c03::CHECK, c04::CHECK, c05::CHECK, c06::CHECK, c07::CHECK, c08::CHECK, c09::CHECK, c10::CHECK, c11::CHECK, c12::CHECK, c13::CHECK, c14::CHECK, c15::CHECK, c16::CHECK, c17::CHECK, c18::CHECK, c19::CHECK, c20::CHECK, c21::CHECK, c22::CHECK, c23::CHECK, c24::CHECK, c25::CHECK, c26::CHECK, c27::CHECK]
}

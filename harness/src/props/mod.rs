#[cfg(feature = "bindings")]
pub mod bindings;
pub mod codegen;
pub mod hist;
pub mod json;
pub mod lexer;
pub mod parse;
pub mod size;
pub mod strict;
pub mod suites;
pub mod total;
pub mod visit;

use crate::conv;
use crate::engine::{Check, Done, Property, Task, Tier};
use crate::model::{Outcome, Parsed, Stop};

pub fn short(s: &str) -> String {
    let s: String = s.chars().take(600).collect();
    s
}

/// Verdict and tree of the implementation are those of the model.
pub fn agree(text: &str, m: &Parsed) -> Check {
    match (&m.out, ratel::parse(text)) {
        (Outcome::Stop(Stop::Unspec(_)), _) => Ok(Done::Skipped),
        (Outcome::Ok(t), Ok(module)) => {
            let i = conv::program(module.body());
            if t.same(&i) { Ok(Done::Compared) } else { Err(format!("parsed as {}, expected {}", short(&i.show()), short(&t.show()))) }
        }
        (Outcome::Ok(t), Err(e)) => Err(format!("rejected ({}), expected {}", short(&format!("{:?}", e)), short(&t.show()))),
        (Outcome::Stop(Stop::Reject { pos, end, .. }), Ok(module)) =>
            Err(format!("accepted as {}, expected an error at {}..{}", short(&conv::program(module.body()).show()), pos, end)),
        (Outcome::Stop(Stop::Reject { .. }), Err(e)) => if e.is_empty() { Err("no errors reported".into()) } else { Ok(Done::Compared) },
    }
}

pub struct Dev;
impl Property for Dev {
    fn id(&self) -> &'static str { "dev" }
    fn scope(&self, _: Tier) -> String { String::new() }
    fn text(&self, text: &str, m: &Parsed) -> Check { agree(text, m) }
    fn tasks(&self, tier: Tier) -> Vec<Task> {
        suites::common(tier)
    }
}

/// Writes texts with the model's verdict.
pub struct Export;
impl Property for Export {
    fn id(&self) -> &'static str { "export" }
    fn scope(&self, _: Tier) -> String { String::new() }
    fn tasks(&self, tier: Tier) -> Vec<Task> { Dev.tasks(tier) }
    fn text(&self, text: &str, m: &Parsed) -> Check {
        use std::io::Write;
        let every: u64 = std::env::var("MC_EXPORT").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let h = text.bytes().fold(7u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(9));
        if h.wrapping_mul(0x9E3779B97F4A7C15) >> 33 & 0xffffff >= 0x1000000 / every { return Ok(Done::Skipped); }
        let (v, t) = match m.out {
            Outcome::Ok(ref t) => ("ok", t.show()),
            Outcome::Stop(Stop::Unspec(why)) if std::env::var("MC_OPEN").is_ok() => (if ratel::parse(text).is_ok() { "open, accepted" } else { "open, rejected" }, why.to_string()),
            Outcome::Stop(Stop::Unspec(_)) => return Ok(Done::Skipped),
            Outcome::Stop(_) => ("rej", String::new()),
        };
        let line = serde_json::json!({ "t": text, "v": v, "tree": t }).to_string() + "\n";
        let o = std::io::stdout();
        let mut o = o.lock();
        let _ = o.write_all(line.as_bytes());
        let _ = o.flush();
        Ok(Done::Compared)
    }
}

pub fn all() -> Vec<&'static dyn Property> {
    #[allow(unused_mut)]
    let mut v: Vec<&'static dyn Property> = vec![&Dev, &Export, &total::C01, &lexer::C02, &lexer::C03, &json::C04, &parse::C05, &parse::C06, &parse::C07, &parse::C08, &parse::C09, &parse::C10, &json::C11,
        &codegen::C12, &codegen::C13, &codegen::C14, &parse::C15, &visit::C16, &visit::C17, &visit::C18, &hist::C20, &size::C21];
    #[cfg(feature = "bindings")]
    v.push(&bindings::C19);
    v
}

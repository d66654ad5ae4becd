//! Checks that look at whole texts and compiled programs: all but C03, C04 and C21.

mod code;
mod parts;
mod texts;

use mc::run::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--deep") {
        texts::compile_deep(&args[2]);
        return;
    }
    if args.get(1).map(String::as_str) == Some("--first") {
        code::compile_first(&args[2], args[3] == "module");
        return;
    }
    mc::run::main(make)
}

fn make(property: &str, thorough: bool) -> Option<Check> {
    texts::make(property, thorough).or_else(|| code::make(property, thorough)).or_else(|| parts::make(property, thorough))
}

pub fn check(property: &str, states: &'static str, transitions: &'static str, assumptions: &[&'static str], stages: Vec<Stage>) -> Option<Check> {
    Some(Check { property: property.into(), states, transitions, assumptions: assumptions.to_vec(), stages })
}

//! Comparison of compiled programs, on the reference machine, with the reference interpreter, over all environment answers.

use crate::analyze::analyze;
use crate::code::{decode, Code};
use crate::parse::parse;
use crate::run::{hash, Ctx};
use crate::value::{World, E, R, V};
use crate::{interp, vm};
use dice_bytecode::Bytecode;
use dice_compiler::compiler::Compiler;
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};
use std::rc::Rc;

pub fn compile(text: &str, module: bool) -> Result<Bytecode, Error> {
    Compiler::compile_source(Source::new(text.to_string(), if module { SourceKind::Module } else { SourceKind::Script }))
}

#[derive(Clone, Copy)]
pub struct Bounds {
    /// Choices of the environment per run.
    pub choices: usize,
    pub fuel: u64,
}

pub fn compile_at(text: &str, path: &str, module: bool) -> Result<Bytecode, Error> {
    let kind = if module { SourceKind::Module } else { SourceKind::Script };
    Compiler::compile_source(Source::with_path(text.to_string(), path.to_string(), kind))
}

fn show(trace: &[String], r: &R<V>) -> String {
    let mut s: Vec<String> = trace.iter().take(60).cloned().collect();
    s.push(match r {
        Ok(_) => "end".into(),
        Err(e) => format!("end {e:?}"),
    });
    s.join("\n    ")
}

/// All runs of one program, compared. The text must be a sentence of the grammar.
pub fn compare(ctx: &mut Ctx, text: &str, module: bool, b: Bounds) {
    ctx.note(text);
    let root = match parse(text) {
        Ok(r) => r,
        Err(e) => panic!("the generator made a text outside the grammar: {text:?} {e:?}"),
    };
    if !analyze(&root, module).is_empty() {
        ctx.tally.skipped += 1;
        return;
    }
    let code = match compile(text, module) {
        Ok(c) => c,
        Err(e) => {
            ctx.tally.rejected += 1;
            return ctx.violation(format!("a program that breaks no rule is rejected: {e:?}"));
        }
    };
    ctx.tally.accepted += 1;
    let code = match decode(&code) {
        Ok(c) => c,
        Err(e) => return ctx.violation(format!("the compiled code cannot be decoded: {e}")),
    };
    runs(ctx, &root, &code, module, b);
}

/// The full verdict: a text outside the grammar or against the rules must be rejected, any other must do what it says.
pub fn decide(ctx: &mut Ctx, text: &str, module: bool, b: Bounds) {
    match parse(text) {
        Ok(root) if analyze(&root, module).is_empty() => compare(ctx, text, module, b),
        Ok(_) => rejected(ctx, text, module, "breaks a rule of the language"),
        Err(e) => rejected(ctx, text, module, &format!("is outside the grammar (token {})", e.at)),
    }
}

fn rejected(ctx: &mut Ctx, text: &str, module: bool, why: &str) {
    ctx.note(text);
    ctx.tally.states += 1;
    ctx.tally.transitions += 1;
    ctx.tally.traces += 1;
    match compile(text, module) {
        Ok(_) => ctx.violation(format!("accepted, though the text {why}")),
        Err(e) => {
            ctx.tally.rejected += 1;
            ctx.outcome(hash(e.error_code()));
        }
    }
}

pub fn runs(ctx: &mut Ctx, root: &crate::ast::Node, code: &Rc<Code>, module: bool, b: Bounds) {
    let mut script: Vec<usize> = vec![];
    loop {
        let mut a = World::new(&script, b.choices, b.fuel);
        let ra = interp::run(&mut a, root, module);
        let ra = a.finish(ra);
        let mut m = World::new(&script, b.choices, b.fuel * 20);
        if matches!(ra, Err(E::Fuel) | Err(E::Undef)) {
            m.max_trace = a.trace.len();
        }
        let rm = vm::run(&mut m, code, module);
        let rm = m.finish(rm);
        ctx.tally.traces += 1;
        ctx.tally.states += 1 + (a.arity.len() - script.len().min(a.arity.len())) as u64;
        ctx.tally.transitions += m.steps;
        let same = match &ra {
            Err(E::Fuel) | Err(E::Undef) => m.trace.len() >= a.trace.len() && m.trace[..a.trace.len()] == a.trace[..],
            Err(E::Bad(x)) => panic!("the reference interpreter failed: {x}"),
            Ok(_) => rm.is_ok() && m.trace == a.trace,
            Err(e) => m.trace == a.trace && rm.as_ref().err() == Some(e),
        };
        if !same {
            let d = format!(
                "the compiled program does something else than its source says, under the environment's choices {:?}\n  source:\n    {}\n  compiled:\n    {}",
                a.script,
                show(&a.trace, &ra),
                show(&m.trace, &rm)
            );
            return ctx.violation(d);
        }
        ctx.outcome(hash(&a.trace.join("\n")));
        // Next script in depth-first order.
        script = a.script.clone();
        script.truncate(a.arity.len());
        let arity = a.arity.clone();
        loop {
            match script.pop() {
                None => return,
                Some(x) if x + 1 < arity[script.len()] => {
                    script.push(x + 1);
                    break;
                }
                Some(_) => {}
            }
        }
    }
}

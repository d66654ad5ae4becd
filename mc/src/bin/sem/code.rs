//! Checks of what programs compile to: C06 to C12 and C15 to C20.

use crate::check;
use dice_bytecode::Bytecode;
use dice_core::source::{Source, SourceKind};
use mc::analyze::analyze;
use mc::code::{self, decode, name, operand, Code, Opd};
use mc::families::{self, Family};
use mc::lex::{self, lex};
use mc::run::*;
use mc::seeds::SEEDS;
use mc::sem::{compare, compile, compile_at, Bounds};
use mc::shapes;
use mc::sizes::{self, filler, Size, Span, BREAKS, MODULE_SIZES, MORE, MORE_MODULES, SIZES, SPANS};
use mc::value::World;
use mc::{parse, verify};
use std::collections::HashSet;
use std::rc::Rc;
use std::sync::Arc;

const RUNS: (&str, &str) = ("programs x sequences of environment answers executed", "instructions executed on the reference machine");
const MACHINE: &str = "The reference machine (mc/src/vm.rs) executes instructions as dice-runtime's interpreter source specifies them; that crate does not compile at this commit.";
const SMALL: &str = "Programs and environment histories larger than the stated bounds behave like those within them.";
const NATIVES: &str = "The environment is a fixed set of functions, objects, classes and modules whose answers are enumerated.";

pub fn make(property: &str, thorough: bool) -> Option<Check> {
    let t = thorough as usize;
    let semantic = |f: Vec<Family>| {
        let mut s: Vec<Stage> = f.into_iter().map(runs).collect();
        s.extend(growing(property, thorough));
        check(property, RUNS.0, RUNS.1, &[MACHINE, NATIVES, SMALL], s)
    };
    match property {
        "C06" => check(
            property,
            "(instruction, stack height) states of emitted functions, all of them explored, and functions",
            "control-flow edges explored",
            &["The stack effect of each instruction is that of dice-runtime's interpreter source.", SMALL],
            well_formed(thorough),
        ),
        "C07" => {
            let mut c = semantic(vec![families::expr(6 + t, 4), families::ops(), shapes::names_in("names of fields", shapes::FIELDS, false), shapes::sequences("statements in sequence", shapes::SEQ_PLAIN, 3, 3 + t, false), shapes::amid("constructs amid much", shapes::MANY_PLAIN, shapes::KINDS, 3, false), shapes::grafts("constructs in places", shapes::PLAIN, 2, 3 + t)]);
            c.as_mut()?.stages.push(documented());
            c
        }
        "C08" => {
            let mut v = families::loops(6 + t, 4);
            v.push(shapes::exits());
            v.push(shapes::ranges());
            v.push(shapes::sequences("statements in sequence inside loops", shapes::SEQ_LOOPED, 3, 3 + t, false));
            v.push(shapes::amid("constructs amid many loops", shapes::MANY_LOOPED, shapes::KINDS, 3, false));
            v.push(shapes::grafts("constructs in places inside loops", shapes::LOOPED, 2, 3 + t));
            semantic(v)
        }
        "C09" => {
            let mut v = families::closures(6 + t, 4);
            v.push(families::nest(5 + t, 4));
            v.extend(families::captures(5 + t, 4));
            v.push(shapes::namesakes());
            v.push(shapes::names_paired(false));
            v.push(shapes::names_paired(true));
            v.push(shapes::towers(4 + t));
            v.push(shapes::sequences("statements in sequence inside closures", shapes::SEQ_CLOSED, 3, 3 + t, false));
            v.push(shapes::sequences("statements in sequence", shapes::SEQ_PLAIN, 3, 3 + t, false));
            v.push(shapes::amid("constructs amid many functions", shapes::MANY_CLOSED, shapes::KINDS, 3, false));
            v.push(shapes::grafts("constructs in places inside closures", shapes::CLOSED, 2, 3 + t));
            semantic(v)
        }
        "C10" | "C11" => check(
            property,
            "programs judged",
            "rules found broken in them",
            &["The rules are those of the reference analyser (mc/src/analyze.rs), written from the property.", SMALL],
            rules(property, thorough),
        ),
        "C12" => check(
            property,
            RUNS.0,
            RUNS.1,
            &[MACHINE, NATIVES, "Sizes between and beyond those enumerated behave like their neighbours."],
            sizes(thorough),
        ),
        "C15" => check(property, "functions disassembled", "instructions compared", &[SMALL], disassembly(thorough)),
        "C16" => check(property, "programs compiled in different circumstances", "pairs of results compared", &[SMALL], deterministic(thorough)),
        "C17" => semantic(vec![families::classes(5 + t, 4), families::classes2(4 + t, 4), shapes::members(), shapes::operator_pairs(), shapes::hierarchies(), shapes::names_in("names of members", shapes::MEMBERS, false), shapes::sequences("statements in sequence inside classes", shapes::SEQ_OF_CLASS, 3, 3 + t, false), shapes::amid("constructs amid many members", shapes::MANY_OF_CLASS, shapes::KINDS, 3, false), shapes::grafts("constructs in places inside classes", shapes::OF_CLASS, 2, 3 + t)]),
        "C18" => {
            let mut v = families::modules(5 + t, 4);
            v.push(shapes::exported());
            v.push(shapes::names_paired(true));
            v.push(shapes::imported());
            v.push(shapes::sequences("statements in sequence in modules", shapes::SEQ_MODULE, 3, 3 + t, true));
            v.push(shapes::amid("constructs amid many exports", shapes::MANY_MODULE, shapes::KINDS, 3, true));
            v.push(shapes::import_paths(if thorough { 5 } else { 4 }));
            semantic(v)
        },
        "C19" => {
            let mut s: Vec<Stage> = vec![families::chains(5 + t, 4), families::failures(5 + t, 5), shapes::receivers(2 + t), shapes::names_in("names where things fail", shapes::ERRORS, false), shapes::amid("constructs amid many failures", shapes::MANY_FAILING, shapes::KINDS, 3, false), shapes::grafts("constructs in places that may fail", shapes::FAILING, 2, 3 + t)].into_iter().map(runs).collect();
            s.extend(growing(property, thorough));
            s.push(known_findings(property));
            check(property, RUNS.0, RUNS.1, &[MACHINE, NATIVES, SMALL], s)
        }
        "C20" => semantic(vec![families::types(6 + t, 4), families::is_tests(), shapes::signatures_checked(), shapes::long_signatures(), shapes::operators_checked(), shapes::names_in("names of types", shapes::TYPES, false), shapes::sequences("statements in sequence of typed functions", shapes::SEQ_TYPED, 3, 3 + t, false), shapes::amid("constructs amid many types", shapes::MANY_TYPED, shapes::KINDS, 3, false), shapes::grafts("constructs in places of typed functions", shapes::TYPED, 2, 3 + t)]),
        _ => None,
    }
}

const AMID: &[(&str, &[shapes::Many])] = &[
    ("constructs amid much", shapes::MANY_PLAIN),
    ("constructs amid many loops", shapes::MANY_LOOPED),
    ("constructs amid many functions", shapes::MANY_CLOSED),
    ("constructs amid many members", shapes::MANY_OF_CLASS),
    ("constructs amid many failures", shapes::MANY_FAILING),
    ("constructs amid many types", shapes::MANY_TYPED),
];

/// The programs that grow which are about what the property says, small sizes densely.
fn growing(property: &str, thorough: bool) -> Vec<Stage> {
    let pick = |a: &[&'static [Size]]| -> Vec<&'static Size> { a.iter().flat_map(|l| l.iter()).filter(|s| sizes::about(property, s.name)).collect() };
    let counts: Vec<usize> = if thorough { (0..320).chain([512, 1000]).collect() } else { (0..40).chain([48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200]).chain(252..260).chain([300]).collect() };
    let mut v = vec![];
    for (name, list, module) in [("growing programs", pick(&[SIZES, MORE]), false), ("growing modules", pick(&[MODULE_SIZES, MORE_MODULES]), true)] {
        if list.is_empty() {
            continue;
        }
        let n = list.len() as u64;
        let counts = counts.clone();
        let about = format!("{n} kinds of program that need n of something, for {} values of n up to {}", counts.len(), counts.last().unwrap());
        v.push(stage(name, &about, n * counts.len() as u64, move |i, ctx| {
            let s = list[(i % n) as usize];
            let k = counts[(i / n) as usize];
            sized(ctx, &(s.text)(k), module, k <= s.sure)
        }));
    }
    let spans: Vec<&'static Span> = SPANS.iter().filter(|s| sizes::about(property, s.name)).collect();
    if !spans.is_empty() {
        let lengths: Vec<usize> = (2..40).chain(120..136).chain(250..262).chain([400, 511, 512, 513, 1000, 4096, 32_700]).collect();
        let n = spans.len() as u64;
        let about = format!("{n} constructs with jumps over bodies of {} lengths up to {} bytes", lengths.len(), lengths.last().unwrap());
        v.push(stage("jump distances", &about, n * lengths.len() as u64, move |i, ctx| {
            let s = spans[(i % n) as usize];
            let l = lengths[(i / n) as usize];
            sized(ctx, &format!("{} {}{}", s.before, filler(l), s.after), false, l <= 30_000)
        }));
    }
    v
}

fn runs(f: Family) -> Stage {
    stage(f.name, &f.about.clone(), f.total, move |i, ctx| {
        let t = (f.text)(i);
        if parse::parse(&t).is_err() {
            ctx.tally.skipped += 1;
            return;
        }
        compare(ctx, &t, f.module, f.bounds)
    })
}

// ---- C06 -----------------------------------------------------------------------------------------------------------------

fn verified(ctx: &mut Ctx, text: &str, module: bool) {
    ctx.note(text);
    let code = match compile(text, module) {
        Ok(c) => c,
        Err(_) => {
            ctx.tally.rejected += 1;
            return;
        }
    };
    ctx.tally.accepted += 1;
    let d = match decode(&code) {
        Ok(d) => d,
        Err(m) => return ctx.violation(m),
    };
    match verify::check(&d, module) {
        Ok(x) => {
            ctx.tally.states += x.states;
            ctx.tally.transitions += x.transitions;
            ctx.tally.traces += x.functions;
            ctx.outcome((x.states * 31 + x.transitions) * 31 + d.len as u64);
        }
        Err(m) => ctx.violation(format!("{m}\n--- code\n{code}")),
    }
}

fn well_formed(thorough: bool) -> Vec<Stage> {
    let t = thorough as usize;
    let mut v = families::broad(1 + t);
    v.extend(families::loops(6 + t, 3));
    v.extend(families::captures(3 + t, 3));
    v.push(families::chains(4 + t, 3));
    v.push(families::failures(3 + t, 3));
    v.push(families::wild(3 + t, true));
    v.push(families::wild(3 + t, false));
    for (name, around) in [("constructs in places", shapes::PLAIN), ("constructs in places inside loops", shapes::LOOPED), ("constructs in places inside closures", shapes::CLOSED), ("constructs in places inside classes", shapes::OF_CLASS)] {
        v.push(shapes::grafts(name, around, 2, 3));
    }
    for (name, around) in [("statements in sequence", shapes::SEQ_PLAIN), ("statements in sequence inside loops", shapes::SEQ_LOOPED), ("statements in sequence inside closures", shapes::SEQ_CLOSED), ("statements in sequence inside classes", shapes::SEQ_OF_CLASS)] {
        v.push(shapes::sequences(name, around, 3, 3, false));
    }
    v.push(shapes::sequences("statements in sequence in modules", shapes::SEQ_MODULE, 3, 3, true));
    for (name, around) in AMID {
        v.push(shapes::amid(name, around, shapes::KINDS, 3, false));
    }
    v.push(shapes::amid("constructs amid many exports", shapes::MANY_MODULE, shapes::KINDS, 3, true));
    let mut s: Vec<Stage> = v
        .into_iter()
        .map(|f| stage(f.name, &f.about.clone(), f.total, move |i, ctx| verified(ctx, &(f.text)(i), f.module)))
        .collect();
    s.push(each_size("sizes", &[SIZES, MORE], false, thorough, |ctx, t, m, _| verified(ctx, t, m)));
    s.push(each_size("sizes in modules", &[MODULE_SIZES, MORE_MODULES], true, thorough, |ctx, t, m, _| verified(ctx, t, m)));
    s.push(each_span(thorough, |ctx, t, _| verified(ctx, t, false)));
    s
}

// ---- C10, C11 ------------------------------------------------------------------------------------------------------------

fn group(code: &str) -> Option<&'static str> {
    match &code[..3.min(code.len())] {
        "E23" | "E24" => Some("C10"),
        "E22" | "E25" if code != "E2505" => Some("C11"),
        _ => None,
    }
}

fn judged(ctx: &mut Ctx, text: &str, module: bool, property: &'static str) {
    let root = match parse::parse(text) {
        Ok(r) => r,
        Err(_) => {
            ctx.tally.skipped += 1;
            return;
        }
    };
    ctx.note(text);
    let broken = analyze(&root, module);
    ctx.tally.states += 1;
    ctx.tally.transitions += broken.len() as u64;
    ctx.tally.traces += 1;
    let mine = |c: &str| group(c) == Some(property);
    let summary = || broken.iter().map(|b| format!("{}{}", b.code, b.name.as_ref().map_or(String::new(), |n| format!(" ({n})")))).collect::<Vec<_>>();
    match compile(text, module) {
        Ok(_) => {
            ctx.tally.accepted += 1;
            if broken.iter().any(|b| mine(b.code)) {
                ctx.violation(format!("accepted, though it breaks {:?}", summary()));
            }
        }
        Err(e) => {
            ctx.tally.rejected += 1;
            let code = e.error_code();
            let shown = format!("{e:?}");
            if broken.is_empty() {
                if mine(code) || group(code).is_none() {
                    ctx.violation(format!("rejected, though it breaks no rule: {shown}"));
                }
            } else if mine(code) {
                let message = shown.lines().next().unwrap_or("");
                let right = broken.iter().any(|b| b.code == code && b.name.as_ref().map_or(true, |n| message.contains(&format!("'{n}'"))));
                if !right {
                    ctx.violation(format!("reports {shown}, which is not among the rules it breaks: {:?}", summary()));
                }
            } else if group(code).is_none() {
                ctx.violation(format!("reports {shown}, but what it breaks is {:?}", summary()));
            }
            ctx.outcome(hash(code) ^ broken.len() as u64);
        }
    }
}

fn rules(property: &str, thorough: bool) -> Vec<Stage> {
    let t = thorough as usize;
    let property: &'static str = if property == "C10" { "C10" } else { "C11" };
    let mut v = vec![];
    for m in [false, true] {
        if property == "C10" {
            v.push(families::names(4 + t, m));
            v.push(families::places(2 + t, m));
            v.push(shapes::across(2 + t, m));
        } else {
            v.push(shapes::placed(2 + t, m));
            v.push(families::places(4 + t, m));
            v.push(families::names(2 + t, m));
        }
        v.push(families::wild(3 + t, m));
    }
    if property == "C10" {
        v.push(shapes::across(3 + t, false));
        v.push(shapes::far_across(6 + t));
    } else {
        v.push(shapes::placed(3 + t, false));
        v.push(shapes::signatures(3));
    }
    v.push(shapes::names_paired(false));
    v.push(shapes::names_paired(true));
    v.push(shapes::sequences("statements in sequence", shapes::SEQ_PLAIN, 3, 3, false));
    v.push(shapes::sequences("statements in sequence in modules", shapes::SEQ_MODULE, 3, 3, true));
    if property == "C11" {
        v.push(shapes::sequences("statements in sequence inside loops", shapes::SEQ_LOOPED, 3, 3, false));
        v.push(shapes::sequences("statements in sequence inside closures", shapes::SEQ_CLOSED, 3, 3, false));
        v.push(shapes::sequences("statements in sequence inside classes", shapes::SEQ_OF_CLASS, 3, 3, false));
    }
    for (name, around, module) in [("rules in places", shapes::PLAIN, false), ("rules in places inside loops", shapes::LOOPED, false), ("rules in places inside closures", shapes::CLOSED, false), ("rules in places inside classes", shapes::OF_CLASS, false), ("rules in places of modules", shapes::PLAIN, true)] {
        v.push(shapes::grafts_of(name, if property == "C10" { shapes::NAME_KINDS } else { shapes::PLACE_KINDS }, around, 2, 3, module));
    }
    for (name, around) in AMID {
        v.push(shapes::amid(name, around, if property == "C10" { shapes::NAME_KINDS } else { shapes::PLACE_KINDS }, 3, false));
    }
    v.push(shapes::amid("constructs amid many exports", shapes::MANY_MODULE, if property == "C10" { shapes::NAME_KINDS } else { shapes::PLACE_KINDS }, 3, true));
    let seen: HashSet<&str> = v.iter().map(|f| f.name).collect();
    let rest: Vec<Family> = families::broad(t).into_iter().filter(|f| !seen.contains(f.name)).collect();
    v.extend(rest);
    let mut s: Vec<Stage> = v
        .into_iter()
        .map(|f| stage(f.name, &f.about.clone(), f.total, move |i, ctx| judged(ctx, &(f.text)(i), f.module, property)))
        .collect();
    for m in [false, true] {
        let name = if m { "rules at every size, in modules" } else { "rules at every size" };
        s.push(each_size(name, &[BREAKS, MORE], m, thorough, move |ctx, t, m, _| {
            let before = ctx.violations.len();
            judged(ctx, t, m, property);
            // What is too big in other ways is another property's business.
            if ctx.violations.len() > before {
                if let Err(e) = compile(t, m) {
                    if too_big(e.error_code()) {
                        ctx.violations.truncate(before);
                    }
                }
            }
        }));
    }
    s
}

// ---- C12 -----------------------------------------------------------------------------------------------------------------

fn too_big(code: &str) -> bool {
    ["E2100", "E2101", "E2102", "E2103", "E2104", "E2105", "E1005"].contains(&code)
}

fn sized(ctx: &mut Ctx, text: &str, module: bool, sure: bool) {
    ctx.note(text);
    let root = match parse::parse(text) {
        Ok(r) => r,
        Err(e) if e.codes == ["E1005"] => {
            if compile(text, module).is_ok() {
                ctx.violation("accepted, though it has more parameters than a function can have");
            }
            ctx.tally.rejected += 1;
            return;
        }
        Err(e) => panic!("the generator made a text outside the grammar: {text:?} {e:?}"),
    };
    let broken = analyze(&root, module);
    assert!(broken.is_empty(), "{broken:?} {text}");
    match compile(text, module) {
        Ok(c) => {
            ctx.tally.accepted += 1;
            match decode(&c).and_then(|d| verify::check(&d, module).map(|_| d)) {
                Ok(d) => mc::sem::runs(ctx, &root, &d, module, Bounds { choices: 4, fuel: 2_000_000 }),
                Err(m) => ctx.violation(m),
            }
        }
        Err(e) => {
            ctx.tally.rejected += 1;
            ctx.outcome(hash(e.error_code()));
            ctx.tally.states += 1;
            if sure {
                ctx.violation(format!("rejected well below every limit: {e:?}"));
            } else if !too_big(e.error_code()) {
                ctx.violation(format!("rejected, but not for its size: {e:?}"));
            }
        }
    }
}

pub fn counts(thorough: bool) -> Vec<usize> {
    if thorough {
        (0..600).chain(65_530..65_545).chain([1000, 1023, 1024, 1025, 4096, 32_767, 32_768, 66_000]).collect()
    } else {
        (0..8).chain([30, 50, 63, 64, 65, 99, 127, 128, 129, 150, 199]).chain(244..264).chain([300, 509, 510, 511, 512, 513, 514, 600]).collect()
    }
}

fn each_size(
    name: &'static str,
    list: &[&'static [Size]],
    module: bool,
    thorough: bool,
    f: impl Fn(&mut Ctx, &str, bool, bool) + Send + Sync + 'static,
) -> Stage {
    let counts = counts(thorough);
    let kinds: usize = list.iter().map(|l| l.len()).sum();
    // Deep or quadratic ones have limits of their own, or stop mattering; what is not about limits need not go far beyond them.
    let limits = |s: &Size| SIZES.iter().chain(MODULE_SIZES).any(|x| x.name == s.name);
    let fits = |s: &Size, k: usize| {
        k <= 1100 || limits(s) && (k <= 5000 || !["nested", "pending"].iter().any(|w| s.name.starts_with(w)) && !s.name.contains("closed") && !s.name.contains("links"))
    };
    let mut all: Vec<(&'static Size, usize)> = vec![];
    for k in counts.iter().rev() {
        all.extend(list.iter().flat_map(|l| l.iter()).filter(|s| fits(s, *k)).map(|s| (s, *k)));
    }
    let about = format!("{kinds} kinds of program that need n of something, for {} values of n up to {} that straddle every encoding limit", counts.len(), counts.iter().max().unwrap());
    stage(name, &about, all.len() as u64, move |i, ctx| {
        let (s, k) = all[i as usize];
        f(ctx, &(s.text)(k), module, k <= s.sure)
    })
}

/// All jump forms around bodies of every length near the limit.
fn each_span(thorough: bool, f: impl Fn(&mut Ctx, &str, bool) + Send + Sync + 'static) -> Stage {
    let lengths: Vec<usize> = if thorough {
        (2..300).chain(32_560..32_830).chain(65_300..65_560).chain(98_000..98_020).chain([131_072, 131_080]).collect()
    } else {
        (2..12).chain(240..262).chain([1000, 30_000]).chain(32_680..32_784).chain(65_500..65_545).collect()
    };
    let n = SPANS.len() as u64;
    let about = format!("{n} constructs with jumps over bodies of {} lengths up to {} bytes, every single length near the limits of the offset", lengths.len(), lengths.last().unwrap());
    stage("jump distances", &about, n * lengths.len() as u64, move |i, ctx| {
        let s = &SPANS[(i % n) as usize];
        let l = lengths[(i / n) as usize];
        let t = format!("{} {}{}", s.before, filler(l), s.after);
        f(ctx, &t, l <= 30_000)
    })
}

fn sizes(thorough: bool) -> Vec<Stage> {
    vec![
        each_size("sizes", &[SIZES, MORE], false, thorough, |ctx, t, m, sure| sized(ctx, t, m, sure)),
        each_size("sizes in modules", &[MODULE_SIZES, MORE_MODULES], true, thorough, |ctx, t, m, sure| sized(ctx, t, m, sure)),
        each_span(thorough, |ctx, t, sure| sized(ctx, t, false, sure)),
    ]
}

// ---- C15 -----------------------------------------------------------------------------------------------------------------

/// The lines a listing must have: for each function, its heading and its instructions, nested functions after it in order.
fn listing(c: &Rc<Code>, out: &mut Vec<Vec<String>>) {
    out.push(vec!["Code".into()]);
    for i in &c.ins {
        let mut v = vec![i.pos.to_string(), format!("{:02X}", i.op as u8), name(i.op).to_string()];
        match operand(i.op) {
            Opd::None => {}
            Opd::Jump => v.push(i.off.to_string()),
            Opd::SymSlot => {
                v.push(i.a.to_string());
                v.push(i.b.to_string());
            }
            Opd::Closure => {
                v.push(i.a.to_string());
                for (l, n) in &i.ups {
                    v.push(format!("{}{n}", if *l == 1 { "parent_local" } else { "upvalue" }));
                }
            }
            _ => v.push(i.a.to_string()),
        }
        out.push(v);
    }
    for k in &c.consts {
        if let code::K::Fun(f) = k {
            out.push(vec!["Function".into(), format!("{:?}", f.name)]);
            listing(f, out);
        }
    }
}

fn read_listing(text: &str) -> Vec<Vec<String>> {
    let mut out = vec![];
    for l in text.lines() {
        if l.trim().is_empty() || l.trim().chars().all(|c| c == '-') {
            continue;
        }
        if let Some(n) = l.strip_prefix("Function:") {
            out.push(vec!["Function".into(), n.trim().into()]);
            continue;
        }
        let mut v = vec![];
        for part in l.split('|') {
            for w in part.split_whitespace() {
                let w = w.trim_matches(|c| c == '(' || c == ')');
                match w.split_once('=') {
                    Some((k @ ("parent_local" | "upvalue"), n)) => v.push(format!("{k}{n}")),
                    Some((_, n)) => v.push(n.to_string()),
                    None => v.push(w.to_string()),
                }
            }
        }
        out.push(v);
    }
    out
}

fn disassembled(ctx: &mut Ctx, text: &str, module: bool) {
    ctx.note(text);
    let c = match compile(text, module) {
        Ok(c) => c,
        Err(_) => {
            ctx.tally.rejected += 1;
            return;
        }
    };
    ctx.tally.accepted += 1;
    listed(ctx, &c, false)
}

fn listed(ctx: &mut Ctx, c: &Bytecode, anywhere: bool) {
    let d = match if anywhere { code::decode_any(c) } else { decode(c) } {
        Ok(d) => d,
        Err(m) => return ctx.violation(format!("the code cannot be decoded: {m}")),
    };
    let mut want = vec![];
    listing(&d, &mut want);
    let shown = format!("{c}");
    let got = read_listing(&shown);
    d.walk(&mut |_| ctx.tally.states += 1);
    ctx.tally.transitions += want.len() as u64;
    ctx.tally.traces += 1;
    if let Some(i) = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)) {
        let shown: String = shown.chars().take(3000).collect();
        ctx.violation(format!("the listing has {:?} where the code has {:?}\n{shown}", got.get(i), want.get(i)));
    }
    for v in &want {
        ctx.outcome(hash(v.get(1).map_or("", |x| x)));
    }
}

/// Code put together from parts, whether a compiler would or not: every instruction with every operand, in every order.
fn assembled(thorough: bool) -> Vec<Stage> {
    use dice_bytecode::{ConstantValue as C, FunctionBytecode};
    fn function(code: Bytecode, name: &str, n: usize) -> C {
        C::Function(FunctionBytecode::new(code, name, uuid::Uuid::from_u128(n as u128 + 1)))
    }
    /// An instruction with an operand; the constants it needs are those of `around`.
    fn put(data: &mut Vec<u8>, i: dice_bytecode::Instruction, x: u16) {
        data.push(i.into());
        match operand(i) {
            Opd::None => {}
            Opd::Jump | Opd::SymSlot => data.extend(x.to_be_bytes()),
            Opd::Closure => data.extend([1, (x >> 8) as u8, x as u8]),
            _ => data.push(x as u8),
        }
    }
    fn inner(upvalues: usize) -> Bytecode {
        Bytecode::new(Box::new([dice_bytecode::Instruction::PushNull.into(), dice_bytecode::Instruction::Return.into()]), 1, upvalues, Box::new([]))
    }
    fn around(data: Vec<u8>) -> Bytecode {
        Bytecode::new(data.into(), 300, 300, Box::new([C::Int(1), function(inner(1), "k", 0), C::String("s".into()), C::Symbol("t".into()), function(inner(0), "l", 1)]))
    }
    let n = code::ALL.len() as u64;
    let mut v = vec![];
    v.push(stage("every instruction", &format!("each of {n} instructions with every operand, every pair of operands and every jump distance, before and after another"), n, |i, ctx| {
        let op = code::ALL[i as usize];
        ctx.note(name(op));
        let wide = matches!(operand(op), Opd::Jump | Opd::SymSlot | Opd::Closure);
        for x in 0..=if operand(op) == Opd::None { 0 } else if wide { u16::MAX } else { 255 } {
            let mut data = vec![];
            put(&mut data, op, x);
            if x % 2 == 0 {
                put(&mut data, dice_bytecode::Instruction::LoadLocal, 7);
            }
            listed(ctx, &around(data), true);
        }
    }));
    const X: &[u16] = &[0, 1, 62, 255, 256, 0x7fff, 0x8000, 0xffff];
    let k = X.len() as u64;
    v.push(stage("instructions in sequence", &format!("every sequence of three of {n} instructions, with {k} operands"), n * n, move |i, ctx| {
        let (a, b) = (code::ALL[(i % n) as usize], code::ALL[(i / n) as usize]);
        ctx.note(&format!("{} {}", name(a), name(b)));
        for c in code::ALL {
            for (j, x) in X.iter().enumerate() {
                let mut data = vec![];
                put(&mut data, a, *x);
                put(&mut data, b, X[(j + 3) % X.len()]);
                put(&mut data, *c, X[(j + 5) % X.len()]);
                listed(ctx, &around(data), true);
            }
        }
    }));
    v.push(stage("captures", "closures of every constant index with up to 255 captured variables of every index and kind", 256, |i, ctx| {
        ctx.note(&format!("constant {i}"));
        for count in 0..=255usize {
            let constants: Vec<C> = (0..=i as usize).map(|j| if j == i as usize { function(inner(count), "f", j) } else { C::Int(j as i64) }).collect();
            let mut data: Vec<u8> = vec![dice_bytecode::Instruction::CreateClosure.into(), i as u8];
            for u in 0..count {
                data.extend([((u as u64 + i) % 3 == 0) as u8, (u as u64 * 7 + i) as u8]);
            }
            put(&mut data, dice_bytecode::Instruction::Call, 3);
            listed(ctx, &Bytecode::new(data.into(), 1, 1, constants.into()), true);
        }
    }));
    // Trees of functions, by the sequence of how many each has.
    let max = if thorough { 8 } else { 7 };
    v.push(stage("functions in functions", &format!("every tree of up to {max} functions, with and without other constants between them, some of equal names"), 1 << (2 * max), move |i, ctx| {
        // A word of opening and closing brackets; others are left out.
        let word: Vec<bool> = (0..2 * max).map(|k| i >> k & 1 == 1).collect();
        let mut depth = 0i32;
        let used = 64 - i.leading_zeros() as usize;
        for close in &word[..used] {
            depth += if *close { -1 } else { 1 };
            if depth < 0 {
                ctx.tally.skipped += 1;
                return;
            }
        }
        if depth != 0 {
            ctx.tally.skipped += 1;
            return;
        }
        ctx.note(&format!("tree {i:b}"));
        fn build(word: &[bool], at: &mut usize, n: &mut usize, filler: usize) -> Vec<C> {
            let mut v = vec![];
            while *at < word.len() && !word[*at] {
                *at += 1;
                let inside = build(word, at, n, filler);
                *at += 1;
                *n += 1;
                if filler > 0 {
                    v.push([C::Int(1), C::String("Function: \"x\"".into()), C::Symbol("Code".into())][*n % 3].clone());
                }
                let mut data = vec![];
                put(&mut data, dice_bytecode::Instruction::LoadLocal, *n as u16);
                v.push(function(Bytecode::new(data.into(), 1, 0, inside.into()), ["f", "a b", "f", "é|=", "--"][*n % 5], *n));
            }
            v
        }
        for filler in 0..2 {
            let constants = build(&word[..used], &mut 0, &mut 0, filler);
            listed(ctx, &Bytecode::new(Box::new([dice_bytecode::Instruction::PushUnit.into()]), 0, 0, constants.into()), true);
        }
    }));
    v.push(stage("long code", "each instruction repeated up to 70 000 times, so that offsets become large", n, |i, ctx| {
        let op = code::ALL[i as usize];
        ctx.note(name(op));
        for count in [255, 256, 257, 999, 1000, 1001, 9999, 10_000, 21_846, 32_768, 65_536, 70_000] {
            let mut data = vec![];
            for j in 0..count {
                put(&mut data, op, j as u16);
            }
            listed(ctx, &around(data), true);
        }
    }));
    v
}

fn disassembly(thorough: bool) -> Vec<Stage> {
    let mut s: Vec<Stage> = families::broad(1 + thorough as usize)
        .into_iter()
        .map(|f| stage(f.name, &f.about.clone(), f.total, move |i, ctx| disassembled(ctx, &(f.text)(i), f.module)))
        .collect();
    for f in [shapes::names_paired(false), shapes::sequences("statements in sequence", shapes::SEQ_PLAIN, 3, 3, false)] {
        s.push(stage(f.name, &f.about.clone(), f.total, move |i, ctx| disassembled(ctx, &(f.text)(i), f.module)));
    }
    s.extend(assembled(thorough));
    s.push(each_size("sizes", &[SIZES, MORE], false, thorough, |ctx, t, m, _| disassembled(ctx, t, m)));
    s.push(each_size("sizes in modules", &[MODULE_SIZES, MORE_MODULES], true, thorough, |ctx, t, m, _| disassembled(ctx, t, m)));
    s.push(each_span(thorough, |ctx, t, _| disassembled(ctx, t, false)));
    s
}

// ---- C16 -----------------------------------------------------------------------------------------------------------------

fn result(text: &str, module: bool, path: Option<&str>, f: &dyn Fn(&str) -> String) -> Result<String, (String, String)> {
    let r = match path {
        None => compile(text, module),
        Some(p) => compile_at(text, p, module),
    };
    match r {
        Ok(c) => {
            let d = decode(&c).map_err(|m| ("undecodable".to_string(), m))?;
            let mut o = String::new();
            d.canon_names(f, &mut o);
            Ok(o)
        }
        Err(e) => Err((e.error_code().to_string(), format!("{e}"))),
    }
}

fn plain(s: &str) -> String {
    s.to_string()
}

const KEEP: &[&str] = &["self", "new", "super", "next", "value", "is_done", "iter", "is_ok", "result", "Any", "Module", "Result", "to_string"];

fn renamable(w: &str) -> bool {
    let mut c = w.chars();
    c.next().map_or(false, |c| c == '_' || c.is_ascii_alphabetic())
        && c.all(|c| c == '_' || c.is_ascii_alphanumeric())
        && !KEEP.contains(&w)
        && !w.starts_with("__anonymous_fn_")
        && !lex::KEYWORDS.contains(&w)
        && !lex::RESERVED_WORDS.contains(&w)
}

const RENAMINGS: &[(&str, fn(&str) -> String)] = &[
    ("longer", |s| if renamable(s) { format!("{s}_{s}_q") } else { s.into() }),
    ("reordered", |s| {
        if renamable(s) {
            let f = |c: char| match c {
                'a'..='z' => (b'a' + (b'z' - c as u8)) as char,
                'A'..='Z' => (b'A' + (b'Z' - c as u8)) as char,
                c => c,
            };
            format!("Z{}", s.chars().map(f).collect::<String>())
        } else {
            s.into()
        }
    }),
    ("very long", |s| if renamable(s) { format!("{s}{}", "_x".repeat(150)) } else { s.into() }),
];

fn renamed(text: &str, f: &dyn Fn(&str) -> String) -> String {
    let mut o = String::new();
    let mut at = 0;
    for t in lex(text) {
        o.push_str(&text[at..t.start]);
        let w = &text[t.start..t.end];
        if t.kind == lex::IDENT {
            o.push_str(&f(w));
        } else if t.kind == lex::STRING {
            o.push_str(&format!("\"{}\"", f(&w[1..w.len() - 1])));
        } else if t.kind == lex::BARG {
            o.push_str(&format!("\\{}\\", f(&w[1..w.len() - 1])));
        } else {
            o.push_str(w);
        }
        at = t.end;
    }
    o.push_str(&text[at..]);
    o
}

fn relaid(text: &str) -> String {
    let mut o = String::from("// \"é\n");
    for t in lex(text) {
        o.push_str(&text[t.start..t.end]);
        o.push_str("\r\n//\n\t // x {\n");
    }
    o
}

fn same(ctx: &mut Ctx, text: &str, module: bool) {
    ctx.note(text);
    ctx.tally.states += 1;
    let a = result(text, module, None, &plain);
    let mut differ = |what: &str, b: &Result<String, (String, String)>, exact: bool, a: &Result<String, (String, String)>, ctx: &mut Ctx| {
        ctx.tally.transitions += 1;
        let ok = match (a, b) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => a.0 == b.0 && (!exact || a.1 == b.1),
            _ => false,
        };
        if !ok {
            ctx.violation(format!("{what} gives another result\n--- first\n{}\n--- then\n{}", show(a), show(b)));
        }
    };
    let b = result(text, module, None, &plain);
    differ("compiling again", &b, true, &a, ctx);
    for path in ["m", "src/file.dice", "Any"] {
        let b = result(text, module, Some(path), &plain);
        differ("another file name", &b, false, &a, ctx);
    }
    let b = result(&relaid(text), module, None, &plain);
    differ("another layout", &b, false, &a, ctx);
    for (what, f) in RENAMINGS {
        let want = match result(text, module, None, f) {
            Ok(x) => Ok(x),
            Err(e) => Err(e),
        };
        let b = result(&renamed(text, f), module, None, &plain);
        differ(what, &b, false, &want, ctx);
    }
    // Functions.
    if let Ok(c) = compile(text, module) {
        ctx.tally.accepted += 1;
        let Ok(d) = decode(&c) else { return };
        let mut ids = HashSet::new();
        let mut n = 0;
        d.walk(&mut |c| {
            n += 1;
            ids.insert(c.id.clone());
        });
        if ids.len() != n {
            ctx.violation("two functions have the same identity");
        }
        let root = parse::parse(text).expect("accepted");
        let want = functions(&root);
        if n - 1 != want {
            ctx.violation(format!("{} functions were compiled from {want}", n - 1));
        }
        ctx.tally.traces += 1;
        ctx.outcome(d.len as u64 * 64 + n as u64);
    } else {
        ctx.tally.rejected += 1;
    }
}

fn functions(n: &mc::ast::Node) -> usize {
    use mc::ast::NK::*;
    let mut k = matches!(n.k, Anon(_) | Fn(_) | Op(_)) as usize;
    n.children(&mut |c| k += functions(c));
    k
}

fn show(r: &Result<String, (String, String)>) -> String {
    match r {
        Ok(s) => s.clone(),
        Err(e) => e.1.clone(),
    }
}

fn deterministic(thorough: bool) -> Vec<Stage> {
    let mut v: Vec<Stage> = families::broad(thorough as usize)
        .into_iter()
        .map(|f| stage(f.name, &f.about.clone(), f.total, move |i, ctx| {
            let t = (f.text)(i);
            if f.name == "ops" && i % 3 != 0 && !thorough {
                ctx.tally.skipped += 1;
                return;
            }
            same(ctx, &t, f.module)
        }))
        .collect();
    let mut texts: Vec<(String, bool)> = vec![];
    for s in SEEDS {
        texts.push((s.to_string(), false));
        texts.push((s.to_string(), true));
    }
    for b in ["let x = ", "fn f() { return", "@", "\"abc", "a = 1", "fn f() { break }", "\\", "class A { fn new() { } }", "{ fn g() { ", "if x { } else", "let t = await", "x = 99999999999999999999", "\"\\q\"", "fn f(a, a) { }"] {
        texts.push((b.to_string(), false));
    }
    for b in ["fn f() { 1 }", "fn f() { 2 }", "fn f() { 1 } ", "fn f(a) { 1 }", "let f = || 1", "let f = || 2", "class A { fn m(self) { 1 } op +(self, x) { 1 } fn new(self) { } }", "class A { fn m(self) { 2 } op +(self, x) { 2 } fn new(self) { () } }"] {
        texts.push((b.to_string(), false));
        texts.push((b.to_string(), true));
    }
    for f in families::broad(0) {
        for k in 0..3 {
            texts.push(((f.text)(f.total * (k + 1) / 4), f.module));
        }
    }
    for s in SIZES.iter().take(12) {
        texts.push(((s.text)(300), false));
    }
    let n = texts.len() as u64;
    let texts = Arc::new(texts);
    v.push(first_of_a_process(texts.clone()));
    let about = format!("every ordered pair A, B of {n} programs of every kind (accepted and rejected): A, then B, then A again, against A compiled on its own thread");
    v.push(stage("histories", &about, n * n, move |i, ctx| {
        let (a, ma) = &texts[(i / n) as usize];
        let (b, mb) = &texts[(i % n) as usize];
        ctx.note(a);
        ctx.tally.states += 1;
        let go = move || -> (Result<String, (String, String)>, Result<String, (String, String)>) {
            (result(a, *ma, None, &plain), { let _ = result(b, *mb, None, &plain); result(a, *ma, None, &plain) })
        };
        let (fresh, again) = if i % n == 0 {
            let (a, ma) = (a.clone(), *ma);
            let fresh = std::thread::Builder::new().stack_size(64 << 20).spawn(move || result(&a, ma, None, &plain)).unwrap().join().unwrap();
            let (x, y) = go();
            if x != fresh {
                ctx.violation("compiling on a fresh thread gives another result");
            }
            (x, y)
        } else {
            go()
        };
        ctx.tally.transitions += 2;
        ctx.tally.traces += 1;
        if fresh != again {
            ctx.violation(format!("compiled after {b:?} the program gives another result\n--- first\n{}\n--- then\n{}", show(&fresh), show(&again)));
        }
        ctx.outcome(hash(&show(&again)));
        // The functions of two programs are not the same, however alike they are.
        if i / n < i % n && a != b {
            if let (Ok(x), Ok(y)) = (compile(a, *ma), compile(b, *mb)) {
                let (Ok(x), Ok(y)) = (decode(&x), decode(&y)) else { return };
                let mut ids = HashSet::new();
                x.walk(&mut |c| {
                    ids.insert(c.id.clone());
                });
                ids.remove(&x.id);
                let mut shared = false;
                y.walk(&mut |c| shared |= ids.contains(&c.id));
                if shared {
                    ctx.violation(format!("a function of this program and one of {b:?} have the same identity"));
                }
            }
        }
    }));

    // The same file, edited: same name, and often the same length.
    let edits: Vec<String> = {
        const PARTS: &[&str] = &["let a = 1", "let b = 2", "b = 3", "fn f() { a }", "c", "@"];
        let mut v = vec![];
        for gaps in 0..16 {
            for x in PARTS {
                for y in PARTS {
                    let gap = |k: u32| if gaps >> k & 1 == 1 { "\n" } else { " " };
                    let mut t = format!("let a = 1{}{x}{}{y}{}b = 2{}", gap(0), gap(1), gap(2), gap(3));
                    if gaps != 7 {
                        t.push_str(&" ".repeat(60 - t.len()));
                    }
                    v.push(t);
                }
            }
        }
        v
    };
    let n = edits.len() as u64;
    let edits = Arc::new(edits);
    let about = format!("every ordered pair A, B of {n} texts, mostly of equal length, under the same file name: A and then B, against B alone");
    v.push(stage("edited files", &about, n, move |i, ctx| {
        let b = edits[i as usize].clone();
        ctx.note(&b);
        ctx.tally.states += 1;
        let at = |t: &str| {
            let r = result(t, true, Some("m.dm"), &plain);
            let s = Source::with_path(t.to_string(), "m.dm".to_string(), SourceKind::Module);
            let places: Vec<_> = [0, 12, 30, 45].into_iter().map(|k| s.line_index().position_of(k)).map(|p| (p.line, p.column_utf16)).collect();
            (r, places)
        };
        let fresh = {
            let b = b.clone();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || at(&b)).unwrap().join().unwrap()
        };
        for a in edits.iter() {
            let _ = at(a);
            let then = at(&b);
            ctx.tally.transitions += 2;
            ctx.tally.traces += 1;
            if fresh != then {
                ctx.violation(format!("compiled after {a:?} of the same name the program gives another result\n--- alone\n{}\n--- then\n{}", show(&fresh.0), show(&then.0)));
                return;
            }
        }
        ctx.outcome(hash(&show(&fresh.0)));
    }));
    v
}

fn encoded(r: &Result<String, (String, String)>) -> String {
    match r {
        Ok(c) => format!("accepted\n{c}"),
        Err((a, b)) => format!("rejected\n{a}\n{b}"),
    }
}

/// Compiles one text as the first thing a process does, and prints what comes of it.
pub fn compile_first(text: &str, module: bool) {
    let text = text.to_string();
    let done = std::thread::Builder::new().stack_size(64 << 20).spawn(move || encoded(&result(&text, module, None, &plain)));
    print!("{}", done.unwrap().join().unwrap());
}

/// What a new process makes of a text is what this one makes of it after all it has compiled.
fn first_of_a_process(texts: Arc<Vec<(String, bool)>>) -> Stage {
    let n = texts.len() as u64;
    let about = format!("each of {n} programs as the first one that a process compiles, against the same program compiled by this process after many others");
    stage("first of a process", &about, n, move |i, ctx| {
        let (text, module) = &texts[i as usize];
        ctx.note(text);
        ctx.tally.states += 1;
        ctx.tally.transitions += 1;
        ctx.tally.traces += 1;
        let here = encoded(&result(text, *module, None, &plain));
        let out = match std::env::current_exe().and_then(|me| std::process::Command::new(me).args(["--first", text, if *module { "module" } else { "script" }]).output()) {
            Ok(out) => out,
            Err(e) => panic!("cannot start a process: {e}"),
        };
        let there = String::from_utf8_lossy(&out.stdout).into_owned();
        ctx.outcome(hash(&there));
        if !out.status.success() {
            return ctx.violation(format!("compiled first, the program ends the process with {}: {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>()));
        }
        if here != there {
            ctx.violation(format!("compiled as the first program of a process it gives another result\n--- first\n{there}\n--- later\n{here}"));
        }
    })
}

/// The programs of dice/tests/scripts.rs (which needs the runtime and cannot be built) with the results given there: both
/// the compiled code and the reference interpreter must deliver them.
fn documented() -> Stage {
    const SCRIPTS: &[(&str, &str)] = &[
        ("true && true", "true"),
        ("true && false", "false"),
        ("false && true", "false"),
        ("false && false", "false"),
        ("true || true", "true"),
        ("true || false", "true"),
        ("false || true", "true"),
        ("false || false", "false"),
        ("5 * 5 * 5", "125"),
        ("(5 * 5) * 5", "125"),
        ("5 * (5 * 5)", "125"),
        ("5 + 5 + 5", "15"),
        ("5 + 5 * 5", "30"),
        ("5-2", "3"),
        ("5+-2", "3"),
        ("- -5", "5"),
        ("!true", "false"),
        ("2 + 3 == 5", "true"),
        ("\n        let mut x = 0\n        while x < 10 {\n            x = x + 1\n        }\n        x\n    ", "10"),
        ("10 == null", "false"),
        ("null == 10", "false"),
        ("10 != null", "true"),
        ("null != null", "false"),
        ("null", "null"),
        ("#{ test: 5 + 5 }.test", "10"),
        ("null?.test", "null"),
        ("#{ test: null }.test?.xy", "null"),
        ("null ?? 10", "10"),
        ("#{ test: null }.test?.xy ?? 10", "10"),
        ("if 5 == 5 { 10 } else { 12 }", "10"),
        ("if 5 == 6 { 10 } else { 12 }", "12"),
        ("if 5 == 6 { 10 } else if 5 == 5 { 42 } else { 12 }", "42"),
        ("if false { 5 } if true { 10 }", "10"),
        ("[5][0]", "5"),
        ("let x = 5 x + 5", "10"),
        ("let mut x = 5 x = x + 10 x", "15"),
        ("let x = { let x = 20 x * 2 } x", "40"),
        ("let x = { let x = 20 x * 2 } + 2 x", "42"),
        ("let mut x = 0 for y in 0..10 { x = x + y } x", "45"),
    ];
    stage("documented scripts", "the programs of the project's own script tests, with the results those tests ask for", SCRIPTS.len() as u64, |i, ctx| {
        let (text, want) = SCRIPTS[i as usize];
        compare(ctx, text, false, Bounds { choices: 4, fuel: 4000 });
        let Ok(root) = parse::parse(text) else { return ctx.violation("rejected by the model") };
        let mut w = World::new(&[], 4, 4000);
        let r = mc::interp::run(&mut w, &root, false);
        let _ = w.finish(r);
        let got = w.trace.iter().find(|t| t.starts_with("result("));
        if got != Some(&format!("result({want},)")) {
            panic!("the reference interpreter gives {:?} for {text:?}", w.trace);
        }
    })
}

// ---- known findings ------------------------------------------------------------------------------------------------------

/// Texts whose failure is a listed finding: they are reported as such, and as violations when they are not listed.
fn known_findings(property: &str) -> Stage {
    const PROBES: &[(&str, &str)] = &[
        ("or-result-variable", "let Result = 5 p(n(ok(1), er(2)) or e { p(e) 3 })"),
        ("or-result-function", "fn f(x) { let Result = Foo p(x or e { p(e) 3 }) } f(ok(1)) f(er(2))"),
        ("or-result-parameter", "let f = |Result| Result or e { 3 } p(f(ok(1)), f(er(2)))"),
    ];
    let listed: Vec<String> = std::fs::read_to_string("/verif/known_findings.txt")
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={property} ")).map(|r| r.split(' ').next().unwrap_or("").to_string()))
        .collect();
    stage("probes of known findings", "programs that declare a variable named Result around or", PROBES.len() as u64, move |i, ctx| {
        let (id, text) = PROBES[i as usize];
        let mut probe = false;
        let before = ctx.violations.len();
        compare(ctx, text, false, Bounds { choices: 4, fuel: 4000 });
        if ctx.violations.len() > before && listed.iter().any(|l| l == id) {
            ctx.violations.truncate(before);
            probe = true;
        }
        if probe {
            ctx.known.push(format!("{id}: {text}"));
        }
    })
}

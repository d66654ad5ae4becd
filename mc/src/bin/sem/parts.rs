//! Checks of the parts below the compiler, by their own interfaces: error values (C22) and bytecode (C23).

use crate::check;
use dice_bytecode::{Bytecode, BytecodeCursor, ConstantValue, Instruction};
use dice_core::error::codes::*;
use dice_core::error::context::{self, Context, ContextKind};
use dice_core::error::tag::Tags;
use dice_core::error::trace::ErrorTrace;
use dice_core::error::{Error, ResultExt};
use dice_core::source::{Source, SourceKind};
use dice_core::span::Span;
use mc::diag::{position, touched};
use mc::run::*;

pub fn make(property: &str, thorough: bool) -> Option<Check> {
    match property {
        "C22" => check(
            property,
            "error values, each with the history of calls that built it",
            "calls made and parts of the printed forms compared",
            &["Errors with more parts than the stated bounds behave like those within them."],
            errors(thorough),
        ),
        "C23" => check(
            property,
            "states of a cursor, each with the history of calls that led to it",
            "calls made and compared with the model",
            &["Longer code and longer histories behave like those within the bounds."],
            cursors(thorough),
        ),
        _ => None,
    }
}

// ---- C22 -----------------------------------------------------------------------------------------------------------------

/// Every code with the values its message is made from.
const CODES: &[(&ErrorCode, &[&str])] = &[
    (&UNEXPECTED_TOKEN, &["actual", "expected"]),
    (&INVALID_ESCAPE_SEQUENCE, &["sequence"]),
    (&UNTERMINATED_STRING, &[]),
    (&UNRECOGNIZED_INPUT, &["input"]),
    (&RESERVED_KEYWORD, &["input"]),
    (&FUNCTION_HAS_TOO_MANY_ARGUMENTS, &[]),
    (&OPERATOR_HAS_INCORRECT_ARGUMENT_COUNT, &[]),
    (&INVALID_INTEGER_VALUE, &["message"]),
    (&INVALID_FLOAT_VALUE, &["message"]),
    (&UNTERMINATED_BACKSLASH_ARG, &[]),
    (&INTERNAL_COMPILER_ERROR, &[]),
    (&TOO_MANY_UPVALUES, &[]),
    (&TOO_MANY_CONSTANTS, &[]),
    (&JUMP_TOO_FAR, &[]),
    (&TOO_MANY_LOCALS, &[]),
    (&TOO_MANY_LIST_ITEMS, &[]),
    (&TOO_MANY_CALL_ARGUMENTS, &[]),
    (&NEW_METHOD_CANNOT_HAVE_RETURN_TYPE, &[]),
    (&NEW_METHOD_MUST_HAVE_RECEIVER, &[]),
    (&OPERATOR_MUST_HAVE_RECEIVER, &[]),
    (&NEW_MUST_CALL_SUPER_FROM_SUBCLASS, &[]),
    (&NEW_RETURN_CANNOT_HAVE_EXPRESSION, &[]),
    (&INVALID_SUPER_CALL, &[]),
    (&METHOD_RECEIVER_CANNOT_HAVE_TYPE, &[]),
    (&FUNCTION_CANNOT_HAVE_DUPLICATE_ARGS, &[]),
    (&CLASS_ALREADY_DECLARED, &["name"]),
    (&FUNCTION_ALREADY_DECLARED, &["name"]),
    (&INVALID_ASSIGNMENT_TARGET, &[]),
    (&VARIABLE_NOT_DECLARED, &["name"]),
    (&VARIABLE_NOT_INITIALIZED, &["name"]),
    (&CANNOT_REASSIGN_IMMUTABLE_VARIABLE, &["name"]),
    (&INVALID_RETURN_USAGE, &[]),
    (&INVALID_BREAK_USAGE, &[]),
    (&INVALID_CONTINUE_USAGE, &[]),
    (&INVALID_ERROR_PROPAGATE_USAGE, &[]),
    (&INVALID_EXPORT_USAGE, &[]),
    (&INVALID_IMPORT_USAGE, &[]),
    (&INVALID_BOOL_CONVERSION, &[]),
    (&INVALID_INT_CONVERSION, &[]),
    (&INVALID_FLOAT_CONVERSION, &[]),
    (&INVALID_ARRAY_CONVERSION, &[]),
    (&INVALID_STRING_CONVERSION, &[]),
    (&INVALID_SYMBOL_CONVERSION, &[]),
    (&INVALID_OBJECT_CONVERSION, &[]),
    (&INVALID_CLASS_CONVERSION, &[]),
    (&TYPE_ASSERTION_FAILURE, &[]),
    (&TYPE_ASSERTION_NULLABILITY_FAILURE, &[]),
    (&TYPE_ASSERTION_BOOL_FAILURE, &[]),
    (&TYPE_ASSERTION_NUMBER_FAILURE, &[]),
    (&TYPE_ASSERTION_FUNCTION_FAILURE, &[]),
    (&TYPE_ASSERTION_SUPER_FAILURE, &[]),
    (&DIVIDE_BY_ZERO, &[]),
    (&GLOBAL_VARIABLE_ALREADY_DEFINED, &["name"]),
    (&GLOBAL_VARIABLE_UNDEFINED, &["name"]),
    (&GLOBAL_OPERATOR_UNDEFINED, &["name"]),
    (&NEW_FUNCTION_CANNOT_BE_ACCESS_DIRECTLY, &[]),
    (&CLASS_MUST_HAVE_NEW_IF_SUPER_HAS_NEW, &[]),
    (&CLASS_CANNOT_INHERIT_VALUE_TYPE, &[]),
    (&PANIC, &["message"]),
    (&IO_ERROR, &["message"]),
    (&INVALID_SCRIPT_LOCATION, &["directory"]),
    (&MODULE_ALREADY_EXISTS, &["name"]),
    (&GLOBAL_ALREADY_EXISTS, &["name"]),
];

const NOTES: &[(&context::ContextMsgId, &[&str])] = &[
    (&context::INVALID_INDEX_TYPES, &[]),
    (&context::MODULE_LOAD_ERROR, &["module"]),
    (&context::EXPORT_ONLY_ALLOWED_IN_MODULES, &["kind"]),
    (&context::EXPORT_ONLY_ALLOWED_IN_TOP_LEVEL_SCOPE, &[]),
    (&context::IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED, &[]),
    (&context::IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED_HELP, &[]),
    (&context::MISMATCHED_TYPE_ASSERTIONS, &["expected", "actual"]),
];

const VALUES: &[&str] = &["v", "{$name}", "{", "}", "\"q\" '", "é✓😀", "E1000", "a, b", "-->", "{\"{\"}", "\\n", "$", "name = w", "error[E1]: ", "long long long long long long long long long"];

fn tags(keys: &[&'static str], values: &[&str]) -> Tags {
    let mut t = Tags::new();
    for (k, v) in keys.iter().zip(values) {
        t.push(k, *v);
    }
    t
}

/// The message of an error without a place: all of its short form but the code.
fn message(e: &Error) -> Result<String, String> {
    let shown = format!("{e:?}");
    let head = format!("error[{}]:", e.error_code());
    let m = shown.strip_prefix(&head).ok_or_else(|| format!("does not begin with its code: {shown:?}"))?;
    if format!("{e}") != shown {
        return Err(format!("the long form of an error with nothing attached differs: {:?} and {shown:?}", format!("{e}")));
    }
    Ok(m.trim_end_matches('\n').trim_start().to_string())
}

fn note(e: &Error, kind: &ContextKind) -> Result<String, String> {
    let short = format!("{e:?}");
    let shown = format!("{e}");
    let head = match kind {
        ContextKind::Note => "note: ",
        ContextKind::Help => "help: ",
    };
    let rest = shown.strip_prefix(short.as_str()).ok_or("the long form does not begin with the short form")?;
    let m = rest.strip_prefix(head).ok_or_else(|| format!("the attached note is not shown as one: {rest:?}"))?;
    Ok(m.trim_end_matches('\n').trim_start().to_string())
}

/// All messages of a catalogue: with the i-th combination of values, every one holds exactly its values, and no two are alike.
fn catalogue(ctx: &mut Ctx, table: &[(String, &[&'static str])], pick: &[&str], say: &dyn Fn(usize, &[&str]) -> Result<String, String>) {
    let mut seen: Vec<(String, String)> = vec![];
    for (n, (name, keys)) in table.iter().enumerate() {
        ctx.note(&format!("{name} with {pick:?}"));
        ctx.tally.states += 1;
        ctx.tally.transitions += 1;
        ctx.tally.traces += 1;
        let m = match say(n, &pick[..keys.len()]) {
            Ok(m) => m,
            Err(m) => return ctx.violation(m),
        };
        let plain = match say(n, &["<first>", "<second>"][..keys.len()]) {
            Ok(m) => m,
            Err(m) => return ctx.violation(m),
        };
        ctx.outcome(hash(&m));
        if plain.trim().is_empty() || plain.contains("{$") || plain.contains("Unknown localization") {
            return ctx.violation(format!("has no complete message: {plain:?}"));
        }
        let mut want = plain.clone();
        for (p, v) in ["<first>", "<second>"].iter().zip(&pick[..keys.len()]) {
            if !plain.contains(p) {
                return ctx.violation(format!("does not show the value given for {:?}: {plain:?}", keys));
            }
            want = want.replace(p, &v.replace('<', "\u{1}"));
        }
        if m != want.replace('\u{1}', "<") {
            return ctx.violation(format!("should read {want:?} but reads {m:?}"));
        }
        if let Some((other, _)) = seen.iter().find(|(_, t)| *t == m) {
            return ctx.violation(format!("cannot be told from {other}: {m:?}"));
        }
        seen.push((name.clone(), m));
    }
}

/// Texts whose lines and characters differ in length; every span below lies on character boundaries of all of them.
const TEXTS: &[(&str, Option<&str>)] = &[
    ("é\n✓b\n😀c\n\tk\n(q) + 3", Some("dir x/y.dm")),
    ("ab\ncd \n f\n\r\nhijk\n\n  lm\nn", None),
    ("aaaaaaaaaaaaaaaaaaaaaaaa", Some("c:\\a b\\{é}.dm")),
];
const PLACES: &[(usize, usize)] = &[(0, 2), (2, 3), (3, 8), (0, 21), (12, 15), (7, 16)];

#[derive(Clone, Copy, Debug)]
enum Op {
    Span(usize),
    Source(usize),
    Tags(usize),
    Note(usize),
    Help,
    Frame(usize, usize),
}

fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    v.extend((0..PLACES.len()).step_by(2).map(Op::Span));
    v.extend((0..TEXTS.len()).map(Op::Source));
    v.extend([Op::Tags(0), Op::Tags(1), Op::Note(0), Op::Note(1), Op::Help]);
    for t in 0..TEXTS.len() {
        v.extend((0..PLACES.len()).filter(|p| t == 0 || p % 2 == 1).map(|p| Op::Frame(t, p)));
    }
    v
}

#[derive(Default, Clone)]
struct Model {
    span: Option<usize>,
    source: Option<usize>,
    name: Option<usize>,
    notes: Vec<String>,
    frames: Vec<(usize, usize)>,
}

const NAMES: [&str; 2] = ["first", "otherName"];

fn source(t: usize) -> Source {
    let (text, path) = TEXTS[t];
    match path {
        Some(p) => Source::with_path(text, p, SourceKind::Module),
        None => Source::new(text, SourceKind::Script),
    }
}

fn attach(op: Op) -> Context {
    match op {
        Op::Note(k) => Context::new(context::MODULE_LOAD_ERROR, ContextKind::Note).with_tags(tags(&["module"], &[NAMES[k]])),
        _ => Context::new(context::IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED_HELP, ContextKind::Help),
    }
}

fn apply(e: Error, op: Op) -> Error {
    match op {
        Op::Span(p) => e.with_span(Span::new(PLACES[p].0..PLACES[p].1)),
        Op::Source(t) => e.with_source(source(t)),
        Op::Tags(k) => e.with_tags(tags(&["name"], &[NAMES[k]])),
        Op::Note(_) | Op::Help => e.push_context(attach(op)),
        Op::Frame(t, p) => e.push_trace(ErrorTrace { source: source(t), span: Span::new(PLACES[p].0..PLACES[p].1) }),
    }
}

fn apply_result(r: Result<(), Error>, op: Op) -> Result<(), Error> {
    match op {
        Op::Span(p) => r.with_span(|| Span::new(PLACES[p].0..PLACES[p].1)),
        Op::Source(t) => ResultExt::with_source(r, || source(t)),
        Op::Tags(k) => ResultExt::with_tags(r, || tags(&["name"], &[NAMES[k]])),
        Op::Note(_) | Op::Help => ResultExt::push_context(r, || attach(op)),
        Op::Frame(t, p) => ResultExt::push_trace(r, || ErrorTrace { source: source(t), span: Span::new(PLACES[p].0..PLACES[p].1) }),
    }
}

fn step(m: &mut Model, op: Op) {
    match op {
        Op::Span(p) => m.span = Some(p),
        Op::Source(t) => m.source = Some(t),
        Op::Tags(k) => m.name = Some(k),
        Op::Note(k) => m.notes.push(format!("note: {}", NAMES[k])),
        Op::Help => m.notes.push("help: ".into()),
        Op::Frame(t, p) => m.frames.push((t, p)),
    }
}

fn excerpt<'a>(lines: &mut std::iter::Peekable<impl Iterator<Item = &'a str>>) -> Result<Vec<(usize, String)>, String> {
    let mut v = vec![];
    while let Some(l) = lines.peek() {
        let Some((n, t)) = l.split_once('|') else { break };
        if !n.trim().is_empty() {
            v.push((n.trim().parse().map_err(|_| format!("unexpected line {l:?}"))?, t.trim().to_string()));
        } else if !t.trim().is_empty() {
            return Err(format!("unexpected line {l:?}"));
        }
        lines.next();
    }
    Ok(v)
}

fn shown_lines(text: &str, p: usize) -> Vec<(usize, String)> {
    touched(text, PLACES[p]).into_iter().map(|(n, t)| (n, t.trim().to_string())).collect()
}

/// The printed form holds exactly what the model holds.
fn agrees(m: &Model, shown: &str, brief: &str) -> Result<(), String> {
    let mut lines = shown.lines().peekable();
    let head = lines.next().ok_or("shows nothing")?;
    let mut short = brief.lines();
    if !head.starts_with("error[E2401]:") || short.next() != Some(head) {
        return Err("the first line is not the code and message".into());
    }
    if let Some(k) = m.name {
        if !head.contains(NAMES[k]) || head.contains(NAMES[1 - k]) {
            return Err(format!("the message is not about {:?}", NAMES[k]));
        }
    }
    if let Some(t) = m.source {
        let (text, path) = TEXTS[t];
        let start = m.span.map_or(0, |p| PLACES[p].0);
        let (l, c) = position(text, start);
        let want = format!("{}:{l}:{c}", path.unwrap_or("<Script>"));
        let at = lines.next().unwrap_or("");
        if at.trim().strip_prefix("--> ") != Some(&want) || short.next() != Some(at) {
            return Err(format!("the place shown is not {want}"));
        }
        let got = excerpt(&mut lines)?;
        match m.span {
            Some(p) if got != shown_lines(text, p) => return Err(format!("the source lines are not {:?}", shown_lines(text, p))),
            None if got.len() > 1 => return Err("an empty range shows several lines".into()),
            _ => {}
        }
    }
    if let Some(x) = short.next() {
        return Err(format!("the short form goes on with {x:?}"));
    }
    for n in &m.notes {
        let l = lines.next().unwrap_or("");
        let (kind, value) = n.split_at(6);
        if !l.starts_with(kind) || l.len() < 10 || !l.contains(value) || (kind == "note: " && NAMES.iter().filter(|x| l.contains(**x)).count() != 1) {
            return Err(format!("{n:?} is not shown where it should be, but {l:?}"));
        }
    }
    if m.frames.is_empty() {
        return match lines.next() {
            None => Ok(()),
            Some(l) => Err(format!("goes on with {l:?}")),
        };
    }
    while lines.peek().is_some_and(|l| l.trim().is_empty()) {
        lines.next();
    }
    if lines.next().map(str::trim) != Some("Trace:") {
        return Err("shows no trace".into());
    }
    for (t, p) in m.frames.iter().rev() {
        let (text, path) = TEXTS[*t];
        let (l, c) = position(text, PLACES[*p].0);
        let want = format!("{}:{l}:{c}", path.unwrap_or("<Script>"));
        let at = lines.next().unwrap_or("");
        if at.trim().strip_prefix("Location: ") != Some(&want) {
            return Err(format!("shows {at:?} where the frame at {want} belongs"));
        }
        let got = excerpt(&mut lines)?;
        if got != shown_lines(text, *p) {
            return Err(format!("the lines of the frame at {want} are shown as {got:?}, but are {:?}", shown_lines(text, *p)));
        }
    }
    match lines.next() {
        None => Ok(()),
        Some(l) => Err(format!("goes on with {l:?}")),
    }
}

fn built(ctx: &mut Ctx, history: &[Op]) {
    ctx.note(&if history.len() > 40 { format!("{:?} ... ({} calls)", &history[..20], history.len()) } else { format!("{history:?}") });
    // The message needs a name from the start.
    let mut m = Model { name: Some(0), ..Model::default() };
    let first = || apply(Error::new(VARIABLE_NOT_DECLARED), Op::Tags(0));
    let mut e = first();
    let mut r: Result<(), Error> = Err(first());
    for op in history {
        step(&mut m, *op);
        e = apply(e, *op);
        r = apply_result(r, *op);
        ctx.tally.transitions += 2;
    }
    let r = r.unwrap_err();
    ctx.tally.states += 1;
    ctx.tally.traces += 2;
    let (shown, brief) = (format!("{e}"), format!("{e:?}"));
    ctx.outcome(hash(&shown));
    let bad = |why: String| format!("{why}\n--- printed\n{}---", shown.chars().take(4000).collect::<String>());
    if let Err(why) = agrees(&m, &shown, &brief) {
        return ctx.violation(bad(why));
    }
    let copy = e.clone();
    for (what, o) in [("through a result", &r), ("as a copy", &copy)] {
        if format!("{o}") != shown || format!("{o:?}") != brief || o.error_code() != e.error_code() {
            return ctx.violation(bad(format!("{what} it prints as\n{o}")));
        }
    }
}

/// An error, and a frame, at a long place of a long text.
fn long_place(ctx: &mut Ctx, before: &str, within: &str, after: &str, path: &str) {
    let text = format!("{before}{within}{after}");
    let (a, z) = (before.len(), before.len() + within.len());
    if ctx.violations.len() > 0 {
        return;
    }
    let short = |t: &str| if t.len() > 60 { format!("{}... ({} bytes)", t.chars().take(20).collect::<String>(), t.len()) } else { t.to_string() };
    ctx.note(&format!("text {:?} + {:?} + {:?} path {:?}", short(before), short(within), short(after), short(path)));
    let source = || Source::with_path(text.clone(), path, SourceKind::Module);
    let (l, c) = position(&text, a);
    let want_lines: Vec<(usize, String)> = touched(&text, (a, z)).into_iter().map(|(n, t)| (n, t.trim().to_string())).collect();
    for framed in [false, true] {
        let mut e = Error::new(DIVIDE_BY_ZERO);
        if framed {
            e = e.push_trace(ErrorTrace { source: source(), span: Span::new(a..z) });
        } else {
            e = e.with_source(source()).with_span(Span::new(a..z));
        }
        ctx.tally.states += 1;
        ctx.tally.traces += 1;
        ctx.tally.transitions += 1;
        let shown = format!("{e}");
        ctx.outcome(hash(&shown));
        let mut lines = shown.lines().peekable();
        lines.next();
        while lines.peek().is_some_and(|l| l.trim().is_empty() || l.trim() == "Trace:") {
            lines.next();
        }
        let want = format!("{} {path}:{l}:{c}", if framed { "Location:" } else { "-->" });
        let at = lines.next().unwrap_or("").trim();
        if at != want {
            return ctx.violation(format!("the place shown is {:?}, not {:?}", short(at), short(&want)));
        }
        match excerpt(&mut lines) {
            Ok(got) if got == want_lines => {}
            Ok(got) => {
                let sizes = |v: &[(usize, String)]| v.iter().map(|(n, t)| (*n, t.len())).collect::<Vec<_>>();
                return ctx.violation(format!("the lines shown (number, bytes) are {:?}, not {:?}, or differ in their text", sizes(&got), sizes(&want_lines)));
            }
            Err(m) => return ctx.violation(short(&m)),
        }
        if let Some(x) = lines.next() {
            return ctx.violation(format!("goes on with {:?}", short(x)));
        }
    }
}

fn errors(thorough: bool) -> Vec<Stage> {
    let all = ops();
    let n = all.len() as u64;
    let max = if thorough { 5 } else { 4 };
    let mut total = 0;
    for k in 0..=max {
        total += n.pow(k);
    }
    let values = VALUES.len() as u64;
    let mut v = vec![
        stage("codes", &format!("every error code of the catalogue with every pair of {values} values"), values * values, move |i, ctx| {
            let pick = [VALUES[(i % values) as usize], VALUES[(i / values) as usize]];
            let table: Vec<(String, &[&'static str])> = CODES.iter().map(|(c, k)| (c.to_string(), *k)).collect();
            catalogue(ctx, &table, &pick, &|n, vs| message(&Error::new(CODES[n].0).with_tags(tags(CODES[n].1, vs))));
            for (n, (c, _)) in CODES.iter().enumerate() {
                if let Some((d, _)) = CODES[..n].iter().find(|(d, _)| d == c) {
                    return ctx.violation(format!("two kinds of errors have the code {d}"));
                }
                if Error::new(c).error_code() != **c {
                    return ctx.violation(format!("an error made with {c} says it has {:?}", Error::new(c).error_code()));
                }
            }
        }),
        stage("notes", &format!("every note of the catalogue, as a note and as help, with every pair of {values} values"), values * values * 2, move |i, ctx| {
            let pick = [VALUES[(i % values) as usize], VALUES[(i / values % values) as usize]];
            let kind = if i / values / values == 0 { ContextKind::Note } else { ContextKind::Help };
            let table: Vec<(String, &[&'static str])> = NOTES.iter().map(|(c, k)| (c.to_string(), *k)).collect();
            catalogue(ctx, &table, &pick, &|n, vs| {
                note(&Error::new(DIVIDE_BY_ZERO).push_context(Context::new(NOTES[n].0, kind).with_tags(tags(NOTES[n].1, vs))), &kind)
            });
        }),
        stage("histories", &format!("all histories of up to {max} of {n} calls that build an error"), total, move |mut i, ctx| {
            let mut len = 0;
            while i >= n.pow(len) {
                i -= n.pow(len);
                len += 1;
            }
            let mut h = vec![];
            for _ in 0..len {
                h.push(all[(i % n) as usize]);
                i /= n;
            }
            built(ctx, &h);
        }),
    ];
    let frames: Vec<Op> = (0..TEXTS.len()).flat_map(|t| (0..PLACES.len()).map(move |p| Op::Frame(t, p))).collect();
    let f = frames.len() as u64;
    let deep = if thorough { 5u32 } else { 4 };
    v.push(stage("deep traces", &format!("all traces of {deep} of {f} frames, on an error with a place and a note"), f.pow(deep), move |mut i, ctx| {
        let mut h = vec![Op::Source((i % 3) as usize), Op::Span(3), Op::Note(0)];
        for _ in 0..deep {
            h.push(frames[(i % f) as usize]);
            i /= f;
        }
        built(ctx, &h);
    }));
    // Long parts: values of every message and note, paths, lines and texts, of lengths about the powers of two.
    let mut lengths: Vec<usize> = (0..if thorough { 21 } else { 18 }).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    lengths.extend([79, 80, 81, 99, 100, 101, 119, 120, 121, 132, 999, 1000, 1001, 9999, 10_000, 65_537 + 255]);
    lengths.sort();
    lengths.dedup();
    const FILL: &[&str] = &["v", "é", "{", "a b ", "\\"];
    let kinds = FILL.len() as u64;
    let about = format!("every code and note with values of {} lengths up to {} bytes, of {kinds} kinds; and errors, with and without frames, whose paths, lines and texts are as long", lengths.len(), lengths.last().unwrap());
    v.push(stage("long parts", &about, lengths.len() as u64 * kinds, move |i, ctx| {
        let l = lengths[(i / kinds) as usize];
        let fill = FILL[(i % kinds) as usize];
        let value = fill.repeat((l / fill.len()).max(1));
        let value = value.trim_end();
        for pick in [[value, "w"], ["w", value], [value, value]] {
            let table: Vec<(String, &[&'static str])> = CODES.iter().map(|(c, k)| (c.to_string(), *k)).collect();
            catalogue(ctx, &table, &pick, &|n, vs| message(&Error::new(CODES[n].0).with_tags(tags(CODES[n].1, vs))));
            for kind in [ContextKind::Note, ContextKind::Help] {
                let table: Vec<(String, &[&'static str])> = NOTES.iter().map(|(c, k)| (c.to_string(), *k)).collect();
                catalogue(ctx, &table, &pick, &|n, vs| note(&Error::new(DIVIDE_BY_ZERO).push_context(Context::new(NOTES[n].0, kind).with_tags(tags(NOTES[n].1, vs))), &kind));
            }
        }
        for (before, within, after) in [("", "", ""), (value, "", ""), ("", value, ""), ("", "", value), (value, value, value)] {
            for nl in ["", "\n", "\n\n"] {
                for path in ["m.dm", value] {
                    long_place(ctx, &format!("{before}{nl}q"), &format!("é{within}{nl}b"), &format!("r{nl}{after}"), path);
                }
            }
        }
    }));
    let mut counts: Vec<usize> = (0..400).chain([511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4096, 4097, 10_001]).collect();
    if thorough {
        counts.extend([65_535, 65_536, 65_537, 100_001]);
    }
    let about = format!("{} numbers of parts up to {}: frames, notes, the two kinds of notes in turns, and notes and frames in turns, on errors with and without a place", counts.len(), counts.last().unwrap());
    v.push(stage("many parts", &about, counts.len() as u64 * 8, move |i, ctx| {
        let count = counts[(i / 8) as usize];
        let mut h = if i % 2 == 1 { vec![Op::Source(0), Op::Span(3)] } else { vec![] };
        h.extend((0..count).map(|k| match (i / 2 % 4, k % 3) {
            (0, _) => Op::Frame(k % TEXTS.len(), k * 7 % PLACES.len()),
            (1, _) => Op::Note(k * k % 7 % 2),
            (2, 0) => Op::Help,
            (2, _) => Op::Note(k % 2),
            (_, 0) => Op::Frame(k % TEXTS.len(), k * 5 % PLACES.len()),
            (_, 1) => Op::Note(k % 2),
            _ => Op::Help,
        }));
        built(ctx, &h);
    }));
    v
}

// ---- C23 -----------------------------------------------------------------------------------------------------------------

/// Byte values that are an opcode, an operand that matters, or both.
const BYTES: &[u8] = &[0, 1, 2, 63, 127, 128, 254, 255];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Move {
    Instruction,
    Byte,
    Offset,
    Set(u64),
    By(i16),
}

fn opcodes() -> usize {
    // The opcodes are the bytes from 0 on.
    (0..=255u8).take_while(|b| std::panic::catch_unwind(|| Instruction::from(*b)).is_ok()).count()
}

/// The position after a move, or None where the model says nothing.
fn target(data: &[u8], pos: u64, m: Move, opcodes: usize) -> Option<u64> {
    let n = data.len() as u64;
    match m {
        Move::Instruction if pos >= n => Some(pos),
        Move::Instruction => ((data[pos as usize] as usize) < opcodes).then_some(pos + 1),
        Move::Byte => (pos < n).then_some(pos + 1),
        Move::Offset => (pos + 2 <= n).then_some(pos + 2),
        Move::Set(p) => Some(p),
        Move::By(o) => {
            let p = pos as i64 + o as i64;
            (p >= 0).then_some(p as u64)
        }
    }
}

fn seen(data: &[u8]) -> String {
    if data.len() > 100 {
        format!("{} bytes", data.len())
    } else {
        format!("{data:?}")
    }
}

fn walk(ctx: &mut Ctx, c: &mut BytecodeCursor, data: &[u8], pos: u64, last: u64, m: Move, to: u64) -> Option<u64> {
    ctx.tally.transitions += 1;
    let p = pos as usize;
    let mut last = last;
    match m {
        Move::Instruction => {
            let got = c.read_instruction().map(|i| i as u8);
            if got != data.get(p).copied() {
                ctx.violation(format!("{}: reading an instruction at {pos} gives {got:?}", seen(data)));
                return None;
            }
            if got.is_some() {
                last = pos;
            }
        }
        Move::Byte => {
            let got = c.read_u8();
            if got != data[p] {
                ctx.violation(format!("{}: reading a byte at {pos} gives {got}", seen(data)));
                return None;
            }
        }
        Move::Offset => {
            let got = c.read_offset();
            let want = ((data[p] as i16) << 8) | data[p + 1] as i16;
            if got != want {
                ctx.violation(format!("{}: reading an offset at {pos} gives {got}, not {want}", seen(data)));
                return None;
            }
        }
        Move::Set(p) => c.set_position(p),
        Move::By(o) => c.offset_position(o),
    }
    let state = (c.position(), c.remaining(), c.last_instruction_offset());
    let rest = (data.len() as u64).saturating_sub(to);
    if state != (to, rest, last) {
        ctx.violation(format!("{}: after {m:?} at {pos} the position, rest and last instruction are {state:?}, not {:?}", seen(data), (to, rest, last)));
        return None;
    }
    Some(last)
}

/// All histories of a cursor over this code.
fn explore(ctx: &mut Ctx, data: &[u8], depth: usize, opcodes: usize) {
    ctx.note(&format!("{data:?}"));
    let n = data.len() as i16;
    let mut moves = vec![Move::Instruction, Move::Byte, Move::Offset];
    moves.extend((0..=n as u64 + 1).map(Move::Set));
    moves.extend((-n - 1..=n + 1).map(Move::By));
    fn go(ctx: &mut Ctx, data: &[u8], moves: &[Move], history: &mut Vec<(Move, u64)>, pos: u64, depth: usize, opcodes: usize) {
        if depth == 0 || !ctx.violations.is_empty() {
            return;
        }
        for m in moves {
            let Some(to) = target(data, pos, *m, opcodes) else { continue };
            // The implementation goes through the whole history again.
            let code = Bytecode::new(data.into(), 3, 4, Box::new([ConstantValue::Int(7)]));
            let mut c = code.cursor();
            let (mut p, mut last) = (0, 0);
            history.push((*m, to));
            for (m, to) in history.iter() {
                match walk(ctx, &mut c, data, p, last, *m, *to) {
                    Some(l) => last = l,
                    None => {
                        ctx.violation(format!("history: {history:?}"));
                        return;
                    }
                }
                p = *to;
            }
            ctx.tally.states += 1;
            ctx.tally.traces += 1;
            ctx.outcome(p * 1000 + last);
            go(ctx, data, moves, history, to, depth - 1, opcodes);
            history.pop();
        }
    }
    go(ctx, data, &moves, &mut vec![], 0, depth, opcodes);
    let code = Bytecode::new(data.into(), data.len(), data.len() + 1, Box::new([ConstantValue::Int(7), ConstantValue::String("s".into())]));
    let copy = code.clone();
    for c in [&code, &copy] {
        if c.slot_count() != data.len() || c.upvalue_count() != data.len() + 1 || c.constants() != [ConstantValue::Int(7), ConstantValue::String("s".into())] {
            ctx.violation("the parts of the code are not those it was made from");
        }
    }
}

fn cursors(thorough: bool) -> Vec<Stage> {
    let codes = {
        let hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| {}));
        let n = opcodes();
        std::panic::set_hook(hook);
        n
    };
    let b = BYTES.len() as u64;
    let (len, depth) = if thorough { (4u32, 5usize) } else { (4, 4) };
    let total: u64 = (0..=len).map(|k| b.pow(k)).sum();
    let mut v = vec![stage("opcodes", "every byte: one opcode each, read back as that byte, all of them printed differently", 1, move |_, ctx| {
        ctx.note("opcodes");
        let mut seen: Vec<String> = vec![];
        for k in 0..codes {
            let i = Instruction::from(k as u8);
            let back: u8 = i.into();
            let data = [k as u8];
            let mut c = BytecodeCursor::new(&data);
            let read = c.read_instruction().map(|i| i as usize);
            ctx.tally.states += 1;
            ctx.tally.transitions += 3;
            ctx.tally.traces += 1;
            let name = i.to_string();
            ctx.outcome(hash(&name));
            let word = name.rsplit("| ").next().unwrap().to_string();
            if back as usize != k || i as usize != k || read != Some(k) {
                return ctx.violation(format!("opcode {k} reads back as {back}, {} and {read:?}", i as usize));
            }
            if !name.starts_with(&format!("{k:02X} ")) || word.is_empty() || seen.contains(&word) {
                return ctx.violation(format!("opcode {k} prints as {name:?}"));
            }
            seen.push(word);
        }
        if codes < 62 {
            ctx.violation(format!("only {codes} opcodes are known"));
        }
    })];
    v.push(stage("histories", &format!("all histories of {depth} calls on a cursor over all code of up to {len} of {b} byte values"), total, move |mut i, ctx| {
        let mut n = 0;
        while i >= b.pow(n) {
            i -= b.pow(n);
            n += 1;
        }
        let data: Vec<u8> = (0..n).map(|k| BYTES[(i / b.pow(k) % b) as usize]).collect();
        explore(ctx, &data, depth, codes);
    }));
    v.push(stage("offsets", "every 16-bit offset: read back, and jumped by forwards and backwards from within 65536 bytes", 65536, move |i, ctx| {
        ctx.note(&format!("offset {}", i as u16 as i16));
        let o = i as u16 as i16;
        let mut data = vec![0u8; 66000];
        let at = if o < 0 { 33000usize } else { 17 };
        data[at..at + 2].copy_from_slice(&o.to_be_bytes());
        let mut c = BytecodeCursor::new(&data);
        ctx.tally.states += 1;
        ctx.tally.traces += 1;
        let mut p = 0;
        let mut last = 0;
        for m in [Move::Set(at as u64), Move::Offset, Move::By(o), Move::Byte, Move::Instruction] {
            // Jumped into the middle of the offset, there may be no instruction to read.
            let Some(to) = target(&data, p, m, codes) else { break };
            match walk(ctx, &mut c, &data, p, last, m, to) {
                Some(l) => last = l,
                None => return,
            }
            p = to;
        }
        ctx.outcome(p);
    }));
        // The parts that code is made from.
    let mut counts: Vec<usize> = (0..300).collect();
    counts.extend((9..if thorough { 21 } else { 18 }).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]));
    let nc = counts.len() as u64;
    v.push(stage("parts", &format!("code of {nc} lengths with {nc} numbers of slots, captured variables and constants of every kind, up to {}", counts.last().unwrap()), nc, move |i, ctx| {
        let a = counts[i as usize];
        ctx.note(&format!("{a} constants"));
        let constant = |k: usize| match k % 4 {
            0 => ConstantValue::Int(k as i64 - 5),
            1 => ConstantValue::Float(k as f64 / 4.0),
            2 => ConstantValue::String(format!("s{}", k / 8)),
            _ => ConstantValue::Symbol(format!("s{}", k / 8)),
        };
        let constants: Vec<ConstantValue> = (0..a).map(constant).collect();
        for b in if a < 300 { &counts[..] } else { &counts[295..305] } {
            let data: Vec<u8> = (0..*b % 1000).map(|k| k as u8).collect();
            let code = Bytecode::new(data.clone().into(), *b, a, if *b % 50 == 0 { constants.clone().into() } else { Box::new([]) });
            let copy = code.clone();
            for c in [&code, &copy] {
                ctx.tally.states += 1;
                ctx.tally.traces += 1;
                let same = if *b % 50 == 0 { c.constants() == &constants[..] } else { c.constants().is_empty() };
                if c.slot_count() != *b || c.upvalue_count() != a || !same || c.cursor().remaining() != data.len() as u64 {
                    return ctx.violation(format!("code made with {b} slots, {a} captured variables and constants says it has {}, {} and {}", c.slot_count(), c.upvalue_count(), c.constants().len()));
                }
            }
            ctx.tally.transitions += 4;
            ctx.outcome(*b as u64);
        }
    }));
    // Long code: every pair of the places about the powers of two.
    let sizes: Vec<usize> = [8u32, 12, 15, 16, 17].iter().chain(if thorough { [18u32, 20, 24].iter() } else { [].iter() }).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    let about = format!("code of {} lengths up to {} bytes: every read after every pair of positions set, next to every power of two and the end, and every jump by next to every power of two", sizes.len(), sizes.last().unwrap());
    let ns = sizes.len() as u64;
    v.push(stage("long code", &about, ns * 3, move |i, ctx| {
        let size = sizes[(i % ns) as usize];
        ctx.note(&format!("code of {size} bytes"));
        let data: Vec<u8> = (0..size).map(|k| [(k * 7 + k / 256) as u8 % codes as u8, (k / 256) as u8 % codes as u8, 255][(i / ns) as usize]).collect();
        let mut places: Vec<u64> = (0..64).map(|k| 1u64.checked_shl(k).unwrap()).filter(|p| *p <= size as u64).flat_map(|p| [p - 1, p, p + 1]).collect();
        places.extend([0, size as u64 - 2, size as u64 - 1, size as u64, size as u64 + 1, size as u64 / 2]);
        places.sort();
        places.dedup();
        let mut reads = vec![Move::Instruction, Move::Byte, Move::Offset];
        for k in 0..16 {
            for d in [-1i32, 0, 1] {
                for sign in [-1, 1] {
                    if let Ok(o) = i16::try_from(sign * ((1 << k) + d)) {
                        reads.push(Move::By(o));
                    }
                }
            }
        }
        let code = Bytecode::new(data.clone().into(), 3, 4, Box::new([]));
        for a in &places {
            for b in &places {
                for r in &reads {
                    let mut c = code.cursor();
                    let (mut p, mut last) = (0, 0);
                    for m in [Move::Set(*a), Move::Instruction, Move::Set(*b), *r, Move::Byte, Move::Instruction] {
                        let Some(to) = target(&data, p, m, codes) else { break };
                        match walk(ctx, &mut c, &data, p, last, m, to) {
                            Some(l) => last = l,
                            None => return ctx.violation(format!("positions {a}, then {b}, then {r:?}")),
                        }
                        p = to;
                    }
                    ctx.tally.states += 1;
                    ctx.tally.traces += 1;
                    ctx.outcome(p * 1000 + last);
                }
            }
        }
    }));
    v
}

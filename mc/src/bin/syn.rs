//! Checks that look at the syntax tree: C03, C04, C21.

#[path = "../tree.rs"]
mod tree;

use mc::families::{self, Family};
use mc::lex::lex;
use mc::run::*;
use mc::seeds::SEEDS;
use mc::sizes::{MODULE_SIZES, MORE, MORE_MODULES, SIZES};
use mc::tokens::*;
use mc::{paren, parse, sem};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use tree::Mode;

fn main() {
    mc::run::main(make)
}

fn make(property: &str, thorough: bool) -> Option<Check> {
    let (states, transitions, stages): (_, _, Vec<Stage>) = match property {
        "C03" => ("operator expressions", "syntax tree nodes compared", c03(thorough)),
        "C04" => ("token sequences explored (viable prefixes and their one-token continuations)", "syntax tree nodes compared", grammar_stages(thorough, What::Accept)),
        "C21" => ("accepted texts", "node ranges compared", grammar_stages(thorough, What::Spans)),
        _ => return None,
    };
    Some(Check { property: property.into(), states, transitions, assumptions: assumptions(property), stages })
}

fn assumptions(property: &str) -> Vec<&'static str> {
    let mut v = vec![
        "The reference grammar (mc/src/parse.rs) states the language as the parser's productions and the repository's scripts document it.",
        "Token sequences and programs beyond the stated lengths and sizes behave like those within them.",
    ];
    if property == "C21" {
        v.push("The ranges of binary operations and of blocks are only required to lie within the text; grouping parentheses belong to the chain they start.");
    }
    v
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Accept,
    Spans,
}

/// One text against the reference verdict.
fn judge(ctx: &mut Ctx, text: &str, want: &Outcome, what: What) {
    if what == What::Spans && want.is_err() {
        return;
    }
    ctx.note(text);
    ctx.tally.states += 1;
    let got = tree::parse(text);
    match (&got, want) {
        (Ok(t), Ok(w)) => {
            ctx.tally.accepted += 1;
            let mut seen = vec![];
            let n = tree::read(t, t.root(), &mut seen);
            ctx.tally.transitions += seen.len() as u64;
            ctx.tally.traces += 1;
            let r = match what {
                What::Accept => tree::same(&n, w, Mode::Shape),
                What::Spans => tree::bounds(text, &seen).and_then(|_| tree::same(&n, w, Mode::Spans)),
            };
            if let Err(m) = r {
                ctx.violation(m);
            }
            ctx.outcome(hash(&format!("{:?}", std::mem::discriminant(&w.k))) ^ w.count() as u64);
        }
        (Err(e), Err(w)) => {
            ctx.tally.rejected += 1;
            if !e.error_code().starts_with("E1") && e.error_code() != "E2505" {
                ctx.violation(format!("rejected, but not with a syntax diagnostic: {e:?}"));
            }
            ctx.outcome(hash(w.kind) ^ w.at as u64);
        }
        (Ok(_), Err(w)) => {
            let toks = lex(text);
            let found = toks.get(w.at).map_or("the end".to_string(), |t| format!("{:?}", &text[t.start..t.end]));
            ctx.violation(format!("accepted, though no sentence continues with {found} (token {})", w.at));
        }
        (Err(e), Ok(_)) => ctx.violation(format!("a sentence of the grammar is rejected: {e:?}")),
    }
}

/// The same tokens in other layouts, so that positions differ.
fn layouts(text: &str, f: &mut dyn FnMut(&str)) {
    f(text);
    let toks = lex(text);
    let words: Vec<&str> = toks.iter().map(|t| &text[t.start..t.end]).collect();
    let word = |s: &str| s.as_bytes()[0] == b'_' || s.as_bytes()[0].is_ascii_alphanumeric();
    let mut dense = String::new();
    let mut last = "";
    for w in &words {
        let both_words = last.ends_with(|c: char| c == '_' || c.is_ascii_alphanumeric()) && word(w);
        // Punctuation is kept apart wherever joining would make another token.
        let probe = format!("{last}{w}");
        let joined = lex(&probe);
        let apart = !last.is_empty() && (both_words || joined.len() != 2 || joined[0].end != last.len());
        last = w;
        if apart {
            dense.push(' ');
        }
        dense.push_str(w);
    }
    f(&dense);
    f(&format!("// é✓\n{}\r\n\t", words.join("\n//😀\n  ")));
}

fn visit(ctx: &mut Ctx, text: &str, want: &Outcome, what: What) {
    match what {
        What::Accept => judge(ctx, text, want, what),
        What::Spans => {
            if want.is_ok() {
                layouts(text, &mut |t| {
                    let w = parse::parse(t).unwrap_or_else(|e| panic!("layout changed the reference verdict: {t:?} {e:?}"));
                    judge(ctx, t, &Ok(w), what)
                })
            }
        }
    }
}

/// Items: (context, first token) or, for one context, (first, second token).
fn contexts(depth: usize, alphabet: Vec<&'static str>, what: What) -> Stage {
    let n = alphabet.len() as u64;
    let about = format!("all sequences of up to {depth} tokens over {n} token spellings that some sentence continues, and every one-token continuation of each, in {} surroundings, with and without what closes the surroundings", CONTEXTS.len());
    stage("token sequences in context", &about, n * CONTEXTS.len() as u64, move |i, ctx| {
        let (before, after) = CONTEXTS[(i / n) as usize];
        let stop = ctx.stop;
        let x = Explorer { alphabet: &alphabet, depth, suffix: after, stop: &|| stop.load(SeqCst) };
        x.one(before, alphabet[(i % n) as usize], depth, &mut |t, r| visit(ctx, t, r, what));
    })
}

fn deep(name: &'static str, depth: usize, alphabet: Vec<&'static str>, what: What) -> Stage {
    let n = alphabet.len() as u64;
    let about = format!("all sequences of up to {depth} tokens over {n} token spellings that some sentence continues, and every one-token continuation of each");
    stage(name, &about, n * n, move |i, ctx| {
        let stop = ctx.stop;
        let x = Explorer { alphabet: &alphabet, depth, suffix: "", stop: &|| stop.load(SeqCst) };
        let first = alphabet[(i / n) as usize];
        if i % n == 0 {
            let r = parse::parse(first);
            visit(ctx, first, &r, what);
        }
        let viable = match parse::parse(first) {
            Ok(_) => true,
            Err(e) => e.at >= 1,
        };
        if viable {
            x.one(first, alphabet[(i % n) as usize], depth - 1, &mut |t, r| visit(ctx, t, r, what));
        }
    })
}

fn corpus(thorough: bool) -> Vec<Family> {
    families::broad(1 + thorough as usize).into_iter().filter(|f| f.name != "ops").collect()
}

fn programs(f: Family, what: What) -> Stage {
    stage(f.name, &f.about.clone(), f.total, move |i, ctx| {
        let t = (f.text)(i);
        let r = parse::parse(&t);
        visit(ctx, &t, &r, what)
    })
}

fn mutated(what: What, thorough: bool) -> Stage {
    let alphabet = if thorough { full_alphabet() } else { small_alphabet() };
    let mut texts: Vec<String> = SEEDS.iter().map(|s| s.to_string()).collect();
    // Longer ones: every pair of seeds, one after the other and one inside the other.
    for a in SEEDS {
        for b in SEEDS {
            texts.push(format!("{a} {b}"));
            texts.push(format!("fn q ( ) {{ {a} }} {b}"));
        }
    }
    let about = format!("{} sentences that use every construct, alone, in sequence and nested, and every text that differs from one by one token (left out, doubled, swapped, replaced by or preceded by each of {} tokens)", texts.len(), alphabet.len());
    let full = SEEDS.len();
    stage("one-token changes", &about, texts.len() as u64, move |i, ctx| {
        let t = &texts[i as usize];
        let r = parse::parse(t);
        if (i as usize) < full {
            assert!(r.is_ok(), "seed {t:?}: {r:?}");
        }
        visit(ctx, t, &r, what);
        if r.is_err() {
            return;
        }
        // Pairs are changed with fewer tokens.
        let few = ["a", "(", ")", "{", "}", ",", "=", "fn", "@"];
        let alphabet: &[&str] = if (i as usize) < full { &alphabet } else { &few };
        mutations(t, alphabet, &mut |m| {
            let r = parse::parse(m);
            visit(ctx, m, &r, what)
        });
    })
}

/// Repetition of every repeatable construct, and nesting of every nestable one.
fn long(what: What, thorough: bool) -> Stage {
    const REPEAT: &[(&str, &str, &str, &str)] = &[
        ("", "a", " ", ""),
        ("", "let x = 1", "\n", ""),
        ("[", "1", ",", "]"),
        ("[", "1", ",", ",]"),
        ("[", "1", "", "]"),
        ("#{", "a:1", ",", "}"),
        ("f(", "1", ",", ")"),
        ("f(", "1", ",", ",)"),
        ("fn f(", "a", ",", ") { }"),
        ("x = |", "a", ",", "| 1"),
        ("class A { fn m(", "a", ",", ") { } }"),
        ("class A {", "fn f() { }", "", "}"),
        ("let {", "a", ",", "} = b"),
        ("import {", "a", ",", "} from \"m\""),
        ("", "a", "+", ""),
        ("", "a", "=", ""),
        ("a", ".b", "", ""),
        ("a", "(1)", "", ""),
        ("a", "?", " ", ""),
        ("", "-", "", "a"),
        ("if a { }", " else if b { }", "", ""),
        ("a", " or e { }", "", ""),
        ("a", " is B", "", ""),
        ("\"", "é", "", "\""),
        ("", "x", "", ""),
        ("", "1", "", ""),
        ("0.", "1", "", ""),
        ("1", "0", "", ".5"),
        ("// ", "c", "", "\na b"),
        ("a", "\n", "", "b"),
        ("a \\", "r", "", "\\"),
    ];
    const NEST: &[(&str, &str)] = &[
        ("(", ")"),
        ("[", "]"),
        ("{", "}"),
        ("f(", ")"),
        ("a[", "]"),
        ("#{a:", "}"),
        ("if a {", "}"),
        ("if {", "} { }"),
        ("loop {", "}"),
        ("fn f() {", "}"),
        ("|a|", ""),
        ("-", ""),
        ("class A { fn f() {", "} }"),
        ("a or e {", "}"),
        ("let x = {", "}"),
        ("(1 + ", ")"),
        ("return ", ""),
        ("a = ", ""),
    ];
    let counts: Vec<usize> = if thorough { (0..600).chain([1000, 3000]).collect() } else { (0..40).chain(250..262).chain([300, 513]).collect() };
    let depths: Vec<usize> = if thorough { (0..80).collect() } else { (0..24).collect() };
    let (nr, nn) = (REPEAT.len() * counts.len(), NEST.len() * NEST.len() * depths.len());
    let about = format!("each of {} repeatable constructs repeated each of {} numbers of times up to {}; each pair of {} nestable constructs alternating to each depth up to {}", REPEAT.len(), counts.len(), counts.last().unwrap(), NEST.len(), depths.last().unwrap());
    stage("repetition and nesting", &about, (nr + nn) as u64, move |i, ctx| {
        let i = i as usize;
        let t = if i < nr {
            let (a, x, sep, z) = REPEAT[i % REPEAT.len()];
            let n = counts[i / REPEAT.len()];
            format!("{a}{}{z}", vec![x; n].join(sep))
        } else {
            let i = i - nr;
            let (a, b) = (NEST[i % NEST.len()], NEST[i / NEST.len() % NEST.len()]);
            let d = depths[i / NEST.len() / NEST.len()];
            let mut t = "1".to_string();
            for k in 0..d {
                let (l, r) = if k % 2 == 0 { a } else { b };
                t = format!("{l} {t} {r}");
            }
            t
        };
        let r = parse::parse(&t);
        if i < nr {
            // As written only: the other layouts of long texts add nothing but time.
            judge(ctx, &t, &r, what)
        } else {
            visit(ctx, &t, &r, what)
        }
    })
}

/// Programs that grow, whole and with a token left out, doubled or put in near either end and in the middle.
fn growing(what: What, thorough: bool) -> Stage {
    let counts: Vec<usize> = if thorough { (0..70).chain([99, 100, 127, 128, 200, 255, 256, 257]).collect() } else { (0..12).chain([16, 17, 31, 32, 33, 64, 65, 100, 128, 256]).collect() };
    let list: Vec<&'static mc::sizes::Size> = [SIZES, MODULE_SIZES, MORE, MORE_MODULES].iter().flat_map(|l| l.iter()).collect();
    let n = list.len() as u64;
    let about = format!("{n} kinds of program that need n of something, for {} values of n up to {}, whole and with one token left out, doubled or put in at 9 places", counts.len(), counts.last().unwrap());
    stage("growing programs", &about, n * counts.len() as u64, move |i, ctx| {
        let t = (list[(i % n) as usize].text)(counts[(i / n) as usize]);
        let r = parse::parse(&t);
        assert!(r.as_ref().map_or_else(|e| e.codes == ["E1005"], |_| true), "{t} {r:?}");
        judge(ctx, &t, &r, what);
        let toks = lex(&t);
        let k = toks.len();
        if k > 4000 {
            return;
        }
        for at in [0, 1, 2, k / 3, k / 2, k / 2 + 1, k.saturating_sub(3), k.saturating_sub(2), k.saturating_sub(1)] {
            if at >= k {
                continue;
            }
            let (a, z) = (&t[..toks[at].start], &t[toks[at].end..]);
            let w = &t[toks[at].start..toks[at].end];
            for m in [format!("{a}{z}"), format!("{a}{w} {w}{z}"), format!("{a}{w} ,{z}"), format!("{a}{w} )){z}"), format!("{a}{w} }}{z}"), format!("{a}{w} @{z}"), format!("{a}(0) {w}{z}")] {
                let r = parse::parse(&m);
                judge(ctx, &m, &r, what);
            }
        }
    })
}

/// Constructs before, around and after something long, of lengths about the powers of two.
fn big(what: What, thorough: bool) -> Stage {
    const LONG: &[(&str, &str, &str)] = &[
        ("//", "c", "\n"),
        ("//", "é", "\r\n"),
        ("", " ", ""),
        ("", "\n", ""),
        ("", "\t\r\n", ""),
        ("\"", "s", "\" "),
        ("\"", "✓", "\" "),
        ("\"", "\n", "\" "),
        ("\"", "\\\\", "\" "),
        ("", "x", " "),
        ("p(", "y", ") "),
        ("let ", "z", " = 1 "),
        ("q.", "f", " "),
        ("", "a ", ""),
        ("", "a=1\n", ""),
        ("[", "1,", "] "),
        ("", "é \"", ""),
        ("0.", "1", " "),
        ("op + () { } ", "//\n", ""),
    ];
    const HOLES: &[&str] = &["@", "p(a, @ b)", "fn f(@ a) { @ a + 1 }", "let x = @ \"s\" p(@ x)", "[@ 1, f(@ 2)]", "class A { @ fn m(self) { @ self.b = 2 } @ }", "if a { @ b } else { @ c }", "#{ a: @ 1 }", "a @ + @ b", "er(1) @ or e { @ e }", "|v| { @ v }", "a.b[ @ c ]?.d", "import { @ a, b } from \"m\"", "x = @ y", "return @ 1", "for i in 0 .. @ 9 { @ }", "a ( @ )", "let { @ a } = @ b", "fn f(x: @ Int?) -> @ Int { }", "a @ is B", "- @ a", "@ , a", "a @ )", "( @", "fn @ ( ) { }", "@ é"];
    let mut lengths: Vec<usize> = vec![1, 2, 254, 255, 256, 257, 65_533, 65_534, 65_535, 65_536, 65_537];
    if thorough {
        lengths.extend([1023, 1024, 4095, 4096, 8191, 8192, 16_383, 16_384, 32_767, 32_768, 131_071, 131_072, 262_144, 1_048_575, 1_048_576]);
    }
    let (nl, nh) = (LONG.len(), HOLES.len());
    let about = format!("{nh} constructs, right and wrong, with one of {nl} fillers of {} lengths up to {} bytes in the gap, before each or after each of their places", lengths.len(), lengths.last().unwrap());
    stage("big texts", &about, (nl * nh * lengths.len()) as u64, move |i, ctx| {
        let i = i as usize;
        let (a, x, z) = LONG[i % nl];
        let form = HOLES[i / nl % nh];
        let l = lengths[i / nl / nh];
        let fill = format!("{a}{}{z}", x.repeat((l / x.len()).max(1)));
        let parts: Vec<&str> = form.split('@').collect();
        for k in 0..parts.len() + 1 {
            let mut t = String::new();
            if k == 0 {
                t.push_str(&fill);
            }
            for (j, p) in parts.iter().enumerate() {
                t.push_str(p);
                if j + 1 == k {
                    t.push_str(&fill);
                } else {
                    t.push(' ');
                }
            }
            let r = parse::parse(&t);
            judge(ctx, &t, &r, what);
        }
    })
}

fn grammar_stages(thorough: bool, what: What) -> Vec<Stage> {
    let spans = (what == What::Spans) as usize;
    let mut v = vec![
        contexts(if thorough { 4 } else { 3 }, full_alphabet(), what),
        deep("token sequences", if thorough { 7 } else { 6 } - spans, small_alphabet(), what),
        deep("operator sequences", if thorough { 8 } else { 7 }, operator_alphabet(), what),
        mutated(what, thorough),
        long(what, thorough),
        big(what, thorough),
        growing(what, thorough),
    ];
    v.extend(corpus(thorough).into_iter().map(|f| programs(f, what)));
    v
}

// ---- C03 -----------------------------------------------------------------------------------------------------------------

const BINARY: &[&str] =
    &["|>", "??", "or e { b }", "..", "..=", "||", "&&", "==", "!=", "<", "<=", ">", ">=", "is T", "is T?", "+", "-", "*", "/", "%"];

fn precedence(ctx: &mut Ctx, text: &str) {
    ctx.note(text);
    ctx.tally.states += 1;
    let want = match parse::parse(text) {
        Ok(w) => w,
        Err(_) => {
            ctx.tally.skipped += 1;
            return;
        }
    };
    let t = match tree::parse(text) {
        Ok(t) => t,
        Err(e) => return ctx.violation(format!("an expression is rejected: {e:?}")),
    };
    ctx.tally.accepted += 1;
    ctx.tally.traces += 1;
    let mut seen = vec![];
    let got = tree::read(&t, t.root(), &mut seen);
    ctx.tally.transitions += seen.len() as u64;
    if let Err(m) = tree::same(&got, &want, Mode::Shape) {
        return ctx.violation(format!("grouped differently than {}: {m}", paren::expr(&want)));
    }
    ctx.outcome(hash(&paren::expr(&want)));
}

/// The compiled code is that of the fully parenthesised text.
fn same_code(ctx: &mut Ctx, text: &str) {
    let Ok(want) = parse::parse(text) else { return };
    let mc::ast::NK::Block(items) = &want.k else { return };
    let explicit: Vec<String> = items.iter().map(paren::expr).collect();
    // Statements that begin with a parenthesis cannot follow one another.
    let [explicit] = &explicit[..] else { return };
    let wrap = |s: &str| format!("fn f(a, b, c, e) {{ let mut x = 1 p({s}) }}");
    let code = |ctx: &mut Ctx, s: &str| {
        ctx.note(s);
        sem::compile(s, false).map_err(|e| format!("{e:?}")).and_then(|c| mc::code::decode(&c)).map(|c| {
            let mut o = String::new();
            c.canon(&mut o);
            o
        })
    };
    let a = code(ctx, &wrap(text));
    let b = code(ctx, &wrap(explicit));
    if a.is_err() != b.is_err() || (a.is_ok() && a != b) {
        let say = |r: Result<String, String>| r.err().unwrap_or("compiled".into());
        ctx.violation(format!("{text} does not compile to the code of {explicit}: {} / {}", say(a), say(b)));
    }
}

fn c03(thorough: bool) -> Vec<Stage> {
    let mut v = vec![];
    let nb = BINARY.len();
    let max = if thorough { 6 } else { 5 };
    for n in 1..=max {
        let total = (nb as u64).pow(n as u32);
        let with_code = n <= if thorough { 4 } else { 3 };
        v.push(stage(
            &format!("{n} binary operators"),
            &format!("every sequence of {n} of the {nb} binary operator forms{}", if with_code { ", as trees and as code" } else { "" }),
            total,
            move |i, ctx| {
                let t = sequence(i, n, nb);
                precedence(ctx, &t);
                if with_code {
                    same_code(ctx, &t)
                }
            },
        ));
    }
    // Prefix and postfix decorations of each operand.
    const DECOR: &[&str] = &["%", "-%", "!%", "%?", "%!!", "%.f", "%(c)", "%[c]", "-%.f", "!%(c)", "-%?", "-%!!", "!-%", "-!%[c]", "-%?.f", "(%)", "-(%)", "(-%).f", "(-%)?", "|q| %", "x = %", "x += %", "a.f = %", "{ % }", "%.f?.g!!(c)"];
    let nd = DECOR.len();
    let ops = if thorough { 2 } else { 1 };
    let total = (nb as u64).pow(ops as u32) * (nd as u64).pow(ops as u32 + 1);
    v.push(stage(
        "decorated operands",
        &format!("every sequence of {ops} binary operators with each of {nd} prefix, postfix, assignment and lambda forms on every operand"),
        total,
        move |i, ctx| {
            let i = i as usize;
            let mut j = i;
            let mut s = String::new();
            for k in 0..=ops {
                if k > 0 {
                    let o = BINARY[j % nb];
                    j /= nb;
                    s.push_str(&format!(" {o} "));
                    // `is T` and `or e {}` have no right operand; what follows is joined by an operator.
                    if o.starts_with("is") || o.starts_with("or") {
                        s.push_str("* ");
                    }
                }
                let name = ["a", "b", "c"][k];
                s.push_str(&DECOR[j % nd].replace('%', name));
                j /= nd;
            }
            precedence(ctx, &s);
            same_code(ctx, &s);
        },
    ));
    // Parentheses around every run of operands.
    let n = if thorough { 4 } else { 3 };
    let spans: Vec<(usize, usize)> = (0..=n).flat_map(|a| (a..=n).map(move |b| (a, b))).collect();
    let ns = spans.len() as u64;
    let total = (nb as u64).pow(n as u32) * ns;
    let spans = Arc::new(spans);
    v.push(stage(
        "parentheses",
        &format!("every sequence of {n} binary operators with parentheses around every run of operands"),
        total,
        move |i, ctx| {
            let (from, to) = spans[(i % ns) as usize];
            let mut j = (i / ns) as usize;
            let mut s = String::new();
            let mut close = false;
            for k in 0..=n {
                if k > 0 {
                    let o = BINARY[j % nb];
                    j /= nb;
                    s.push_str(&format!(" {o} "));
                    if o.starts_with("is") || o.starts_with("or") {
                        s.push_str("- ");
                    }
                }
                if k == from {
                    s.push('(');
                    close = true;
                }
                s.push_str(["a", "b", "c", "a", "b"][k]);
                if k == to && close {
                    s.push(')');
                }
            }
            precedence(ctx, &s);
        },
    ));
    // Long chains: one operator among many of another kind, and periodic ones.
    let lengths: Vec<usize> = if thorough { (4..48).collect() } else { vec![4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40] };
    let nl = lengths.len() as u64;
    let longest = *lengths.last().unwrap();
    let (nb64, l2) = (nb as u64, lengths.clone());
    let chain = |ops: &[&str]| {
        let mut s = "a".to_string();
        for (k, o) in ops.iter().enumerate() {
            s.push_str(&format!(" {o}"));
            if !(o.starts_with("is") || o.starts_with("or")) {
                s.push_str([" b", " c", " a"][k % 3]);
            }
        }
        s
    };
    v.push(stage("long chains", &format!("every operator among up to {longest} of every other, at every place"), nb64 * nb64 * nl, move |i, ctx| {
        let (a, b) = (BINARY[(i % nb64) as usize], BINARY[(i / nb64 % nb64) as usize]);
        let n = lengths[(i / nb64 / nb64) as usize];
        for at in 0..n {
            let ops: Vec<&str> = (0..n).map(|k| if k == at { b } else { a }).collect();
            precedence(ctx, &chain(&ops));
        }
        let ops: Vec<&str> = (0..n).map(|k| if k == n / 2 { b } else { a }).collect();
        same_code(ctx, &chain(&ops));
    }));
    v.push(stage("periodic chains", &format!("every three operators over and over, up to {longest} in all"), nb64.pow(3) * nl, move |i, ctx| {
        let ops = [BINARY[(i % nb64) as usize], BINARY[(i / nb64 % nb64) as usize], BINARY[(i / nb64 / nb64 % nb64) as usize]];
        let n = l2[(i / nb64 / nb64 / nb64) as usize];
        let ops: Vec<&str> = (0..n).map(|k| ops[k % 3]).collect();
        precedence(ctx, &chain(&ops));
    }));
    // Expressions where they can stand.
    const PLACES: &[&str] = &[
        "let x = %", "return %", "f(%, %)", "a[%]", "[%, %]", "#{ a: %, b: % }", "if % { }", "while % { }", "for i in % { }", "|x| %", "{ % }", "x = %", "a.b += %", "export let x = %", "class A : % { }", "fn f() { % }", "super(%)", "(%).a", "(%)(1)", "if a { % } else { % }", "a or e { % }", "g(|x| %, 1)", "return a \n- %", "let { x } = %", "fn f(x: T) -> T? { % }", "a is T \n% ", "!(%)", "-(%)", "(%)?", "(%)!!",
    ];
    let np = PLACES.len() as u64;
    v.push(stage("places", &format!("every sequence of 3 of the {nb} operator forms in each of {np} places an expression can stand"), nb64.pow(3) * np, move |i, ctx| {
        let e = sequence(i / np, 3, nb);
        precedence(ctx, &PLACES[(i % np) as usize].replace("\\n", "\n").replace('%', &e));
    }));
    v.push({
        let alphabet = operator_alphabet();
        let depth = if thorough { 9 } else { 7 };
        let n = alphabet.len() as u64;
        stage("operator token sequences", &format!("all sentences of up to {depth} tokens over {n} operand and operator tokens"), n * n, move |i, ctx| {
            let stop = ctx.stop;
            let x = Explorer { alphabet: &alphabet, depth, suffix: "", stop: &|| stop.load(SeqCst) };
            let first = alphabet[(i / n) as usize];
            let viable = match parse::parse(first) {
                Ok(_) => true,
                Err(e) => e.at >= 1,
            };
            if viable {
                x.one(first, alphabet[(i % n) as usize], depth - 1, &mut |t, r| {
                    if r.is_ok() {
                        judge(ctx, t, r, What::Accept)
                    }
                });
            }
        })
    });
    v
}

fn sequence(i: u64, n: usize, nb: usize) -> String {
    let mut j = i as usize;
    let mut s = "a".to_string();
    let mut k = 0;
    for _ in 0..n {
        let o = BINARY[j % nb];
        j /= nb;
        s.push(' ');
        s.push_str(o);
        if !(o.starts_with("is") || o.starts_with("or")) {
            k += 1;
            s.push(' ');
            s.push_str(["a", "b", "c"][k % 3]);
        }
    }
    s
}

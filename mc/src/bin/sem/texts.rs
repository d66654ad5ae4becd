//! Checks over texts of every kind, well formed or not: C01, C02, C05, C13 and C14.

use crate::check;
use mc::analyze::analyze;
use mc::code::decode;
use mc::diag;
use mc::families::{self, Family};
use mc::lex::{self, lex};
use mc::parse;
use mc::run::*;
use mc::seeds::SEEDS;
use mc::sem::{compile, compile_at, decide, Bounds};
use mc::sizes::{filler, Size, MODULE_SIZES, MORE, MORE_MODULES, SIZES, SPANS};
use mc::tokens::*;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

const SMALL: &str = "Texts beyond the stated lengths and sizes behave like those within them.";
const LIMITS: &str = "Memory is not exhausted; nesting between 600 and 100 000 levels behaves like what is enumerated below and the known findings above.";

pub fn make(property: &str, thorough: bool) -> Option<Check> {
    match property {
        "C01" => check(property, "texts compiled", "results (programs or diagnostics) obtained and printed", &[SMALL, LIMITS], total(thorough)),
        "C02" => check(property, "texts judged", "steps of the reference machine and comparisons", &[SMALL, "The token table is that of mc/src/lex.rs."], tokens(thorough)),
        "C05" => check(property, "texts judged and runs of accepted ones", "instructions executed on the reference machine", &[SMALL], literals(thorough)),
        "C13" => check(property, "rejected texts", "diagnostics compared part by part", &[SMALL, "Where several constructs are at fault any of them may be reported."], diagnostics(thorough)),
        "C14" => check(property, "texts", "offsets and ranges looked up", &[SMALL], positions(thorough)),
        _ => None,
    }
}

/// Characters and fragments that mean something to some part of the front end, and some that mean nothing to any.
const CHARS: &[&str] = &[
    "a", "_", "Z", "0", "9", "1", " ", "\n", "\r", "\t", "\"", "\\", "n", "r", "/", "//", ".", "=", "!", "?", "|", "&", "<", ">", "-", "+", "*", "%",
    "(", ")", "{", "}", "[", "]", ":", ",", "#", "@", "$", "~", "^", ";", "'", "`", "\0", "\u{b}", "\u{c}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "é", "✓", "😀", "e\u{301}",
];
const FEW: &[&str] = &["a", "0", " ", "\n", "\r", "\"", "\\", "n", "/", ".", "=", "!", "?", "|", "&", "<", "-", "+", "(", ")", "{", "}", "#", ",", "é", "😀"];

fn words() -> Vec<&'static str> {
    lex::KEYWORDS.iter().chain(lex::RESERVED_WORDS).copied().collect()
}

// ---- C01 -----------------------------------------------------------------------------------------------------------------

fn survives(ctx: &mut Ctx, text: &str) {
    for module in [false, true] {
        survives_as(ctx, text, module)
    }
}

fn survives_as(ctx: &mut Ctx, text: &str, module: bool) {
    ctx.note(text);
    ctx.tally.states += 1;
    ctx.tally.transitions += 1;
    ctx.tally.traces += 1;
    match compile(text, module) {
        Ok(_) => ctx.tally.accepted += 1,
        Err(e) => {
            ctx.tally.rejected += 1;
            let shown = format!("{e}{e:?}");
            if e.error_code() == "E2000" || shown.contains("E2000") {
                ctx.violation(format!("an internal compiler error: {shown}"));
            }
            ctx.outcome(hash(e.error_code()));
        }
    }
}

/// Texts nested so deep that the recursion of parser and compiler must not depend on the native stack.
fn deep_text(id: &str) -> String {
    let n = 100_000;
    let (open, close) = match id {
        "deep-parentheses" => ("(", ")"),
        "deep-lists" => ("[", "]"),
        "deep-objects" => ("#{a:", "}"),
        "deep-prefixes" => ("- ", ""),
        "deep-blocks" => ("if a {", "}"),
        "deep-functions" => ("|a| ", ""),
        "deep-chains" => return format!("a{}", ".b".repeat(n)),
        "deep-sums" => return format!("1{}", " + 1".repeat(n)),
        other => panic!("no such text: {other}"),
    };
    format!("{}1{}", open.repeat(n), close.repeat(n))
}

const DEEP: &[&str] = &["deep-parentheses", "deep-lists", "deep-objects", "deep-prefixes", "deep-blocks", "deep-functions", "deep-chains", "deep-sums"];

/// Compiles one of the deep texts on a stack of the usual size; the caller looks at how the process ended.
pub fn compile_deep(id: &str) {
    let id = id.to_string();
    let done = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let ok = compile(&deep_text(&id), false).map_or_else(|e| e.error_code() != "E2000", |_| true);
        println!("done {ok}");
        // What was built may itself be too deep to be taken down.
        std::process::exit(if ok { 0 } else { 1 })
    });
    let _ = done.unwrap().join();
    std::process::exit(1)
}

fn deep() -> Stage {
    let listed: Vec<String> = std::fs::read_to_string("/verif/known_findings.txt")
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("finding: property=C01 ").map(|r| r.split(' ').next().unwrap_or("").to_string()))
        .collect();
    stage("texts nested 100 000 deep, in a process of their own", "8 kinds of nesting, on a stack of 8 MiB", DEEP.len() as u64, move |i, ctx| {
        let id = DEEP[i as usize];
        ctx.note(id);
        ctx.tally.states += 1;
        ctx.tally.transitions += 1;
        ctx.tally.traces += 1;
        let out = match std::env::current_exe().and_then(|me| std::process::Command::new(me).args(["--deep", id]).output()) {
            Ok(out) => out,
            Err(e) => panic!("cannot start a process: {e}"),
        };
        ctx.outcome(out.status.code().map_or(0, |c| c as u64 + 1));
        if out.status.success() {
            return;
        }
        let overflow = out.status.code().is_none() && String::from_utf8_lossy(&out.stderr).contains("stack overflow");
        if overflow && listed.iter().any(|l| l == id) {
            ctx.known.push(format!("{id}: the native stack is exhausted and the process aborts"));
        } else {
            ctx.violation(format!("compiling the text {id} ends the process with {}: {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>()));
        }
    })
}

fn each(name: &'static str, about: String, total: u64, text: impl Fn(u64) -> String + Send + Sync + 'static, f: impl Fn(&mut Ctx, &str) + Send + Sync + 'static) -> Stage {
    stage(name, &about, total, move |i, ctx| f(ctx, &text(i)))
}

fn char_strings(name: &'static str, alphabet: &'static [&'static str], max: usize, f: impl Fn(&mut Ctx, &str) + Send + Sync + 'static) -> Stage {
    each(name, format!("all texts of up to {max} of {} characters and fragments", alphabet.len()), strings(alphabet, max), move |i| string(alphabet, i), f)
}

/// Every seed with one character left out, or one fragment put in or in place of one, and every part of it cut off.
fn damaged(thorough: bool, f: impl Fn(&mut Ctx, &str) + Send + Sync + 'static) -> Stage {
    let mut texts: Vec<String> = SEEDS.iter().map(|s| s.to_string()).collect();
    texts.push("let s = \"a\\n\\\"é😀\" + \\raw✓\\ // end\nx".to_string());
    let n = texts.len();
    if thorough {
        for a in SEEDS {
            for b in SEEDS {
                texts.push(format!("{a}\n{b}"));
            }
        }
    }
    let all: Vec<&'static str> = CHARS.iter().copied().chain(words()).collect();
    let about = format!("{} sentences, each cut off at every character, and with every character left out, replaced by or preceded by each of {} fragments", texts.len(), all.len());
    stage("damaged sentences", &about, texts.len() as u64, move |i, ctx| {
        let t = &texts[i as usize];
        let all = if (i as usize) < n { &all[..] } else { &["\"", "\\", "{", ")", "/", "é", "|", "0", "@"][..] };
        f(ctx, t);
        for (k, c) in t.char_indices() {
            let rest = &t[k + c.len_utf8()..];
            f(ctx, &t[..k]);
            f(ctx, &t[k..]);
            f(ctx, &format!("{}{rest}", &t[..k]));
            for a in all {
                f(ctx, &format!("{}{a}{rest}", &t[..k]));
                f(ctx, &format!("{}{a}{}", &t[..k], &t[k..]));
            }
        }
        for a in all {
            f(ctx, &format!("{t}{a}"));
        }
    })
}

/// Pairs of fragments put together at every place of every sentence.
fn twice_damaged(f: impl Fn(&mut Ctx, &str) + Send + Sync + 'static) -> Stage {
    let few: Vec<&'static str> = FEW.to_vec();
    let n = few.len() as u64;
    let about = format!("{} sentences with every pair of {n} fragments put in at every character", SEEDS.len());
    stage("twice damaged sentences", &about, SEEDS.len() as u64 * n, move |i, ctx| {
        let t = SEEDS[(i / n) as usize];
        let a = few[(i % n) as usize];
        for b in &few {
            for (k, _) in t.char_indices() {
                f(ctx, &format!("{}{a}{b}{}", &t[..k], &t[k..]));
            }
        }
    })
}

fn token_sequences(depth: usize, alphabet: Vec<&'static str>, f: impl Fn(&mut Ctx, &str) + Send + Sync + 'static) -> Stage {
    let n = alphabet.len() as u64;
    let about = format!("all sequences of up to {depth} tokens over {n} token spellings that some sentence continues, and every one-token continuation of each, in {} surroundings", CONTEXTS.len());
    stage("token sequences in context", &about, n * CONTEXTS.len() as u64, move |i, ctx| {
        let (before, after) = CONTEXTS[(i / n) as usize];
        let stop = ctx.stop;
        let x = Explorer { alphabet: &alphabet, depth, suffix: after, stop: &|| stop.load(SeqCst) };
        x.one(before, alphabet[(i % n) as usize], depth, &mut |t, _| f(ctx, t));
    })
}

/// Every token sequence, continuable or not.
fn blind_sequences(depth: usize, alphabet: Vec<&'static str>, f: impl Fn(&mut Ctx, &str) + Send + Sync + 'static) -> Stage {
    let n = alphabet.len() as u64;
    each("arbitrary token sequences", format!("all sequences of {depth} of {n} tokens"), n.pow(depth as u32), move |mut i| {
        let mut v = vec![];
        for _ in 0..depth {
            v.push(alphabet[(i % n) as usize]);
            i /= n;
        }
        v.join(" ")
    }, f)
}

fn changed_tokens(thorough: bool, f: impl Fn(&mut Ctx, &str) + Send + Sync + 'static) -> Stage {
    let alphabet = if thorough { full_alphabet() } else { small_alphabet() };
    let mut texts: Vec<String> = SEEDS.iter().map(|s| s.to_string()).collect();
    for a in SEEDS {
        for b in SEEDS {
            texts.push(format!("fn q ( ) {{ {a} }} {b}"));
            if thorough {
                texts.push(format!("class Q {{ fn m ( self ) {{ {a} }} }} {b}"));
            }
        }
    }
    let about = format!("{} sentences that use every construct, alone, in sequence and nested, and every text that differs from one by one token", texts.len());
    stage("one-token changes", &about, texts.len() as u64, move |i, ctx| {
        let t = &texts[i as usize];
        f(ctx, t);
        let few = ["a", "(", ")", "{", "}", ",", "=", "fn", "@", "self", "super"];
        let alphabet: &[&str] = if (i as usize) < SEEDS.len() { &alphabet } else { &few };
        mutations(t, alphabet, &mut |m| f(ctx, m));
    })
}

fn program(f: Family, g: impl Fn(&mut Ctx, &str, bool) + Send + Sync + 'static) -> Stage {
    stage(f.name, &f.about.clone(), f.total, move |i, ctx| g(ctx, &(f.text)(i), f.module))
}

fn big(thorough: bool, f: impl Fn(&mut Ctx, &str, bool) + Send + Sync + 'static) -> Stage {
    let counts: Vec<usize> = if thorough { (0..20).chain(240..270).chain([400, 520, 70_000]).collect() } else { vec![0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 258, 259, 300] };
    let all: Vec<(&'static Size, bool)> = SIZES.iter().chain(MORE).map(|s| (s, false)).chain(MODULE_SIZES.iter().chain(MORE_MODULES).map(|s| (s, true))).collect();
    let lengths = [0, 2, 32_700, 32_750, 32_767, 32_768, 32_770, 40_000, 65_536, 66_000];
    let (na, nl) = (all.len() * counts.len(), SPANS.len() * lengths.len());
    let about = format!("{} kinds of program that need n of something, for {} values of n; {} jumps over bodies of {} lengths", all.len(), counts.len(), SPANS.len(), lengths.len());
    stage("sizes", &about, (na + nl) as u64, move |i, ctx| {
        let i = i as usize;
        if i < na {
            let (s, m) = all[i % all.len()];
            let n = counts[i / all.len()];
            if n > 5000 && (s.name.starts_with("nested") || s.name.starts_with("pending") || s.name.contains("links")) {
                ctx.tally.skipped += 1;
                return;
            }
            f(ctx, &(s.text)(n), m)
        } else {
            let i = i - na;
            let s = &SPANS[i % SPANS.len()];
            f(ctx, &format!("{} {}{}", s.before, filler(lengths[i / SPANS.len()]), s.after), false)
        }
    })
}

/// Nesting of every construct in every other.
fn nested(thorough: bool, f: impl Fn(&mut Ctx, &str) + Send + Sync + 'static) -> Stage {
    const NEST: &[(&str, &str)] = &[
        ("(", ")"), ("[", "]"), ("{", "}"), ("f(", ")"), ("a[", "]"), ("#{a:", "}"), ("if a {", "}"), ("if {", "} { }"), ("loop {", "}"), ("while", "{ }"), ("for i in", "{ }"),
        ("fn f() {", "}"), ("|a|", ""), ("-", ""), ("class A { fn m(self) {", "} }"), ("class A :", "{ }"), ("a or e {", "}"), ("let x =", ""), ("(1 +", ")"), ("return", ""), ("a =", ""), ("g.a =", ""),
        ("super(", ")"), ("export let x =", ""), ("export fn f() {", "}"), ("(", ")?"), ("(", ")!!"), ("(", ").a"), ("(", ") is A"), ("op +(a, b) {", "}"), ("class A : B { fn new(self) { super(", ") } }"),
    ];
    const CORE: &[&str] = &["1", "a", "break", "continue", "return", "super.a", "super(1)", "let a = 1", "fn g() { }", "a!!", "a?", "import { a } from \"m\"", "export a", "", "{", "@", "let { a } = b"];
    let levels = if thorough { 4 } else { 3 };
    let n = NEST.len() as u64;
    let total = n.pow(levels) * CORE.len() as u64;
    let about = format!("{} constructs and fragments inside every sequence of {levels} of {n} nestable constructs", CORE.len());
    each("nesting", about, total, move |mut i| {
        let mut t = CORE[(i % CORE.len() as u64) as usize].to_string();
        i /= CORE.len() as u64;
        for _ in 0..levels {
            let (l, r) = NEST[(i % n) as usize];
            t = format!("{l} {t} {r}");
            i /= n;
        }
        t
    }, f)
}

/// Tokens and lines of every length, narrow and wide, near something wrong.
fn long_lines(thorough: bool, f: impl Fn(&mut Ctx, &str) + Send + Sync + 'static) -> Stage {
    const FILL: &[&str] = &["a", "é", "✓", "😀", " ", "\t", "1", "a é"];
    const FORMS: &[&str] = &[
        "zz = \"%é✓\"", "p(\"%é\") zz = 1", "// %\n@", "\"%", "\"é%\\q\"", "let x = \n\"%\" }", "\\%\\ é", "fn f() {\n \"%\" break\n }", "#{ a: \"%\" ", "let x = \"%é\" // %\r\nx = \"%\"",
        "zz% = 1", "let x% = 1 x% = 2", "fn f(a%, a%) { }", "let x% = x%", "5%", "%", "let x = 5 %\nx = é",
    ];
    let max = if thorough { 4200 } else { 1100 };
    let (k, n) = (FILL.len() as u64, FORMS.len() as u64);
    let about = format!("{n} faulty texts with each of {k} fillers 0 to {} times in them", max - 1);
    each("long lines", about, k * n * max, move |i| FORMS[(i % n) as usize].replace('%', &FILL[(i / n % k) as usize].repeat((max - 1 - i / n / k) as usize)), f)
}

fn total(thorough: bool) -> Vec<Stage> {
    let t = thorough as usize;
    let mut v = vec![
        char_strings("characters", CHARS, 3 + t, survives),
        char_strings("fewer characters", FEW, 4 + t, survives),
        damaged(thorough, survives),
        token_sequences(3, full_alphabet(), survives),
        blind_sequences(3, full_alphabet(), survives),
        changed_tokens(thorough, survives),
        nested(thorough, survives),
        big(thorough, survives_as),
        long_lines(thorough, survives),
        deep(),
    ];
    if thorough {
        v.push(twice_damaged(survives));
        v.push(blind_sequences(5, small_alphabet(), survives));
    }
    let mut f = families::broad(t);
    f.retain(|f| f.name != "ops");
    for m in [false, true] {
        f.push(families::wild(3 + t, m));
        f.push(families::names(3 + t, m));
        f.push(families::places(3 + t, m));
    }
    v.extend(f.into_iter().map(|f| program(f, survives_as)));
    v
}

// ---- C02 -----------------------------------------------------------------------------------------------------------------

const RUN: Bounds = Bounds { choices: 3, fuel: 2000 };

fn canon(text: &str, module: bool) -> Result<String, String> {
    let c = compile(text, module).map_err(|e| e.error_code().to_string())?;
    let d = decode(&c)?;
    let mut o = String::new();
    d.canon(&mut o);
    Ok(o)
}

/// The text means what its tokens, as the reference lexer splits it, mean when written well apart.
fn split(ctx: &mut Ctx, text: &str) {
    decide(ctx, text, false, RUN);
    let toks = lex(text);
    if toks.iter().any(|t| t.kind == lex::LEXERR) {
        return;
    }
    let apart: Vec<&str> = toks.iter().map(|t| &text[t.start..t.end]).collect();
    let apart = apart.join(" ");
    if apart == text {
        return;
    }
    ctx.tally.transitions += 1;
    let (a, b) = (canon(text, false), canon(&apart, false));
    if a != b {
        ctx.violation(format!("does not mean what its tokens mean when set apart: {apart:?}\n--- as written\n{}\n--- apart\n{}", a.unwrap_or_else(|e| e), b.unwrap_or_else(|e| e)));
    }
}

fn word_list() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let w = words();
    for k in &w {
        v.push(k.to_string());
        for c in ["a", "z", "A", "_", "0", "9", "s", "t", "e", "r"] {
            v.push(format!("{k}{c}"));
            if !c.starts_with(|c: char| c.is_ascii_digit()) {
                v.push(format!("{c}{k}"));
            }
        }
        for i in 0..k.len() {
            v.push(format!("{}{}", &k[..i], &k[i + 1..]));
            v.push(format!("{}_{}", &k[..i], &k[i..]));
            v.push(format!("{}{}", &k[..i], &k[i..i + 1].to_uppercase()) + &k[i + 1..]);
        }
        for i in 1..k.len() {
            v.push(k[..i].to_string());
            v.push(k[i..].to_string());
        }
        v.push(k.to_uppercase());
        for l in &w {
            v.push(format!("{k}{l}"));
        }
    }
    for x in ["self", "new", "Any", "Result", "_", "__", "_0", "a0b1_", "x", "X", "nul", "nulll", "truefalse"] {
        v.push(x.to_string());
    }
    v.retain(|x| !x.is_empty() && !x.starts_with(|c: char| c.is_ascii_digit()));
    v.sort();
    v.dedup();
    v
}

fn tokens(thorough: bool) -> Vec<Stage> {
    let t = thorough as usize;
    let words = Arc::new(word_list());
    const PLACES: &[&str] = &[
        "let % = 5 p(%)", "let mut % = 5 % = 6 p(%)", "let o = ob(1) o.% = 5 p(o.%)", "p(#{ %: 1 })", "fn %() { 5 } p(%())", "class % { fn %(self) { 5 } } p(%(), %().%())", "import { % } from \"m\"", "import * as % from \"m\" p(%)",
        "for % in it(2) { p(%) }", "p((|%| %)(5))", "fn f(%) { % } p(f(5))", "p(er(5) or % { p(%) })", "let { % } = ob(1)", "%", "p(1) % p(2)", "p(foo is %)", "p(%)",
    ];
    let np = PLACES.len() as u64;
    let w2 = words.clone();
    let mut v = vec![each(
        "words",
        format!("{} words (each keyword and reserved word, shortened, extended, split, joined, miscased) in each of {np} places a word can stand", words.len()),
        words.len() as u64 * np,
        move |i| PLACES[(i % np) as usize].replace('%', &w2[(i / np) as usize]),
        split,
    )];
    // All short words.
    let letters: Vec<&'static str> = vec!["a", "s", "i", "f", "n", "o", "r", "p", "_", "0", "A", "l", "e", "t", "d", "m", "u"];
    let ls: &'static [&'static str] = Vec::leak(letters);
    let max = 3 + t;
    v.push(each(
        "all short words",
        format!("all words of up to {max} of {} letters and digits, as a variable", ls.len()),
        strings(ls, max),
        move |i| format!("let x = 1 let y{0} = 5 p(y{0}) let {0} = 6 p({0})", string(ls, i)),
        split,
    ));
    // Adjacent characters.
    const AROUND: &[(&str, &str)] = &[("", ""), ("let mut a = 4 let o = ob(2) p(", ")"), ("let mut a = 4 let b = 3 a ", " b p(a)"), ("let mut a = 4 let b = 3 p(a", "b)"), ("let mut a = 4 let b = ob(1) b", "a"), ("p({ ", " })")];
    const PUNCTUATION: &[&str] = &["a", "1", " ", ".", "=", "!", "?", "|", "&", "<", ">", "-", "+", "*", "/", "%", "(", ")", "{", "}", "[", "]", ":", ",", "#", "\"", "\n", "is", "T"];
    let na = AROUND.len() as u64;
    let max = 3 + t;
    v.push(each(
        "adjacent characters",
        format!("all texts of up to {max} of {} characters in {na} surroundings", PUNCTUATION.len()),
        strings(PUNCTUATION, max) * na,
        move |i| {
            let (a, z) = AROUND[(i % na) as usize];
            format!("{a}{}{z}", string(PUNCTUATION, i / na))
        },
        split,
    ));
    v.push(char_strings("characters", CHARS, 2 + t, split));
    v.push(char_strings("digits, dots and words", &["0", "1", ".", "..", "..=", "a", "_", "e", "x", "-", " "], 5 + t, split));
    // Every pair and triple of tokens written without a space.
    let all = full_alphabet();
    let n = all.len() as u64;
    let a2 = all.clone();
    v.push(each("adjoining tokens", format!("every pair of {n} tokens, adjoining, in {na} surroundings"), n * n * na, move |i| {
        let (a, z) = AROUND[(i % na) as usize];
        let i = i / na;
        format!("{a}{}{}{z}", a2[(i % n) as usize], a2[(i / n) as usize])
    }, split));
    if thorough {
        v.push(each("adjoining triples", format!("every triple of {n} tokens, adjoining, in two surroundings"), n * n * n * 2, move |i| {
            let (a, z) = AROUND[(i % 2) as usize];
            let i = i / 2;
            format!("{a}{}{}{}{z}", all[(i % n) as usize], all[(i / n % n) as usize], all[(i / n / n) as usize])
        }, split));
    }
    // Long tokens and long gaps.
    const STEM: &[&str] = &["a", "_", "Z", "a0", "if", "let", "self", "x_", "fn", "true", "null", "éa", "9", "return"];
    const KIND: usize = 9;
    let lengths: Vec<usize> = if thorough { (0..300).chain([511, 512, 1023, 1024, 4096, 65_535, 65_536, 70_000]).collect() } else { (0..70).chain(126..130).chain(254..259).chain([511, 512, 513, 1024, 4096, 65_535, 65_536, 65_537]).collect() };
    let (ns, nk) = (STEM.len() as u64, KIND as u64);
    v.push(each("long tokens and gaps", format!("words, numbers, strings, backslash arguments, comments and gaps of {} lengths up to {}", lengths.len(), lengths.last().unwrap()), ns * nk * lengths.len() as u64, move |i| {
        let st = STEM[(i % ns) as usize];
        let n = lengths[(i / ns / nk) as usize];
        match i / ns % nk {
            0 => format!("let {0} = 5 p({0}, 2)", st.repeat(n / st.len() + 1)),
            1 => format!("let {0} = 5 p({0}, 2)", format!("{st}{}", "q".repeat(n))),
            2 => format!("let {0} = 5 let {0}b = 6 p({0}, {0}b)", format!("{}{st}", "q".repeat(n))),
            3 => format!("p(\"{}{st}\") p(2)", "x ".repeat(n)),
            4 => format!("p \\{}{st}\\ p(2)", "x ".repeat(n)),
            5 => format!("p(1) // {}{st}\np(2)", "x ".repeat(n)),
            6 => format!("p(1){}// {st}\n p(2){}", " ".repeat(n), "\n".repeat(n)),
            7 => format!("p(1{}){}p(2)", "//\n".repeat(n), format!("// {st}\n").repeat(n.min(600))),
            _ => format!("p({}{})", ["0", "1", "12"][st.len() % 3].repeat(n), [".5", ""][st.len() % 2]),
        }
    }, split));
    // Layout.
    const GAPS: &[&str] = &[
        "\n", "\t", "\r\n", "\u{c}", "  \n\n ", "//\n", " // x\n", "// \"\n", "//\\\n", "// }{)(\n", "/////\n", "// é😀✓\n", "// a // b\r\n", "//\r\n", "// x\n// y\n", "//\n//\n\n", "// let z = p(9)\n", "\n//;@$\n", "// x\r// y\n",
    ];
    let mut texts: Vec<(String, bool)> = SEEDS.iter().flat_map(|s| [(s.to_string(), false), (s.to_string(), true)]).collect();
    for f in families::broad(0) {
        let k = if thorough { 400 } else { 40 };
        for j in 0..k {
            texts.push(((f.text)((f.total - 1) * j / k), f.module));
        }
    }
    for s in SIZES.iter().step_by(5) {
        texts.push(((s.text)(3), false));
    }
    let texts = Arc::new(texts);
    let about = format!("{} programs with each of {} forms of layout in every gap between two tokens, before the first and after the last; at one place and at all; and a comment at the very end", texts.len(), GAPS.len());
    v.push(stage("layout", &about, texts.len() as u64, move |i, ctx| {
        let (text, module) = &texts[i as usize];
        let toks = lex(text);
        let words: Vec<&str> = toks.iter().map(|t| &text[t.start..t.end]).collect();
        let want = canon(&words.join(" "), *module);
        let mut try_ = |ctx: &mut Ctx, t: String| {
            ctx.note(&t);
            ctx.tally.states += 1;
            ctx.tally.transitions += 1;
            ctx.tally.traces += 1;
            let got = canon(&t, *module);
            if got != want {
                ctx.violation(format!("layout changes the meaning of\n{}\n--- plain\n{}\n--- this\n{}", words.join(" "), want.clone().unwrap_or_else(|e| e), got.unwrap_or_else(|e| e)));
            }
        };
        // A slash and a comment do not touch.
        let glue = |a: &str, g: &str| format!("{a}{}{g}", if a.ends_with('/') { " " } else { "" });
        for g in GAPS {
            try_(ctx, words.iter().map(|w| glue(w, g)).collect());
            try_(ctx, format!("{g}{}{g}", words.join(&format!(" {g}{g}"))));
            for k in 0..=words.len() {
                try_(ctx, glue(&words[..k].join(" "), g) + &words[k..].join(" "));
            }
        }
        for g in ["//", "// x", "//\"", "// é", " ", "\n", "\r", "\t//\\"] {
            try_(ctx, format!("{} {g}", words.join(" ")));
        }
        ctx.outcome(hash(&want.clone().unwrap_or_else(|e| e)));
    }));
    v
}

// ---- C05 -----------------------------------------------------------------------------------------------------------------

fn literals(thorough: bool) -> Vec<Stage> {
    let t = thorough as usize;
    const B: Bounds = Bounds { choices: 2, fuel: 4000 };
    let value = |ctx: &mut Ctx, t: &str| decide(ctx, t, false, B);
    let mut v = vec![];
    // Integers.
    let mut ints: Vec<String> = vec![];
    for e in 0..=66u32 {
        for d in -3i128..=3 {
            let x = (1i128 << e) + d;
            if x >= 0 {
                ints.push(x.to_string());
            }
        }
    }
    for e in 0..=21u32 {
        for d in -2i128..=2 {
            let x = 10i128.pow(e) + d;
            if x >= 0 {
                ints.push(x.to_string());
            }
        }
    }
    for d in -40i128..=40 {
        ints.push(((1i128 << 63) + d).to_string());
        ints.push(((1i128 << 64) + d).to_string());
        ints.push(((1i128 << 32) + d).to_string());
    }
    for k in 0..1100 {
        ints.push(k.to_string());
    }
    for z in ["", "0", "00", "0000000000000000000000000"] {
        for x in ["0", "1", "7", "255", "256", "9223372036854775807", "9223372036854775808"] {
            ints.push(format!("{z}{x}"));
        }
    }
    ints.push("1".repeat(400));
    let forms: &'static [&'static str] = &["p(%)", "%", "-%", "p(-%)", "let x = % p(x, %)", "fn f() { return % } p(f())", "p(1 + %)", "p([%, %])", "p(#{ a: % })", "p(#{ %: 5 })", "p((|| %)())"];
    let nf = forms.len() as u64;
    let ni = ints.len() as u64;
    v.push(each("integers", format!("{ni} integer literals (all up to 1100, and those around every power of two and ten, the limits, leading zeros) in {nf} places"), ni * nf, move |i| forms[(i % nf) as usize].replace('%', &ints[(i / nf) as usize]), value));
    // Every digit string.
    let digits: &'static [&'static str] = &["0", "1", "2", "5", "9", "."];
    let max = 6 + t;
    v.push(each("digit strings", format!("all strings of up to {max} digits and points"), strings(digits, max), move |i| format!("p({})", string(digits, i)), value));
    let long: &'static [&'static str] = &["0", "1", "4", "5", "9", "99999999999999999999", "000000000000000000000", "123456789", "49999999999999999", "50000000000000001", "9007199254740993", "1797693134862315"];
    let max = 2 + t;
    let nl = strings(long, max);
    v.push(each("floats", format!("all float literals whose parts are up to {max} of {} runs of digits, in two places", long.len()), nl * nl * 2, move |i| {
        let (a, b) = (string(long, i / 2 % nl), string(long, i / 2 / nl));
        if a.is_empty() || b.is_empty() { return "p()".into() }
        if i % 2 == 0 { format!("p({a}.{b})") } else { format!("let x = {a}.{b} p(-x, -{a}.{b})") }
    }, value));
    v.push(each("very long floats", "floats of up to 800 digits before and after the point, and exponent-like neighbours".into(), 2000, |i| {
        let (n, k) = ((i % 40 * 20 + 1) as usize, (i / 40 % 10) as usize);
        let d = ["0", "1", "9", "5", "49", "17", "3", "08", "99999", "24703282292062328"][k];
        match i / 400 {
            0 => format!("p({}.5)", d.repeat(n)),
            1 => format!("p(0.{})", d.repeat(n)),
            2 => format!("p(0.{}{d})", "0".repeat(n)),
            3 => format!("p(1{}.{d})", "0".repeat(n.min(320))),
            _ => format!("p({d}.{}1)", "0".repeat(n)),
        }
    }, value));
    // Doubles next to ones that mean something, written shortest, in full, and halfway between.
    let mut near: Vec<String> = vec![];
    let mut anchors: Vec<f64> = vec![0.0, 1.0, 0.1, 0.2, 0.25, 0.3, 0.5, 1.5, 2.0, 3.0, 5.0, 7.0, 10.0, 100.0, 1000.0, 1e6, 1e15, 1e16, 1e22, 1e23, 1e100, f64::MIN_POSITIVE, f64::MAX, f64::EPSILON, 3.141592653589793, 2.718281828459045];
    for e in [-1074i32, -1073, -1022, -1021, -149, -126, -64, -53, -52, -32, -24, -10, 8, 16, 24, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65, 127, 128, 1022, 1023] {
        anchors.push(2f64.powi(e));
    }
    anchors.extend([i8::MAX as f64, u8::MAX as f64, i16::MAX as f64, u16::MAX as f64, i32::MAX as f64, u32::MAX as f64, i64::MAX as f64, f32::MAX as f64, f32::MIN_POSITIVE as f64, f32::EPSILON as f64]);
    for a in &anchors {
        for k in -4i64..=4 {
            let bits = a.to_bits() as i64 + k;
            if bits < 0 {
                continue;
            }
            let x = f64::from_bits(bits as u64);
            if !x.is_finite() {
                continue;
            }
            for s in [format!("{x}"), format!("{x:.1}"), format!("{x:.17}"), format!("{x:.20}"), format!("{x:.40}"), format!("{x:.1080}")] {
                near.push(if s.contains('.') { s } else { format!("{s}.0") });
            }
            // Halfway to the next, exactly, and a hair to either side.
            let full = format!("{:.1100}", x / 2.0 + f64::from_bits(bits as u64 + 1) / 2.0);
            let t = full.trim_end_matches('0');
            if t.len() > 3 && !t.ends_with('.') && full.len() < 1500 {
                near.push(t.to_string());
                near.push(format!("{t}1"));
                near.push(format!("{}9", &t[..t.len() - 1]));
            }
        }
    }
    for n in 1..45 {
        for (a, z) in [("0", "9"), ("0", "0"), ("1", "9"), ("1", "0"), ("9", "9"), ("2", "9"), ("0.4", "9"), ("0.5", "0"), ("9", "0"), ("99", "9"), ("0.1", "0"), ("0.09", "9"), ("1.4", "9")] {
            let dot = if a.contains('.') { "" } else { "." };
            for last in ["", "1", "4", "5", "9", "8"] {
                near.push(format!("{a}{dot}{}{last}", z.repeat(n)));
            }
        }
        near.push(format!("{}.0", "9".repeat(n)));
        near.push(format!("1{}.0", "0".repeat(n)));
        near.push(format!("{}1.5", "0".repeat(n)));
    }
    near.sort();
    near.dedup();
    let nn = near.len() as u64;
    v.push(each("neighbouring floats", format!("{nn} float literals next to, halfway between and a hair off doubles that mean something, in four places"), nn * 4, move |i| {
        let x = &near[(i / 4) as usize];
        match i % 4 {
            0 => format!("p({x})"),
            1 => format!("p(-{x}, 1, {x}, 1.0, 0)"),
            2 => format!("fn f() {{ let o = #{{ a: {x} }} o.a + {x} }} p(f())"),
            _ => format!("p(0.0, 1.0, {x}) p({x} == 1.0, {x} < 1.0)"),
        }
    }, value));
    // Strings.
    v.push(file_names(3 + t));
    const ESC: &[&str] = &["a", "\\", "\"", "n", "r", "t", "\n", " ", "é", "😀", "0", "/", "'", "u", "\0", "{"];
    const STRING_FORMS: &[&str] = &["p(\"%\")", "p(#{ \"%\": 1 })", "let x = \"%\" p(x)", "p(\"%\" \"%\")", "import * as k from \"%\" p(k)", "p(g[\"%\"])"];
    let max = 4 + t;
    v.push(each("strings", format!("all strings of up to {max} of {} characters, with what follows", ESC.len()), strings(ESC, max), |i| format!("p(\"{}\") p(1)", string(ESC, i)), value));
    let max = 3 + t;
    let ns = STRING_FORMS.len() as u64;
    v.push(each("strings in every place", format!("all strings of up to {max} of {} characters in {ns} places", ESC.len()), strings(ESC, max) * ns, move |i| STRING_FORMS[(i % ns) as usize].replace('%', &string(ESC, i / ns)), value));
    // Long ones.
    const FILL: &[&str] = &["x", "é", "😀", "\\n", "\\\\", "\\\"", "\n", " ", "0", "ab\\t"];
    const ENDS: &[&str] = &["", "a", "b", "\\n", "\\\\", "\\\"", "é", "\\q", "\n", "\\"];
    let lengths: Vec<usize> = if thorough { (1..600).chain([1023, 1024, 1025, 4095, 4096, 4097, 65_534, 65_535, 65_536, 65_537, 100_000]).collect() } else { (1..70).chain(125..131).chain(250..260).chain([511, 512, 513, 1023, 1024, 1025, 4096, 65_535, 65_536, 65_537]).collect() };
    let (nf, ne, nl) = (FILL.len() as u64, ENDS.len() as u64, lengths.len() as u64);
    v.push(each("long strings", format!("strings of {nl} lengths up to {} of {nf} fillers with each of {ne} endings, alone, in front, in the middle, as keys, and beside others that begin or end the same", lengths.last().unwrap()), nf * ne * nl * 5, move |i| {
        let (f, e) = (FILL[(i % nf) as usize], ENDS[(i / nf % ne) as usize]);
        let i = i / nf / ne;
        let s = f.repeat(lengths[(i % nl) as usize]);
        match i / nl {
            0 => format!("p(\"{s}{e}\") p(1)"),
            1 => format!("p(\"{e}{s}\", 1)"),
            2 => format!("p(\"{s}{e}{s}\", \"{s}\", \"{s}{e}\", \"{s}a\")"),
            3 => format!("p(#{{ \"{s}{e}\": \"{e}{s}\", \"{s}\": 1, \"{s}b\": 2 }})"),
            _ => format!("p \\{}\\ p(\"{e}{s}\", \"a{s}\", \"b{s}\")", s.replace('\\', "q")),
        }
    }, value));
    const CORE: &[&str] = &["\\", "\"", "n", "a", "é"];
    let max = 7 + t;
    v.push(each("escapes", format!("all strings of up to {max} of {} characters", CORE.len()), strings(CORE, max), |i| format!("p(\"{}\")", string(CORE, i)), value));
    v.push(each("every character in a string", "each of the first 65536 characters and 2000 beyond, plain and after a backslash".into(), 67_000 * 2, |i| {
        let c = (i / 2) as u32;
        let c = char::from_u32(if c < 65_536 { c } else { 0x1F300 + (c - 65_536) }).unwrap_or('a');
        if i % 2 == 0 { format!("p(\"x{c}y\")") } else { format!("p(\"x\\{c}y\")") }
    }, value));
    // Backslash arguments.
    const RAW: &[&str] = &["a", " ", "\"", "n", "\n", "é", "😀", "//", "{", ")", "1", "\\"];
    let max = 4 + t;
    v.push(each("backslash arguments", format!("all backslash arguments of up to {max} of {} characters, alone and in chains", RAW.len()), strings(RAW, max) * 3, |i| {
        let s = string(RAW, i / 3);
        [format!("p \\{s}\\"), format!("p(p \\{s}\\, 2)"), format!("g.f \\{s}\\ p(1)")][(i % 3) as usize].clone()
    }, value));
    // Object keys.
    const KEYS: &[&str] = &["a", "b", "0", "1", "01", "9223372036854775808", "\"a\"", "\"1\"", "\"\"", "\"a b\"", "\"\\n\"", "\"\\\"\"", "\"é\"", "A", "_", "\"self\"", "self", "new", "1.5", "if", "\"if\"", "null", "true", "-1", "(a)", "\\a\\", "a.b", "#{}", "é", ""];
    let nk = KEYS.len() as u64;
    let places: &'static [&'static str] = &["p(#{ %: 1 })", "p(#{ %: 1, @: 2 })", "p(#{ %: 1, @: #{ %: 2 }, %: 3 })", "p(#{ %: 1, %: 2 })"];
    let np = places.len() as u64;
    v.push(each("object keys", format!("every pair of {nk} object keys in {np} forms"), nk * nk * np, move |i| places[(i % np) as usize].replace('%', KEYS[(i / np % nk) as usize]).replace('@', KEYS[(i / np / nk) as usize]), value));
    // Equal-looking literals side by side.
    const ALIKE: &[&str] = &[
        "0", "0.0", "00", "\"0\"", "-0", "-0.0", "false", "null", "()", "1", "1.0", "01", "\"1\"", "true", "2", "2.0", "\"2\"", "\"2.0\"", "5", "5.0", "\"a\"", "\"p\"", "g", "p", "\"g\"", "\"\"", "\"null\"", "\"true\"", "9007199254740992", "9007199254740993", "9007199254740992.0", "9007199254740993.0",
        "4607182418800017408", "4611686018427387904", "\"x\\n\"", "\"x\n\"", "\"xn\"", "#{ p: 2 }", "#{ \"p\": 2.0 }", "#{ 2: \"2\" }", "(|| 2)()", "(|| 2.0)()", "(|| \"p\")()", "g.a", "3", "\"a \"", "\"A\"", "0.1", "0.10", "0.100000000000000001", "1.00000000000000001",
    ];
    let nal = ALIKE.len() as u64;
    let k = 3;
    let total = nal.pow(k);
    v.push(each("look-alikes", format!("every triple of {nal} literals, many of equal value, spelling or bits, in one function"), total, move |i| {
        format!("p({}) p({}) p({})", ALIKE[(i % nal) as usize], ALIKE[(i / nal % nal) as usize], ALIKE[(i / nal / nal) as usize])
    }, value));
    if thorough {
        v.push(each("look-alikes in functions", format!("every triple of {nal} literals, two in a function nested in another"), total, move |i| {
            format!("let f = || {{ let h = || {0} p(h(), {1}, {0}) }} p({2}) f()", ALIKE[(i % nal) as usize], ALIKE[(i / nal % nal) as usize], ALIKE[(i / nal / nal) as usize])
        }, value));
    }
    v
}

// ---- C13 -----------------------------------------------------------------------------------------------------------------

fn reported(ctx: &mut Ctx, text: &str, module: bool) {
    ctx.note(text);
    let e = match compile(text, module) {
        Ok(_) => {
            ctx.tally.accepted += 1;
            return;
        }
        Err(e) => e,
    };
    ctx.tally.rejected += 1;
    ctx.tally.states += 1;
    let parsed = parse::parse(text);
    let (cands, syn) = match &parsed {
        Err(s) => (diag::of_syntax(s), Some(&**s)),
        Ok(root) => (diag::of_rules(&analyze(root, module)), None),
    };
    ctx.tally.transitions += 1;
    ctx.tally.traces += 1;
    ctx.outcome(hash(&format!("{e:?}")));
    if let Err(m) = diag::check(&e, text, None, &cands, syn) {
        return ctx.violation(m);
    }
    // With a file name only the name differs.
    let path = "dir/file name.dm";
    match compile_at(text, path, module) {
        Ok(_) => ctx.violation("rejected only when the source has no path"),
        Err(e) => {
            if let Err(m) = diag::check(&e, text, Some(path), &cands, syn) {
                ctx.violation(m);
            }
        }
    }
}

/// The text as it is, and moved to another place.
fn moved(ctx: &mut Ctx, text: &str, module: bool) {
    reported(ctx, text, module);
    reported(ctx, &format!("// é✓😀\n\t\"é😀\" {text}"), module);
    let toks = lex(text);
    if toks.len() > 1 && toks.iter().all(|t| t.kind != lex::LEXERR) {
        let w: Vec<&str> = toks.iter().map(|t| &text[t.start..t.end]).collect();
        reported(ctx, &format!("\r\n  {}\n\n", w.join("\n  ")), module);
    }
}

fn both(ctx: &mut Ctx, text: &str) {
    moved(ctx, text, false);
}

/// Whatever a file is called, its diagnostics say so.
fn file_names(max: usize) -> Stage {
    const PARTS: &[&str] = &["a", ".", "/", "\\", " ", ":", "é", "\"", "|", "{", "<", "%", "0", "😀"];
    const FAULTY: &[(&str, bool)] = &[
        ("let x = ", false), ("\n\n  y = 2", false), ("fn f() {\n break\n }", false), ("\"abc", false), ("1\né @", false), ("let a = 1 a = [\n2,\n3]", true), ("export 5", true), ("class A {\n fn new() {\n }\n }", true),
    ];
    let paths = strings(PARTS, max);
    let n = FAULTY.len() as u64;
    let about = format!("{n} faulty texts in files with every name of up to {max} of {} characters", PARTS.len());
    stage("file names", &about, paths * n, move |i, ctx| {
        let (text, module) = FAULTY[(i % n) as usize];
        let path = string(PARTS, i / n);
        if path.is_empty() {
            return;
        }
        ctx.note(&format!("{text} in {path}"));
        ctx.tally.states += 1;
        ctx.tally.transitions += 1;
        ctx.tally.traces += 1;
        let parsed = parse::parse(text);
        let (cands, syn) = match &parsed {
            Err(s) => (diag::of_syntax(s), Some(&**s)),
            Ok(root) => (diag::of_rules(&analyze(root, module)), None),
        };
        match compile_at(text, &path, module) {
            Ok(_) => ctx.violation("accepted in this file, but it breaks a rule"),
            Err(e) => {
                ctx.tally.rejected += 1;
                ctx.outcome(hash(&format!("{e:?}")));
                if let Err(m) = diag::check(&e, text, Some(&path), &cands, syn) {
                    ctx.violation(m);
                }
            }
        }
    })
}

fn diagnostics(thorough: bool) -> Vec<Stage> {
    let t = thorough as usize;
    let mut v = vec![
        char_strings("characters", CHARS, 2 + t, both),
        char_strings("fewer characters", FEW, 3 + t, both),
        damaged(false, both),
        token_sequences(2 + t, full_alphabet(), both),
        blind_sequences(2 + t, full_alphabet(), both),
        changed_tokens(thorough, |ctx, t| reported(ctx, t, false)),
        big(thorough, reported),
        long_lines(thorough, |ctx, t| reported(ctx, t, false)),
    ];
    v.push(file_names(3 + t));
    const ESC: &[&str] = &["a", "\\", "\"", "n", "q", "\n", "é", "😀", "u"];
    v.push(char_strings("strings", ESC, 5 + t, |ctx, s| reported(ctx, &format!("let x = \"{s}"), false)));
    let mut f = vec![];
    for m in [false, true] {
        f.push(families::wild(3 + t, m));
        f.push(families::names(4 + t, m));
        f.push(families::places(4 + t, m));
    }
    v.extend(f.into_iter().map(|f| program(f, moved)));
    v
}

// ---- C14 -----------------------------------------------------------------------------------------------------------------

fn located(ctx: &mut Ctx, text: &str) {
    use dice_core::source::{LineIndex, Source, SourceKind};
    use dice_core::span::Span;
    ctx.note(text);
    ctx.tally.states += 1;
    ctx.tally.traces += 1;
    let source = Source::new(text.to_string(), SourceKind::Script);
    let own = LineIndex::new(text);
    let ends: Vec<usize> = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect();
    let mut lines = vec![];
    let mut start = 0;
    for l in text.split_inclusive('\n') {
        lines.push((start, start + l.len()));
        start += l.len();
    }
    for index in [&own, source.line_index()] {
        for o in &ends {
            let p = index.position_of(*o);
            let (l, c) = diag::position(text, *o);
            ctx.tally.transitions += 1;
            if (p.line + 1, p.column_utf16 + 1) != (l, c) {
                return ctx.violation(format!("offset {o} is reported at line {}, column {}, but is at {}, {} (from 0)", p.line, p.column_utf16, l - 1, c - 1));
            }
        }
        for a in &ends {
            for b in &ends {
                if b <= a {
                    continue;
                }
                ctx.tally.transitions += 1;
                let got: Vec<(usize, usize)> = index.lines(Span::new(*a..*b)).map(|s| (s.start, s.end)).collect();
                let want: Vec<(usize, usize)> = lines.iter().copied().filter(|(s, e)| s < b && e > a).collect();
                if got != want {
                    return ctx.violation(format!("the lines of {a}..{b} are reported as {got:?}, but are {want:?}"));
                }
            }
        }
    }
    ctx.outcome(lines.len() as u64 * 1000 + ends.len() as u64 * 50 + text.encode_utf16().count() as u64);
}

/// Positions and lines of a long text, looked up around every place where a count outgrows a machine size.
fn located_far(ctx: &mut Ctx, text: &str) {
    use dice_core::source::LineIndex;
    use dice_core::span::Span;
    ctx.note(&text.chars().take(40).collect::<String>());
    ctx.tally.states += 1;
    ctx.tally.traces += 1;
    let index = LineIndex::new(text);
    // For every boundary: the line and the column.
    let mut places = vec![];
    let mut starts = vec![0];
    let (mut line, mut column) = (0, 0);
    for (o, c) in text.char_indices() {
        places.push((o, line, column));
        column += c.len_utf16();
        if c == '\n' {
            line += 1;
            column = 0;
            starts.push(o + 1);
        }
    }
    places.push((text.len(), line, column));
    let n = places.len();
    let mut picks: Vec<usize> = if text.len() <= 3000 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..12.min(n)).chain(n.saturating_sub(12)..n).collect();
        let near = |x: usize, v: &mut Vec<usize>| v.extend((x.saturating_sub(3)..x + 4).filter(|k| *k < n));
        for p in 5..20 {
            near(1 << p, &mut v);
            let o = places.partition_point(|x| x.0 < 1 << p);
            near(o, &mut v);
            near(n.saturating_sub(1 << p), &mut v);
        }
        for k in (0..n).step_by(8192) {
            near(k, &mut v);
        }
        v
    };
    picks.sort();
    picks.dedup();
    for k in &picks {
        let (o, l, c) = places[*k];
        let p = index.position_of(o);
        ctx.tally.transitions += 1;
        if (p.line, p.column_utf16) != (l, c) {
            return ctx.violation(format!("in a text of {} bytes offset {o} is reported at line {}, column {}, but is at {l}, {c} (from 0)", text.len(), p.line, p.column_utf16));
        }
    }
    let mut ranges: Vec<(usize, usize)> = picks.windows(2).map(|w| (places[w[0]].0, places[w[1]].0)).collect();
    ranges.extend(picks.windows(12).map(|w| (places[w[0]].0, places[w[11]].0)));
    ranges.extend(picks.iter().step_by(picks.len() / 8 + 1).map(|k| (places[*k].0, text.len())));
    for (a, b) in ranges {
        if a == b {
            continue;
        }
        ctx.tally.transitions += 1;
        let from = starts.partition_point(|s| *s <= a) - 1;
        let to = starts.partition_point(|s| *s < b);
        let want: Vec<(usize, usize)> = (from..to).map(|l| (starts[l], starts.get(l + 1).copied().unwrap_or(text.len()))).collect();
        let got: Vec<(usize, usize)> = index.lines(Span::new(a..b)).map(|s| (s.start, s.end)).collect();
        if got != want {
            return ctx.violation(format!("in a text of {} bytes the lines of {a}..{b} are wrong: {} instead of {}", text.len(), got.len(), want.len()));
        }
    }
    ctx.outcome(hash(&format!("{line} {column} {n}")));
}

fn positions(thorough: bool) -> Vec<Stage> {
    let t = thorough as usize;
    let units = ["a", "é", "✓", "😀", "\n", "a\n", "é\n", "\r\n", "aé", "😀a\n", "é✓😀", "abc😀\n\n"];
    let around = [("", ""), ("x\n", "y"), ("é", "\nyé"), ("\n\n😀\n", "\n\n")];
    let mut ns: Vec<usize> = (120..136).chain(250..262).chain([300, 400, 510, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 10_000, 32_766, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537]).collect();
    if thorough {
        ns.extend((514..1000).step_by(7));
        ns.extend([21_845, 21_846, 43_690, 43_691, 131_071, 131_072, 131_073, 200_000]);
    }
    let mut v = vec![
        char_strings("short texts", &["a", "é", "✓", "😀", "\n", "\r"], 6 + t, located),
        char_strings("line structures", &["a", "😀", "\n"], 9 + t, located),
        char_strings("line ends", &["é", "\n", "\r", "\r\n", "\u{2028}", "\u{b}", "\u{85}", "\u{c}"], 4 + t, located),
        char_strings("combining and special characters", &["a", "\u{301}", "\u{feff}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\0", "\t", "\n"], 4 + t, located),
    ];
    v.push(stage("joined ranges", "every pair of ranges with ends among 13 values from 0 to the greatest, joined in both orders and all forms", 91 * 91, |i, ctx| {
        use dice_core::span::Span;
        const ENDS: [usize; 13] = [0, 1, 2, 3, 4, 5, 127, 128, 256, 65_535, 65_536, 1 << 32, usize::MAX];
        let ranges: Vec<(usize, usize)> = (0..=12).flat_map(|b| (0..=b).map(move |a| (ENDS[a], ENDS[b]))).collect();
        let ((a, b), (c, d)) = (ranges[(i % 91) as usize], ranges[(i / 91) as usize]);
        ctx.note(&format!("{a}..{b} and {c}..{d}"));
        ctx.tally.states += 1;
        ctx.tally.traces += 1;
        ctx.tally.transitions += 6;
        let (x, y) = (Span::new(a..b), Span::new(c..d));
        let want = Span::new(a.min(c)..b.max(d));
        if [x + y, y + x, x + &y, y + &x, &x + &y, &y + &x].iter().any(|s| *s != want || s.start != want.start || s.end != want.end) {
            return ctx.violation(format!("joined they do not give {want:?}"));
        }
        if x.len() != b - a || x.is_empty() != (a == b) || x.range() != (a..b) || !Span::empty().is_empty() {
            ctx.violation("the length or ends of a range are wrong");
        }
        ctx.outcome(i);
    }));
    v.push(each("every character", "every character of the Unicode range, between others, on the first and second line".into(), 0x110000, |i| {
        let c = char::from_u32(i as u32).unwrap_or('b');
        format!("a{c}é\n{c}b")
    }, located));
    v.push(each("long lines and many lines", "texts of up to 300 lines or characters per line".into(), 600, |i| {
        let n = (i / 2 % 60 * 5) as usize;
        match i % 2 + i / 120 % 5 * 2 {
            0 => "a\n".repeat(n),
            1 => "é".repeat(n / 3) + "\nb",
            2 => "\n".repeat(n),
            3 => "😀a".repeat(n / 4),
            4 => "x✓\n\n".repeat(n / 3) + "y",
            5 => "a".repeat(n) + "\n" + &"b".repeat(n),
            6 => "\r\n".repeat(n / 2),
            7 => "é😀✓a\n".repeat(n / 5) + "é😀✓a",
            8 => "a".repeat(n / 2) + &"é".repeat(n / 4),
            _ => "\n\n😀".repeat(n / 3),
        }
    }, located));
    let about = format!("{} units repeated {} times to {} times, in {} surroundings: offsets around the ends and every power of two, and the ranges between them", units.len(), ns[0], ns.iter().max().unwrap(), around.len());
    v.push(each("very long texts", about, (units.len() * around.len() * ns.len()) as u64, move |i| {
        let i = i as usize;
        let (before, after) = around[i / units.len() % around.len()];
        format!("{before}{}{after}", units[i % units.len()].repeat(ns[i / units.len() / around.len()]))
    }, located_far));
    v
}

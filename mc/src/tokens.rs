//! All token sequences up to a length that are prefixes of sentences, and every one-token continuation of each.

use crate::ast::Node;
use crate::lex::*;
use crate::parse::{parse_tokens, SynErr};

/// Where the sequence stands: before and after it.
pub const CONTEXTS: &[(&str, &str)] = &[
    ("", ""),
    ("a", ""),
    ("let", ""),
    ("fn f (", ") { }"),
    ("fn f ( )", "{ }"),
    ("fn f ( ) {", "}"),
    ("class A {", "}"),
    ("class A { fn new ( self", ") { } }"),
    ("class A { op", "( self ) { } }"),
    ("class", "{ }"),
    ("import", "from \"m\""),
    ("import { a", "} from \"m\""),
    ("import * as a", "\"m\""),
    ("export", "a"),
    ("if a", "{ }"),
    ("if a { }", "{ }"),
    ("while a", "{ }"),
    ("for", "{ }"),
    ("for a in", "{ }"),
    ("loop {", "}"),
    ("# {", "}"),
    ("[", "]"),
    ("a (", ")"),
    ("a [", "]"),
    ("| a", "| 1"),
    ("| a , b |", ""),
    ("super", ""),
    ("super [", "] . m"),
    ("op", "( a , b ) { }"),
    ("op + ( a", ") { }"),
    ("a or", "{ }"),
    ("a is", ""),
    ("( a", ")"),
    ("a . b", "= 1"),
    ("return", ""),
    ("- a", ""),
    ("a = b", ""),
    ("a + b", ""),
    ("let mut a =", ""),
    ("let {", "} = a"),
    ("fn f ( a :", ") { }"),
    ("fn f ( ) ->", "{ }"),
    ("op .. (", ") -> a { }"),
];

pub fn full_alphabet() -> Vec<&'static str> {
    let mut v = vec!["a", "1", "1.5", "\"s\"", "\\r\\", "self", "await", "@"];
    v.extend(PUNCT);
    v.extend(KEYWORDS);
    v
}

/// One spelling per syntactic role.
pub fn small_alphabet() -> Vec<&'static str> {
    vec![
        "a", "1", "\"s\"", "(", ")", "{", "}", "[", "]", ",", ".", "?", "!!", "-", "|", "=", "#", ":", "if", "else", "let", "fn", "or", "is", "return", "+",
    ]
}

/// The alphabet for operator expressions.
pub fn operator_alphabet() -> Vec<&'static str> {
    vec!["a", "(", ")", "?", "!!", ".", "-", "!", "|", "|>", "??", "..", "&&", "==", "<", "+", "*", "=", "+=", "is"]
}

pub struct Explorer<'a> {
    pub alphabet: &'a [&'static str],
    pub depth: usize,
    pub suffix: &'a str,
    pub stop: &'a dyn Fn() -> bool,
}

pub type Outcome = Result<Node, Box<SynErr>>;

impl Explorer<'_> {
    /// `text` is a viable prefix; tries every continuation up to `depth` further tokens.
    pub fn go(&self, text: &str, depth: usize, f: &mut dyn FnMut(&str, &Outcome)) {
        for t in self.alphabet {
            self.one(text, t, depth, f);
        }
    }

    pub fn one(&self, text: &str, t: &str, depth: usize, f: &mut dyn FnMut(&str, &Outcome)) {
        if (self.stop)() {
            return;
        }
        let next = if text.is_empty() { t.to_string() } else { format!("{text} {t}") };
        let viable = self.visit(&next, f);
        if viable && !self.suffix.is_empty() {
            self.visit(&format!("{next} {}", self.suffix), f);
        }
        if viable && depth > 1 {
            self.go(&next, depth - 1, f);
        }
    }

    /// Whether the text is a prefix of a sentence.
    fn visit(&self, text: &str, f: &mut dyn FnMut(&str, &Outcome)) -> bool {
        let toks = lex(text);
        let r = parse_tokens(text, &toks);
        f(text, &r);
        match &r {
            Ok(_) => true,
            Err(e) => e.at >= toks.len(),
        }
    }
}

/// Every text that differs from this one by one token: left out, doubled, swapped with the next, replaced or inserted.
pub fn mutations(text: &str, alphabet: &[&str], f: &mut dyn FnMut(&str)) {
    let toks = lex(text);
    let piece = |i: usize| &text[toks[i].start..toks[i].end];
    let n = toks.len();
    let all: Vec<&str> = (0..n).map(piece).collect();
    let mut emit = |v: &[&str]| f(&v.join(" "));
    for i in 0..n {
        let mut v = all.clone();
        v.remove(i);
        emit(&v);
        let mut v = all.clone();
        v.insert(i, all[i]);
        emit(&v);
        if i + 1 < n {
            let mut v = all.clone();
            v.swap(i, i + 1);
            emit(&v);
        }
        for a in alphabet {
            let mut v = all.clone();
            v[i] = a;
            emit(&v);
            let mut v = all.clone();
            v.insert(i, a);
            emit(&v);
        }
    }
    for a in alphabet {
        let mut v = all.clone();
        v.push(a);
        emit(&v);
    }
}

/// All strings over an alphabet of pieces, of length up to `max`.
pub fn strings(alphabet: &[&str], max: usize) -> u64 {
    (0..=max as u32).map(|k| (alphabet.len() as u64).pow(k)).sum()
}

pub fn string(alphabet: &[&str], mut i: u64) -> String {
    let n = alphabet.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while i >= count {
        i -= count;
        count *= n;
        len += 1;
    }
    let mut v = vec![];
    for _ in 0..len {
        v.push(alphabet[(i % n) as usize]);
        i /= n;
    }
    v.concat()
}

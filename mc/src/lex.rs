//! Reference lexer: longest match over the documented token table. Written from the language's token list, shares no code with
//! dice_syntax.

pub type Kind = &'static str;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tok {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
    /// For a lexical error: its code. Empty otherwise.
    pub code: &'static str,
}

pub const IDENT: Kind = "identifier";
pub const INT: Kind = "integer";
pub const FLOAT: Kind = "float";
pub const STRING: Kind = "string";
pub const BARG: Kind = "backslash arg";
pub const RESERVED: Kind = "reserved";
pub const ERROR: Kind = "error";
pub const EOI: Kind = "EOI";
/// A malformed string or backslash argument.
pub const LEXERR: Kind = "lexical error";

pub const PUNCT: &[&str] = &[
    "(", ")", "{", "}", "[", "]", ":", ",", "|", "..", "..=", "->", "=>", ".", "?", "!!", "??", "-", "+", "%", "*", "/", "!", "!=",
    "==", ">", ">=", "<", "<=", "=", "*=", "/=", "+=", "-=", "&&", "|>", "#",
];
pub const KEYWORDS: &[&str] = &[
    "false", "true", "null", "if", "else", "while", "loop", "for", "break", "continue", "return", "fn", "let", "mut", "in", "op",
    "class", "is", "import", "as", "from", "export", "super", "or",
];
pub const RESERVED_WORDS: &[&str] = &[
    "await", "async", "yield", "do", "const", "match", "enum", "trait", "type", "try", "when", "default", "switch",
];

fn word_kind(w: &str) -> Kind {
    if let Some(k) = KEYWORDS.iter().find(|k| **k == w) {
        return k;
    }
    if RESERVED_WORDS.contains(&w) {
        return RESERVED;
    }
    IDENT
}

/// All tokens of the text, up to and excluding the end of input; a malformed literal ends the list with a LEXERR token.
pub fn lex(src: &str) -> Vec<Tok> {
    let b = src.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        // Layout.
        if matches!(c, b' ' | b'\t' | b'\r' | b'\n' | 0x0c) {
            i += 1;
            continue;
        }
        if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                i += 1;
            }
            continue;
        }
        let start = i;
        if c == b'_' || c.is_ascii_alphabetic() {
            while i < b.len() && (b[i] == b'_' || b[i].is_ascii_alphanumeric()) {
                i += 1;
            }
            out.push(Tok { kind: word_kind(&src[start..i]), start, end: i, code: "" });
            continue;
        }
        if c.is_ascii_digit() {
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let mut kind = INT;
            if i + 1 < b.len() && b[i] == b'.' && b[i + 1].is_ascii_digit() {
                kind = FLOAT;
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            out.push(Tok { kind, start, end: i, code: "" });
            continue;
        }
        if c == b'"' {
            i += 1;
            let code = loop {
                match b.get(i) {
                    None => break "E1002",
                    Some(b'"') => {
                        i += 1;
                        break "";
                    }
                    Some(b'\\') => match b.get(i + 1) {
                        None => break "E1002",
                        Some(b'"' | b'\\' | b'n' | b'r' | b't') => i += 2,
                        Some(_) => break "E1001",
                    },
                    Some(_) => i += 1,
                }
            };
            if !code.is_empty() {
                out.push(Tok { kind: LEXERR, start, end: b.len(), code });
                return out;
            }
            out.push(Tok { kind: STRING, start, end: i, code: "" });
            continue;
        }
        if c == b'\\' {
            i += 1;
            while i < b.len() && b[i] != b'\\' {
                i += 1;
            }
            if i == b.len() {
                out.push(Tok { kind: LEXERR, start, end: b.len(), code: "E1009" });
                return out;
            }
            i += 1;
            out.push(Tok { kind: BARG, start, end: i, code: "" });
            continue;
        }
        let mut best: Option<Kind> = None;
        for p in PUNCT {
            if src[i..].starts_with(p) && best.map_or(true, |b| p.len() > b.len()) {
                best = Some(p);
            }
        }
        match best {
            Some(p) => {
                i += p.len();
                out.push(Tok { kind: p, start, end: i, code: "" });
            }
            None => {
                let ch = src[i..].chars().next().unwrap();
                i += ch.len_utf8();
                out.push(Tok { kind: ERROR, start, end: i, code: "" });
            }
        }
    }
    out
}

/// The value of a string literal, given its text with the quotes.
pub fn unescape(lit: &str) -> String {
    let mut out = String::new();
    let mut it = lit[1..lit.len() - 1].chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            out.push(match it.next() {
                Some('n') => '\n',
                Some('r') => '\r',
                Some('t') => '\t',
                Some(o) => o,
                None => unreachable!(),
            });
        } else {
            out.push(c);
        }
    }
    out
}

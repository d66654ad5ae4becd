//! What a diagnostic must look like: code, message, position, source lines.

use crate::analyze::Broken;
use crate::ast::Sp;
use crate::lex::*;
use crate::parse::SynErr;
use dice_core::error::Error;

/// One acceptable report.
#[derive(Debug)]
pub struct Cand {
    pub codes: Vec<&'static str>,
    pub span: Sp,
    pub name: Option<String>,
}

pub fn of_syntax(e: &SynErr) -> Vec<Cand> {
    e.spans.iter().map(|s| Cand { codes: e.codes.clone(), span: *s, name: None }).collect()
}

pub fn of_rules(b: &[Broken]) -> Vec<Cand> {
    b.iter().map(|b| Cand { codes: vec![b.code], span: b.span, name: b.name.clone() }).collect()
}

pub struct Report {
    pub code: String,
    pub message: String,
    pub file: String,
    /// From 1.
    pub line: usize,
    pub column: usize,
    pub lines: Vec<(usize, String)>,
    pub notes: Vec<String>,
}

/// Splits the printed form into its parts, whatever their exact spacing.
pub fn read(shown: &str) -> Result<Report, String> {
    let rest = shown.strip_prefix("error[").ok_or("does not begin with error[")?;
    let (code, rest) = rest.split_once("]:").ok_or("no code")?;
    let at = rest.find("\n  --> ").ok_or("no position")?;
    // Only the separating space goes: the message may end in a token that is white space to some.
    let message = rest[..at].strip_prefix(' ').unwrap_or(&rest[..at]).to_string();
    let rest = &rest[at + 7..];
    let (pos, mut rest) = rest.split_once('\n').unwrap_or((rest, ""));
    let mut it = pos.rsplitn(3, ':');
    let column = it.next().and_then(|s| s.parse().ok()).ok_or("no column")?;
    let line = it.next().and_then(|s| s.parse().ok()).ok_or("no line")?;
    let file = it.next().ok_or("no file")?.to_string();
    let mut lines = vec![];
    let mut notes = vec![];
    while !rest.is_empty() {
        let (l, r) = rest.split_once('\n').unwrap_or((rest, ""));
        rest = r;
        let number: String = l.chars().take_while(|c| c.is_ascii_digit()).collect();
        if l.starts_with("note: ") || l.starts_with("help: ") {
            notes.push(l.to_string());
        } else if let (Ok(n), Some((_, t))) = (number.parse(), l.split_once('|')) {
            lines.push((n, t.strip_prefix("  ").unwrap_or(t).to_string()));
        } else if !l.trim().is_empty() && l.trim() != "|" {
            return Err(format!("unexpected line {l:?}"));
        }
    }
    Ok(Report { code: code.to_string(), message, file, line, column, lines, notes })
}

/// Line and column, from 1, in lines and UTF-16 units.
pub fn position(text: &str, offset: usize) -> (usize, usize) {
    let before = &text[..offset];
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    (1 + before.matches('\n').count(), 1 + before[start..].encode_utf16().count())
}

/// The lines (from 1) a range touches.
pub fn touched(text: &str, s: Sp) -> Vec<(usize, String)> {
    let mut v = vec![];
    let mut start = 0;
    for (n, l) in text.split_inclusive('\n').enumerate() {
        let end = start + l.len();
        if s.0 < end && s.1 > start {
            v.push((n + 1, l.trim_end().to_string()));
        }
        start = end;
    }
    v
}

/// Words the message of a code cannot do without.
fn keywords(code: &str) -> &'static [&'static str] {
    match code {
        "E1000" => &["Found", "Expected"],
        "E1001" => &["escape"],
        "E1002" => &["string"],
        "E1004" => &["reserved"],
        "E1005" => &["argument", "255"],
        "E1007" => &["integer"],
        "E1009" => &["backslash"],
        "E2100" => &["upvalue"],
        "E2101" => &["constant"],
        "E2102" => &["conditional", "loop"],
        "E2103" => &["local"],
        "E2104" => &["list"],
        "E2105" => &["argument"],
        "E2200" => &["new", "return type"],
        "E2201" => &["new", "self"],
        "E2202" => &["operator", "self"],
        "E2203" => &["new", "super"],
        "E2204" => &["new", "return"],
        "E2205" => &["super"],
        "E2206" => &["self", "type"],
        "E2207" => &["unique"],
        "E2300" => &["class", "defined"],
        "E2301" => &["function", "defined"],
        "E2401" => &["not declared"],
        "E2402" => &["not initialized"],
        "E2403" => &["immutable"],
        "E2500" => &["return"],
        "E2501" => &["break"],
        "E2502" => &["continue"],
        "E2503" => &["!!"],
        "E2504" => &["export"],
        "E2505" => &["import"],
        _ => &[],
    }
}

fn list(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        // An item may itself be a comma.
        let n = rest.char_indices().skip(1).map(|(i, _)| i).find(|i| rest[*i..].starts_with(", ")).unwrap_or(rest.len());
        v.push(rest[..n].trim().to_string());
        rest = rest.get(n + 2..).unwrap_or("");
    }
    v
}

fn sample(kind: &str) -> &str {
    match kind {
        "identifier" => "a",
        "integer" => "1",
        "float" => "1.5",
        "string" => "\"s\"",
        "backslash arg" => "\\s\\",
        k => k,
    }
}

/// `cands` empty: any construct may be at fault.
pub fn check(e: &Error, text: &str, path: Option<&str>, cands: &[Cand], syntax: Option<&SynErr>) -> Result<(), String> {
    let shown = format!("{e}");
    let brief = format!("{e:?}");
    let bad = |m: String| Err(format!("{m}\n--- diagnostic\n{shown}---"));
    let r = match read(&shown) {
        Ok(r) => r,
        Err(m) => return bad(format!("malformed diagnostic: {m}")),
    };
    if r.code != e.error_code() {
        return bad(format!("shows another code than its own, {}", e.error_code()));
    }
    match read(&brief) {
        Ok(b) if b.code == r.code && b.message == r.message && (b.line, b.column, &b.file) == (r.line, r.column, &r.file) => {}
        _ => return bad(format!("the short form differs: {brief:?}")),
    }
    if r.file != path.unwrap_or("<Script>") {
        return bad("names another file".into());
    }
    for t in std::iter::once(&r.message).chain(&r.notes) {
        if t.trim().is_empty() || t.contains("{$") || t.contains("{ $") || t.contains("Unknown localization") || (r.code != "E1000" && t.ends_with(':')) {
            return bad("the message is incomplete".into());
        }
    }
    if r.notes.iter().any(|n| n.trim() == "note:" || n.trim() == "help:") {
        return bad("a note is empty".into());
    }
    for w in keywords(&r.code) {
        if !r.message.contains(w) {
            return bad(format!("the message does not mention {w:?}"));
        }
    }
    // Where.
    let starts = |s: Sp| position(text, s.0) == (r.line, r.column);
    if cands.is_empty() {
        let total = text.split_inclusive('\n').count().max(1);
        let all: Vec<&str> = text.split_inclusive('\n').collect();
        let inside = r.line >= 1
            && r.line <= total + 1
            && r.column >= 1
            && r.column <= all.get(r.line - 1).map_or(1, |l| l.encode_utf16().count() + 1);
        if !inside {
            return bad("the position lies outside the text".into());
        }
        for (k, (n, t)) in r.lines.iter().enumerate() {
            if *n != r.line + k || all.get(n - 1).map(|l| l.trim_end()) != Some(t.trim_end()) {
                return bad("the source lines shown are not those of the construct".into());
            }
        }
        return Ok(());
    }
    let fits: Vec<&Cand> = cands.iter().filter(|c| c.codes.contains(&r.code.as_str())).collect();
    if fits.is_empty() {
        return bad(format!("reports {} where the text calls for one of {:?}", r.code, summary(text, cands)));
    }
    let fits: Vec<&Cand> = fits.into_iter().filter(|c| starts(c.span)).collect();
    if fits.is_empty() {
        return bad(format!("points at {}:{}, which is not a place at fault; at fault are {:?}", r.line, r.column, summary(text, cands)));
    }
    let fits: Vec<&Cand> =
        fits.into_iter().filter(|c| c.name.as_ref().map_or(true, |n| r.message.contains(&format!("'{n}'")))).collect();
    if fits.is_empty() {
        return bad(format!("names something else than what is at fault there: {:?}", summary(text, cands)));
    }
    let lines_fit = fits.iter().any(|c| {
        let want = touched(text, c.span);
        let same = want.len() == r.lines.len() && want.iter().zip(&r.lines).all(|(a, b)| a.0 == b.0 && a.1 == b.1.trim_end());
        // An empty range touches no line; showing the line it lies in is as good.
        same || (c.span.0 == c.span.1 && r.lines.iter().all(|(n, _)| *n == r.line) && r.lines.len() <= 1)
    });
    if !lines_fit {
        return bad("the source lines shown are not those of the construct".into());
    }
    if let Some(s) = syntax {
        return what(text, s, &r).or_else(bad);
    }
    Ok(())
}

/// A syntax diagnostic names the offending token, and what it says it expected would really have been possible there.
fn what(text: &str, s: &SynErr, r: &Report) -> Result<(), String> {
    let toks = lex(text);
    let slice = toks.get(s.at).map_or("", |t| &text[t.start..t.end]);
    match r.code.as_str() {
        "E1000" => {
            let (found, expected) = r.message.split_once(", Expected: ").ok_or("no Expected")?;
            let found = found.split_once("Found: ").ok_or("no Found")?.1;
            let alike = found == s.kind || found == slice || (s.kind == EOI && found.eq_ignore_ascii_case("end of input"));
            if !alike {
                return Err(format!("says it found {found:?} where {:?} stands", s.kind));
            }
            let prefix = toks.get(s.at).map_or(text, |t| &text[..t.start]);
            let items = list(expected);
            if items.is_empty() {
                return Err("expects nothing".into());
            }
            for x in items {
                let ok = if x == EOI {
                    // A return without a value needs a brace after it, which is what stands here.
                    crate::parse::parse(prefix).is_ok() || prefix.trim_end().ends_with("return")
                } else {
                    let t = format!("{prefix}\n{}", sample(&x));
                    match crate::parse::parse(&t) {
                        Ok(_) => true,
                        Err(e) => e.at > s.at || e.codes[0] == "E1005" || e.codes[0] == "E2505",
                    }
                };
                if !ok {
                    return Err(format!("says it expected {x:?}, which is not possible there either"));
                }
            }
        }
        "E1003" | "E1004" => {
            if !r.message.contains(slice) {
                return Err(format!("does not show the token at fault, {slice:?}"));
            }
        }
        "E1001" => {
            let raw = &text[toks[s.at].start..];
            let shown = match (r.message.find('\''), r.message.rfind('\'')) {
                (Some(a), Some(z)) if a < z => &r.message[a + 1..z],
                _ => "",
            };
            if shown.len() < 2 || !shown.starts_with('\\') || !raw.contains(shown) {
                return Err("does not show the escape sequence at fault".into());
            }
        }
        _ => {}
    }
    Ok(())
}

fn summary(text: &str, c: &[Cand]) -> Vec<String> {
    c.iter()
        .take(6)
        .map(|c| {
            let (l, k) = position(text, c.span.0);
            format!("{} at {l}:{k}{}", c.codes.join("/"), c.name.as_ref().map_or(String::new(), |n| format!(" for {n}")))
        })
        .collect()
}

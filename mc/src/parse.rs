//! Reference parser: recursive descent over the reference token list, with the documented binding strengths.

use crate::ast::*;
use crate::lex::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct SynErr {
    /// Acceptable codes.
    pub codes: Vec<&'static str>,
    /// Index of the token at which the text stops being a prefix of a sentence (== token count: end of input).
    pub at: usize,
    /// Spans a diagnostic may point at.
    pub spans: Vec<Sp>,
    /// Token kind that is unexpected there.
    pub kind: Kind,
}

pub struct P<'a> {
    src: &'a str,
    t: &'a [Tok],
    i: usize,
}

type R<T> = Result<T, Box<SynErr>>;

// Binding strengths, loosest first.
const ASSIGN: u8 = 1;
const PIPELINE: u8 = 2;
const COALESCE: u8 = 3;
const RANGE: u8 = 4;
const OR: u8 = 5;
const AND: u8 = 6;
const COMPARE: u8 = 7;
const TERM: u8 = 8;
const FACTOR: u8 = 9;
const UNARY: u8 = 10;

fn binary(kind: Kind) -> Option<u8> {
    Some(match kind {
        "|>" => PIPELINE,
        "??" => COALESCE,
        ".." | "..=" => RANGE,
        "&&" => AND,
        "==" | "!=" | "<" | "<=" | ">" | ">=" => COMPARE,
        "+" | "-" => TERM,
        "*" | "/" | "%" => FACTOR,
        _ => return None,
    })
}

const ASSIGN_OPS: &[Kind] = &["=", "*=", "/=", "+=", "-="];
const OPERATORS: &[Kind] = &["*", "/", "%", "+", "-", ">", ">=", "<", "<=", "==", "!=", "..", "..="];
/// Tokens that can never start or continue an expression and have a diagnostic of their own.
const STRAY: &[Kind] = &["else", "mut", "in", "as", "from", "->", "=>", ERROR];

pub fn parse(src: &str) -> Result<Node, Box<SynErr>> {
    let toks = lex(src);
    parse_tokens(src, &toks)
}

pub fn parse_tokens(src: &str, toks: &[Tok]) -> Result<Node, Box<SynErr>> {
    let mut p = P { src, t: toks, i: 0 };
    let n = p.sequence()?;
    p.eat(EOI)?;
    Ok(n)
}

impl<'a> P<'a> {
    fn k(&self) -> Kind {
        self.t.get(self.i).map_or(EOI, |t| t.kind)
    }

    fn start(&self) -> usize {
        self.t.get(self.i).map_or(self.src.len(), |t| t.start)
    }

    fn last_end(&self) -> usize {
        if self.i == 0 {
            0
        } else {
            self.t[self.i - 1].end
        }
    }

    fn text(&self) -> &'a str {
        let t = self.t[self.i];
        &self.src[t.start..t.end]
    }

    fn fail<T>(&self) -> R<T> {
        let mut spans = Vec::new();
        let kind = self.k();
        let mut codes = vec!["E1000"];
        match self.t.get(self.i) {
            Some(t) => {
                spans.push((t.start, t.end));
                if t.kind == LEXERR {
                    codes = vec![t.code];
                    // The construct starts at its opening quote; how much of the rest of the text is shown is open.
                    for e in t.start + 1..=self.src.len() {
                        if self.src.is_char_boundary(e) {
                            spans.push((t.start, e));
                        }
                    }
                } else if t.kind == RESERVED {
                    codes.push("E1004");
                } else if STRAY.contains(&t.kind) {
                    codes.push("E1003");
                }
            }
            None => {
                // End of input is reported at the last token, or at the start of an empty text, or at the end of the text.
                spans.push((self.src.len(), self.src.len()));
                match self.t.last() {
                    Some(t) => spans.push((t.start, t.end)),
                    None => spans.push((0, 0)),
                }
            }
        }
        Err(Box::new(SynErr { codes, at: self.i, spans, kind }))
    }

    fn eat(&mut self, kind: Kind) -> R<()> {
        if self.k() == kind {
            self.i += 1;
            Ok(())
        } else {
            self.fail()
        }
    }

    fn ident(&mut self) -> R<(String, Sp)> {
        if self.k() != IDENT {
            return self.fail();
        }
        let t = self.t[self.i];
        let s = self.text().to_string();
        self.i += 1;
        Ok((s, (t.start, t.end)))
    }

    fn sequence(&mut self) -> R<Node> {
        let start = self.start();
        let mut items = Vec::new();
        while !matches!(self.k(), EOI | "}") {
            items.push(self.statement()?);
        }
        Ok(Node { k: NK::Block(items), s: (start, self.start()) })
    }

    fn block(&mut self) -> R<Node> {
        self.eat("{")?;
        let mut b = self.sequence()?;
        self.eat("}")?;
        b.s.1 = self.last_end();
        Ok(b)
    }

    fn statement(&mut self) -> R<Node> {
        let start = self.start();
        let k = match self.k() {
            "loop" => {
                self.i += 1;
                NK::Loop(Box::new(self.block()?))
            }
            "while" => {
                self.i += 1;
                let c = self.expression()?;
                NK::While(Box::new(c), Box::new(self.block()?))
            }
            "for" => {
                self.i += 1;
                let (v, _) = self.ident()?;
                self.eat("in")?;
                let e = self.expression()?;
                NK::For(v, Box::new(e), Box::new(self.block()?))
            }
            "let" => self.let_()?,
            "fn" => NK::Fn(Rc::new(self.fn_()?)),
            "op" => NK::Op(Rc::new(self.op()?)),
            "class" => self.class()?,
            "import" => self.import()?,
            "export" => {
                self.i += 1;
                let s = self.start();
                let k = match self.k() {
                    "let" => self.let_()?,
                    "fn" => NK::Fn(Rc::new(self.fn_()?)),
                    "class" => self.class()?,
                    IDENT => NK::Ident(self.ident()?.0),
                    _ => return self.fail(),
                };
                let n = Node { k, s: (s, self.last_end()) };
                NK::Export(Box::new(n))
            }
            "return" => {
                self.i += 1;
                if self.k() == "}" {
                    NK::Return(None)
                } else {
                    NK::Return(Some(Box::new(self.expression()?)))
                }
            }
            "break" => {
                self.i += 1;
                NK::Break
            }
            "continue" => {
                self.i += 1;
                NK::Continue
            }
            _ => return self.expression(),
        };
        Ok(Node { k, s: (start, self.last_end()) })
    }

    fn let_(&mut self) -> R<NK> {
        self.eat("let")?;
        let mutable = self.k() == "mut";
        if mutable {
            self.i += 1;
        }
        let (names, destructured) = match self.k() {
            IDENT => (vec![self.ident()?.0], false),
            "{" => (self.names()?, true),
            _ => return self.fail(),
        };
        self.eat("=")?;
        let expr = Box::new(self.expression()?);
        Ok(NK::Let { mutable, names, destructured, expr })
    }

    fn names(&mut self) -> R<Vec<String>> {
        self.eat("{")?;
        let mut v = Vec::new();
        while self.k() != "}" {
            v.push(self.ident()?.0);
            self.comma("}")?;
        }
        self.i += 1;
        Ok(v)
    }

    fn comma(&mut self, close: Kind) -> R<()> {
        if self.k() == "," {
            self.i += 1;
            Ok(())
        } else if self.k() == close {
            Ok(())
        } else {
            self.fail()
        }
    }

    fn params(&mut self, open: Kind, close: Kind) -> R<Vec<Param>> {
        self.eat(open)?;
        let mut v = Vec::new();
        while self.k() != close {
            let start = self.start();
            let (name, _) = self.ident()?;
            let ty = if self.k() == ":" { Some(self.ty()?) } else { None };
            v.push(Param { name, ty, span: (start, self.last_end()) });
            self.comma(close)?;
        }
        self.i += 1;
        Ok(v)
    }

    /// At the delimiter.
    fn ty(&mut self) -> R<Ty> {
        let start = self.start();
        self.i += 1;
        let (name, name_span) = self.ident()?;
        let nullable = self.k() == "?";
        if nullable {
            self.i += 1;
        }
        Ok(Ty { name, name_span, nullable, span: (start, self.last_end()) })
    }

    fn ret(&mut self) -> R<Option<Ty>> {
        if self.k() == "->" {
            self.ty().map(Some)
        } else {
            Ok(None)
        }
    }

    fn too_many(&self, n: usize, start: usize) -> R<()> {
        if n > 255 {
            let s = (start, self.last_end());
            return Err(Box::new(SynErr { codes: vec!["E1005"], at: self.i, spans: vec![s], kind: "" }));
        }
        Ok(())
    }

    fn fn_(&mut self) -> R<Func> {
        let start = self.start();
        self.eat("fn")?;
        let (name, name_span) = self.ident()?;
        let params = self.params("(", ")")?;
        self.too_many(params.len(), start)?;
        let ret = self.ret()?;
        let body = self.block()?;
        Ok(Func { name, name_span, params, ret, body, span: (start, self.last_end()) })
    }

    fn op(&mut self) -> R<Func> {
        let start = self.start();
        let kw = self.t[self.i];
        self.eat("op")?;
        let sym = self.k();
        if !OPERATORS.contains(&sym) {
            let mut e = self.fail::<()>().unwrap_err();
            e.spans.push((kw.start, kw.end));
            return Err(e);
        }
        let t = self.t[self.i];
        self.i += 1;
        let params = self.params("(", ")")?;
        let ret = self.ret()?;
        let body = self.block()?;
        Ok(Func { name: sym.to_string(), name_span: (t.start, t.end), params, ret, body, span: (start, self.last_end()) })
    }

    fn class(&mut self) -> R<NK> {
        self.eat("class")?;
        let (name, name_span) = self.ident()?;
        let base = if self.k() == ":" {
            self.i += 1;
            Some(Box::new(self.expression()?))
        } else {
            None
        };
        self.eat("{")?;
        let mut items = Vec::new();
        while self.k() != "}" {
            let start = self.start();
            let k = match self.k() {
                "fn" => NK::Fn(Rc::new(self.fn_()?)),
                "op" => NK::Op(Rc::new(self.op()?)),
                _ => return self.fail(),
            };
            items.push(Node { k, s: (start, self.last_end()) });
        }
        self.i += 1;
        Ok(NK::Class { name, name_span, base, items })
    }

    fn import(&mut self) -> R<NK> {
        let kw = self.t[self.i];
        self.eat("import")?;
        let mut ns = None;
        if self.k() == "*" {
            self.i += 1;
            self.eat("as")?;
            ns = Some(self.ident()?.0);
            if self.k() == "," {
                self.i += 1;
            }
        }
        let items = if self.k() == "{" { self.names()? } else { vec![] };
        if ns.is_none() && items.is_empty() {
            // A malformed token is reported before the statement can be judged.
            if self.k() == LEXERR {
                return self.fail();
            }
            let s = (kw.start, kw.end);
            return Err(Box::new(SynErr { codes: vec!["E2505"], at: self.i, spans: vec![s], kind: "" }));
        }
        self.eat("from")?;
        if self.k() != STRING {
            return self.fail();
        }
        let t = self.text();
        self.i += 1;
        Ok(NK::Import { ns, items, path: t[1..t.len() - 1].to_string() })
    }

    pub fn expression(&mut self) -> R<Node> {
        self.climb(ASSIGN)
    }

    /// An expression whose operators all bind at least as tightly as `min`.
    fn climb(&mut self, min: u8) -> R<Node> {
        let start = self.start();
        let mut n = self.primary(min)?;
        loop {
            let k = self.k();
            let sp = |p: &Self| (start, p.last_end());
            // Suffixes bind tightest and apply to everything read so far.
            match k {
                "?" => {
                    self.i += 1;
                    n = Node { k: NK::NullProp(Box::new(n)), s: sp(self) };
                    continue;
                }
                "!!" => {
                    self.i += 1;
                    n = Node { k: NK::ErrProp(Box::new(n)), s: sp(self) };
                    continue;
                }
                "." => {
                    self.i += 1;
                    let (f, _) = self.ident()?;
                    n = Node { k: NK::Field(Box::new(n), f), s: sp(self) };
                    n = self.assignment(n, start, min)?;
                    continue;
                }
                "[" => {
                    self.i += 1;
                    let e = self.expression()?;
                    self.eat("]")?;
                    n = Node { k: NK::Index(Box::new(n), Box::new(e)), s: sp(self) };
                    n = self.assignment(n, start, min)?;
                    continue;
                }
                "(" => {
                    let args = self.args()?;
                    n = Node { k: NK::Call(Box::new(n), args), s: sp(self) };
                    continue;
                }
                BARG => {
                    let t = self.t[self.i];
                    let raw = self.text();
                    let raw = raw[1..raw.len() - 1].to_string();
                    self.i += 1;
                    let a = Node { k: NK::Str(raw), s: (t.start, t.end) };
                    n = Node { k: NK::Call(Box::new(n), vec![a]), s: sp(self) };
                    continue;
                }
                _ => {}
            }
            if k == "is" && COMPARE >= min {
                let ty = self.ty()?;
                n = Node { k: NK::Is(Box::new(n), ty), s: sp(self) };
            } else if k == "or" && COALESCE >= min {
                self.i += 1;
                let (name, _) = self.ident()?;
                let b = self.block()?;
                n = Node { k: NK::Or(Box::new(n), name, Box::new(b)), s: sp(self) };
            } else if k == "|" && OR >= min {
                self.i += 1;
                self.eat("|")?;
                let r = self.climb(OR + 1)?;
                n = Node { k: NK::Bin("||", Box::new(n), Box::new(r)), s: sp(self) };
            } else if let Some(p) = binary(k).filter(|p| *p >= min) {
                self.i += 1;
                let r = self.climb(p + 1)?;
                n = Node { k: NK::Bin(k, Box::new(n), Box::new(r)), s: sp(self) };
            } else {
                // A token that cannot follow an expression at all is diagnosed by whoever expects something else there.
                return Ok(n);
            }
        }
    }

    fn args(&mut self) -> R<Vec<Node>> {
        self.eat("(")?;
        let mut v = Vec::new();
        while self.k() != ")" {
            v.push(self.expression()?);
            self.comma(")")?;
        }
        self.i += 1;
        Ok(v)
    }

    /// Assignment is possible only where nothing binds tighter on the left.
    fn assignment(&mut self, target: Node, start: usize, min: u8) -> R<Node> {
        let k = self.k();
        if min > ASSIGN || !ASSIGN_OPS.contains(&k) {
            return Ok(target);
        }
        self.i += 1;
        let rhs = self.expression()?;
        Ok(Node { k: NK::Assign(k, Box::new(target), Box::new(rhs)), s: (start, self.last_end()) })
    }

    fn primary(&mut self, min: u8) -> R<Node> {
        let start = self.start();
        let k = match self.k() {
            INT => {
                let v: Result<i64, _> = self.text().parse();
                match v {
                    Ok(v) => {
                        self.i += 1;
                        NK::Int(v)
                    }
                    Err(_) => {
                        let t = self.t[self.i];
                        let spans = vec![(t.start, t.end)];
                        return Err(Box::new(SynErr { codes: vec!["E1007"], at: self.i, spans, kind: "" }));
                    }
                }
            }
            FLOAT => {
                let v: f64 = self.text().parse().unwrap();
                self.i += 1;
                NK::Float(v)
            }
            STRING => {
                let v = unescape(self.text());
                self.i += 1;
                NK::Str(v)
            }
            "null" => {
                self.i += 1;
                NK::Null
            }
            "true" | "false" => {
                let v = self.k() == "true";
                self.i += 1;
                NK::Bool(v)
            }
            IDENT => {
                let (name, s) = self.ident()?;
                return self.assignment(Node { k: NK::Ident(name), s }, start, min);
            }
            "if" => return self.if_(),
            "{" => return self.block(),
            "#" => {
                self.i += 1;
                self.eat("{")?;
                let mut v = Vec::new();
                while self.k() != "}" {
                    let key = match self.k() {
                        STRING => unescape(self.text()),
                        INT | IDENT => self.text().to_string(),
                        _ => return self.fail(),
                    };
                    self.i += 1;
                    self.eat(":")?;
                    let e = self.expression()?;
                    v.push((key, e));
                    self.comma("}")?;
                }
                self.i += 1;
                NK::Obj(v)
            }
            "[" => {
                self.i += 1;
                let mut v = Vec::new();
                while self.k() != "]" {
                    v.push(self.expression()?);
                    self.comma("]")?;
                }
                self.i += 1;
                NK::List(v)
            }
            "(" => {
                self.i += 1;
                if self.k() == ")" {
                    self.i += 1;
                    NK::Unit
                } else {
                    let e = self.expression()?;
                    self.eat(")")?;
                    return Ok(e);
                }
            }
            "|" => {
                let params = self.params("|", "|")?;
                self.too_many(params.len(), start)?;
                let body = self.expression()?;
                let span = (start, self.last_end());
                NK::Anon(Rc::new(Func { name: String::new(), name_span: span, params, ret: None, body, span }))
            }
            op @ ("-" | "!") => {
                self.i += 1;
                let e = self.climb(UNARY)?;
                NK::Prefix(op, Box::new(e))
            }
            "super" => {
                let kw = self.t[self.i];
                self.i += 1;
                match self.k() {
                    "(" => NK::SuperCall(self.args()?),
                    "." | "[" => {
                        let mut class = None;
                        if self.k() == "[" {
                            self.i += 1;
                            class = Some(self.ident()?.0);
                            self.eat("]")?;
                        }
                        self.eat(".")?;
                        let (f, _) = self.ident()?;
                        NK::SuperField(class, f)
                    }
                    _ => {
                        let mut e = self.fail::<()>().unwrap_err();
                        e.spans.push((kw.start, kw.end));
                        return Err(e);
                    }
                }
            }
            _ => return self.fail(),
        };
        Ok(Node { k, s: (start, self.last_end()) })
    }

    fn if_(&mut self) -> R<Node> {
        let start = self.start();
        self.eat("if")?;
        let c = self.expression()?;
        let a = self.block()?;
        let mut b = None;
        if self.k() == "else" {
            self.i += 1;
            b = Some(Box::new(match self.k() {
                "if" => self.if_()?,
                "{" => self.block()?,
                _ => return self.fail(),
            }));
        }
        Ok(Node { k: NK::If(Box::new(c), Box::new(a), b), s: (start, self.last_end()) })
    }
}

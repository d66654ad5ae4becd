//! dice's syntax tree, read back into the reference form.

use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};
use dice_core::span::Span;
use dice_syntax::{
    AssignmentOperator as A, BinaryOperator as B, FnArg, OverloadedOperator as O, Parser, SyntaxNode as N, SyntaxNodeId, SyntaxTree, TypeAnnotation,
    UnaryOperator, VarDeclKind,
};
use mc::ast::*;
use std::rc::Rc;

pub fn parse(text: &str) -> Result<SyntaxTree, Error> {
    let source = Source::new(text.to_string(), SourceKind::Script);
    let r = Parser::new(&source).parse();
    r
}

fn sp(s: Span) -> Sp {
    (s.start, s.end)
}

fn ty(t: &TypeAnnotation) -> Ty {
    Ty { name: t.name.identifier.clone(), name_span: sp(t.name.span), nullable: t.is_nullable, span: sp(t.span) }
}

fn params(v: &[FnArg]) -> Vec<Param> {
    v.iter().map(|a| Param { name: a.name.clone(), ty: a.type_.as_ref().map(ty), span: sp(a.span) }).collect()
}

fn binary(o: B) -> &'static str {
    match o {
        B::Multiply => "*",
        B::Divide => "/",
        B::Remainder => "%",
        B::Add => "+",
        B::Subtract => "-",
        B::GreaterThan => ">",
        B::LessThan => "<",
        B::GreaterThanEquals => ">=",
        B::LessThanEquals => "<=",
        B::Equals => "==",
        B::NotEquals => "!=",
        B::LogicalAnd => "&&",
        B::LogicalOr => "||",
        B::RangeInclusive => "..=",
        B::RangeExclusive => "..",
        B::Coalesce => "??",
        B::Pipeline => "|>",
    }
}

fn overloaded(o: O) -> &'static str {
    match o {
        O::Multiply => "*",
        O::Divide => "/",
        O::Remainder => "%",
        O::Add => "+",
        O::Subtract => "-",
        O::GreaterThan => ">",
        O::LessThan => "<",
        O::GreaterThanEquals => ">=",
        O::LessThanEquals => "<=",
        O::Equals => "==",
        O::NotEquals => "!=",
        O::RangeInclusive => "..=",
        O::RangeExclusive => "..",
    }
}

/// `e or x { .. }` has no node of its own: it is rewritten while parsing.
fn or_form(t: &SyntaxTree, n: &N) -> Option<(SyntaxNodeId, String, SyntaxNodeId, Span)> {
    let N::Block(b) = n else { return None };
    let [first] = b.expressions[..] else { return None };
    let N::VarDecl(d) = t.get(first) else { return None };
    let VarDeclKind::Singular(hidden) = &d.kind else { return None };
    if !hidden.starts_with('#') {
        return None;
    }
    let N::IfExpression(i) = t.get(b.trailing_expression?) else { return None };
    let N::Block(alt) = t.get(i.secondary?) else { return None };
    let [second] = alt.expressions[..] else { return None };
    let N::VarDecl(v) = t.get(second) else { return None };
    let VarDeclKind::Singular(name) = &v.kind else { return None };
    Some((d.expr, name.clone(), alt.trailing_expression?, b.span))
}

pub fn read(t: &SyntaxTree, id: SyntaxNodeId, seen: &mut Vec<(&'static str, Sp)>) -> Node {
    let n = t.get(id);
    let span = sp(n.span());
    seen.push((
        match n {
            N::Binary(_) => "binary",
            N::Block(_) => "block",
            _ => "node",
        },
        span,
    ));
    if let Some((e, name, block, s)) = or_form(t, n) {
        let e = read(t, e, seen);
        let b = read(t, block, seen);
        return Node { k: NK::Or(Box::new(e), name, Box::new(b)), s: sp(s) };
    }
    let list = |v: &[SyntaxNodeId], seen: &mut Vec<(&'static str, Sp)>| v.iter().map(|i| read(t, *i, seen)).collect::<Vec<Node>>();
    let one = |i: SyntaxNodeId, seen: &mut Vec<(&'static str, Sp)>| Box::new(read(t, i, seen));
    let k = match n {
        N::LitIdent(x) => NK::Ident(x.identifier.clone()),
        N::LitNull(_) => NK::Null,
        N::LitUnit(_) => NK::Unit,
        N::LitInt(x) => NK::Int(x.value),
        N::LitFloat(x) => NK::Float(x.value),
        N::LitString(x) => NK::Str(x.value.clone()),
        N::LitBool(x) => NK::Bool(x.value),
        N::LitList(x) => NK::List(list(&x.items, seen)),
        N::LitObject(x) => NK::Obj(x.items.iter().map(|(k, v)| (k.clone(), read(t, *v, seen))).collect()),
        N::LitAnonymousFn(x) => NK::Anon(Rc::new(Func {
            name: String::new(),
            name_span: span,
            params: params(&x.args),
            ret: x.return_.as_ref().map(ty),
            body: read(t, x.body, seen),
            span,
        })),
        N::FieldAccess(x) => NK::Field(one(x.expression, seen), x.field.clone()),
        N::SuperAccess(x) => NK::SuperField(x.super_class.clone(), x.field.clone()),
        N::Index(x) => NK::Index(one(x.expression, seen), one(x.index_expression, seen)),
        N::Prefix(x) => NK::Prefix(
            match x.operator {
                UnaryOperator::Negate => "-",
                UnaryOperator::Not => "!",
            },
            one(x.expression, seen),
        ),
        N::Binary(x) => NK::Bin(binary(x.operator), one(x.lhs_expression, seen), one(x.rhs_expression, seen)),
        N::Is(x) => NK::Is(one(x.value, seen), ty(&x.type_)),
        N::NullPropagate(x) => NK::NullProp(one(x.expression, seen)),
        N::ErrorPropagate(x) => NK::ErrProp(one(x.expression, seen)),
        N::Assignment(x) => NK::Assign(
            match x.operator {
                A::Assignment => "=",
                A::MulAssignment => "*=",
                A::DivAssignment => "/=",
                A::AddAssignment => "+=",
                A::SubAssignment => "-=",
            },
            one(x.lhs_expression, seen),
            one(x.rhs_expression, seen),
        ),
        N::VarDecl(x) => {
            let (names, destructured) = match &x.kind {
                VarDeclKind::Singular(n) => (vec![n.clone()], false),
                VarDeclKind::Destructured(v) => (v.clone(), true),
            };
            NK::Let { mutable: x.is_mutable, names, destructured, expr: one(x.expr, seen) }
        }
        N::FnDecl(x) => NK::Fn(Rc::new(Func {
            name: x.name.identifier.clone(),
            name_span: sp(x.name.span),
            params: params(&x.args),
            ret: x.return_.as_ref().map(ty),
            body: read(t, x.body, seen),
            span,
        })),
        N::OpDecl(x) => NK::Op(Rc::new(Func {
            name: overloaded(x.operator).to_string(),
            name_span: span,
            params: params(&x.args),
            ret: x.return_.as_ref().map(ty),
            body: read(t, x.body, seen),
            span,
        })),
        N::ClassDecl(x) => NK::Class {
            name: x.name.identifier.clone(),
            name_span: sp(x.name.span),
            base: x.base.map(|b| one(b, seen)),
            items: list(&x.associated_items, seen),
        },
        N::ImportDecl(x) => NK::Import { ns: x.module_import.clone(), items: x.item_imports.clone(), path: x.relative_path.clone() },
        N::ExportDecl(x) => NK::Export(one(x.export, seen)),
        N::IfExpression(x) => {
            NK::If(one(x.condition, seen), one(x.primary, seen), x.secondary.map(|s| one(s, seen)))
        }
        N::Loop(x) => NK::Loop(one(x.body, seen)),
        N::WhileLoop(x) => NK::While(one(x.condition, seen), one(x.body, seen)),
        N::ForLoop(x) => NK::For(x.variable.clone(), one(x.source, seen), one(x.body, seen)),
        N::Block(x) => {
            let mut v = list(&x.expressions, seen);
            if let Some(i) = x.trailing_expression {
                v.push(read(t, i, seen));
            }
            NK::Block(v)
        }
        N::Break(_) => NK::Break,
        N::Continue(_) => NK::Continue,
        N::Return(x) => NK::Return(x.result.map(|r| one(r, seen))),
        N::FnCall(x) => NK::Call(one(x.target, seen), list(&x.args, seen)),
        N::SuperCall(x) => NK::SuperCall(list(&x.args, seen)),
    };
    Node { k, s: span }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Shape,
    Spans,
}

fn ty_same(a: &Option<Ty>, b: &Option<Ty>, m: Mode) -> Result<(), String> {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => {
            if a.name != b.name || a.nullable != b.nullable {
                return Err(format!("a type {}{} became {}{}", b.name, if b.nullable { "?" } else { "" }, a.name, if a.nullable { "?" } else { "" }));
            }
            if m == Mode::Spans && (a.name_span != b.name_span || a.span != b.span) {
                return Err(format!("the type {} is said to stand at {:?} within {:?}; it stands at {:?} within {:?}", a.name, a.name_span, a.span, b.name_span, b.span));
            }
            Ok(())
        }
        _ => Err("a type annotation is lost or invented".into()),
    }
}

fn func_same(a: &Func, b: &Func, m: Mode, named: bool) -> Result<(), String> {
    if a.name != b.name || a.params.len() != b.params.len() {
        return Err(format!("a function {:?} of {} became {:?} of {}", b.name, b.params.len(), a.name, a.params.len()));
    }
    if m == Mode::Spans && named && a.name_span != b.name_span {
        return Err(format!("the name {} is said to stand at {:?}; it stands at {:?}", a.name, a.name_span, b.name_span));
    }
    for (p, q) in a.params.iter().zip(&b.params) {
        if p.name != q.name {
            return Err(format!("a parameter {} became {}", q.name, p.name));
        }
        if m == Mode::Spans && p.span != q.span {
            return Err(format!("the parameter {} is said to stand at {:?}; it stands at {:?}", p.name, p.span, q.span));
        }
        ty_same(&p.ty, &q.ty, m)?;
    }
    ty_same(&a.ret, &b.ret, m)?;
    same(&a.body, &b.body, m)
}

/// `a`: what dice says; `b`: the reference.
pub fn same(a: &Node, b: &Node, m: Mode) -> Result<(), String> {
    use NK::*;
    let differ = || Err(format!("{:?}\n became\n{:?}", b.k, a.k));
    if m == Mode::Spans && !matches!(b.k, Bin(..) | Block(_) | Or(..)) && a.s != b.s {
        return Err(format!("the range {:?} is recorded for what stands at {:?}: {:?}", a.s, b.s, b.k));
    }
    let flat = match (&a.k, &b.k) {
        (Null, Null) | (Unit, Unit) | (Break, Break) | (Continue, Continue) => true,
        (Bool(x), Bool(y)) => x == y,
        (Int(x), Int(y)) => x == y,
        (Float(x), Float(y)) => x.to_bits() == y.to_bits(),
        (Str(x), Str(y)) | (Ident(x), Ident(y)) => x == y,
        (List(_), List(_)) | (Block(_), Block(_)) | (SuperCall(_), SuperCall(_)) | (Export(_), Export(_)) | (If(..), If(..)) | (Loop(_), Loop(_)) => true,
        (While(..), While(..)) | (Call(..), Call(..)) | (Return(_), Return(_)) | (Index(..), Index(..)) | (NullProp(_), NullProp(_)) | (ErrProp(_), ErrProp(_)) => true,
        (Obj(x), Obj(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, _), (l, _))| k == l),
        (Anon(x), Anon(y)) => return func_same(x, y, m, false),
        (Fn(x), Fn(y)) => return func_same(x, y, m, true),
        (Op(x), Op(y)) => return func_same(x, y, m, false),
        (Field(_, x), Field(_, y)) => x == y,
        (SuperField(c, x), SuperField(d, y)) => c == d && x == y,
        (Prefix(x, _), Prefix(y, _)) => x == y,
        (Bin(x, ..), Bin(y, ..)) | (Assign(x, ..), Assign(y, ..)) => x == y,
        (Is(_, x), Is(_, y)) => {
            ty_same(&Some(x.clone()), &Some(y.clone()), m)?;
            true
        }
        (Let { mutable: a, names: b, destructured: c, .. }, Let { mutable: d, names: e, destructured: f, .. }) => a == d && b == e && c == f,
        (Class { name: x, name_span: xs, base: xb, .. }, Class { name: y, name_span: ys, base: yb, .. }) => {
            if m == Mode::Spans && xs != ys {
                return Err(format!("the name {x} is said to stand at {xs:?}; it stands at {ys:?}"));
            }
            x == y && xb.is_some() == yb.is_some()
        }
        (Import { ns: a, items: b, path: c }, Import { ns: d, items: e, path: f }) => a == d && b == e && c == f,
        (For(x, ..), For(y, ..)) => x == y,
        (Or(_, x, _), Or(_, y, _)) => x == y,
        _ => false,
    };
    if !flat {
        return differ();
    }
    let (mut x, mut y) = (vec![], vec![]);
    a.children(&mut |n| x.push(n));
    b.children(&mut |n| y.push(n));
    if x.len() != y.len() {
        return differ();
    }
    for (p, q) in x.into_iter().zip(y) {
        same(p, q, m)?;
    }
    Ok(())
}

/// Every recorded range lies within the text, on character boundaries.
pub fn bounds(text: &str, seen: &[(&'static str, Sp)]) -> Result<(), String> {
    for (what, (s, e)) in seen {
        if s > e || *e > text.len() || !text.is_char_boundary(*s) || !text.is_char_boundary(*e) {
            return Err(format!("a {what} is recorded at {s}..{e} of a text of {} bytes", text.len()));
        }
    }
    Ok(())
}

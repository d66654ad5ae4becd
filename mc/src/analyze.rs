//! Reference rules: every place where a program breaks a rule about names (E23xx, E24xx) or placement (E22xx, E25xx), found on the
//! reference syntax tree. A program is acceptable exactly when this list is empty (sizes aside).

use crate::ast::*;

#[derive(Clone, Debug)]
pub struct Broken {
    pub code: &'static str,
    pub span: Sp,
    pub name: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Var { mutable: bool },
    Fn,
    Class,
}

struct Var {
    name: String,
    kind: Kind,
    init: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ctx {
    Script,
    Module,
    Function,
    Method,
    Ctor,
}

struct Scope {
    vars: Vec<Var>,
    /// The last variable of each name, once there are many.
    last: std::collections::HashMap<String, usize>,
    is_loop: bool,
}

const MANY: usize = 64;

struct Frame {
    ctx: Ctx,
    scopes: Vec<Scope>,
}

pub struct Analyzer {
    frames: Vec<Frame>,
    pub broken: Vec<Broken>,
}

pub fn analyze(root: &Node, module: bool) -> Vec<Broken> {
    let ctx = if module { Ctx::Module } else { Ctx::Script };
    let mut a = Analyzer { frames: vec![Frame { ctx, scopes: vec![] }], broken: vec![] };
    a.block(root, false, true);
    a.broken
}

impl Analyzer {
    fn top(&mut self) -> &mut Frame {
        self.frames.last_mut().unwrap()
    }

    fn err(&mut self, code: &'static str, span: Sp, name: Option<&str>) {
        self.broken.push(Broken { code, span, name: name.map(str::to_string) });
    }

    fn push(&mut self, is_loop: bool) {
        self.top().scopes.push(Scope { vars: vec![], last: Default::default(), is_loop });
    }

    fn pop(&mut self) {
        self.top().scopes.pop();
    }

    fn declare(&mut self, name: &str, kind: Kind, init: bool) {
        let v = Var { name: name.to_string(), kind, init };
        let s = self.top().scopes.last_mut().unwrap();
        s.vars.push(v);
        if s.vars.len() == MANY {
            s.last = s.vars.iter().enumerate().map(|(i, v)| (v.name.clone(), i)).collect();
        } else if s.vars.len() > MANY {
            s.last.insert(name.to_string(), s.vars.len() - 1);
        }
    }

    fn find(frame: &mut Frame, name: &str) -> Option<(Kind, bool, *mut bool)> {
        for s in frame.scopes.iter_mut().rev() {
            if s.vars.len() >= MANY {
                match s.last.get(name) {
                    Some(i) => {
                        let v = &mut s.vars[*i];
                        return Some((v.kind, v.init, &mut v.init));
                    }
                    None => continue,
                }
            }
            for v in s.vars.iter_mut().rev() {
                if v.name == name {
                    return Some((v.kind, v.init, &mut v.init));
                }
            }
        }
        None
    }

    fn use_name(&mut self, name: &str, span: Sp) {
        if let Some((_, init, _)) = Self::find(self.top(), name) {
            if !init {
                self.err("E2402", span, Some(name));
            }
        }
    }

    fn use_ty(&mut self, t: &Ty) {
        self.use_name(&t.name, t.name_span);
    }

    fn in_loop(&mut self) -> bool {
        self.top().scopes.iter().any(|s| s.is_loop)
    }

    fn block(&mut self, n: &Node, is_loop: bool, root: bool) {
        self.push(is_loop);
        if let NK::Block(items) = &n.k {
            self.items(items, root);
        } else {
            self.visit(n, false);
        }
        self.pop();
    }

    fn items(&mut self, items: &[Node], root: bool) {
        for n in items {
            let n = match &n.k {
                NK::Export(e) => e,
                _ => n,
            };
            match &n.k {
                NK::Fn(f) => self.declare(&f.name, Kind::Fn, false),
                NK::Class { name, .. } => self.declare(name, Kind::Class, false),
                _ => {}
            }
        }
        for n in items {
            self.visit(n, root);
        }
    }

    /// `class`: Some(derived) inside a class declaration.
    fn func(&mut self, f: &Func, ctx: Ctx, derived: bool) {
        let mut seen = std::collections::HashSet::new();
        if !f.params.iter().all(|p| seen.insert(p.name.clone())) {
            self.err("E2207", f.span, None);
        }
        if ctx == Ctx::Ctor {
            if let Some(t) = &f.ret {
                self.err("E2200", t.span, None);
            }
            if derived {
                let first = match &f.body.k {
                    NK::Block(items) => items.first(),
                    _ => Some(&f.body),
                };
                if !matches!(first.map(|n| &n.k), Some(NK::SuperCall(_))) {
                    self.err("E2203", f.body.s, None);
                }
            }
        }
        self.frames.push(Frame { ctx, scopes: vec![] });
        self.push(false);
        for p in &f.params {
            self.declare(&p.name, Kind::Var { mutable: false }, true);
            if let Some(t) = &p.ty {
                self.use_ty(t);
            }
        }
        match &f.body.k {
            NK::Block(items) => self.items(items, false),
            _ => self.visit(&f.body, false),
        }
        if ctx != Ctx::Ctor {
            if let Some(t) = &f.ret {
                self.use_ty(t);
            }
        }
        self.frames.pop();
    }

    fn class_item(&mut self, f: &Func, is_op: bool, derived: bool) {
        let this = f.params.first().filter(|p| p.name == "self");
        match this {
            Some(p) => {
                if p.ty.is_some() {
                    self.err("E2206", p.span, None);
                }
                let ctx = if !is_op && f.name == "new" { Ctx::Ctor } else { Ctx::Method };
                self.func(f, ctx, derived);
            }
            None => {
                if is_op {
                    self.err("E2202", f.span, None);
                } else if f.name == "new" {
                    self.err("E2201", f.name_span, None);
                }
                self.func(f, Ctx::Function, false);
            }
        }
    }

    fn visit(&mut self, n: &Node, root: bool) {
        use NK::*;
        match &n.k {
            Ident(name) => self.use_name(name, n.s),
            Anon(f) => self.func(f, Ctx::Function, false),
            Is(e, t) => {
                self.visit(e, false);
                self.use_ty(t);
            }
            SuperField(class, _) => {
                if !matches!(self.top().ctx, Ctx::Method | Ctx::Ctor) {
                    self.err("E2205", n.s, None);
                }
                if let Some(c) = class {
                    self.use_name(c, n.s);
                }
            }
            SuperCall(args) => {
                if !matches!(self.top().ctx, Ctx::Method | Ctx::Ctor) {
                    self.err("E2205", n.s, None);
                }
                args.iter().for_each(|a| self.visit(a, false));
            }
            ErrProp(e) => {
                if !matches!(self.top().ctx, Ctx::Function | Ctx::Method) {
                    self.err("E2503", n.s, None);
                }
                self.visit(e, false);
            }
            Assign(_, t, rhs) => {
                match &t.k {
                    Ident(name) => {
                        let found = self.frames.iter_mut().rev().find_map(|f| Self::find(f, name));
                        match found {
                            None => self.err("E2401", n.s, Some(name)),
                            Some((Kind::Var { mutable: true }, ..)) => {}
                            Some(_) => self.err("E2403", n.s, Some(name)),
                        }
                    }
                    _ => t.children(&mut |c| self.visit(c, false)),
                }
                self.visit(rhs, false);
            }
            Let { mutable, names, destructured, expr } => {
                self.visit(expr, false);
                for name in names {
                    self.declare(name, Kind::Var { mutable: *mutable }, true);
                }
            }
            Import { ns, items, .. } => {
                for i in items.iter().chain(ns) {
                    self.declare(i, Kind::Var { mutable: false }, true);
                }
            }
            Fn(f) => {
                self.func(f, Ctx::Function, false);
                match Self::find(self.top(), &f.name) {
                    Some((Kind::Fn, false, init)) => unsafe { *init = true },
                    _ => self.err("E2301", f.name_span, Some(&f.name)),
                }
            }
            Op(f) => self.func(f, Ctx::Function, false),
            Class { name, name_span, base, items } => {
                self.push(false);
                if let Some(b) = base {
                    self.visit(b, false);
                }
                self.declare("super", Kind::Var { mutable: false }, true);
                match Self::find(self.top(), name) {
                    Some((Kind::Class, false, init)) => unsafe { *init = true },
                    _ => self.err("E2300", *name_span, Some(name)),
                }
                for i in items {
                    match &i.k {
                        Fn(f) => self.class_item(f, false, base.is_some()),
                        Op(f) => self.class_item(f, true, base.is_some()),
                        _ => unreachable!(),
                    }
                }
                self.pop();
            }
            Export(e) => {
                let destructured = matches!(e.k, Let { destructured: true, .. });
                if !root || self.top().ctx != Ctx::Module || destructured {
                    self.err("E2504", n.s, None);
                }
                self.visit(e, false);
            }
            If(c, a, b) => {
                self.visit(c, false);
                self.block(a, false, false);
                if let Some(b) = b {
                    self.visit(b, false);
                }
            }
            Loop(b) => {
                self.push(true);
                self.block(b, false, false);
                self.pop();
            }
            While(c, b) => {
                self.push(true);
                self.visit(c, false);
                self.block(b, false, false);
                self.pop();
            }
            For(v, src, b) => {
                self.visit(src, false);
                self.push(true);
                self.declare(v, Kind::Var { mutable: false }, true);
                self.block(b, false, false);
                self.pop();
            }
            Block(_) => self.block(n, false, false),
            Break => {
                if !self.in_loop() {
                    self.err("E2501", n.s, None);
                }
            }
            Continue => {
                if !self.in_loop() {
                    self.err("E2502", n.s, None);
                }
            }
            Return(e) => {
                match self.top().ctx {
                    Ctx::Script | Ctx::Module => self.err("E2500", n.s, None),
                    Ctx::Ctor if e.is_some() => self.err("E2204", n.s, None),
                    _ => {}
                }
                if let Some(e) = e {
                    self.visit(e, false);
                }
            }
            Or(e, name, b) => {
                self.push(false);
                self.visit(e, false);
                self.push(false);
                self.declare(name, Kind::Var { mutable: false }, true);
                self.block(b, false, false);
                self.pop();
                self.pop();
            }
            _ => n.children(&mut |c| self.visit(c, false)),
        }
    }
}

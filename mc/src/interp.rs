//! Reference interpreter: gives every accepted program its meaning directly from the reference syntax tree, by textual scoping
//! (persistent environments with one cell per executed declaration). Knows nothing of slots, upvalues, jumps or stacks.

use crate::ast::*;
use crate::value::*;
use std::cell::RefCell;
use std::rc::Rc;

type Cell = Rc<RefCell<V>>;

struct EnvNode {
    name: String,
    cell: Cell,
    up: Env,
}
#[derive(Clone)]
pub struct Env(Option<Rc<EnvNode>>);

impl Env {
    pub fn empty() -> Env {
        Env(None)
    }
    fn bind(&mut self, w: &mut World, name: &str, v: V) {
        let cell = Rc::new(RefCell::new(v));
        w.cells.push(cell.clone());
        *self = Env(Some(Rc::new(EnvNode { name: name.to_string(), cell, up: self.clone() })));
    }
    fn find(&self, name: &str) -> Option<&Cell> {
        let mut e = self;
        while let Env(Some(n)) = e {
            if n.name == name {
                return Some(&n.cell);
            }
            e = &n.up;
        }
        None
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum FnRole {
    Plain,
    Method,
    Ctor,
}

pub struct Closure {
    func: Rc<Func>,
    env: Env,
    role: FnRole,
}

enum Ctl {
    Break,
    Continue,
    Return(V),
    /// A null met by `?`: leaves the access chain.
    Short,
    Err(E),
}

impl From<E> for Ctl {
    fn from(e: E) -> Ctl {
        Ctl::Err(e)
    }
}

type X = Result<V, Ctl>;

struct Frame {
    receiver: Option<V>,
}

pub fn run(w: &mut World, root: &Node, module: bool) -> R<V> {
    if module {
        w.export = Some(w.object("Object", vec![]));
    }
    let mut env = Env::empty();
    let fr = Frame { receiver: None };
    let r = match eval(w, root, &mut env, &fr) {
        Ok(v) => Ok(v),
        Err(Ctl::Err(e)) => Err(e),
        Err(_) => Err(E::Bad("control flow left the program".into())),
    };
    match (r, &w.export) {
        (Ok(_), Some(e)) => Ok(e.clone()),
        (r, _) => r,
    }
}

pub fn enter(w: &mut World, c: &Closure, slot0: V, args: Vec<V>) -> R<V> {
    let params = if c.role == FnRole::Plain { &c.func.params[..] } else { &c.func.params[1..] };
    if params.len() != args.len() {
        // Nothing is specified about calls with the wrong number of arguments.
        return Err(E::Undef);
    }
    let mut env = c.env.clone();
    let fr = Frame { receiver: if c.role == FnRole::Plain { None } else { Some(slot0.clone()) } };
    if c.role != FnRole::Plain {
        env.bind(w, "self", slot0.clone());
    }
    for (p, a) in params.iter().zip(&args) {
        env.bind(w, &p.name, a.clone());
        if let Some(t) = &p.ty {
            let class = ident(w, &t.name, &env)?;
            w.check_type(a, &class, t.nullable)?;
        }
    }
    let ret_env = env.clone();
    let body = &c.func.body;
    let r = match &body.k {
        // The body shares the scope of the parameters.
        NK::Block(items) => sequence(w, items, &mut env, &fr),
        _ => eval(w, body, &mut env, &fr),
    };
    let v = match r {
        Ok(v) | Err(Ctl::Return(v)) => v,
        Err(Ctl::Err(e)) => return Err(e),
        Err(_) => return Err(E::Bad("control flow left the function".into())),
    };
    if c.role == FnRole::Ctor {
        return Ok(slot0);
    }
    if let Some(t) = &c.func.ret {
        let class = ident(w, &t.name, &ret_env)?;
        w.check_type(&v, &class, t.nullable)?;
    }
    Ok(v)
}

fn ident(w: &World, name: &str, env: &Env) -> R<V> {
    match env.find(name) {
        Some(c) => match &*c.borrow() {
            V::Undef => Err(E::Undef),
            v => Ok(v.clone()),
        },
        None => w.load_global(name),
    }
}

fn hoist(w: &mut World, items: &[Node], env: &mut Env) {
    for n in items {
        let mut n = n;
        if let NK::Export(e) = &n.k {
            n = e;
        }
        match &n.k {
            NK::Fn(f) => env.bind(w, &f.name, V::Undef),
            NK::Class { name, .. } => env.bind(w, name, V::Undef),
            _ => {}
        }
    }
}

fn sequence(w: &mut World, items: &[Node], env: &mut Env, fr: &Frame) -> X {
    hoist(w, items, env);
    let mut last = V::Unit;
    for n in items {
        last = eval(w, n, env, fr)?;
    }
    Ok(last)
}

fn block(w: &mut World, n: &Node, env: &Env, fr: &Frame) -> X {
    let mut env = env.clone();
    match &n.k {
        NK::Block(items) => sequence(w, items, &mut env, fr),
        _ => unreachable!(),
    }
}

fn make_fn(f: &Rc<Func>, env: &Env, role: FnRole, name: &str) -> V {
    let closure = Closure { func: f.clone(), env: env.clone(), role };
    V::Fun(Rc::new(Fun { name: name.to_string(), kind: FunKind::Ast(closure) }))
}

fn protocol_name(sym: &str) -> &'static str {
    use dice_core::protocol::operator::*;
    match sym {
        "*" => MUL,
        "/" => DIV,
        "%" => REM,
        "+" => ADD,
        "-" => SUB,
        ">" => GT,
        ">=" => GTE,
        "<" => LT,
        "<=" => LTE,
        "==" => EQ,
        "!=" => NEQ,
        ".." => RANGE_EXCLUSIVE,
        "..=" => RANGE_INCLUSIVE,
        _ => unreachable!(),
    }
}

/// A link of an access chain: a null met by `?` leaves through Ctl::Short.
fn link(w: &mut World, n: &Node, env: &mut Env, fr: &Frame) -> X {
    w.step()?;
    match &n.k {
        NK::NullProp(e) => match link(w, e, env, fr)? {
            V::Null => Err(Ctl::Short),
            v => Ok(v),
        },
        NK::ErrProp(e) => {
            let v = link(w, e, env, fr)?;
            let ok = w.get_field(&v, dice_core::protocol::error::IS_OK)?;
            if w.as_bool(&ok)? {
                Ok(w.get_field(&v, dice_core::protocol::error::RESULT)?)
            } else {
                Err(Ctl::Return(v))
            }
        }
        NK::Field(e, f) => {
            let v = link(w, e, env, fr)?;
            Ok(w.get_field(&v, f)?)
        }
        NK::Index(e, i) => {
            let v = link(w, e, env, fr)?;
            let i = eval(w, i, env, fr)?;
            Ok(w.get_index(&v, &i)?)
        }
        NK::Call(t, args) => {
            let f = link(w, t, env, fr)?;
            let a = list(w, args, env, fr)?;
            Ok(w.call(&f, a)?)
        }
        NK::SuperField(class, f) => {
            let class = ident(w, class.as_deref().unwrap_or("super"), env)?;
            let recv = fr.receiver.clone().ok_or(E::Bad("super without receiver".into()))?;
            Ok(w.load_method(&class, &recv, f)?)
        }
        NK::SuperCall(args) => {
            let recv = fr.receiver.clone().ok_or(E::Bad("super without receiver".into()))?;
            let a = list(w, args, env, fr)?;
            let class = ident(w, "super", env)?;
            let class = w.as_class(&class)?;
            Ok(w.construct(&class, recv, a)?)
        }
        _ => eval(w, n, env, fr),
    }
}

fn list(w: &mut World, v: &[Node], env: &mut Env, fr: &Frame) -> Result<Vec<V>, Ctl> {
    let mut out = Vec::with_capacity(v.len());
    for n in v {
        out.push(eval(w, n, env, fr)?);
    }
    Ok(out)
}

fn eval(w: &mut World, n: &Node, env: &mut Env, fr: &Frame) -> X {
    use NK::*;
    w.step()?;
    Ok(match &n.k {
        NullProp(_) | ErrProp(_) | Field(..) | Index(..) | Call(..) | SuperField(..) | SuperCall(_) => match link(w, n, env, fr) {
            Err(Ctl::Short) => V::Null,
            r => r?,
        },
        Null => V::Null,
        Unit => V::Unit,
        Bool(b) => V::Bool(*b),
        Int(i) => V::Int(*i),
        Float(f) => V::Float(*f),
        Str(x) => s(x),
        Ident(name) => ident(w, name, env)?,
        List(items) => V::Arr(Rc::new(RefCell::new(list(w, items, env, fr)?))),
        Obj(items) => {
            let o = w.object("Object", vec![]);
            for (k, e) in items {
                let v = eval(w, e, env, fr)?;
                w.set_field(&o, k, v)?;
            }
            o
        }
        Anon(f) => make_fn(f, env, FnRole::Plain, "|fn|"),
        Prefix(op, e) => {
            let v = eval(w, e, env, fr)?;
            if *op == "-" {
                w.negate(v)?
            } else {
                w.not(v)?
            }
        }
        Bin(op, a, b) => match *op {
            "&&" | "||" => {
                let l = eval(w, a, env, fr)?;
                if w.as_bool(&l)? == (*op == "||") {
                    return Ok(l);
                }
                let r = eval(w, b, env, fr)?;
                w.as_bool(&r)?;
                r
            }
            "??" => match eval(w, a, env, fr)? {
                V::Null => eval(w, b, env, fr)?,
                v => v,
            },
            "|>" => {
                let f = eval(w, b, env, fr)?;
                let a = eval(w, a, env, fr)?;
                w.call(&f, vec![a])?
            }
            op => {
                let l = eval(w, a, env, fr)?;
                let r = eval(w, b, env, fr)?;
                w.binop(op, l, r)?
            }
        },
        Is(e, t) => {
            let v = eval(w, e, env, fr)?;
            if t.nullable && matches!(v, V::Null) {
                return Ok(V::Bool(true));
            }
            let class = ident(w, &t.name, env)?;
            let class = w.as_class(&class)?;
            V::Bool(w.instance_of(&v, &class))
        }
        Assign(op, target, rhs) => assign(w, op, target, rhs, env, fr)?,
        Let { names, destructured, expr, .. } => {
            let v = eval(w, expr, env, fr)?;
            if *destructured {
                for n in names {
                    let x = w.get_field(&v, n)?;
                    env.bind(w, n, x);
                }
            } else {
                env.bind(w, &names[0], v.clone());
            }
            v
        }
        Fn(f) => {
            let v = make_fn(f, env, FnRole::Plain, &f.name);
            *env.find(&f.name).unwrap().borrow_mut() = v.clone();
            v
        }
        Op(f) => {
            let name = protocol_name(&f.name);
            let v = make_fn(f, env, FnRole::Plain, name);
            w.store_global(name, v)?;
            V::Unit
        }
        Class { name, base, items, .. } => {
            let base = match base {
                Some(b) => eval(w, b, &mut env.clone(), fr)?,
                None => w.load_global("Any")?,
            };
            let mut inner = env.clone();
            inner.bind(w, "super", base.clone());
            let class = w.inherit(name, &base)?;
            *env.find(name).unwrap().borrow_mut() = class.clone();
            for i in items {
                match &i.k {
                    Fn(f) => {
                        let is_method = f.params.first().map_or(false, |p| p.name == "self");
                        let role = match (is_method, f.name.as_str()) {
                            (true, "new") => FnRole::Ctor,
                            (true, _) => FnRole::Method,
                            _ => FnRole::Plain,
                        };
                        let v = make_fn(f, &inner, role, &f.name);
                        if is_method {
                            w.store_method(&class, &f.name, v)?;
                        } else {
                            w.set_field(&class, &f.name, v)?;
                        }
                    }
                    Op(f) => {
                        let name = protocol_name(&f.name);
                        let v = make_fn(f, &inner, FnRole::Method, name);
                        w.store_method(&class, name, v)?;
                    }
                    _ => unreachable!(),
                }
            }
            class
        }
        Import { ns, items, path } => {
            let m = w.load_module(path)?;
            for i in items {
                let x = w.get_field(&m, i)?;
                env.bind(w, i, x);
            }
            if let Some(n) = ns {
                env.bind(w, n, m.clone());
            }
            m
        }
        Export(e) => {
            let v = eval(w, e, env, fr)?;
            let name = match &e.k {
                Let { names, .. } => &names[0],
                Fn(f) => &f.name,
                Class { name, .. } | Ident(name) => name,
                _ => unreachable!(),
            };
            let ex = w.export.clone().ok_or(E::Bad("export in a script".into()))?;
            w.set_field(&ex, name, v.clone())?;
            v
        }
        If(c, a, b) => {
            let c = eval(w, c, env, fr)?;
            if w.as_bool(&c)? {
                block(w, a, env, fr)?
            } else {
                match b {
                    Some(b) if matches!(b.k, Block(_)) => block(w, b, env, fr)?,
                    Some(b) => eval(w, b, env, fr)?,
                    None => V::Unit,
                }
            }
        }
        Loop(b) => loop {
            w.step()?;
            match block(w, b, env, fr) {
                Ok(_) | Err(Ctl::Continue) => {}
                Err(Ctl::Break) => break V::Unit,
                Err(e) => return Err(e),
            }
        },
        While(c, b) => loop {
            w.step()?;
            let v = match eval(w, c, env, fr) {
                Ok(v) => v,
                Err(Ctl::Continue) => continue,
                Err(Ctl::Break) => break V::Unit,
                Err(e) => return Err(e),
            };
            if !w.as_bool(&v)? {
                break V::Unit;
            }
            match block(w, b, env, fr) {
                Ok(_) | Err(Ctl::Continue) => {}
                Err(Ctl::Break) => break V::Unit,
                Err(e) => return Err(e),
            }
        },
        For(var, src, b) => return for_loop(w, var, src, b, env, fr),
        Block(_) => block(w, n, env, fr)?,
        Break => return Err(Ctl::Break),
        Continue => return Err(Ctl::Continue),
        Return(e) => {
            let v = match e {
                Some(e) => eval(w, e, env, fr)?,
                None => V::Unit,
            };
            return Err(Ctl::Return(v));
        }
        Or(e, name, b) => {
            let v = eval(w, e, env, fr)?;
            let class = w.load_global("Result")?;
            w.check_type(&v, &class, false)?;
            let ok = w.get_field(&v, dice_core::protocol::error::IS_OK)?;
            let r = w.as_bool(&ok)?;
            let x = w.get_field(&v, dice_core::protocol::error::RESULT)?;
            if r {
                x
            } else {
                let mut inner = env.clone();
                inner.bind(w, name, x);
                block(w, b, &inner, fr)?
            }
        }
    })
}

fn assign(w: &mut World, op: &str, target: &Node, rhs: &Node, env: &mut Env, fr: &Frame) -> X {
    let arith = &op[..op.len() - 1];
    match &target.k {
        NK::Ident(name) => {
            let cell = env.find(name).cloned().ok_or(E::Bad("assignment to an undeclared name".into()))?;
            let v = if arith.is_empty() {
                eval(w, rhs, env, fr)?
            } else {
                let old = cell.borrow().clone();
                let r = eval(w, rhs, env, fr)?;
                w.binop(arith, old, r)?
            };
            *cell.borrow_mut() = v;
            Ok(V::Unit)
        }
        NK::Field(o, f) => {
            let o = eval(w, o, env, fr)?;
            if arith.is_empty() {
                let v = eval(w, rhs, env, fr)?;
                w.set_field(&o, f, v.clone())?;
                Ok(v)
            } else {
                let old = w.get_field(&o, f)?;
                let r = eval(w, rhs, env, fr)?;
                let v = w.binop(arith, old, r)?;
                w.set_field(&o, f, v)?;
                Ok(V::Unit)
            }
        }
        NK::Index(o, i) => {
            let o = eval(w, o, env, fr)?;
            let i = eval(w, i, env, fr)?;
            let v = if arith.is_empty() {
                eval(w, rhs, env, fr)?
            } else {
                let old = w.get_index(&o, &i)?;
                let r = eval(w, rhs, env, fr)?;
                w.binop(arith, old, r)?
            };
            w.set_index(&o, &i, v)?;
            Ok(V::Unit)
        }
        _ => Err(E::Bad("assignment target".into()).into()),
    }
}

fn for_loop(w: &mut World, var: &str, src: &Node, body: &Node, env: &mut Env, fr: &Frame) -> X {
    use dice_core::protocol::iterator::*;
    let iterate = |w: &mut World, env: &Env, v: V| -> Result<bool, Ctl> {
        let mut inner = env.clone();
        inner.bind(w, var, v);
        match block(w, body, &inner, fr) {
            Ok(_) | Err(Ctl::Continue) => Ok(true),
            Err(Ctl::Break) => Ok(false),
            Err(e) => Err(e),
        }
    };
    if let NK::Bin(op @ (".." | "..="), a, b) = &src.k {
        let end = eval(w, b, env, fr)?;
        let mut i = eval(w, a, env, fr)?;
        loop {
            w.step()?;
            let more = w.binop(if *op == ".." { "<" } else { "<=" }, i.clone(), end.clone())?;
            if !w.as_bool(&more)? || !iterate(w, env, i.clone())? {
                return Ok(V::Unit);
            }
            i = w.binop("+", i, V::Int(1))?;
        }
    }
    let src = eval(w, src, env, fr)?;
    let f = w.get_field(&src, ITER)?;
    let it = w.call(&f, vec![])?;
    let next = w.get_field(&it, NEXT)?;
    loop {
        w.step()?;
        let r = w.call(&next, vec![])?;
        let done = w.get_field(&r, DONE)?;
        if w.as_bool(&done)? {
            return Ok(V::Unit);
        }
        let v = w.get_field(&r, VALUE)?;
        if !iterate(w, env, v)? {
            return Ok(V::Unit);
        }
    }
}

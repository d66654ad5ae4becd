//! The object model and the environment shared by the reference interpreter (interp.rs) and the reference bytecode machine
//! (vm.rs): values, operators, classes, natives, the event trace and the script of environment choices.

use dice_core::protocol::{error as perr, iterator as pit, operator as pop};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::rc::Rc;

#[derive(Clone)]
pub enum V {
    Undef,
    Null,
    Unit,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(Rc<str>),
    Arr(Rc<RefCell<Vec<V>>>),
    Obj(Rc<Obj>),
    Class(Rc<Class>),
    Fun(Rc<Fun>),
    Bound(Rc<(V, Rc<Fun>)>),
    Nat(Rc<Nat>),
}

pub struct Obj {
    pub class: Rc<Class>,
    pub fields: RefCell<Vec<(String, V)>>,
}

pub struct Class {
    pub name: String,
    pub base: Option<Rc<Class>>,
    pub methods: RefCell<Vec<(String, V)>>,
    pub fields: RefCell<Vec<(String, V)>>,
}

pub struct Fun {
    pub name: String,
    pub kind: FunKind,
}

pub enum FunKind {
    Ast(crate::interp::Closure),
    Vm(crate::vm::Closure),
}

pub enum Nat {
    /// `c()`: a boolean chosen by the environment.
    C,
    /// `n(a, b, ..)`: one of its arguments, chosen by the environment.
    N,
    /// `p(a, ..)`: logs its arguments and returns the first.
    P,
    /// `it(n)`: an iterable producing 1..=n.
    It,
    Iter(i64),
    Next(i64, Cell<i64>),
    Ok,
    Er,
    /// `ob(a)`: a fresh object with field a.
    Ob,
    /// `l`-maker: `ls(..)`: a fresh array.
    Ls,
    /// Method-like natives stored in fields; logs its name and arguments, returns the first or unit.
    Named(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    /// A runtime error with its code.
    Rt(&'static str),
    /// The environment ends the run here (choice bound reached).
    Halt,
    /// Step or call depth bound reached.
    Fuel,
    /// The reference says nothing about what happens from here on.
    Undef,
    /// The machine met something no well-formed code does.
    Bad(String),
}

pub type R<T> = Result<T, E>;

pub struct World {
    pub trace: Vec<String>,
    ids: HashMap<usize, usize>,
    keep: Vec<V>,
    pub script: Vec<usize>,
    /// Arity of each choice made so far.
    pub arity: Vec<usize>,
    pub max_choices: usize,
    pub fuel: u64,
    pub steps: u64,
    /// The run is cut off once its trace is longer.
    pub max_trace: usize,
    pub depth: usize,
    pub globals: HashMap<String, V>,
    pub modules: HashMap<String, V>,
    pub classes: HashMap<&'static str, Rc<Class>>,
    pub export: Option<V>,
    /// Every variable cell made during the run; emptied at its end, so that cyclic garbage is freed.
    pub cells: Vec<Rc<RefCell<V>>>,
    pub ups: Vec<crate::vm::UpRef>,
}

impl Drop for World {
    fn drop(&mut self) {
        if let Some(V::Obj(g)) = self.globals.get("g") {
            let f = std::mem::take(&mut *g.fields.borrow_mut());
            drop(f);
        }
        for c in &self.cells {
            let v = std::mem::replace(&mut *c.borrow_mut(), V::Undef);
            drop(v);
        }
        for u in &self.ups {
            let v = std::mem::replace(&mut *u.borrow_mut(), crate::vm::Up::Closed(V::Undef));
            drop(v);
        }
    }
}

pub const KIND_CLASSES: &[&str] = &[
    "Null", "Unit", "Bool", "Int", "Float", "String", "Array", "Object", "Class", "Function", "Module", "Result",
];

pub fn s(x: &str) -> V {
    V::Str(Rc::from(x))
}

impl World {
    pub fn new(script: &[usize], max_choices: usize, fuel: u64) -> World {
        let any = Rc::new(Class { name: "Any".into(), base: None, methods: Default::default(), fields: Default::default() });
        let mut classes = HashMap::new();
        let mut globals = HashMap::new();
        for k in KIND_CLASSES {
            let c = Rc::new(Class {
                name: k.to_string(),
                base: Some(any.clone()),
                methods: Default::default(),
                fields: Default::default(),
            });
            globals.insert(k.to_string(), V::Class(c.clone()));
            classes.insert(*k, c);
        }
        globals.insert("Any".into(), V::Class(any.clone()));
        classes.insert("Any", any.clone());
        let foo = Rc::new(Class {
            name: "Foo".into(),
            base: Some(any),
            methods: RefCell::new(vec![("m".into(), V::Nat(Rc::new(Nat::Named("Foo.m"))))]),
            fields: Default::default(),
        });
        let bar = Rc::new(Class {
            name: "Bar".into(),
            base: Some(foo.clone()),
            methods: RefCell::new(foo.methods.borrow().clone()),
            fields: Default::default(),
        });
        globals.insert("Foo".into(), V::Class(foo.clone()));
        globals.insert("Bar".into(), V::Class(bar.clone()));
        let mut w = World {
            trace: vec![],
            ids: HashMap::new(),
            keep: vec![],
            script: script.to_vec(),
            arity: vec![],
            max_choices,
            fuel,
            steps: 0,
            max_trace: usize::MAX,
            depth: 0,
            globals,
            modules: HashMap::new(),
            classes,
            export: None,
            cells: vec![],
            ups: vec![],
        };
        for (n, k) in
            [("c", Nat::C), ("n", Nat::N), ("p", Nat::P), ("it", Nat::It), ("ok", Nat::Ok), ("er", Nat::Er), ("ob", Nat::Ob), ("ls", Nat::Ls)]
        {
            w.globals.insert(n.into(), V::Nat(Rc::new(k)));
        }
        // g: an object whose fields cover every kind of link in an access chain.
        let g = w.object("Object", vec![]);
        if let V::Obj(o) = &g {
            o.fields.borrow_mut().extend([
                ("a".to_string(), V::Int(3)),
                ("z".to_string(), V::Null),
                ("g".to_string(), g.clone()),
                ("f".to_string(), V::Nat(Rc::new(Nat::Named("g.f")))),
                ("k".to_string(), V::Nat(Rc::new(Nat::N))),
            ]);
        }
        w.globals.insert("g".into(), g);
        let foo_i = V::Obj(Rc::new(Obj { class: foo, fields: Default::default() }));
        let bar_i = V::Obj(Rc::new(Obj { class: bar, fields: Default::default() }));
        w.globals.insert("foo".into(), foo_i);
        w.globals.insert("bar".into(), bar_i);
        for (path, names) in [("m", &["a", "b", "c"][..]), ("n", &["a", "b"][..]), ("d/m.dm", &["a"][..]), ("d\\\\m", &["a"][..])] {
            let fields = names.iter().enumerate().map(|(i, n)| (n.to_string(), s(&format!("{path}:{n}{i}")))).collect();
            let m = w.object("Module", fields);
            w.modules.insert(path.to_string(), m);
        }
        w
    }

    pub fn object(&self, class: &'static str, fields: Vec<(String, V)>) -> V {
        V::Obj(Rc::new(Obj { class: self.classes[class].clone(), fields: RefCell::new(fields) }))
    }

    pub fn step(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.fuel || self.trace.len() > self.max_trace {
            Err(E::Fuel)
        } else {
            Ok(())
        }
    }

    pub fn choose(&mut self, n: usize) -> R<usize> {
        let i = self.arity.len();
        if i >= self.max_choices {
            return Err(E::Halt);
        }
        self.arity.push(n);
        let c = self.script.get(i).copied().unwrap_or(0);
        if i >= self.script.len() {
            self.script.push(0);
        }
        Ok(c)
    }

    // ---- rendering -------------------------------------------------------------------------------------------------------

    fn id(&mut self, ptr: usize, v: &V) -> usize {
        let n = self.ids.len();
        match self.ids.get(&ptr) {
            Some(i) => *i,
            None => {
                self.keep.push(v.clone());
                self.ids.insert(ptr, n);
                n
            }
        }
    }

    pub fn render(&mut self, v: &V) -> String {
        let mut out = String::new();
        self.render_to(v, 3, &mut out);
        out
    }

    fn render_fields(&mut self, f: Vec<(String, V)>, depth: usize, out: &mut String) {
        if depth == 0 {
            return;
        }
        out.push('{');
        for (k, v) in f {
            let _ = write!(out, "{k}:");
            self.render_to(&v, depth - 1, out);
            out.push(',');
        }
        out.push('}');
    }

    fn render_to(&mut self, v: &V, depth: usize, out: &mut String) {
        let _ = match v {
            V::Undef => write!(out, "<undef>"),
            V::Null => write!(out, "null"),
            V::Unit => write!(out, "()"),
            V::Bool(b) => write!(out, "{b}"),
            V::Int(i) => write!(out, "{i}"),
            V::Float(f) => write!(out, "{f:?}f"),
            V::Str(s) => write!(out, "{s:?}"),
            V::Arr(a) => {
                let i = self.id(Rc::as_ptr(a) as usize, v);
                let _ = write!(out, "@{i}[");
                if depth > 0 {
                    let items = a.borrow().clone();
                    for x in items {
                        self.render_to(&x, depth - 1, out);
                        out.push(',');
                    }
                }
                write!(out, "]")
            }
            V::Obj(o) => {
                let i = self.id(Rc::as_ptr(o) as usize, v);
                let _ = write!(out, "@{i}:{}", o.class.name);
                let f = o.fields.borrow().clone();
                self.render_fields(f, depth, out);
                Ok(())
            }
            V::Class(c) => {
                let i = self.id(Rc::as_ptr(c) as usize, v);
                let _ = write!(out, "@{i}class {}", c.name);
                if let Some(b) = &c.base {
                    let _ = write!(out, ":{}", b.name);
                }
                if depth >= 2 {
                    let f = c.fields.borrow().clone();
                    self.render_fields(f, 1, out);
                    let mut m: Vec<String> = c.methods.borrow().iter().map(|(k, _)| k.clone()).collect();
                    m.sort();
                    let _ = write!(out, "<{}>", m.join(","));
                }
                Ok(())
            }
            V::Fun(f) => {
                let i = self.id(Rc::as_ptr(f) as usize, v);
                write!(out, "@{i}fn {}", f.name)
            }
            V::Bound(b) => {
                let _ = write!(out, "bound {}(", b.1.name);
                let r = b.0.clone();
                self.render_to(&r, 0, out);
                write!(out, ")")
            }
            V::Nat(n) => match &**n {
                Nat::Named(x) => write!(out, "native {x}"),
                _ => write!(out, "native"),
            },
        };
    }

    pub fn log(&mut self, tag: &str, args: &[V]) {
        let mut e = tag.to_string();
        e.push('(');
        for a in args {
            let r = self.render(a);
            e.push_str(&r);
            e.push(',');
        }
        e.push(')');
        self.trace.push(e);
    }

    /// The state a program leaves behind. The functions it leaves are called, now that its own frame is gone.
    pub fn finish(&mut self, r: R<V>) -> R<V> {
        match &r {
            Ok(v) => self.log("result", &[v.clone()]),
            // Nothing is known about the state in the middle of a run that was cut off.
            Err(E::Fuel | E::Undef) => return r,
            Err(_) => {}
        }
        let g = self.globals["g"].clone();
        self.log("g", &[g.clone()]);
        if let Some(e) = self.export.clone() {
            self.log("export", &[e]);
        }
        let v = r?;
        let mut fns = vec![];
        for root in [Some(v), self.export.clone(), Some(g)].into_iter().flatten() {
            match &root {
                V::Fun(_) => fns.push(root.clone()),
                V::Obj(o) => fns.extend(o.fields.borrow().iter().map(|(_, v)| v.clone()).filter(|v| matches!(v, V::Fun(_)))),
                V::Arr(a) => fns.extend(a.borrow().iter().filter(|v| matches!(v, V::Fun(_))).cloned()),
                _ => {}
            }
        }
        let mut last = V::Unit;
        for f in fns.into_iter().take(4) {
            last = self.call(&f, vec![])?;
            self.log("later", &[last.clone()]);
        }
        Ok(last)
    }

    // ---- classes ---------------------------------------------------------------------------------------------------------

    pub fn class_of(&self, v: &V) -> Rc<Class> {
        let k = match v {
            V::Obj(o) => return o.class.clone(),
            V::Undef | V::Null => "Null",
            V::Unit => "Unit",
            V::Bool(_) => "Bool",
            V::Int(_) => "Int",
            V::Float(_) => "Float",
            V::Str(_) => "String",
            V::Arr(_) => "Array",
            V::Class(_) => "Class",
            V::Fun(_) | V::Bound(_) | V::Nat(_) => "Function",
        };
        self.classes[k].clone()
    }

    pub fn instance_of(&self, v: &V, c: &Rc<Class>) -> bool {
        let mut k = Some(self.class_of(v));
        while let Some(x) = k {
            if Rc::ptr_eq(&x, c) {
                return true;
            }
            k = x.base.clone();
        }
        false
    }

    pub fn as_class(&self, v: &V) -> R<Rc<Class>> {
        match v {
            V::Class(c) => Ok(c.clone()),
            _ => Err(E::Rt("E3007")),
        }
    }

    pub fn as_bool(&self, v: &V) -> R<bool> {
        match v {
            V::Bool(b) => Ok(*b),
            // The code for a non-boolean depends on where it is noticed; the properties do not distinguish.
            _ => Err(E::Rt("not a bool")),
        }
    }

    pub fn inherit(&mut self, name: &str, base: &V) -> R<V> {
        let base = self.as_class(base)?;
        if KIND_CLASSES.contains(&base.name.as_str()) && self.classes.get(base.name.as_str()).map_or(false, |c| Rc::ptr_eq(c, &base)) {
            return Err(E::Rt("E3402"));
        }
        let methods = base.methods.borrow().iter().filter(|(k, _)| k != "new").cloned().collect();
        let fields = base.fields.borrow().clone();
        Ok(V::Class(Rc::new(Class {
            name: name.to_string(),
            base: Some(base),
            methods: RefCell::new(methods),
            fields: RefCell::new(fields),
        })))
    }

    pub fn method(&self, c: &Rc<Class>, name: &str) -> Option<V> {
        c.methods.borrow().iter().find(|(k, _)| k == name).map(|(_, v)| v.clone())
    }

    pub fn store_method(&self, class: &V, name: &str, f: V) -> R<()> {
        let c = self.as_class(class)?;
        set(&mut c.methods.borrow_mut(), name, f);
        Ok(())
    }

    fn bind(&self, recv: &V, m: V) -> V {
        match m {
            V::Fun(f) => V::Bound(Rc::new((recv.clone(), f))),
            other => other,
        }
    }

    /// `super.name`: the method of that class on this receiver.
    pub fn load_method(&self, class: &V, recv: &V, name: &str) -> R<V> {
        let c = self.as_class(class)?;
        if !self.instance_of(recv, &c) {
            return Err(E::Rt("E3105"));
        }
        Ok(self.method(&c, name).map_or(V::Null, |m| self.bind(recv, m)))
    }

    pub fn construct(&mut self, c: &Rc<Class>, recv: V, args: Vec<V>) -> R<V> {
        match self.method(c, "new") {
            Some(V::Fun(f)) => self.enter(&f, recv, args),
            Some(other) => self.call(&other, args),
            None if !args.is_empty() => Ok(recv),
            None => {
                if let Some(b) = &c.base {
                    if self.method(b, "new").is_some() {
                        return Err(E::Rt("E3401"));
                    }
                }
                Ok(recv)
            }
        }
    }

    pub fn check_type(&self, v: &V, class: &V, nullable: bool) -> R<()> {
        let c = self.as_class(class)?;
        match v {
            V::Null if nullable => Ok(()),
            V::Null => Err(E::Rt("E3101")),
            v if self.instance_of(v, &c) => Ok(()),
            _ => Err(E::Rt("E3100")),
        }
    }

    // ---- fields ----------------------------------------------------------------------------------------------------------

    pub fn get_field(&self, v: &V, key: &str) -> R<V> {
        let own = match v {
            V::Obj(o) => get(&o.fields.borrow(), key),
            V::Class(c) => get(&c.fields.borrow(), key),
            _ => None,
        };
        if let Some(x) = own {
            return Ok(x);
        }
        if key == "new" {
            return Err(E::Rt("E3400"));
        }
        let c = self.class_of(v);
        Ok(self.method(&c, key).map_or(V::Null, |m| self.bind(v, m)))
    }

    pub fn set_field(&self, v: &V, key: &str, x: V) -> R<()> {
        match v {
            V::Obj(o) => set(&mut o.fields.borrow_mut(), key, x),
            V::Class(c) => set(&mut c.fields.borrow_mut(), key, x),
            _ => return Err(E::Rt("E3006")),
        }
        Ok(())
    }

    pub fn get_index(&self, t: &V, i: &V) -> R<V> {
        match (t, i) {
            (V::Arr(a), V::Int(n)) => Ok(usize::try_from(*n).ok().and_then(|n| a.borrow().get(n).cloned()).unwrap_or(V::Null)),
            (t, V::Str(k)) => self.get_field(t, k),
            _ => Err(E::Rt("E3005")),
        }
    }

    pub fn set_index(&self, t: &V, i: &V, x: V) -> R<()> {
        match (t, i) {
            (V::Arr(a), V::Int(n)) => {
                let mut a = a.borrow_mut();
                match usize::try_from(*n).ok().filter(|n| *n < a.len()) {
                    Some(n) => {
                        a[n] = x;
                        Ok(())
                    }
                    None => Err(E::Rt("index")),
                }
            }
            (t, V::Str(k)) => self.set_field(t, k, x),
            _ => Err(E::Rt("E3005")),
        }
    }

    // ---- operators -------------------------------------------------------------------------------------------------------

    pub fn eq_native(l: &V, r: &V) -> Option<bool> {
        Some(match (l, r) {
            (V::Null, V::Null) | (V::Unit, V::Unit) => true,
            (V::Null, _) | (_, V::Null) | (V::Unit, _) | (_, V::Unit) => false,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Int(a), V::Int(b)) => a == b,
            (V::Float(a), V::Float(b)) => a == b,
            _ => return None,
        })
    }

    /// A binary operator, named by the symbol written in the source.
    pub fn binop(&mut self, op: &str, l: V, r: V) -> R<V> {
        use V::*;
        let native = match (op, &l, &r) {
            ("==", a, b) => World::eq_native(a, b).map(Bool),
            ("!=", a, b) => World::eq_native(a, b).map(|x| Bool(!x)),
            ("/" | "%", Int(_), Int(0)) => return Err(E::Rt("E3200")),
            ("*", Int(a), Int(b)) => Some(Int(a.wrapping_mul(*b))),
            ("/", Int(a), Int(b)) => Some(Int(a.wrapping_div(*b))),
            ("%", Int(a), Int(b)) => Some(Int(a.wrapping_rem(*b))),
            ("+", Int(a), Int(b)) => Some(Int(a.wrapping_add(*b))),
            ("-", Int(a), Int(b)) => Some(Int(a.wrapping_sub(*b))),
            ("<", Int(a), Int(b)) => Some(Bool(a < b)),
            ("<=", Int(a), Int(b)) => Some(Bool(a <= b)),
            (">", Int(a), Int(b)) => Some(Bool(a > b)),
            (">=", Int(a), Int(b)) => Some(Bool(a >= b)),
            ("*", Float(a), Float(b)) => Some(Float(a * b)),
            ("/", Float(a), Float(b)) => Some(Float(a / b)),
            ("%", Float(a), Float(b)) => Some(Float(a % b)),
            ("+", Float(a), Float(b)) => Some(Float(a + b)),
            ("-", Float(a), Float(b)) => Some(Float(a - b)),
            ("<", Float(a), Float(b)) => Some(Bool(a < b)),
            ("<=", Float(a), Float(b)) => Some(Bool(a <= b)),
            (">", Float(a), Float(b)) => Some(Bool(a > b)),
            (">=", Float(a), Float(b)) => Some(Bool(a >= b)),
            ("<", Bool(a), Bool(b)) => Some(Bool(a < b)),
            ("<=", Bool(a), Bool(b)) => Some(Bool(a <= b)),
            (">", Bool(a), Bool(b)) => Some(Bool(a > b)),
            (">=", Bool(a), Bool(b)) => Some(Bool(a >= b)),
            _ => None,
        };
        if let Some(v) = native {
            return Ok(v);
        }
        let name = match op {
            "*" => pop::MUL,
            "/" => pop::DIV,
            "%" => pop::REM,
            "+" => pop::ADD,
            "-" => pop::SUB,
            ">" => pop::GT,
            ">=" => pop::GTE,
            "<" => pop::LT,
            "<=" => pop::LTE,
            "==" => pop::EQ,
            "!=" => pop::NEQ,
            ".." => pop::RANGE_EXCLUSIVE,
            "..=" => pop::RANGE_INCLUSIVE,
            _ => return Err(E::Bad(format!("operator {op}"))),
        };
        let m = self.get_field(&l, name)?;
        if !matches!(m, V::Null) {
            return self.call(&m, vec![r]);
        }
        match self.globals.get(name).cloned() {
            Some(f) => self.call(&f, vec![l, r]),
            None => Err(E::Rt("E3302")),
        }
    }

    pub fn negate(&self, v: V) -> R<V> {
        match v {
            V::Int(i) => Ok(V::Int(i.wrapping_neg())),
            V::Float(f) => Ok(V::Float(-f)),
            _ => Err(E::Rt("E3103")),
        }
    }

    pub fn not(&self, v: V) -> R<V> {
        self.as_bool(&v).map(|b| V::Bool(!b))
    }

    // ---- calls -----------------------------------------------------------------------------------------------------------

    pub fn enter(&mut self, f: &Rc<Fun>, slot0: V, args: Vec<V>) -> R<V> {
        if self.depth >= 24 {
            return Err(E::Fuel);
        }
        self.depth += 1;
        let r = match &f.kind {
            FunKind::Ast(c) => crate::interp::enter(self, c, slot0, args),
            FunKind::Vm(c) => crate::vm::enter(self, c, slot0, args),
        };
        self.depth -= 1;
        r
    }

    pub fn call(&mut self, f: &V, args: Vec<V>) -> R<V> {
        match f {
            V::Fun(x) => self.enter(x, f.clone(), args),
            V::Bound(b) => self.enter(&b.1.clone(), b.0.clone(), args),
            V::Class(c) => {
                let o = V::Obj(Rc::new(Obj { class: c.clone(), fields: Default::default() }));
                self.construct(c, o, args)
            }
            V::Nat(n) => self.native(n, args),
            _ => Err(E::Rt("E3104")),
        }
    }

    fn native(&mut self, n: &Rc<Nat>, args: Vec<V>) -> R<V> {
        let first = args.first().cloned();
        match &**n {
            Nat::C => {
                let b = self.choose(2)? == 1;
                self.log("c", &[V::Bool(b)]);
                Ok(V::Bool(b))
            }
            Nat::N => {
                if args.is_empty() {
                    return Ok(V::Unit);
                }
                let i = self.choose(args.len())?;
                self.log("n", &[args[i].clone()]);
                Ok(args[i].clone())
            }
            Nat::P => {
                self.log("p", &args);
                Ok(first.unwrap_or(V::Unit))
            }
            Nat::Named(x) => {
                self.log(x, &args);
                Ok(first.unwrap_or(V::Unit))
            }
            Nat::It => {
                self.log("it", &args);
                let n = match first {
                    Some(V::Int(n)) => n,
                    _ => 0,
                };
                Ok(self.object("Object", vec![(pit::ITER.into(), V::Nat(Rc::new(Nat::Iter(n))))]))
            }
            Nat::Iter(n) => {
                self.log("iter", &args);
                Ok(self.object("Object", vec![(pit::NEXT.into(), V::Nat(Rc::new(Nat::Next(*n, Cell::new(0)))))]))
            }
            Nat::Next(n, at) => {
                self.log("next", &args);
                let i = at.get() + 1;
                at.set(i);
                Ok(self.object("Object", vec![(pit::DONE.into(), V::Bool(i > *n)), (pit::VALUE.into(), V::Int(i))]))
            }
            Nat::Ok | Nat::Er => {
                let b = matches!(&**n, Nat::Ok);
                self.log(if b { "ok" } else { "er" }, &args);
                Ok(self.object("Result", vec![(perr::IS_OK.into(), V::Bool(b)), (perr::RESULT.into(), first.unwrap_or(V::Unit))]))
            }
            Nat::Ob => {
                self.log("ob", &args);
                Ok(self.object("Object", vec![("a".into(), first.unwrap_or(V::Unit))]))
            }
            Nat::Ls => {
                self.log("ls", &args);
                Ok(V::Arr(Rc::new(RefCell::new(args))))
            }
        }
    }

    pub fn load_global(&self, name: &str) -> R<V> {
        self.globals.get(name).cloned().ok_or(E::Rt("E3301"))
    }

    pub fn store_global(&mut self, name: &str, v: V) -> R<()> {
        if self.globals.contains_key(name) {
            return Err(E::Rt("E3300"));
        }
        self.globals.insert(name.to_string(), v);
        Ok(())
    }

    pub fn load_module(&mut self, path: &str) -> R<V> {
        self.trace.push(format!("load {path:?}"));
        if path == "big" && !self.modules.contains_key(path) {
            let fields = (0..300).map(|i| (format!("v{i}"), V::Int(1000 + i))).collect();
            let m = self.object("Module", fields);
            self.modules.insert(path.to_string(), m);
        }
        self.modules.get(path).cloned().ok_or(E::Rt("no module"))
    }
}

fn get(f: &[(String, V)], k: &str) -> Option<V> {
    f.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone())
}

fn set(f: &mut Vec<(String, V)>, k: &str, v: V) {
    match f.iter_mut().find(|(n, _)| n == k) {
        Some(e) => e.1 = v,
        None => f.push((k.to_string(), v)),
    }
}

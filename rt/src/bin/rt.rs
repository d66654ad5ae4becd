//! Checks of the parts of dice-runtime that compile: values under collection (C31) and module loading (C32).

use dice_bytecode::{Bytecode, ConstantValue};
use dice_core::source::{Source, SourceKind};
use gc_arena::{Arena, Collect, Gc, Mutation, Rootable};
use mc::run::*;
use rt::module::{file_loader::FileModuleLoader, ModuleLoader};
use rt::runtime::RuntimeContext;
use rt::upvalue::{Upvalue, UpvalueState};
use rt::value::{Array, Class, FnBound, FnClosure, FnScript, Object, Symbol, SymbolInterner, Value, ValueKind};
use std::collections::BTreeMap;
use std::sync::OnceLock;

fn main() {
    mc::run::main(|property, thorough| match property {
        "C31" => Some(Check {
            property: property.into(),
            states: "heaps, each with the history of operations that led to it",
            transitions: "operations applied (a full collection after each) and values compared",
            assumptions: vec!["Heaps of more things and longer histories behave like those within the bounds.", "dice-runtime's interpreter, which would hold the roots, does not compile at this commit: the roots are the check's own."],
            stages: heaps(thorough),
        }),
        "C32" => Some(Check {
            property: property.into(),
            states: "paths resolved",
            transitions: "path components walked by the model",
            assumptions: vec!["Longer paths and larger directories behave like those within the bounds.", "A Unix file system."],
            stages: paths(thorough).into_iter().chain(files(thorough)).collect(),
        }),
        _ => None,
    })
}

// ---- C31 -----------------------------------------------------------------------------------------------------------------

const NAMES: [&str; 5] = ["A", "B", "m", "new", "x"];
/// Indexes of the names.
const M: usize = 2;
const NEW: usize = 3;
const X: usize = 4;

struct Names {
    interner: SymbolInterner,
    symbols: Vec<Symbol>,
}

/// Never freed: the arena's lifetime outlives every other.
fn names() -> &'static Names {
    thread_local! {
        static N: &'static Names = {
            let mut interner = SymbolInterner::default();
            let symbols = NAMES.iter().map(|n| interner.get_or_intern(n)).collect();
            Box::leak(Box::new(Names { interner, symbols }))
        };
    }
    N.with(|n| *n)
}

#[derive(Collect)]
#[collect(no_drop)]
struct Root<'gc> {
    slots: Vec<Value<'gc>>,
    upvalues: Vec<Upvalue<'gc>>,
}

/// A value of the model; things on the heap are numbered.
#[derive(Clone, Debug, PartialEq)]
enum V {
    Null,
    Int(i64),
    Fn(i64),
    Thing(usize),
    /// A method bound to a thing.
    Bound(usize, i64),
    /// A function with a captured variable.
    Closure(usize),
}

#[derive(Clone, Debug)]
enum Thing {
    Class { name: usize, base: Option<usize>, methods: BTreeMap<usize, V>, fields: BTreeMap<usize, V> },
    Object { class: Option<usize>, fields: BTreeMap<usize, V> },
    Array { items: Vec<V>, fields: BTreeMap<usize, V> },
    /// A variable: its slot while open, its value once closed.
    Variable(Result<usize, V>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Class(usize),
    Derive(usize),
    Object(Option<usize>),
    Array(Option<usize>),
    Method(usize, usize),
    Field(usize, usize),
    Clear(usize),
    Push(usize, usize),
    Put(usize, usize),
    Pop(usize),
    Bind(usize),
    /// A closure over a new open variable.
    Capture,
    /// A second closure over the variable of one.
    Share(usize),
    Close(usize, usize),
    /// An assignment to a closed variable.
    Assign(usize, usize),
    Drop(usize),
}

#[derive(Clone, Default)]
struct Heap {
    things: Vec<Thing>,
    slots: Vec<V>,
    /// The number of the operation, which makes functions and numbers distinct.
    time: i64,
}

impl Heap {
    fn thing(&self, slot: usize) -> Option<&Thing> {
        match self.slots[slot] {
            V::Thing(t) => Some(&self.things[t]),
            _ => None,
        }
    }

    fn ops(&self, max_slots: usize) -> Vec<Op> {
        let mut v = vec![];
        let n = self.slots.len();
        let room = n < max_slots;
        if room {
            v.extend([Op::Class(0), Op::Class(1), Op::Object(None), Op::Array(None), Op::Capture]);
        }
        for i in 0..n {
            let class = matches!(self.thing(i), Some(Thing::Class { .. }));
            let array = matches!(self.thing(i), Some(Thing::Array { .. }));
            let heap = self.thing(i).is_some();
            if class && room {
                v.extend([Op::Derive(i), Op::Object(Some(i))]);
            }
            if class {
                v.extend([Op::Method(i, M), Op::Method(i, NEW)]);
            }
            if array {
                v.push(Op::Pop(i));
            }
            if room {
                v.push(Op::Array(Some(i)));
                if heap {
                    v.push(Op::Bind(i));
                }
                if let V::Closure(_) = self.slots[i] {
                    v.push(Op::Share(i));
                }
            }
            for j in 0..n {
                if heap {
                    v.push(Op::Field(i, j));
                }
                if array {
                    v.push(Op::Push(i, j));
                    if let Some(Thing::Array { items, .. }) = self.thing(i) {
                        if !items.is_empty() {
                            v.push(Op::Put(i, j));
                        }
                    }
                }
                if let V::Closure(u) = self.slots[i] {
                    v.push(match self.things[u] {
                        Thing::Variable(Ok(_)) => Op::Close(i, j),
                        _ => Op::Assign(i, j),
                    });
                }
            }
            if heap {
                v.push(Op::Clear(i));
            }
            v.push(Op::Drop(i));
        }
        v
    }

    fn fields(&mut self, slot: usize) -> &mut BTreeMap<usize, V> {
        let V::Thing(t) = self.slots[slot] else { unreachable!() };
        match &mut self.things[t] {
            Thing::Class { fields, .. } | Thing::Object { fields, .. } | Thing::Array { fields, .. } => fields,
            Thing::Variable(_) => unreachable!(),
        }
    }

    fn new_thing(&mut self, t: Thing) -> V {
        self.things.push(t);
        V::Thing(self.things.len() - 1)
    }

    fn apply(&mut self, op: Op) {
        let time = self.time;
        self.time += 1;
        let index = |v: &V| match v {
            V::Thing(t) => *t,
            _ => unreachable!(),
        };
        match op {
            Op::Class(name) => {
                let v = self.new_thing(Thing::Class { name, base: None, methods: Default::default(), fields: Default::default() });
                self.slots.push(v)
            }
            Op::Derive(i) => {
                let b = index(&self.slots[i]);
                let Thing::Class { methods, fields, .. } = self.things[b].clone() else { unreachable!() };
                let methods = methods.into_iter().filter(|(k, _)| *k != NEW).collect();
                let v = self.new_thing(Thing::Class { name: 1, base: Some(b), methods, fields });
                self.slots.push(v)
            }
            Op::Object(c) => {
                let class = c.map(|i| index(&self.slots[i]));
                let v = self.new_thing(Thing::Object { class, fields: Default::default() });
                self.slots.push(v)
            }
            Op::Array(e) => {
                let mut items = vec![V::Int(time)];
                items.extend(e.map(|i| self.slots[i].clone()));
                if e.is_none() {
                    items.clear();
                }
                let v = self.new_thing(Thing::Array { items, fields: Default::default() });
                self.slots.push(v)
            }
            Op::Method(i, name) => {
                let t = index(&self.slots[i]);
                let Thing::Class { methods, .. } = &mut self.things[t] else { unreachable!() };
                methods.insert(name, V::Fn(time));
            }
            Op::Field(i, j) => {
                let v = self.slots[j].clone();
                self.fields(i).insert(X, v);
            }
            Op::Clear(i) => {
                self.fields(i).insert(X, V::Null);
            }
            Op::Push(i, j) => {
                let v = self.slots[j].clone();
                let t = index(&self.slots[i]);
                let Thing::Array { items, .. } = &mut self.things[t] else { unreachable!() };
                items.push(v);
            }
            Op::Put(i, j) => {
                let v = self.slots[j].clone();
                let t = index(&self.slots[i]);
                let Thing::Array { items, .. } = &mut self.things[t] else { unreachable!() };
                items[0] = v;
            }
            Op::Pop(i) => {
                let t = index(&self.slots[i]);
                let Thing::Array { items, .. } = &mut self.things[t] else { unreachable!() };
                items.pop();
            }
            Op::Bind(i) => {
                let t = index(&self.slots[i]);
                self.slots.push(V::Bound(t, time));
            }
            Op::Capture => {
                self.things.push(Thing::Variable(Ok(time as usize)));
                self.slots.push(V::Closure(self.things.len() - 1));
            }
            Op::Share(i) => {
                let v = self.slots[i].clone();
                self.slots.push(v);
            }
            Op::Close(i, j) | Op::Assign(i, j) => {
                let v = self.slots[j].clone();
                let V::Closure(u) = self.slots[i] else { unreachable!() };
                self.things[u] = Thing::Variable(Err(v));
            }
            Op::Drop(i) => {
                self.slots.remove(i);
            }
        }
    }
}

fn native<'gc>(k: i64) -> Value<'gc> {
    Value::with_native_fn(Box::new(move |_: &[Value]| Ok(Value::Int(k))) as rt::value::NativeFn<'static>)
}

fn code() -> Bytecode {
    Bytecode::new(Box::new([]), 0, 1, Box::new([]))
}

fn class_of<'gc>(v: &Value<'gc>) -> Class<'gc> {
    v.as_class().expect("a class")
}

fn perform<'gc>(ctx: &RuntimeContext<'gc>, root: &mut Root<'gc>, op: Op, time: i64, popped: &mut Option<Value<'gc>>) {
    let n = names();
    let s = &mut root.slots;
    let f = || native(time);
    match op {
        Op::Class(k) => s.push(Value::Class(Class::new(ctx, n.symbols[k]))),
        Op::Derive(i) => {
            // Both ways of deriving.
            let base = class_of(&s[i]);
            s.push(Value::Class(if time % 2 == 0 { base.derive(ctx, n.symbols[1]) } else { Class::with_base(ctx, n.symbols[1], base) }))
        }
        Op::Object(None) => s.push(Value::Object(Object::new(ctx, None))),
        Op::Object(Some(i)) => {
            let c = class_of(&s[i]);
            s.push(Value::Object(Object::new(ctx, c)))
        }
        Op::Array(None) => s.push(Value::with_vec(ctx, vec![])),
        Op::Array(Some(i)) => {
            let v = vec![Value::Int(time), s[i].clone()];
            s.push(Value::Array(Array::from_vec(ctx, v)))
        }
        Op::Method(i, name) => {
            let ctx = RuntimeContext { mutation: ctx.mutation, interner: ctx.interner };
            class_of(&s[i]).set_method(ctx, n.symbols[name], f())
        }
        Op::Field(i, j) => s[i].as_object().expect("an object").set_field(ctx.mutation, n.symbols[X], s[j].clone()),
        Op::Clear(i) => s[i].as_object().expect("an object").set_field(ctx.mutation, n.symbols[X], Value::Null),
        Op::Push(i, j) => s[i].as_array().expect("an array").push(ctx, s[j].clone()),
        Op::Put(i, j) => {
            let v = s[j].clone();
            put(ctx, s[i].as_array().expect("an array"), v)
        }
        Op::Pop(i) => *popped = s[i].as_array().expect("an array").pop(ctx),
        Op::Bind(i) => {
            let v = Value::FnBound(FnBound::new(ctx.mutation, s[i].clone(), f()));
            s.push(v)
        }
        Op::Capture => {
            let u = Upvalue::new_open(ctx, time as usize);
            let script = FnScript::new(n.symbols[M], code(), Default::default());
            s.push(Value::FnClosure(FnClosure::new(ctx.mutation, script, vec![u].into())))
        }
        Op::Share(i) => {
            let v = match &s[i] {
                Value::FnClosure(c) => {
                    Value::FnClosure(FnClosure::new(ctx.mutation, c.fn_script().clone(), c.upvalues().to_vec().into()))
                }
                _ => unreachable!(),
            };
            s.push(v)
        }
        Op::Close(i, j) => match &s[i] {
            Value::FnClosure(c) => c.upvalues()[0].close(ctx, s[j].clone()),
            _ => unreachable!(),
        },
        Op::Assign(i, j) => match &s[i] {
            Value::FnClosure(c) => {
                let v = s[j].clone();
                *keep(ctx.mutation, c.upvalues()[0].clone()).state_mut(ctx) = UpvalueState::Closed(v)
            }
            _ => unreachable!(),
        },
        Op::Drop(i) => {
            s.remove(i);
        }
    }
}

fn put<'gc>(ctx: &RuntimeContext<'gc>, a: &Array<'gc>, v: Value<'gc>) {
    keep(ctx.mutation, a.clone()).elements_mut(ctx)[0] = v;
}

/// A copy that lives as long as the arena, which some of the accessors ask for.
fn keep<'gc, T: Collect + 'gc>(m: &'gc Mutation<'gc>, v: T) -> &'gc T {
    Gc::new(m, v).as_ref()
}

struct Walk<'a, 'gc> {
    mutation: &'gc Mutation<'gc>,
    model: &'a Heap,
    /// The value met for each thing of the model.
    met: Vec<Option<Value<'gc>>>,
    queue: Vec<usize>,
    compared: u64,
}

impl<'a, 'gc> Walk<'a, 'gc> {
    fn same(&mut self, want: &V, got: &Value<'gc>) -> Result<(), String> {
        self.compared += 1;
        let kind = got.kind();
        let ok = match (want, got) {
            (V::Null, Value::Null) => kind == ValueKind::Null,
            (V::Int(a), Value::Int(b)) => a == b && kind == ValueKind::Int,
            (V::Fn(k), Value::FnNative(f)) => kind == ValueKind::Function && matches!(f.call(&[]), Ok(Value::Int(x)) if x == *k),
            (V::Bound(t, k), Value::FnBound(b)) => {
                self.same(&V::Thing(*t), &b.receiver())?;
                self.same(&V::Fn(*k), &b.function())?;
                kind == ValueKind::Function
            }
            (V::Closure(u), Value::FnClosure(c)) => {
                if c.upvalues().len() != 1 || c.fn_script().name() != names().symbols[M] {
                    return Err("a closure lost its parts".into());
                }
                let Thing::Variable(v) = &self.model.things[*u] else { unreachable!() };
                // The variable of every closure that shares it.
                let state = keep(self.mutation, c.upvalues()[0].clone()).state();
                match (v, &*state) {
                    (Ok(slot), UpvalueState::Open(s)) => *s == *slot,
                    (Err(v), UpvalueState::Closed(x)) => {
                        // A closure may have captured itself.
                        if self.met[*u].is_none() {
                            self.met[*u] = Some(Value::Unit);
                            let x = x.clone();
                            self.same(&v.clone(), &x)?;
                        }
                        true
                    }
                    _ => false,
                }
            }
            (V::Thing(t), got) => {
                let right = match &self.model.things[*t] {
                    Thing::Class { .. } => matches!(got, Value::Class(_)) && kind == ValueKind::Class,
                    Thing::Object { .. } => matches!(got, Value::Object(_)) && kind == ValueKind::Object,
                    Thing::Array { .. } => matches!(got, Value::Array(_)) && kind == ValueKind::Array,
                    Thing::Variable(_) => unreachable!(),
                };
                match &self.met[*t] {
                    Some(v) => right && v == got && got == v,
                    None => {
                        self.met[*t] = Some(got.clone());
                        self.queue.push(*t);
                        right
                    }
                }
            }
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(format!("a value that should be {want:?} is not ({kind:?})"))
        }
    }

    fn map(&mut self, what: &str, want: &BTreeMap<usize, V>, got: Vec<(Symbol, Value<'gc>)>, look: &dyn Fn(Symbol) -> Option<Value<'gc>>) -> Result<(), String> {
        let n = names();
        if got.len() != want.len() {
            return Err(format!("holds {} {what} instead of {want:?}", got.len()));
        }
        for (k, symbol) in n.symbols.iter().enumerate() {
            let found = look(*symbol);
            match (want.get(&k), found) {
                (None, None) => {}
                (Some(w), Some(v)) => {
                    self.same(w, &v)?;
                    let listed = got.iter().find(|(s, _)| s == symbol).ok_or("lists other names than it knows")?;
                    self.same(w, &listed.1)?;
                }
                (w, _) => return Err(format!("the {what} {:?} should be {w:?}", NAMES[k])),
            }
        }
        Ok(())
    }

    fn all(&mut self, slots: &[Value<'gc>]) -> Result<(), String> {
        if slots.len() != self.model.slots.len() {
            return Err("roots were lost".into());
        }
        for (w, v) in self.model.slots.clone().iter().zip(slots) {
            self.same(w, v)?;
        }
        let n = names();
        while let Some(t) = self.queue.pop() {
            let v = self.met[t].clone().unwrap();
            match &self.model.things[t] {
                Thing::Class { name, base, methods, fields } => {
                    let c = v.as_class().map_err(|_| "a class is none")?;
                    if c.name() != n.symbols[*name] {
                        return Err(format!("class {t} is called something else"));
                    }
                    match (base, c.base()) {
                        (None, None) => {}
                        (Some(b), Some(x)) => self.same(&V::Thing(*b), &Value::Class(x))?,
                        _ => return Err(format!("class {t} should have the base {base:?}")),
                    }
                    self.map("methods", methods, c.methods(), &|s| c.method(s))?;
                    let o = v.as_object().map_err(|_| "a class is no object")?;
                    let list = o.fields().iter().map(|(k, v)| (*k, v.clone())).collect();
                    self.map("static members", fields, list, &|s| o.field(s))?;
                }
                Thing::Object { class, fields } => {
                    let o = v.as_object().map_err(|_| "an object is none")?;
                    match (class, o.class()) {
                        (None, None) => {
                            if o.name().is_some() {
                                return Err("an object without a class has a name".into());
                            }
                        }
                        (Some(c), Some(x)) => {
                            if o.name() != Some(x.name()) || o.type_id() != x.instance_type_id() {
                                return Err("an object is not of its class".into());
                            }
                            self.same(&V::Thing(*c), &Value::Class(x))?
                        }
                        _ => return Err(format!("object {t} should have the class {class:?}")),
                    }
                    let list = o.fields().iter().map(|(k, v)| (*k, v.clone())).collect();
                    self.map("fields", fields, list, &|s| o.field(s))?;
                }
                Thing::Array { items, fields } => {
                    let a = v.as_array().map_err(|_| "an array is none")?.clone();
                    let got: Vec<Value<'gc>> = keep(self.mutation, a).elements().to_vec();
                    if got.len() != items.len() {
                        return Err(format!("array {t} holds {} items instead of {items:?}", got.len()));
                    }
                    for (i, x) in items.iter().zip(&got) {
                        self.same(i, x)?;
                    }
                    let o = v.as_object().map_err(|_| "an array is no object")?;
                    let list = o.fields().iter().map(|(k, v)| (*k, v.clone())).collect();
                    self.map("fields of an array", fields, list, &|s| o.field(s))?;
                }
                Thing::Variable(_) => unreachable!(),
            }
        }
        // Different things are different values, and instances are exactly those of a class or its descendants.
        let seen: Vec<usize> = (0..self.met.len()).filter(|t| self.met[*t].is_some() && !matches!(self.model.things[*t], Thing::Variable(_))).collect();
        for a in &seen {
            for b in &seen {
                self.compared += 1;
                let (x, y) = (self.met[*a].as_ref().unwrap(), self.met[*b].as_ref().unwrap());
                if (x == y) != (a == b) {
                    return Err(format!("things {a} and {b} are told apart wrongly"));
                }
                let Thing::Class { .. } = self.model.things[*b] else { continue };
                let class = y.as_class().unwrap();
                match &self.model.things[*a] {
                    Thing::Class { .. } if class_of(x).is_class(&class) != self.descends(*a, *b) => {
                        return Err(format!("whether class {a} is a {b} is answered wrongly"));
                    }
                    Thing::Object { class: c, .. } => {
                        let want = c.map_or(false, |c| self.descends(c, *b));
                        if x.as_object().unwrap().is_instance_of(&class) != want {
                            return Err(format!("whether object {a} is a {b} is answered wrongly"));
                        }
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }

    fn descends(&self, mut a: usize, b: usize) -> bool {
        loop {
            if a == b {
                return true;
            }
            match &self.model.things[a] {
                Thing::Class { base: Some(x), .. } => a = *x,
                _ => return false,
            }
        }
    }
}

/// When the collector runs during a history.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Schedule {
    /// A full collection after each operation.
    After,
    Never,
    /// Each operation happens when everything has been marked, but nothing has been released; then the collection ends.
    Within,
    /// The operations from this one on happen when everything has been marked; the collection ends with the history.
    From(usize),
}

/// The bytes reachable at the end, as far as a collection found.
fn replay(ctx: &mut Ctx, history: &[Op], schedule: Schedule, kept: &mut Option<usize>) -> Result<(), String> {
    let n = names();
    let mut arena = Arena::<Rootable![Root<'_>]>::new(|_| Root { slots: vec![], upvalues: vec![] });
    let empty = arena.metrics().total_gc_allocation();
    let mut model = Heap::default();
    for (at, op) in history.iter().enumerate() {
        if schedule == Schedule::Within || schedule == Schedule::From(at) {
            drop(arena.mark_all());
        }
        let popped_model = match op {
            Op::Pop(i) => match model.thing(*i) {
                Some(Thing::Array { items, .. }) => Some(items.last().cloned()),
                _ => None,
            },
            _ => None,
        };
        let time = model.time;
        model.apply(*op);
        ctx.tally.transitions += 1;
        arena.mutate_root(|m, root| {
            let rc = RuntimeContext { mutation: m, interner: &n.interner };
            let mut popped = None;
            perform(&rc, root, *op, time, &mut popped);
            if let Some(want) = popped_model {
                let mut w = Walk { mutation: m, model: &model, met: vec![None; model.things.len()], queue: vec![], compared: 0 };
                match (want, popped) {
                    (None, None) => {}
                    (Some(want), Some(got)) => w.same(&want, &got)?,
                    (want, _) => return Err(format!("popped something else than {want:?}")),
                }
            }
            Ok::<(), String>(())
        })?;
        if matches!(schedule, Schedule::After | Schedule::Within) {
            arena.collect_all();
        }
    }
    if schedule != Schedule::Never {
        // What is left is the same whenever the collector ran. Less would be something reachable that was released.
        arena.collect_all();
        arena.collect_all();
        let left = arena.metrics().total_gc_allocation();
        if *kept.get_or_insert(left) != left {
            return Err(format!("{left} bytes are left instead of {}", kept.unwrap()));
        }
    }
    let compared = arena.mutate_root(|m, root| {
        let mut w = Walk { mutation: m, model: &model, met: vec![None; model.things.len()], queue: vec![], compared: 0 };
        w.all(&root.slots)?;
        Ok::<u64, String>(w.compared)
    })?;
    ctx.tally.transitions += compared;
    ctx.outcome(compared * 7919 + model.slots.len() as u64);
    arena.mutate_root(|_, root| root.slots.clear());
    // A cycle under way finishes first; what was unreachable when the next begins goes.
    arena.collect_all();
    arena.collect_all();
    let left = arena.metrics().total_gc_allocation();
    if left != empty {
        return Err(format!("{} bytes of unreachable values are left", left - empty));
    }
    Ok(())
}

fn schedules(ctx: &mut Ctx, history: &[Op]) -> Result<(), String> {
    let mut kept = None;
    // At the beginning nothing has been made yet, and the first operation has nothing to put anything into.
    let late = (1..history.len()).map(Schedule::From);
    for schedule in vec![Schedule::After, Schedule::Never, Schedule::Within].into_iter().chain(late) {
        ctx.tally.traces += 1;
        replay(ctx, history, schedule, &mut kept).map_err(|m| format!("{m} (collector: {schedule:?})"))?;
    }
    Ok(())
}

fn explore(ctx: &mut Ctx, model: &Heap, history: &mut Vec<Op>, depth: usize, slots: usize) {
    ctx.note(&format!("{history:?}"));
    ctx.tally.states += 1;
    if let Err(m) = schedules(ctx, history) {
        return ctx.violation(m);
    }
    if depth == 0 {
        return;
    }
    for op in model.ops(slots) {
        let mut m = model.clone();
        m.apply(op);
        history.push(op);
        explore(ctx, &m, history, depth - 1, slots);
        history.pop();
        if !ctx.violations.is_empty() {
            return;
        }
    }
}

#[derive(PartialEq)]
enum Slow {
    Yes,
    No,
}

/// What there can be many of.
const KINDS: [(&str, Slow); 8] = [
    ("items of an array", Slow::No),
    ("fields of an object", Slow::No),
    ("methods of a class", Slow::No),
    ("static members of a class", Slow::No),
    ("classes", Slow::Yes),
    ("variables captured by a function", Slow::No),
    ("objects in a chain", Slow::No),
    ("characters of a text", Slow::No),
];

const SIZES: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50,
    55, 60, 62, 63, 64, 65, 66, 70, 80, 90, 99, 100, 101, 126, 127, 128, 129, 150, 199, 200, 201, 250, 254, 255, 256, 257, 300, 400, 500, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025, 2000,
    2047, 2048, 2049, 4095, 4096, 4097, 5000, 10000, 32767, 32768, 65535, 65536, 65537, 70000,
];

/// Makes many of one kind, of which every third one is then changed, and looks at every one of them, with or without collections between.
fn bulk(ctx: &mut Ctx, kind: usize, n: usize, collect: bool) -> Result<(), String> {
    let mut interner = SymbolInterner::default();
    let name = interner.get_or_intern("C");
    let symbols: Vec<Symbol> = (0..n).map(|k| interner.get_or_intern(format!("s{k}"))).collect();
    for (k, s) in symbols.iter().enumerate() {
        if interner.resolve(*s) != Some(&format!("s{k}")) {
            return Err(format!("name {k} is not kept"));
        }
    }
    // The arena's lifetime outlives every other.
    let room = Box::into_raw(Box::new(interner));
    let interner: &'static SymbolInterner = unsafe { &*room };
    let mut arena = Arena::<Rootable![Root<'_>]>::new(|_| Root { slots: vec![], upvalues: vec![] });
    let all = |arena: &mut Arena<Rootable![Root<'_>]>| {
        if collect {
            arena.collect_all();
            arena.collect_all();
        }
    };
    // Every third one is changed later.
    fn value<'gc>(k: usize, changed: bool) -> Value<'gc> {
        if changed && k % 3 == 1 { Value::Float(k as f64) } else { Value::Int(k as i64) }
    }
    fn made<'gc>(k: usize, changed: bool) -> Value<'gc> {
        native(if changed && k % 3 == 1 { -(k as i64) } else { k as i64 })
    }
    fn called(v: &Value) -> Option<i64> {
        match v {
            Value::FnNative(f) => f.call(&[]).ok()?.as_int().ok(),
            _ => None,
        }
    }
    let text = |len: usize| -> std::string::String { (0..len).map(|k| ['a', 'é', '\u{10ffff}', ' '][k * k % 7 % 4]).collect() };
    arena.mutate_root(|m, root| {
        let rc = || RuntimeContext { mutation: m, interner };
        match kind {
            0 => {
                let made = Array::from_vec(&rc(), (0..n).map(|k| value(k, false)).collect());
                let pushed = Array::from_vec(&rc(), vec![]);
                (0..n).for_each(|k| pushed.push(&rc(), value(k, false)));
                root.slots.extend([Value::Array(made), Value::Array(pushed)]);
            }
            1 => {
                let o = Object::new(&rc(), None);
                symbols.iter().enumerate().for_each(|(k, s)| o.set_field(m, *s, value(k, false)));
                root.slots.push(Value::Object(o));
            }
            2 | 3 => {
                let c = Class::new(&rc(), name);
                for (k, s) in symbols.iter().enumerate() {
                    if kind == 2 {
                        c.set_method(rc(), *s, made(k, false));
                    } else {
                        c.set_field(m, *s, value(k, false));
                    }
                }
                root.slots.push(Value::Class(c.derive(&rc(), name)));
                root.slots.push(Value::Class(c));
            }
            4 => (0..n).for_each(|_| root.slots.push(Value::Class(Class::new(&rc(), name)))),
            5 => {
                let u: Vec<Upvalue> = (0..n).map(|k| Upvalue::new_open(&rc(), k)).collect();
                u.iter().enumerate().filter(|(k, _)| k % 2 == 0).for_each(|(k, u)| u.close(&rc(), value(k, false)));
                let script = FnScript::new(name, code(), Default::default());
                root.slots.push(Value::FnClosure(FnClosure::new(m, script, u.into())));
            }
            6 => {
                let last = Object::new(&rc(), None);
                let mut o = last.clone();
                for k in 0..n {
                    let next = Object::new(&rc(), None);
                    next.set_field(m, name, Value::Object(o));
                    next.set_field(m, symbols[k], value(k, false));
                    o = next;
                }
                root.slots.extend([Value::Object(o), Value::Object(last)]);
            }
            _ => root.slots.extend([Value::with_string(text(n)), Value::with_string(&*text(n)), Value::with_string(text(n + 1))]),
        }
    });
    all(&mut arena);
    for changed in [false, true] {
        if changed {
            if collect {
                drop(arena.mark_all());
            }
            arena.mutate_root(|m, root| {
                let rc = || RuntimeContext { mutation: m, interner };
                for k in (0..n).filter(|k| k % 3 == 1) {
                    match (kind, &root.slots.last()) {
                        (0, _) => {
                            for a in &root.slots {
                                keep(m, a.as_array().unwrap().clone()).elements_mut(&rc())[k] = value(k, true);
                            }
                        }
                        (1, Some(Value::Object(o))) => o.set_field(m, symbols[k], value(k, true)),
                        // The base, which the derived class does not follow.
                        (2, Some(Value::Class(c))) => c.set_method(rc(), symbols[k], made(k, true)),
                        (3, Some(Value::Class(c))) => c.set_field(m, symbols[k], value(k, true)),
                        (5, Some(Value::FnClosure(c))) => c.upvalues()[k].close(&rc(), value(k, true)),
                        _ => {}
                    }
                }
            });
            all(&mut arena);
        }
        let compared = arena.mutate_root(|m, root| {
            let s = &root.slots;
            let at = |ok: bool, k: usize| if ok { Ok(()) } else { Err(format!("number {k} is not what was put there (changed: {changed})")) };
            match kind {
                0 => {
                    for a in s {
                        let a = a.as_array().map_err(|_| "no array")?;
                        let items = a.elements();
                        if items.len() != n {
                            return Err(format!("an array of {} items", items.len()));
                        }
                        for k in 0..n {
                            at(items[k] == value(k, changed), k)?;
                        }
                    }
                }
                1 => {
                    let o = s[0].as_object().map_err(|_| "no object")?;
                    for k in 0..n {
                        at(o.field(symbols[k]) == Some(value(k, changed)), k)?;
                    }
                    if o.fields().len() != n {
                        return Err(format!("an object of {} fields", o.fields().len()));
                    }
                }
                2 | 3 => {
                    for (j, c) in s.iter().enumerate() {
                        let (c, changed) = (c.as_class().map_err(|_| "no class")?, changed && j == 1);
                        for k in 0..n {
                            let ok = if kind == 2 {
                                c.method(symbols[k]).and_then(|f| called(&f)) == called(&made(k, changed))
                            } else {
                                c.field(symbols[k]) == Some(value(k, changed))
                            };
                            at(ok, k)?;
                        }
                        if c.methods().len() != if kind == 2 { n } else { 0 } || c.fields().len() != if kind == 3 { n } else { 0 } {
                            return Err("a class with more than its members".into());
                        }
                    }
                }
                4 => {
                    let classes: Vec<Class> = s.iter().map(|c| c.as_class().unwrap()).collect();
                    let objects: Vec<Object> = classes.iter().map(|c| Object::new(&RuntimeContext { mutation: m, interner }, c.clone())).collect();
                    for k in 0..n {
                        // Its neighbours, and those a power of two away.
                        let others = (0..16).flat_map(|b| [k + (1 << b), k.wrapping_sub(1 << b)]).chain([k]);
                        for j in others.filter(|j| *j < n) {
                            let same = j == k;
                            at((s[j] == s[k]) == same && classes[k].is_class(&classes[j]) == same && objects[k].is_instance_of(&classes[j]) == same, k)?;
                        }
                    }
                }
                5 => {
                    let Value::FnClosure(c) = &s[0] else { return Err("no closure".into()) };
                    if c.upvalues().len() != n {
                        return Err(format!("a closure over {} variables", c.upvalues().len()));
                    }
                    for k in 0..n {
                        let u = keep(m, c.upvalues()[k].clone());
                        let ok = match &*u.state() {
                            UpvalueState::Open(slot) => *slot == k && k % 2 == 1 && !(changed && k % 3 == 1),
                            UpvalueState::Closed(v) => *v == value(k, changed),
                        };
                        at(ok, k)?;
                    }
                }
                6 => {
                    let mut o = s[0].clone();
                    for k in (0..n).rev() {
                        let this = o.as_object().map_err(|_| "the chain is broken")?.clone();
                        at(this.field(symbols[k]) == Some(value(k, false)), k)?;
                        o = this.field(name).ok_or("the chain is broken")?;
                    }
                    at(o == s[1] && (n == 0 || s[0] != s[1]), n)?;
                }
                _ => {
                    let t: Vec<_> = s.iter().map(|v| v.as_string().unwrap()).collect();
                    at(**t[0] == *text(n) && t[0] == t[1] && **t[2] == *text(n + 1) && t[0] != t[2], n)?;
                }
            }
            Ok::<u64, String>(s.len() as u64 * n.max(1) as u64)
        })?;
        ctx.tally.transitions += compared;
    }
    if kind == 0 {
        // Popping gives them back, the last first.
        let r: Result<(), String> = arena.mutate_root(|m, root| {
            for a in &root.slots {
                let a = a.as_array().map_err(|_| "no array")?;
                for k in (0..n).rev() {
                    if a.pop(&RuntimeContext { mutation: m, interner }) != Some(value(k, true)) {
                        return Err(format!("number {k} is popped as something else"));
                    }
                }
                if a.pop(&RuntimeContext { mutation: m, interner }).is_some() {
                    return Err("something is left after the last item".into());
                }
            }
            Ok(())
        });
        r?;
    }
    drop(arena);
    // Safety: nothing refers to it any more.
    drop(unsafe { Box::from_raw(room) });
    Ok(())
}

fn heaps(thorough: bool) -> Vec<Stage> {
    let depth = if thorough { 6 } else { 5 };
    let slots = 4;
    // Items: the histories of three operations.
    let mut starts: Vec<Vec<Op>> = vec![vec![]];
    for len in 0..3 {
        let mut more = vec![];
        for s in starts.iter().filter(|s| s.len() == len) {
            let mut m = Heap::default();
            s.iter().for_each(|o| m.apply(*o));
            for op in m.ops(slots) {
                let mut t = s.clone();
                t.push(op);
                more.push(t);
            }
        }
        starts.extend(more);
    }
    let total = starts.len() as u64;
    let mut v = vec![stage(
        "histories",
        &format!("all histories of up to {depth} operations on up to {slots} rooted values (classes, objects, arrays, bound methods, closures), with a full collection after each operation, with none, with each operation between the two halves of a collection, and with a collection that begins before any one of them and ends after the last"),
        total,
        move |i, ctx| {
            let s = &starts[i as usize];
            let mut m = Heap::default();
            s.iter().for_each(|o| m.apply(*o));
            let rest = if s.len() == 3 { depth - 3 } else { 0 };
            explore(ctx, &m, &mut s.clone(), rest, slots);
        },
    )];
    // Long families of classes.
    v.push(stage("hierarchies", "chains and trees of up to 60 classes, with methods and static members set before and after deriving", 60 * 4, |i, ctx| {
        let n = (i / 4) as usize + 1;
        let mut h = vec![Op::Class(0)];
        for k in 0..n {
            let slot = match i % 4 {
                0 => k,
                1 => k / 2,
                2 => 0,
                _ => k - k % 3,
            };
            h.extend([Op::Method(slot, if k % 3 == 0 { NEW } else { M }), Op::Field(slot, k), Op::Derive(slot)]);
            if k % 5 == 4 {
                h.push(Op::Clear(k / 2));
            }
        }
        for k in 0..n {
            h.push(Op::Object(Some(k)));
        }
        ctx.note(&format!("{h:?}"));
        ctx.tally.states += 1;
        if let Err(m) = schedules(ctx, &h) {
            ctx.violation(m)
        }
    }));
    v.push(stage("members by name", "every name of up to 4 of the letters n e w s _ as the name of a method and a static member, of a class and one derived from it", 5 + 25 + 125 + 625, |mut i, ctx| {
        const C: &[u8] = b"news_";
        let mut len = 1;
        while i >= 5u64.pow(len) {
            i -= 5u64.pow(len);
            len += 1;
        }
        let word: String = (0..len).map(|k| C[(i / 5u64.pow(k) % 5) as usize] as char).collect();
        ctx.note(&word);
        ctx.tally.states += 1;
        ctx.tally.traces += 1;
        let mut interner = SymbolInterner::default();
        let symbol = interner.get_or_intern(&word);
        let (a, b, other) = (interner.get_or_intern("A"), interner.get_or_intern("B"), interner.get_or_intern("other"));
        let interner: &'static SymbolInterner = Box::leak(Box::new(interner));
        let arena = Arena::<Rootable![Root<'_>]>::new(|_| Root { slots: vec![], upvalues: vec![] });
        let r: Result<(), String> = arena.mutate(|m, _| {
            let rc = || RuntimeContext { mutation: m, interner };
            let base = Class::new(&rc(), a);
            base.set_method(rc(), symbol, native(1));
            base.set_method(rc(), other, native(2));
            Value::Class(base.clone()).as_object().map_err(|_| "no object")?.set_field(m, symbol, Value::Int(3));
            for derived in [base.derive(&rc(), b), Class::with_base(&rc(), b, base.clone()), base.derive(&rc(), b).derive(&rc(), a)] {
                ctx.tally.transitions += 4;
                let kept = derived.method(symbol).is_some();
                if kept != (word != "new") {
                    return Err(format!("a derived class {} its base's method {word:?}", if kept { "starts with" } else { "lacks" }));
                }
                if derived.method(other).is_none() || derived.methods().len() != 1 + kept as usize {
                    return Err("a derived class has other methods than its base".into());
                }
                match Value::Class(derived).as_object().map_err(|_| "no object")?.field(symbol) {
                    Some(Value::Int(3)) => {}
                    _ => return Err(format!("a derived class lacks its base's static member {word:?}")),
                }
            }
            Ok(())
        });
        if let Err(e) = r {
            return ctx.violation(e);
        }
        ctx.outcome(hash(&word));
    }));
    v.push(stage("symbols", "up to 3000 names: equal exactly when written alike, and read back as written", 12, |i, ctx| {
        let n = [0, 1, 2, 3, 10, 100, 255, 256, 257, 1000, 2000, 3000][i as usize];
        ctx.note(&format!("{n} names"));
        ctx.tally.states += 1;
        let mut interner = SymbolInterner::default();
        let name = |k: usize| match k % 4 {
            0 => format!("n{}", k / 4),
            1 => format!("é{}", k / 4),
            2 => "a".repeat(k / 4),
            _ => format!("{} ", k / 4),
        };
        let all: Vec<Symbol> = (0..n).map(|k| interner.get_or_intern(name(k))).collect();
        for k in 0..n {
            ctx.tally.transitions += 2;
            if interner.get_or_intern(name(k)) != all[k] || interner.resolve(all[k]) != Some(&name(k)) {
                return ctx.violation(format!("name {:?} is not kept", name(k)));
            }
            for j in 0..k.min(50) {
                if (all[j] == all[k]) != (name(j) == name(k)) {
                    return ctx.violation(format!("{:?} and {:?} are not told apart rightly", name(j), name(k)));
                }
            }
        }
        ctx.tally.traces += 1;
        ctx.outcome(n as u64);
    }));
    v.push(stage("sizes", "n items of an array, fields of an object, methods, static members, classes, captured variables, a chain of n objects, n names, at 100 sizes up to 70000, each with collections between", (SIZES.len() * KINDS.len()) as u64, |i, ctx| {
        let (kind, n) = (i as usize % KINDS.len(), SIZES[i as usize / KINDS.len()]);
        if n > 5000 && KINDS[kind].1 == Slow::Yes {
            ctx.tally.skipped += 1;
            return;
        }
        ctx.note(&format!("{n} {}", KINDS[kind].0));
        ctx.tally.states += 1;
        ctx.tally.traces += 2;
        for collect in [true, false] {
            if let Err(m) = bulk(ctx, kind, n, collect) {
                return ctx.violation(format!("{n} {}: {m}", KINDS[kind].0));
            }
        }
        ctx.outcome(i);
    }));
    v.push(stage("conversions", "every kind of value asked for as every kind", 1, |_, ctx| {
        ctx.note("conversions");
        ctx.tally.states += 1;
        ctx.tally.traces += 1;
        let n = names();
        let arena = Arena::<Rootable![Root<'_>]>::new(|_| Root { slots: vec![], upvalues: vec![] });
        let r: Result<(), String> = arena.mutate(|m, _| {
            let rc = RuntimeContext { mutation: m, interner: &n.interner };
            let c = Class::new(&rc, n.symbols[0]);
            let all: Vec<(Value, &str, ValueKind)> = vec![
                (Value::Null, "", ValueKind::Null),
                (Value::default(), "", ValueKind::Null),
                (Value::Unit, "", ValueKind::Unit),
                (Value::Bool(true), "b", ValueKind::Bool),
                (Value::Bool(false), "b", ValueKind::Bool),
                (Value::Int(i64::MIN), "i", ValueKind::Int),
                (Value::Int(0), "i", ValueKind::Int),
                (Value::Float(1.5), "f", ValueKind::Float),
                (Value::Float(0.0), "f", ValueKind::Float),
                (native(1), "", ValueKind::Function),
                (Value::FnScript(FnScript::new(n.symbols[0], code(), Default::default())), "", ValueKind::Function),
                (Value::FnBound(FnBound::new(m, Value::Null, native(1))), "", ValueKind::Function),
                (Value::with_vec(&rc, vec![]), "ao", ValueKind::Array),
                (Value::with_string("s"), "s", ValueKind::String),
                (Value::with_string(""), "s", ValueKind::String),
                (Value::with_symbol(n.symbols[0]), "y", ValueKind::Symbol),
                (Value::Object(Object::new(&rc, None)), "o", ValueKind::Object),
                (Value::Class(c), "oc", ValueKind::Class),
            ];
            for (k, (v, can, kind)) in all.iter().enumerate() {
                let answers: [(&str, bool, &str); 8] = [
                    ("b", matches!(v.as_bool(), Ok(b) if *v == Value::Bool(b)), "E3000"),
                    ("i", matches!(v.as_int(), Ok(b) if *v == Value::Int(b)), "E3001"),
                    ("f", matches!(v.as_float(), Ok(b) if *v == Value::Float(b)), "E3002"),
                    ("a", matches!(v.as_array(), Ok(b) if *v == Value::Array(b.clone())), "E3003"),
                    ("s", matches!(v.as_string(), Ok(b) if *v == Value::String(b.clone())), "E3004"),
                    ("y", matches!(v.as_symbol(), Ok(b) if *v == Value::Symbol(b)), "E3005"),
                    ("o", v.as_object().is_ok(), "E3006"),
                    ("c", matches!(v.as_class(), Ok(b) if *v == Value::Class(b.clone())), "E3007"),
                ];
                let errors = [
                    v.as_bool().err(), v.as_int().err(), v.as_float().err(), v.as_array().err(), v.as_string().err(), v.as_symbol().err(), v.as_object().err(), v.as_class().err(),
                ];
                for ((what, ok, code), e) in answers.iter().zip(&errors) {
                    ctx.tally.transitions += 1;
                    if *ok != can.contains(what) || e.as_ref().map(|e| e.error_code() == *code) == Some(false) || e.is_none() != *ok {
                        return Err(format!("value {k} asked for as {what:?}"));
                    }
                }
                if v.kind() != *kind {
                    return Err(format!("value {k} is of kind {:?}", v.kind()));
                }
                for (j, (w, _, _)) in all.iter().enumerate() {
                    ctx.tally.transitions += 1;
                    let function = |v: &Value| matches!(v, Value::FnNative(_) | Value::FnBound(_));
                    let same = k == j || (k < 2 && j < 2);
                    if (v == w) != same && !(k == j && function(v)) {
                        return Err(format!("values {k} and {j} are told apart wrongly"));
                    }
                }
            }
            Ok(())
        });
        if let Err(m) = r {
            ctx.violation(m);
        }
        ctx.outcome(1);
    }));
    v
}

// ---- C32 -----------------------------------------------------------------------------------------------------------------

/// The tree below the scratch directory: files (with their text), directories and links.
enum Node {
    Dir,
    File(&'static str),
    Link(&'static str),
}

const BROKEN: &str = "let let let";

const TREE: &[(&str, Node)] = &[
    ("work", Node::Dir),
    ("work/f", Node::File("\"work/f\"")),
    ("work/bad", Node::File(BROKEN)),
    ("work/rule", Node::File("undeclared = 1")),
    ("work/export", Node::File("export let e = \"work/export\"")),
    ("work/bytes", Node::File("\u{1}not utf-8")),
    ("work/d", Node::Dir),
    ("work/d/f", Node::File("\"work/d/f\"")),
    ("work/d/work", Node::Dir),
    ("work/d/work/f", Node::File("\"work/d/work/f\"")),
    // Links that stay inside, leave, come back in and lead nowhere.
    ("work/in", Node::Link("d/f")),
    ("work/out", Node::Link("../other/f")),
    ("work/outd", Node::Link("../other")),
    ("work/up", Node::Link("..")),
    ("work/self", Node::Link(".")),
    ("work/abs", Node::Link("/ROOT/work/d")),
    ("work/absout", Node::Link("/ROOT/other/f")),
    ("work/loop", Node::Link("loop")),
    ("work/none", Node::Link("nowhere")),
    ("work/twice", Node::Link("out")),
    ("work/..f", Node::File("\"work/..f\"")),
    // Outside: unreadable as modules, so that reading one would show.
    ("other", Node::Dir),
    ("other/f", Node::File(BROKEN)),
    ("other/back", Node::Link("../work/f")),
    ("other/work", Node::Dir),
    ("other/work/f", Node::File(BROKEN)),
    ("work2", Node::Dir),
    ("work2/f", Node::File(BROKEN)),
    ("f", Node::File(BROKEN)),
    ("workf", Node::File(BROKEN)),
    ("link", Node::Link("work")),
];

fn scratch() -> &'static str {
    static ROOT: OnceLock<String> = OnceLock::new();
    ROOT.get_or_init(|| {
        // The check's own working directory, removed by it when it ends.
        let root = std::path::PathBuf::from(format!("/verif/evidence/.work-C32/tree-{}", std::process::id()));
        std::fs::create_dir_all(&root).expect("scratch directory");
        let root = std::fs::canonicalize(root).expect("scratch directory");
        for (path, node) in TREE {
            let at = root.join(path);
            match node {
                Node::Dir => std::fs::create_dir(&at).expect("scratch"),
                Node::File(t) => {
                    let mut bytes = t.as_bytes().to_vec();
                    if bytes[0] == 1 {
                        bytes[0] = 0xff;
                    }
                    std::fs::write(&at, bytes).expect("scratch")
                }
                Node::Link(t) => std::os::unix::fs::symlink(t.replace("/ROOT", root.to_str().unwrap()), &at).expect("scratch"),
            }
        }
        root.to_str().unwrap().to_string()
    })
}

/// What a path leads to: the components below the scratch directory of the node, or why it leads nowhere.
fn resolve(ctx: &mut Ctx, from: &[&'static str], path: &str, root: &str, budget: &mut usize) -> Result<Vec<&'static str>, &'static str> {
    let mut at: Vec<&'static str> = from.to_vec();
    let mut rest = path;
    if let Some(r) = path.strip_prefix(root) {
        if r.is_empty() || r.starts_with('/') {
            at.clear();
            rest = r;
        }
    }
    if rest.starts_with('/') && std::ptr::eq(rest, path) {
        return Err("outside the tree");
    }
    if path.is_empty() {
        return Err("empty");
    }
    let directory = |at: &[&str]| at.is_empty() || TREE.iter().any(|(p, n)| *p == at.join("/") && matches!(n, Node::Dir));
    for c in rest.split('/') {
        ctx.tally.transitions += 1;
        if *budget == 0 {
            return Err("too many links");
        }
        if !directory(&at) {
            return Err("not a directory");
        }
        match c {
            "" | "." => continue,
            ".." => {
                if at.pop().is_none() {
                    return Err("outside the tree");
                }
                continue;
            }
            _ => {}
        }
        let full: String = at.iter().map(|c| format!("{c}/")).collect::<String>() + c;
        let Some((p, node)) = TREE.iter().find(|(p, _)| *p == full) else { return Err("missing") };
        match node {
            Node::Link(t) => {
                *budget -= 1;
                let t = t.replace("/ROOT", root);
                at = resolve(ctx, &at, &t, root, budget)?;
            }
            _ => at.push(p.rsplit('/').next().unwrap()),
        }
    }
    // A trailing slash asks for a directory.
    if rest.ends_with('/') && !directory(&at) {
        return Err("not a directory");
    }
    Ok(at)
}

fn load(ctx: &mut Ctx, name: &str, cwd: &[&'static str]) {
    let root = scratch();
    ctx.note(name);
    ctx.tally.states += 1;
    ctx.tally.traces += 1;
    let want = resolve(ctx, cwd, name, root, &mut 40);
    if want == Err("outside the tree") {
        // Above the tree nothing is known.
        ctx.tally.skipped += 1;
        return;
    }
    let mut interner = SymbolInterner::default();
    // Other names before it, so that symbols are not all the first one.
    interner.get_or_intern("f");
    let symbol = interner.get_or_intern(name);
    let interner: &'static SymbolInterner = Box::leak(Box::new(interner));
    let got = {
        let arena = Arena::<Rootable![Root<'_>]>::new(|_| Root { slots: vec![], upvalues: vec![] });
        arena.mutate(|m, _| {
            let rc = RuntimeContext { mutation: m, interner };
            FileModuleLoader::default().load_module(&rc, symbol)
        })
    };
    let shown = match &got {
        Ok(_) => String::new(),
        Err(e) => format!("{e}"),
    };
    let code = got.as_ref().err().map(|e| e.error_code().to_string());
    // Safety: nothing refers to it any more; the module holds only a symbol.
    let bad = |m: String| format!("{m}\n--- loading {name:?} from {cwd:?}, which leads to {want:?}, gave {}", match &got {
        Ok(_) => "a module".to_string(),
        Err(_) => shown.clone(),
    });
    let expected: &str = match &want {
        Err(_) => "E4001",
        Ok(at) => {
            let full = at.join("/");
            if at.len() < cwd.len() || at[..cwd.len()] != *cwd {
                "E4002"
            } else {
                match TREE.iter().find(|(p, _)| *p == full) {
                    Some((_, Node::File(t))) if t.starts_with('\u{1}') => "E4001",
                    Some((_, Node::File(BROKEN))) => "E1000",
                    Some((_, Node::File(t))) if t.contains("undeclared") => "E2401",
                    Some((_, Node::File(_))) => "",
                    _ => "E4001",
                }
            }
        }
    };
    ctx.outcome(hash(&format!("{expected}{:?}", want)));
    match (&got, expected) {
        (Ok(m), "") => {
            ctx.tally.accepted += 1;
            if m.id != symbol {
                return ctx.violation(bad("the module has another name".into()));
            }
            let full = want.as_ref().unwrap().join("/");
            let holds = m.bytecode.constants().iter().any(|c| matches!(c, ConstantValue::String(s) if *s == full));
            if !holds {
                return ctx.violation(bad("the module is another file's".into()));
            }
        }
        (Err(_), c) if code.as_deref() == Some(c) && !c.is_empty() => {
            ctx.tally.rejected += 1;
            if !shown.contains("note: ") || !shown.contains(&format!("\"{name}\"")) {
                return ctx.violation(bad("the error does not say which module it is about".into()));
            }
            let base = std::iter::once(root).chain(cwd.iter().copied()).collect::<Vec<_>>().join("/");
            if c == "E4002" && !shown.lines().next().unwrap_or("").ends_with(&base) {
                return ctx.violation(bad("the error does not say where modules must be".into()));
            }
            if c == "E1000" || c == "E2401" {
                let file = format!("--> {root}/{}:1:", want.as_ref().unwrap().join("/"));
                if !shown.contains(&file) {
                    return ctx.violation(bad("the error does not say which file it is in".into()));
                }
            }
        }
        (_, c) => ctx.violation(bad(format!("expected {}", if c.is_empty() { "a module" } else { c }))),
    }
}

/// Loads a module and compares it with the text the file is known to hold, or expects the error.
fn expect_text(ctx: &mut Ctx, loader: &mut FileModuleLoader, name: &str, file: &str, want: Result<&str, &str>) {
    ctx.note(&format!("{} for {}", name.chars().take(200).collect::<String>(), file.chars().take(200).collect::<String>()));
    ctx.tally.states += 1;
    ctx.tally.traces += 1;
    ctx.tally.transitions += 1;
    let mut interner = SymbolInterner::default();
    interner.get_or_intern("f");
    let symbol = interner.get_or_intern(name);
    let room = Box::into_raw(Box::new(interner));
    let interner: &'static SymbolInterner = unsafe { &*room };
    let got = {
        let arena = Arena::<Rootable![Root<'_>]>::new(|_| Root { slots: vec![], upvalues: vec![] });
        arena.mutate(|m, _| loader.load_module(&RuntimeContext { mutation: m, interner }, symbol))
    };
    let shown = got.as_ref().err().map(|e| format!("{e}")).unwrap_or_default();
    let code = got.as_ref().err().map(|e| e.error_code().to_string());
    let bad = |m: &str| format!("{m}: loading {name:?} gave {}", if got.is_ok() { "a module" } else { &shown });
    let compiled = want.map(|text| dice_compiler::compiler::Compiler::compile_source(Source::with_path(text.to_string(), file.to_string(), SourceKind::Module)));
    match (&compiled, &got) {
        (Ok(Ok(want)), Ok(m)) => {
            ctx.tally.accepted += 1;
            let texts = |b: &Bytecode| -> Vec<String> {
                b.constants()
                    .iter()
                    .map(|c| match c {
                        ConstantValue::String(s) => s.to_string(),
                        c => format!("{:?}", std::mem::discriminant(c)),
                    })
                    .collect()
            };
            if m.id != symbol {
                ctx.violation(bad("the module has another name"));
            } else if m.bytecode.to_string() != want.to_string() || texts(&m.bytecode) != texts(want) {
                ctx.violation(bad("the module is not that of the text"));
            }
            ctx.outcome(hash(&want.to_string()));
        }
        (Ok(Err(e)), Err(f)) => {
            ctx.tally.rejected += 1;
            let want = format!("{e}");
            // The same, place included, with the note about the module behind.
            if e.error_code() != f.error_code() || !shown.starts_with(&want) || !shown[want.len()..].contains(&format!("\"{name}\"")) {
                ctx.violation(bad(&format!("not the error of the text, which is {want}")));
            }
            ctx.outcome(hash(&want));
        }
        (Err(c), Err(_)) => {
            ctx.tally.rejected += 1;
            if code.as_deref() != Some(*c) || !shown.contains(&format!("\"{name}\"")) {
                ctx.violation(bad(&format!("expected {c}")));
            }
            ctx.outcome(hash(c));
        }
        _ => ctx.violation(bad("the opposite of what was expected")),
    }
    drop(got);
    // Safety: nothing refers to it any more.
    drop(unsafe { Box::from_raw(room) });
}

const FILES: &[&str] = &[
    "m", "m.dice", ".m", "m.", "..m", "m..", "a b", " m", "m ", "é", "日本", "\u{10ffff}", "x\\y", "q\"q", "a'b", "%41", "~", "$HOME", "*", "?", "[m]", "new\nline", "tab\t", "-", "--help", "CON",
    "x:y", "C:", "{}", "{0}", "#m", "m#n", "m?n", "http:", "file:", "e\u{301}", "M", "0", "import", "m,n", "m;n", "a&b", "<m>", "m|n", "\u{feff}m", "\u{200b}", "\u{1}",
];

const LENGTHS: &[usize] = &[
    0, 1, 2, 3, 10, 100, 127, 128, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769,
    65534, 65535, 65536, 65537, 100000, 131071, 131072, 131073, 262144, 524288, 1000000, 1048575, 1048576, 1048577, 4194304, 16777217,
];

const CONTENTS: usize = 9;

/// A text of about that length, of which all matters; None: not a text.
fn content(kind: usize, n: usize) -> Vec<u8> {
    let fill = |c: &str| c.chars().cycle().take(n).collect::<String>();
    match kind {
        0 => format!("\"{}\" \"the end\"", fill("x")),
        1 => format!("\"{}\" \"the end\"", fill("é日\u{10ffff}")),
        2 => format!("\"s{}\" \"the end\"", fill("é")),
        3 => format!("//{}\n\"the end\"", fill(" comment")),
        4 => format!("\"begin\" //{}", fill("comment ")),
        5 => format!("{}\"the end\"", fill("\r\n \n\t")),
        // Faulty at the end.
        6 => format!("{}let let", fill("\r\n")),
        7 => format!("//{}\nundeclared = 1 //", fill("é")),
        _ => {
            let mut b = format!("\"{}", fill("x")).into_bytes();
            b.extend(b"\xc3\"");
            return b;
        }
    }
    .into_bytes()
}

fn files(thorough: bool) -> Vec<Stage> {
    let mut v = vec![];
    v.push(stage("file names", "files of 47 names, in the working directory and in folders of the same names, loaded by name, with dots and by absolute path", (FILES.len() * (FILES.len() + 1)) as u64, |i, ctx| {
        let (folder, file) = (i as usize / FILES.len(), FILES[i as usize % FILES.len()]);
        let work = format!("{}/work", scratch());
        // Folders of their own, so that files and folders of one name do not meet.
        let within = match folder {
            0 => format!("names/{i}"),
            k => format!("names/{i}/{}", FILES[k - 1]),
        };
        std::env::set_current_dir(&work).expect("scratch");
        std::fs::create_dir_all(format!("{work}/{within}")).expect("scratch");
        let text = format!("\"{i}\"");
        let full = format!("{work}/{within}/{file}");
        std::fs::write(&full, &text).expect("scratch");
        let mut loader = FileModuleLoader::default();
        for name in [format!("{within}/{file}"), format!("./{within}/../{}/{file}", within.rsplit('/').next().unwrap()), full.clone()].iter() {
            expect_text(ctx, &mut loader, name, &full, Ok(&text));
        }
        // Not so much as a name that differs in one character.
        expect_text(ctx, &mut loader, &format!("{within}/{file}x"), &full, Err("E4001"));
        std::fs::remove_dir_all(format!("{work}/names/{i}")).expect("scratch");
    }));
    v.push(stage("deep folders", "files in up to 60 folders within each other, faulty and not", 61 * 2, |i, ctx| {
        let (depth, faulty) = (i as usize / 2, i % 2 == 1);
        let work = format!("{}/work", scratch());
        std::env::set_current_dir(&work).expect("scratch");
        let within: String = std::iter::once(format!("deep{i}")).chain((0..depth).map(|k| format!("d{k}"))).collect::<Vec<_>>().join("/");
        std::fs::create_dir_all(&within).expect("scratch");
        let text = if faulty { "\n\n  undeclared = 1".to_string() } else { format!("\"{depth}\"") };
        let full = format!("{work}/{within}/f");
        std::fs::write(&full, &text).expect("scratch");
        expect_text(ctx, &mut FileModuleLoader::default(), &format!("{within}/f"), &full, Ok(&text));
        std::fs::remove_dir_all(format!("{work}/deep{i}")).expect("scratch");
    }));
    v.push(stage("file contents", "texts of 9 kinds and 51 lengths up to 16 MiB, all of which matters", (LENGTHS.len() * CONTENTS) as u64, |i, ctx| {
        let (n, kind) = (LENGTHS[i as usize / CONTENTS], i as usize % CONTENTS);
        let work = format!("{}/work", scratch());
        std::env::set_current_dir(&work).expect("scratch");
        let bytes = content(kind, n);
        let file = format!("content{i}");
        let full = format!("{work}/{file}");
        std::fs::write(&full, &bytes).expect("scratch");
        expect_text(ctx, &mut FileModuleLoader::default(), &file, &full, std::str::from_utf8(&bytes).map_err(|_| "E4001"));
        std::fs::remove_file(&full).expect("scratch");
    }));
    // One loader for everything, so one thread.
    const OPS: u64 = 10;
    let steps = if thorough { 5 } else { 4 };
    v.push(stage("histories", &format!("all histories of {steps} of 10 steps with one loader, the last a load: changing the working directory, writing a file anew, replacing it by a link, removing it, loading it by 3 names"), 1, move |_, ctx| {
        let root = format!("{}/work/history", scratch());
        let place = ["", "d"];
        for h in 0..OPS.pow(steps) {
            // The others are the beginnings of these.
            if h / OPS.pow(steps - 1) < 7 {
                continue;
            }
            let _ = std::fs::remove_dir_all(&root);
            std::fs::create_dir_all(format!("{root}/d")).expect("scratch");
            std::env::set_current_dir(&root).expect("scratch");
            let mut loader = FileModuleLoader::default();
            // What f and d/f hold: a text of that number, or a link to the other.
            let mut held: [Option<Result<usize, ()>>; 2] = [Some(Ok(0)), Some(Ok(1))];
            let path = |k: usize| if k == 0 { format!("{root}/f") } else { format!("{root}/d/f") };
            let text = |k: usize| if k % 3 == 2 { format!("\n\"{k}\" = 1") } else { format!("\"{k}\"") };
            (0..2).for_each(|k| std::fs::write(path(k), text(k)).expect("scratch"));
            let mut cwd = 0;
            for step in 0..steps {
                let op = h / OPS.pow(step) % OPS;
                match op {
                    0 | 1 => {
                        cwd = op as usize;
                        std::env::set_current_dir(format!("{root}/{}", place[cwd])).expect("scratch");
                    }
                    2 | 3 => {
                        let k = op as usize - 2;
                        let n = step as usize + 2;
                        let _ = std::fs::remove_file(path(k));
                        std::fs::write(path(k), text(n)).expect("scratch");
                        held[k] = Some(Ok(n));
                    }
                    4 | 5 => {
                        let k = op as usize - 4;
                        let _ = std::fs::remove_file(path(k));
                        std::os::unix::fs::symlink(path(1 - k), path(k)).expect("scratch");
                        held[k] = Some(Err(()));
                    }
                    6 => {
                        let _ = std::fs::remove_file(path(1));
                        held[1] = None;
                    }
                    _ => {
                        let name = match op {
                            7 => "f".to_string(),
                            8 => "d/f".to_string(),
                            _ => path(0),
                        };
                        let mut at = match (op, cwd) {
                            (7, k) => Some(k),
                            (8, 0) => Some(1),
                            (8, _) => None,
                            _ => Some(0),
                        };
                        // Following links: around in a circle, or to the other file.
                        for turn in 0..3 {
                            if let Some(Some(Err(()))) = at.map(|k| held[k]) {
                                at = at.map(|k| 1 - k).filter(|_| turn < 2);
                            }
                        }
                        let at = at.filter(|k| held[*k].is_some());
                        match at {
                            None => expect_text(ctx, &mut loader, &name, "", Err("E4001")),
                            Some(0) if cwd == 1 => expect_text(ctx, &mut loader, &name, "", Err("E4002")),
                            Some(k) => {
                                let Some(Ok(n)) = held[k] else { unreachable!() };
                                expect_text(ctx, &mut loader, &name, &path(k), Ok(&text(n)))
                            }
                        }
                    }
                }
                if !ctx.violations.is_empty() {
                    return ctx.violation(format!("in the history {h:0width$}, read from its end", width = steps as usize));
                }
            }
        }
        std::env::set_current_dir("/").expect("root");
        let _ = std::fs::remove_dir_all(&root);
    }));
    v
}

const PARTS: &[&str] = &[
    "", ".", "..", "f", "bad", "rule", "export", "bytes", "d", "in", "out", "outd", "up", "self", "abs", "absout", "loop", "none", "twice", "..f", "other", "back", "work", "work2", "workf", "link",
    "nothing", "F", "f ", "...",
];

fn paths(thorough: bool) -> Vec<Stage> {
    let n = PARTS.len() as u64;
    let len = if thorough { 4 } else { 3 };
    let mut v = vec![];
    for (what, cwd) in [("the work directory", &["work"][..]), ("a directory within it", &["work", "d"][..]), ("the directory around it", &[][..]), ("a directory elsewhere", &["other"][..])] {
        for absolute in [false, true] {
            let total: u64 = (1..=len as u32).map(|k| n.pow(k)).sum();
            let name = format!("{} paths, run from {what}", if absolute { "absolute" } else { "relative" });
            let about = format!("all paths of up to {len} of {n} components{}, over a tree of {} files, directories and links", if absolute { " below the root of the tree" } else { "" }, TREE.len());
            v.push(stage(&name, &about, total, move |mut i, ctx| {
                let root = scratch();
                let mut k = 1;
                while i >= n.pow(k) {
                    i -= n.pow(k);
                    k += 1;
                }
                let parts: Vec<&str> = (0..k).map(|j| PARTS[(i / n.pow(j) % n) as usize]).collect();
                let mut p = parts.join("/");
                if absolute {
                    p = format!("{root}/{p}");
                } else if p.starts_with('/') {
                    // Below the real root: never touched.
                    ctx.tally.skipped += 1;
                    return;
                }
                let here = std::iter::once(root).chain(cwd.iter().copied()).collect::<Vec<_>>().join("/");
                std::env::set_current_dir(here).expect("scratch");
                load(ctx, &p, cwd);
            }));
        }
    }
    v
}

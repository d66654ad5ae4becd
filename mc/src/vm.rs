//! Reference machine for the instruction set, written from dice-runtime's interpreter (which does not compile at this commit). It is
//! stricter than the original: reading a slot nothing was stored in, a captured variable whose frame is gone, or leaving a frame
//! with anything but one result is an error of the code (E::Bad).

use crate::code::*;
use crate::value::*;
use dice_bytecode::Instruction as I;
use std::cell::RefCell;
use std::rc::Rc;

type Slots = Rc<RefCell<Vec<V>>>;

pub enum Up {
    Open(Slots, usize),
    Closed(V),
}
pub type UpRef = Rc<RefCell<Up>>;

pub struct Closure {
    code: Rc<Code>,
    ups: Vec<UpRef>,
}

fn bad<T>(m: impl Into<String>) -> R<T> {
    Err(E::Bad(m.into()))
}

pub fn run(w: &mut World, code: &Rc<Code>, module: bool) -> R<V> {
    let mut args = vec![];
    if module {
        let e = w.object("Object", vec![]);
        w.export = Some(e.clone());
        args.push(e);
    }
    execute(w, code, args, &[])
}

pub fn enter(w: &mut World, c: &Closure, slot0: V, args: Vec<V>) -> R<V> {
    let mut v = Vec::with_capacity(args.len() + 1);
    v.push(slot0);
    v.extend(args);
    execute(w, &c.code, v, &c.ups)
}

fn execute(w: &mut World, code: &Rc<Code>, args: Vec<V>, ups: &[UpRef]) -> R<V> {
    let mut v = args;
    if v.len() < code.slots {
        v.resize(code.slots, V::Undef);
    }
    let slots: Slots = Rc::new(RefCell::new(v));
    let r = step_all(w, code, &slots, ups);
    // Whatever still refers to this frame now refers to nothing.
    let old = std::mem::take(&mut *slots.borrow_mut());
    drop(old);
    r
}

fn function(f: &Rc<Code>, ups: Vec<UpRef>) -> V {
    let name = if f.name.starts_with("__anonymous_fn_") { "|fn|".to_string() } else { f.name.clone() };
    V::Fun(Rc::new(Fun { name, kind: FunKind::Vm(Closure { code: f.clone(), ups }) }))
}

fn load_up(u: &UpRef) -> R<V> {
    let v = match &*u.borrow() {
        Up::Closed(v) => v.clone(),
        Up::Open(s, i) => match s.borrow().get(*i) {
            Some(v) => v.clone(),
            None => return bad("a captured variable outlived its frame without being closed"),
        },
    };
    match v {
        // A hoisted declaration used before it was executed: nothing is specified about its value.
        V::Undef => Err(E::Undef),
        v => Ok(v),
    }
}

fn store_up(u: &UpRef, v: V) -> R<()> {
    match &mut *u.borrow_mut() {
        Up::Closed(x) => *x = v,
        Up::Open(s, i) => match s.borrow_mut().get_mut(*i) {
            Some(x) => *x = v,
            None => return bad("a captured variable outlived its frame without being closed"),
        },
    }
    Ok(())
}

fn step_all(w: &mut World, code: &Rc<Code>, slots: &Slots, ups: &[UpRef]) -> R<V> {
    let mut st: Vec<V> = Vec::new();
    let mut open: Vec<(usize, UpRef)> = Vec::new();
    let mut pc = 0;
    macro_rules! pop {
        () => {
            match st.pop() {
                Some(v) => v,
                None => return bad("stack underflow"),
            }
        };
    }
    macro_rules! top {
        () => {
            match st.last_mut() {
                Some(v) => v,
                None => return bad("stack underflow"),
            }
        };
    }
    let sym = |i: u8| -> R<Rc<str>> {
        match code.consts.get(i as usize) {
            Some(K::Sym(s)) => Ok(s.clone()),
            _ => bad("operand is not a symbol constant"),
        }
    };
    let set_slot = |i: u8, v: V| -> R<()> {
        match slots.borrow_mut().get_mut(i as usize) {
            Some(x) => {
                *x = v;
                Ok(())
            }
            None => bad("slot out of range"),
        }
    };
    let get_slot = |i: u8| -> R<V> {
        match slots.borrow().get(i as usize) {
            Some(V::Undef) => bad(format!("slot {i} is read before anything was stored in it")),
            Some(x) => Ok(x.clone()),
            None => bad("slot out of range"),
        }
    };
    while pc < code.ins.len() {
        w.step()?;
        let i = &code.ins[pc];
        pc += 1;
        let bin = match i.op {
            I::Multiply => "*",
            I::Divide => "/",
            I::Remainder => "%",
            I::Add => "+",
            I::Subtract => "-",
            I::GreaterThan => ">",
            I::GreaterThanOrEqual => ">=",
            I::LessThan => "<",
            I::LessThanOrEqual => "<=",
            I::Equal => "==",
            I::NotEqual => "!=",
            I::RangeExclusive => "..",
            I::RangeInclusive => "..=",
            _ => "",
        };
        if !bin.is_empty() {
            let r = pop!();
            let l = pop!();
            st.push(w.binop(bin, l, r)?);
            continue;
        }
        match i.op {
            I::PushNull => st.push(V::Null),
            I::PushUnit => st.push(V::Unit),
            I::PushFalse => st.push(V::Bool(false)),
            I::PushTrue => st.push(V::Bool(true)),
            I::PushI0 => st.push(V::Int(0)),
            I::PushI1 => st.push(V::Int(1)),
            I::PushF0 => st.push(V::Float(0.0)),
            I::PushF1 => st.push(V::Float(1.0)),
            I::PushConst => st.push(match code.consts.get(i.a as usize) {
                Some(K::Int(x)) => V::Int(*x),
                Some(K::Float(x)) => V::Float(*x),
                Some(K::Str(x)) => V::Str(x.clone()),
                Some(K::Fun(f)) if f.upvalues == 0 => function(f, vec![]),
                _ => return bad("PUSH_CONST of something that is not a plain constant"),
            }),
            I::Pop => drop(pop!()),
            I::Dup => {
                let n = i.a as usize;
                if n >= st.len() {
                    return bad("stack underflow");
                }
                let v = st[st.len() - 1 - n].clone();
                st.push(v);
            }
            I::Swap => {
                let n = st.len();
                if n < 2 {
                    return bad("stack underflow");
                }
                st.swap(n - 1, n - 2);
            }
            I::CreateArray => {
                let n = i.a as usize;
                if n > st.len() {
                    return bad("stack underflow");
                }
                let v = st.split_off(st.len() - n);
                st.push(V::Arr(Rc::new(RefCell::new(v))));
            }
            I::CreateObject => {
                let o = w.object("Object", vec![]);
                st.push(o);
            }
            I::CreateClosure => {
                let f = match code.consts.get(i.a as usize) {
                    Some(K::Fun(f)) => f.clone(),
                    _ => return bad("not a function"),
                };
                let mut v = Vec::new();
                for (local, idx) in &i.ups {
                    if *local == 1 {
                        let idx = *idx as usize;
                        let found = open.iter().find(|(n, _)| *n == idx).map(|(_, u)| u.clone());
                        v.push(match found {
                            Some(u) => u,
                            None => {
                                let u: UpRef = Rc::new(RefCell::new(Up::Open(slots.clone(), idx)));
                                w.ups.push(u.clone());
                                open.push((idx, u.clone()));
                                u
                            }
                        });
                    } else {
                        match ups.get(*idx as usize) {
                            Some(u) => v.push(u.clone()),
                            None => return bad("captured variable out of range"),
                        }
                    }
                }
                st.push(function(&f, v));
            }
            I::InheritClass => {
                let b = pop!();
                st.push(w.inherit(&sym(i.a)?, &b)?);
            }
            I::LoadModule => {
                let n = sym(i.a)?;
                st.push(w.load_module(&n)?);
            }
            I::LoadGlobal => st.push(w.load_global(&sym(i.a)?)?),
            I::StoreGlobal => {
                let v = pop!();
                w.store_global(&sym(i.a)?, v)?;
            }
            I::LoadLocal => st.push(get_slot(i.a)?),
            I::StoreLocal => {
                let v = top!().clone();
                set_slot(i.a, v)?;
            }
            I::AssignLocal => {
                let v = std::mem::replace(top!(), V::Unit);
                set_slot(i.a, v)?;
            }
            I::LoadField => {
                let v = pop!();
                st.push(w.get_field(&v, &sym(i.a)?)?);
            }
            I::StoreField | I::AssignField => {
                let v = pop!();
                let o = pop!();
                w.set_field(&o, &sym(i.a)?, v.clone())?;
                st.push(if matches!(i.op, I::StoreField) { v } else { V::Unit });
            }
            I::LoadIndex => {
                let x = pop!();
                let t = pop!();
                st.push(w.get_index(&t, &x)?);
            }
            I::StoreIndex | I::AssignIndex => {
                let v = pop!();
                let x = pop!();
                let t = pop!();
                w.set_index(&t, &x, v.clone())?;
                st.push(if matches!(i.op, I::StoreIndex) { v } else { V::Unit });
            }
            I::LoadUpvalue => match ups.get(i.a as usize) {
                Some(u) => st.push(load_up(u)?),
                None => return bad("captured variable out of range"),
            },
            I::StoreUpvalue | I::AssignUpvalue => match ups.get(i.a as usize) {
                Some(u) => {
                    let v = pop!();
                    store_up(u, v.clone())?;
                    st.push(if matches!(i.op, I::StoreUpvalue) { v } else { V::Unit });
                }
                None => return bad("captured variable out of range"),
            },
            I::CloseUpvalue => {
                let v = match slots.borrow_mut().get_mut(i.a as usize) {
                    Some(x) => std::mem::replace(x, V::Null),
                    None => return bad("slot out of range"),
                };
                if let Some(n) = open.iter().position(|(n, _)| *n == i.a as usize) {
                    let (_, u) = open.remove(n);
                    *u.borrow_mut() = Up::Closed(v);
                }
            }
            I::LoadFieldToLocal => {
                let o = pop!();
                let v = w.get_field(&o, &sym(i.a)?)?;
                set_slot(i.b, v.clone())?;
                st.push(v);
            }
            I::LoadMethod => {
                let recv = pop!();
                let class = pop!();
                st.push(w.load_method(&class, &recv, &sym(i.a)?)?);
            }
            I::StoreMethod => {
                let f = pop!();
                let c = pop!();
                w.store_method(&c, &sym(i.a)?, f)?;
            }
            I::Negate => {
                let v = pop!();
                st.push(w.negate(v)?);
            }
            I::Not => {
                let v = pop!();
                st.push(w.not(v)?);
            }
            I::Is => {
                let c = pop!();
                let v = pop!();
                let c = w.as_class(&c)?;
                st.push(V::Bool(w.instance_of(&v, &c)));
            }
            I::Jump => pc = i.target,
            I::JumpIfFalse | I::JumpIfTrue => {
                let v = pop!();
                if w.as_bool(&v)? == matches!(i.op, I::JumpIfTrue) {
                    pc = i.target;
                }
            }
            I::Call => {
                let n = i.a as usize;
                if n + 1 > st.len() {
                    return bad("stack underflow");
                }
                let args = st.split_off(st.len() - n);
                let f = pop!();
                st.push(w.call(&f, args)?);
            }
            I::CallSuper => {
                let c = pop!();
                let c = w.as_class(&c)?;
                let n = i.a as usize;
                if n + 1 > st.len() {
                    return bad("stack underflow");
                }
                let args = st.split_off(st.len() - n);
                let recv = pop!();
                st.push(w.construct(&c, recv, args)?);
            }
            I::AssertBool => {
                let v = top!().clone();
                w.as_bool(&v)?;
            }
            I::AssertTypeForLocal | I::AssertTypeOrNullForLocal => {
                let c = pop!();
                let v = get_slot(i.a)?;
                w.check_type(&v, &c, matches!(i.op, I::AssertTypeOrNullForLocal))?;
            }
            I::AssertTypeAndReturn | I::AssertTypeOrNullAndReturn => {
                let c = pop!();
                let v = top!().clone();
                w.check_type(&v, &c, matches!(i.op, I::AssertTypeOrNullAndReturn))?;
                break;
            }
            I::Return => break,
            _ => unreachable!(),
        }
    }
    if st.len() != 1 {
        return bad(format!("the frame ends with {} values on its stack", st.len()));
    }
    Ok(st.pop().unwrap())
}

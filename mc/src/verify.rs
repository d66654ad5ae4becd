//! Exhaustive exploration of the abstract states (instruction, operand stack height) of every function of a compiled program.

use crate::code::*;
use dice_bytecode::Instruction as I;
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Explored {
    pub functions: u64,
    pub states: u64,
    pub transitions: u64,
}

pub fn check(code: &Rc<Code>, module: bool) -> Result<Explored, String> {
    let mut x = Explored::default();
    function(code, &mut x, true, module)?;
    Ok(x)
}

fn function(c: &Rc<Code>, x: &mut Explored, main: bool, module: bool) -> Result<(), String> {
    x.functions += 1;
    let at = |pos: usize, m: String| Err(format!("function {:?}, offset {pos}: {m}", c.name));
    if main && c.upvalues != 0 {
        return at(0, "the main code has captured variables".into());
    }
    if (!main || module) && c.slots == 0 {
        return at(0, "no slot for the calling convention's first slot".into());
    }
    let mut pos = 0;
    for i in &c.ins {
        if i.pos != pos {
            return at(i.pos, "instructions do not tile the code".into());
        }
        pos = i.next;
        let slot = |s: u8| (s as usize) < c.slots;
        let symbol = |k: u8| matches!(c.consts.get(k as usize), Some(K::Sym(_)));
        let ok = match operand(i.op) {
            Opd::Const => c.consts.get(i.a as usize).map_or(false, |k| !matches!(k, K::Sym(_))),
            Opd::Sym => symbol(i.a),
            Opd::Slot => slot(i.a),
            Opd::Upvalue => (i.a as usize) < c.upvalues,
            Opd::SymSlot => symbol(i.a) && slot(i.b),
            Opd::Closure => i.ups.iter().all(|(local, n)| match local {
                1 => slot(*n),
                0 => (*n as usize) < c.upvalues,
                _ => false,
            }),
            Opd::None | Opd::Count | Opd::Jump => true,
        };
        if !ok {
            return at(i.pos, format!("{} has an operand out of range or of the wrong kind", name(i.op)));
        }
        if i.op as u8 == I::PushConst as u8 {
            // A function pushed without captured variables must not need any.
            if let K::Fun(f) = &c.consts[i.a as usize] {
                if f.upvalues != 0 {
                    return at(i.pos, "PUSH_CONST of a function that has captured variables".into());
                }
            }
        }
    }
    if pos != c.len {
        return at(pos, "instructions do not tile the code".into());
    }
    let n = c.ins.len();
    let mut height: Vec<Option<usize>> = vec![None; n + 1];
    let mut work = vec![(0usize, 0usize)];
    while let Some((pc, h)) = work.pop() {
        match height[pc] {
            Some(old) if old == h => continue,
            Some(old) => {
                let pos = c.ins.get(pc).map_or(c.len, |i| i.pos);
                return at(pos, format!("the stack is {old} or {h} high, depending on the path"));
            }
            None => height[pc] = Some(h),
        }
        x.states += 1;
        if pc == n {
            if h != 1 {
                return at(c.len, format!("the code ends with {h} values on the stack"));
            }
            continue;
        }
        let i = &c.ins[pc];
        let a = i.a as usize;
        use I::*;
        // (needed, popped, pushed)
        let (need, pop, push) = match i.op {
            PushNull | PushUnit | PushFalse | PushTrue | PushI0 | PushI1 | PushF0 | PushF1 | PushConst | CreateObject
            | CreateClosure | LoadModule | LoadGlobal | LoadLocal | LoadUpvalue => (0, 0, 1),
            Pop | StoreGlobal => (1, 1, 0),
            Dup => (a + 1, 0, 1),
            Swap => (2, 2, 2),
            CreateArray => (a, a, 1),
            InheritClass | LoadField | Negate | Not | LoadFieldToLocal => (1, 1, 1),
            StoreLocal | AssignLocal | StoreUpvalue | AssignUpvalue | AssertBool => (1, 1, 1),
            StoreField | AssignField | LoadIndex | LoadMethod => (2, 2, 1),
            StoreIndex | AssignIndex => (3, 3, 1),
            CloseUpvalue | Jump => (0, 0, 0),
            StoreMethod => (2, 2, 0),
            Multiply | Divide | Remainder | Add | Subtract | GreaterThan | GreaterThanOrEqual | LessThan | LessThanOrEqual | Equal
            | NotEqual | Is | RangeInclusive | RangeExclusive => (2, 2, 1),
            JumpIfFalse | JumpIfTrue | AssertTypeForLocal | AssertTypeOrNullForLocal => (1, 1, 0),
            Call => (a + 1, a + 1, 1),
            CallSuper => (a + 2, a + 2, 1),
            Return => (1, 0, 0),
            AssertTypeAndReturn | AssertTypeOrNullAndReturn => (2, 1, 0),
        };
        if h < need {
            return at(i.pos, format!("{} needs {need} values, the stack has {h}", name(i.op)));
        }
        let h2 = h - pop + push;
        match i.op {
            Return | AssertTypeAndReturn | AssertTypeOrNullAndReturn => {
                x.transitions += 1;
                if h2 != 1 {
                    return at(i.pos, format!("the function returns with {h2} values on the stack"));
                }
            }
            Jump => {
                x.transitions += 1;
                work.push((i.target, h2));
            }
            JumpIfFalse | JumpIfTrue => {
                x.transitions += 2;
                work.push((i.target, h2));
                work.push((pc + 1, h2));
            }
            _ => {
                x.transitions += 1;
                work.push((pc + 1, h2));
            }
        }
    }
    for k in &c.consts {
        if let K::Fun(f) = k {
            function(f, x, false, module)?;
        }
    }
    Ok(())
}

//! Decoding of compiled programs, through the public cursor and accessors of dice_bytecode.

use dice_bytecode::{Bytecode, ConstantValue, Instruction as I};
use std::collections::HashMap;
use std::rc::Rc;

pub const ALL: &[I] = &[
    I::PushNull, I::PushUnit, I::PushFalse, I::PushTrue, I::PushI0, I::PushI1, I::PushF0, I::PushF1, I::PushConst, I::Pop, I::Dup,
    I::Swap, I::CreateArray, I::CreateObject, I::CreateClosure, I::InheritClass, I::LoadModule, I::LoadGlobal, I::StoreGlobal,
    I::LoadLocal, I::StoreLocal, I::AssignLocal, I::LoadField, I::StoreField, I::AssignField, I::LoadIndex, I::StoreIndex,
    I::AssignIndex, I::LoadUpvalue, I::StoreUpvalue, I::AssignUpvalue, I::CloseUpvalue, I::LoadFieldToLocal, I::LoadMethod,
    I::StoreMethod, I::Negate, I::Not, I::Multiply, I::Divide, I::Remainder, I::Add, I::Subtract, I::GreaterThan,
    I::GreaterThanOrEqual, I::LessThan, I::LessThanOrEqual, I::Equal, I::NotEqual, I::Is, I::RangeInclusive, I::RangeExclusive,
    I::Jump, I::JumpIfFalse, I::JumpIfTrue, I::Call, I::CallSuper, I::Return, I::AssertBool, I::AssertTypeForLocal,
    I::AssertTypeOrNullForLocal, I::AssertTypeAndReturn, I::AssertTypeOrNullAndReturn,
];

/// The printed name of an instruction, per the instruction set.
pub fn name(i: I) -> &'static str {
    use I::*;
    match i {
        PushNull => "PUSH_NULL",
        PushUnit => "PUSH_UNIT",
        PushFalse => "PUSH_FALSE",
        PushTrue => "PUSH_TRUE",
        PushI0 => "PUSH_I0",
        PushI1 => "PUSH_I1",
        PushF0 => "PUSH_F0",
        PushF1 => "PUSH_F1",
        PushConst => "PUSH_CONST",
        Pop => "POP",
        Dup => "DUP",
        Swap => "SWAP",
        CreateArray => "CREATE_ARRAY",
        CreateObject => "CREATE_OBJECT",
        CreateClosure => "CREATE_CLOSURE",
        InheritClass => "INHERIT_CLASS",
        LoadModule => "LOAD_MODULE",
        LoadGlobal => "LOAD_GLOBAL",
        StoreGlobal => "STORE_GLOBAL",
        LoadLocal => "LOAD_LOCAL",
        StoreLocal => "STORE_LOCAL",
        AssignLocal => "ASSIGN_LOCAL",
        LoadField => "LOAD_FIELD",
        StoreField => "STORE_FIELD",
        AssignField => "ASSIGN_FIELD",
        LoadIndex => "LOAD_INDEX",
        StoreIndex => "STORE_INDEX",
        AssignIndex => "ASSIGN_INDEX",
        LoadUpvalue => "LOAD_UPVALUE",
        StoreUpvalue => "STORE_UPVALUE",
        AssignUpvalue => "ASSIGN_UPVALUE",
        CloseUpvalue => "CLOSE_UPVALUE",
        LoadFieldToLocal => "LOAD_FIELD_TO_LOCAL",
        LoadMethod => "LOAD_METHOD",
        StoreMethod => "STORE_METHOD",
        Negate => "NEG",
        Not => "NOT",
        Multiply => "MUL",
        Divide => "DIV",
        Remainder => "REM",
        Add => "ADD",
        Subtract => "SUB",
        GreaterThan => "GT",
        GreaterThanOrEqual => "GTE",
        LessThan => "LT",
        LessThanOrEqual => "LTE",
        Equal => "EQ",
        NotEqual => "NEQ",
        Is => "IS",
        RangeInclusive => "RANGE_INCLUSIVE",
        RangeExclusive => "RANGE_EXCLUSIVE",
        Jump => "JUMP",
        JumpIfFalse => "JUMP_IF_FALSE",
        JumpIfTrue => "JUMP_IF_TRUE",
        Call => "CALL",
        CallSuper => "CALL_SUPER",
        Return => "RETURN",
        AssertBool => "ASSERT_BOOL",
        AssertTypeForLocal => "ASSERT_TYPE_FOR_LOCAL",
        AssertTypeOrNullForLocal => "ASSERT_TYPE_OR_NULL_FOR_LOCAL",
        AssertTypeAndReturn => "ASSERT_TYPE_AND_RETURN",
        AssertTypeOrNullAndReturn => "ASSERT_TYPE_OR_NULL_AND_RETURN",
    }
}

/// What the operand byte of an instruction denotes.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Opd {
    None,
    /// An index of a plain constant.
    Const,
    /// An index of a symbol constant.
    Sym,
    Slot,
    Upvalue,
    Count,
    Jump,
    Closure,
    SymSlot,
}

pub fn operand(i: I) -> Opd {
    use I::*;
    match i {
        PushConst => Opd::Const,
        InheritClass | LoadModule | LoadGlobal | StoreGlobal | LoadField | StoreField | AssignField | LoadMethod | StoreMethod => {
            Opd::Sym
        }
        LoadLocal | StoreLocal | AssignLocal | CloseUpvalue | AssertTypeForLocal | AssertTypeOrNullForLocal => Opd::Slot,
        LoadUpvalue | StoreUpvalue | AssignUpvalue => Opd::Upvalue,
        Dup | CreateArray | Call | CallSuper => Opd::Count,
        Jump | JumpIfFalse | JumpIfTrue => Opd::Jump,
        CreateClosure => Opd::Closure,
        LoadFieldToLocal => Opd::SymSlot,
        _ => Opd::None,
    }
}

#[derive(Clone, Debug)]
pub struct Ins {
    pub pos: usize,
    pub op: I,
    pub a: u8,
    pub b: u8,
    /// Jump distance, and the index of the instruction it leads to (== number of instructions: the end).
    pub off: i16,
    pub target: usize,
    pub ups: Vec<(u8, u8)>,
    pub next: usize,
}

#[derive(Clone)]
pub enum K {
    Int(i64),
    Float(f64),
    Str(Rc<str>),
    Sym(Rc<str>),
    Fun(Rc<Code>),
}

pub struct Code {
    pub name: String,
    pub id: String,
    pub ins: Vec<Ins>,
    pub len: usize,
    pub consts: Vec<K>,
    pub slots: usize,
    pub upvalues: usize,
}

pub fn decode(b: &Bytecode) -> Result<Rc<Code>, String> {
    decode_fn(b, "", "", false)
}

/// The same for code that was never meant to run: its jumps may lead anywhere.
pub fn decode_any(b: &Bytecode) -> Result<Rc<Code>, String> {
    decode_fn(b, "", "", true)
}

fn decode_fn(b: &Bytecode, fname: &str, id: &str, anywhere: bool) -> Result<Rc<Code>, String> {
    let table: HashMap<u8, I> = ALL.iter().map(|i| ((*i).into(), *i)).collect();
    if table.len() != ALL.len() {
        return Err("two instructions share one opcode".into());
    }
    let consts = b
        .constants()
        .iter()
        .map(|c| {
            Ok(match c {
                ConstantValue::Int(i) => K::Int(*i),
                ConstantValue::Float(f) => K::Float(*f),
                ConstantValue::String(s) => K::Str(s.as_str().into()),
                ConstantValue::Symbol(s) => K::Sym(s.as_str().into()),
                ConstantValue::Function(f) => K::Fun(decode_fn(&f.bytecode, &f.name, &f.id.to_string(), anywhere)?),
            })
        })
        .collect::<Result<Vec<K>, String>>()?;
    let mut cur = b.cursor();
    let len = cur.remaining() as usize;
    let mut ins: Vec<Ins> = Vec::new();
    while cur.remaining() > 0 {
        let pos = cur.position() as usize;
        let err = |m: &str| format!("function {fname:?}, offset {pos}: {m}");
        let byte = cur.read_u8();
        let op = *table.get(&byte).ok_or_else(|| err("not an instruction"))?;
        let mut i = Ins { pos, op, a: 0, b: 0, off: 0, target: 0, ups: vec![], next: 0 };
        let need = |cur: &dice_bytecode::BytecodeCursor, n: u64| {
            if cur.remaining() < n {
                Err(err("the code ends within an operand"))
            } else {
                Ok(())
            }
        };
        match operand(op) {
            Opd::None => {}
            Opd::Jump => {
                need(&cur, 2)?;
                i.off = cur.read_offset();
            }
            Opd::SymSlot => {
                need(&cur, 2)?;
                i.a = cur.read_u8();
                i.b = cur.read_u8();
            }
            Opd::Closure => {
                need(&cur, 1)?;
                i.a = cur.read_u8();
                match consts.get(i.a as usize) {
                    Some(K::Fun(f)) => {
                        need(&cur, 2 * f.upvalues as u64)?;
                        for _ in 0..f.upvalues {
                            let l = cur.read_u8();
                            i.ups.push((l, cur.read_u8()));
                        }
                    }
                    _ => return Err(err("CREATE_CLOSURE of something that is not a function constant")),
                }
            }
            _ => {
                need(&cur, 1)?;
                i.a = cur.read_u8();
            }
        }
        i.next = cur.position() as usize;
        ins.push(i);
    }
    let index: HashMap<usize, usize> = ins.iter().enumerate().map(|(n, i)| (i.pos, n)).collect();
    let n = ins.len();
    for i in ins.iter_mut() {
        if operand(i.op) == Opd::Jump {
            let t = i.next as i64 + i.off as i64;
            i.target = match (t, index.get(&(t as usize))) {
                (t, _) if t == len as i64 => n,
                (_, Some(t)) => *t,
                _ if anywhere => n,
                _ => {
                    return Err(format!(
                        "function {fname:?}, offset {}: {} by {} leads to {t}, which is not an instruction",
                        i.pos,
                        name(i.op),
                        i.off
                    ))
                }
            };
        }
    }
    Ok(Rc::new(Code {
        name: fname.to_string(),
        id: id.to_string(),
        ins,
        len,
        consts,
        slots: b.slot_count(),
        upvalues: b.upvalue_count(),
    }))
}

impl Code {
    pub fn walk(self: &Rc<Code>, f: &mut dyn FnMut(&Rc<Code>)) {
        f(self);
        for c in &self.consts {
            if let K::Fun(c) = c {
                c.walk(f);
            }
        }
    }

    /// A rendering that leaves out what may differ between two compilations of one text: function ids and generated names.
    pub fn canon(&self, out: &mut String) {
        self.canon_names(&|s| s.to_string(), out)
    }

    /// The same, with names and texts translated.
    pub fn canon_names(&self, f: &dyn Fn(&str) -> String, out: &mut String) {
        use std::fmt::Write as _;
        let anon = self.name.starts_with("__anonymous_fn_");
        let _ = write!(out, "fn {:?} slots={} up={} len={}\n", if anon { "__anonymous_fn_".to_string() } else { f(&self.name) }, self.slots, self.upvalues, self.len);
        for i in &self.ins {
            let _ = write!(out, "{} {:?} {} {} {} {:?}\n", i.pos, i.op, i.a, i.b, i.off, i.ups);
        }
        for c in &self.consts {
            let _ = match c {
                K::Int(i) => write!(out, "int {i}\n"),
                K::Float(f) => write!(out, "float {:x}\n", f.to_bits()),
                K::Str(s) => write!(out, "str {:?}\n", f(s)),
                K::Sym(s) => write!(out, "sym {:?}\n", f(s)),
                K::Fun(c) => {
                    c.canon_names(f, out);
                    Ok(())
                }
            };
        }
        out.push_str("end\n");
    }
}

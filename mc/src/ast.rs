//! Reference syntax tree.

pub type Sp = (usize, usize);

#[derive(Clone, Debug)]
pub struct Node {
    pub k: NK,
    pub s: Sp,
}

#[derive(Clone, Debug)]
pub struct Ty {
    pub name: String,
    pub name_span: Sp,
    pub nullable: bool,
    /// From the delimiter (':', '->' or 'is') to the end.
    pub span: Sp,
}

#[derive(Clone, Debug)]
pub struct Param {
    pub name: String,
    pub ty: Option<Ty>,
    pub span: Sp,
}

#[derive(Clone, Debug)]
pub struct Func {
    /// Declared name, or operator symbol.
    pub name: String,
    pub name_span: Sp,
    pub params: Vec<Param>,
    pub ret: Option<Ty>,
    pub body: Node,
    pub span: Sp,
}

#[derive(Clone, Debug)]
pub enum NK {
    Null,
    Unit,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Ident(String),
    List(Vec<Node>),
    Obj(Vec<(String, Node)>),
    Anon(std::rc::Rc<Func>),
    Field(Box<Node>, String),
    SuperField(Option<String>, String),
    Index(Box<Node>, Box<Node>),
    Prefix(&'static str, Box<Node>),
    Bin(&'static str, Box<Node>, Box<Node>),
    Is(Box<Node>, Ty),
    NullProp(Box<Node>),
    ErrProp(Box<Node>),
    Assign(&'static str, Box<Node>, Box<Node>),
    Let { mutable: bool, names: Vec<String>, destructured: bool, expr: Box<Node> },
    Fn(std::rc::Rc<Func>),
    Op(std::rc::Rc<Func>),
    Class { name: String, name_span: Sp, base: Option<Box<Node>>, items: Vec<Node> },
    Import { ns: Option<String>, items: Vec<String>, path: String },
    Export(Box<Node>),
    If(Box<Node>, Box<Node>, Option<Box<Node>>),
    Loop(Box<Node>),
    While(Box<Node>, Box<Node>),
    For(String, Box<Node>, Box<Node>),
    /// The last item, if any, is the value.
    Block(Vec<Node>),
    Break,
    Continue,
    Return(Option<Box<Node>>),
    Call(Box<Node>, Vec<Node>),
    SuperCall(Vec<Node>),
    /// `lhs or name { block }`
    Or(Box<Node>, String, Box<Node>),
}

impl Node {
    pub fn children<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        use NK::*;
        match &self.k {
            Null | Unit | Bool(_) | Int(_) | Float(_) | Str(_) | Ident(_) | SuperField(..) | Import { .. } | Break | Continue
            | Return(None) => {}
            List(v) | Block(v) | SuperCall(v) => v.iter().for_each(f),
            Obj(v) => v.iter().for_each(|(_, n)| f(n)),
            Anon(func) | Fn(func) | Op(func) => f(&func.body),
            Field(n, _) | Prefix(_, n) | Is(n, _) | NullProp(n) | ErrProp(n) | Export(n) | Loop(n) | Return(Some(n)) => f(n),
            Index(a, b) | Bin(_, a, b) | Assign(_, a, b) | While(a, b) | For(_, a, b) | Or(a, _, b) => {
                f(a);
                f(b);
            }
            Let { expr, .. } => f(expr),
            Class { base, items, .. } => {
                if let Some(b) = base {
                    f(b)
                }
                items.iter().for_each(f)
            }
            If(a, b, c) => {
                f(a);
                f(b);
                if let Some(c) = c {
                    f(c)
                }
            }
            Call(t, v) => {
                f(t);
                v.iter().for_each(f)
            }
        }
    }

    pub fn count(&self) -> usize {
        let mut n = 1;
        self.children(&mut |c| n += c.count());
        n
    }
}

//! Writes an expression with parentheses around every operator application.

use crate::ast::*;

pub fn expr(n: &Node) -> String {
    use NK::*;
    match &n.k {
        Null => "null".into(),
        Unit => "()".into(),
        Bool(b) => b.to_string(),
        Int(i) => i.to_string(),
        Float(f) => format!("{f:?}"),
        Ident(x) => x.clone(),
        List(v) => format!("[{}]", list(v)),
        Field(e, f) => format!("{}.{f}", expr(e)),
        Index(e, i) => format!("{}[{}]", expr(e), expr(i)),
        Call(e, v) => format!("{}({})", expr(e), list(v)),
        NullProp(e) => format!("{}?\u{20}", expr(e)),
        ErrProp(e) => format!("{}!!", expr(e)),
        Prefix(o, e) => format!("({o}{})", expr(e)),
        Bin(o, a, b) => format!("({} {o} {})", expr(a), expr(b)),
        Is(e, t) => format!("({} is {}{})", expr(e), t.name, if t.nullable { "?" } else { "" }),
        Or(e, x, b) => format!("({} or {x} {})", expr(e), expr(b)),
        Assign(o, t, e) => format!("({} {o} {})", expr(t), expr(e)),
        Block(v) => format!("{{ {} }}", v.iter().map(expr).collect::<Vec<_>>().join(" ")),
        Anon(f) => {
            let p: Vec<&str> = f.params.iter().map(|p| p.name.as_str()).collect();
            format!("(|{}| {})", p.join(", "), expr(&f.body))
        }
        Str(x) => format!("{x:?}"),
        Obj(v) => format!("#{{ {} }}", v.iter().map(|(k, e)| format!("{k}: {}", expr(e))).collect::<Vec<_>>().join(", ")),
        SuperField(None, f) => format!("super.{f}"),
        SuperField(Some(c), f) => format!("super[{c}].{f}"),
        SuperCall(v) => format!("super({})", list(v)),
        Let { mutable, names, destructured, expr: e } => {
            let n = if *destructured { format!("{{ {} }}", names.join(", ")) } else { names[0].clone() };
            format!("let {}{n} = {}", if *mutable { "mut " } else { "" }, expr(e))
        }
        Fn(f) => format!("fn {}", func(f)),
        Op(f) => format!("op {}", func(f)),
        Class { name, base, items, .. } => {
            let b = base.as_ref().map_or(String::new(), |b| format!(": {} ", expr(b)));
            format!("class {name} {b}{{ {} }}", items.iter().map(expr).collect::<Vec<_>>().join(" "))
        }
        Import { .. } => "import".into(),
        Export(e) => format!("export {}", expr(e)),
        If(c, a, b) => format!("if {} {}{}", expr(c), expr(a), b.as_ref().map_or(String::new(), |b| format!(" else {}", expr(b)))),
        Loop(b) => format!("loop {}", expr(b)),
        While(c, b) => format!("while {} {}", expr(c), expr(b)),
        For(v, e, b) => format!("for {v} in {} {}", expr(e), expr(b)),
        Break => "break".into(),
        Continue => "continue".into(),
        Return(e) => format!("return{}", e.as_ref().map_or(String::new(), |e| format!(" {}", expr(e)))),
    }
}

fn func(f: &Func) -> String {
    let p: Vec<&str> = f.params.iter().map(|p| p.name.as_str()).collect();
    format!("{}({}) {}", f.name, p.join(", "), expr(&f.body))
}

fn list(v: &[Node]) -> String {
    v.iter().map(expr).collect::<Vec<_>>().join(", ")
}

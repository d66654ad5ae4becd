//! The program spaces that are explored: bounded grammars and products, each with an exact total and an unranking.

use crate::gen::Grammar;
use crate::sem::Bounds;
use std::sync::Arc;

#[derive(Clone)]
pub struct Family {
    pub name: &'static str,
    pub about: String,
    pub total: u64,
    pub text: Arc<dyn Fn(u64) -> String + Send + Sync>,
    pub module: bool,
    pub bounds: Bounds,
}

pub fn grammar(name: &'static str, about: &str, rules: &str, bound: usize, module: bool, choices: usize, fuel: u64) -> Family {
    let g = Arc::new(Grammar::new(rules, bound));
    Family {
        name,
        about: format!("{about}; all programs up to size {bound}, all environment answers up to {choices} per run"),
        total: g.total(),
        text: Arc::new(move |i| g.text(i)),
        module,
        bounds: Bounds { choices, fuel },
    }
}

// ---- expressions, assignments, conditionals ------------------------------------------------------------------------------

const EXPR: &str = r#"
S = 0: let mut x = 1 let o = ob(2) let l = ls(3, 4) <Q>
Q = 0: <F> | 0: <D> <Q>
F = 0: <D> | 0: <U>
D = 1: x = <I> | 2: x += <I> | 2: x /= <I> | 1: <R>.a = <I> | 1: <R>.a -= <I> | 2: <R>["a"] = <I> | 1: <L>[<J>] = <I>
  | 1: <L>[<J>] *= <I> | 1: let y = <I> p(y) | 1: p(<X>)
X = 0: <I> | 0: <B> | 0: <N> | 1: [<I>, <I>] | 1: #{ a: <I>, "b c": <I> } | 1: (<I> is Int)
I = 1: p(@) | 1: x | 1: <R>.a | 2: <L>[<J>] | 0: (<O>) | 0: <U> | 1: p(<I>, <I>) | 1: <M>
J = 0: 0 | 1: p(1)
R = 0: o | 1: p(o)
L = 0: l | 1: p(l)
O = 1: <I> + <I> | 1: <I> - <I> | 1: -<I> | 1: <N> ?? <I> | 1: <I> ^> <P> | 2: x = <I> | 2: <R>.a = <I> | 2: <L>[<J>] = <I>
  | 2: <I> * <I> | 2: <I> % <I> | 2: { let z = <I> }
P = 0: p | 1: p(p)
U = 1: if <B> { <Q> } else { <Q> } | 1: { <Q> } | 1: if <B> { <Q> } | 2: if <B> { <Q> } else if <B> { <Q> } else { <Q> }
  | 2: if <B> { <Q> } else if <B> { <Q> } | 2: {}
M = 1: o.b | 1: o["a"] | 1: (^a^ p(a))(<I>)
B = 1: c() | 1: true | 0: (<C>) | 1: !<B>
C = 1: <B> && <B> | 1: <B> ^^ <B> | 1: <I> < <I> | 1: <I> == <I> | 2: <I> != <I> | 2: <I> >= <I>
N = 1: n(null, @) | 1: null | 1: (<N> ?? <N>)
"#;

pub fn expr(bound: usize, choices: usize) -> Family {
    grammar("expr", "expressions, assignments, compound assignments, blocks and conditionals over logged operands", EXPR, bound, false, choices, 4000)
}

/// Every operator and compound assignment, on every kind of operand, written plainly and inside an expression.
pub fn ops() -> Family {
    const BIN: &[&str] =
        &["*", "/", "%", "+", "-", ">", ">=", "<", "<=", "==", "!=", "..", "..=", "&&", "||", "??", "|>", "=", "*=", "/=", "+=", "-=", "-u", "!u", "is"];
    const VAL: &[&str] = &[
        "7", "2", "0", "9223372036854775807", "1.5", "0.5", "0.0", "true", "false", "null", "()", "\"s\"", "c()", "K(5)", "ob(1)", "ls(1)", "foo", "Foo", "p", "Int",
    ];
    const FORM: usize = 6;
    let total = (BIN.len() * VAL.len() * VAL.len() * FORM) as u64;
    let text = move |i: u64| {
        let i = i as usize;
        let form = i % FORM;
        let i = i / FORM;
        let (a, b, op) = (VAL[i % VAL.len()], VAL[i / VAL.len() % VAL.len()], BIN[i / VAL.len() / VAL.len()]);
        let mut s = String::from("class K { fn new(self, v) { self.v = v } ");
        for o in ["*", "/", "%", "+", "-", ">", ">=", "<", "<=", "==", "!=", "..", "..="] {
            s.push_str(&format!("op {o}(self, x) {{ p(\"{o}\", self.v, x) }} "));
        }
        s.push_str("} ");
        // Operators for values that have none of their own, for every second form.
        if form % 2 == 1 {
            for o in ["*", "/", "%", "+", "-", ">", ">=", "<", "<=", "==", "!=", "..", "..="] {
                s.push_str(&format!("op {o}(x, y) {{ p(\"global {o}\", x, y) }} "));
            }
        }
        let e = match op {
            "-u" => format!("-p({a})"),
            "!u" => format!("!p({a})"),
            "is" => format!("p({a}) is {}", ["Int", "Foo", "K", "Any", "Float", "String", "Bool", "Null", "Class", "Unit"][i / VAL.len() % 10]),
            "|>" => format!("p({a}) |> p({b})"),
            o if o.ends_with('=') && !["==", "!=", "<=", ">=", "..="].contains(&o) => {
                let (decl, target) = [("let mut t = ", "t"), ("let t = ob(1) t.a = ", "t.a"), ("let t = ls(1) t[0] = ", "t[0]")][form / 2 % 3];
                return format!("{s}{decl}p({a}) let r = {{ {target} {o} p({b}) }} p({target}) p(r)");
            }
            o => format!("p({a}) {o} p({b})"),
        };
        match form / 2 {
            0 => s + &format!("let r = {e} p(r)"),
            1 => s + &format!("p(1, {e}, 2)"),
            _ => s + &format!("fn f(a) {{ let b = {e} b }} p(f(3))"),
        }
    };
    Family {
        name: "ops",
        about: "every binary, unary, compound and assignment operator on every pair of 20 operand values, with and without user-defined operators, in 3 positions".into(),
        total,
        text: Arc::new(text),
        module: false,
        bounds: Bounds { choices: 3, fuel: 4000 },
    }
}

// ---- loops and early exits -----------------------------------------------------------------------------------------------

/// Rules for statements and values, once outside (O) and once inside (L) a loop.
const LOOPS: &str = r#"
Q% = 0: <D%> | 0: <D%> <Q%>
D% = 1: p(@) | 1: loop { <QL> } | 1: while c() { <QL> } | 1: for i in it(2) { <QL> } | 1: for i in 1 .. 3 { <QL> }
  | 1: if c() { <Q%> } | 2: if c() { <Q%> } else { <Q%> } | 1: p(@, <V%>) | 1: let x = <V%> | 2: ls(1, 2)[<V%>] = <V%>
  | 2: g.a = <V%> | 2: g?.f(<V%>) | 3: while <B%> { <QL> } | 2: for i in it({ <Q%> @ }) { <QL> } | 2: for i in 0 ..= <V%> { <QL> }
  | 1: p(i) #
V% = 1: p(@) | 1: { <Q%> } | 1: if c() { <Q%> } else { <Q%> } | 2: p(@, <V%>, @) | 2: [p(@), <V%>] | 2: #{ a: p(@), b: <V%> }
  | 2: (p(@) + <V%>) | 2: (n(null, 1) ?? <V%>) | 2: (c() && <V%>) | 2: (c() ^^ <V%>) | 2: (<V%> ^> p) | 3: (-<V%>) | 3: (<V%> is Int)
  | 3: g?.f(<V%>).a | 3: g.k(<V%>, null)?.z
B% = 1: { <Q%> c() } | 1: c() && <V%>
"#;

fn loop_rules(start: &str, inside_fn: bool) -> String {
    let ret = if inside_fn { "| 1: return <V%> | 2: return" } else { "" };
    let mut r = format!("{start}\n");
    r.push_str(&LOOPS.replace("| 1: p(i) #", ret).replace('%', "O"));
    r.push_str(&LOOPS.replace("| 1: p(i) #", &format!("| 1: p(i) | 1: break | 1: continue {ret}")).replace('%', "L"));
    // A bare `return` takes what follows for its value unless a brace follows.
    r.replace("| 2: return ", "| 2: { return } ").replace("| 2: return\n", "| 2: { return }\n")
}

pub fn loops(bound: usize, choices: usize) -> Vec<Family> {
    vec![
        grammar(
            "loops in functions",
            "loops, conditionals, break, continue and return in every statement and operand position of a function body",
            &loop_rules("S = 0: fn f(i, n0) { <QO> } p(@, f(@, @), @)", true),
            bound,
            false,
            choices,
            500,
        ),
        grammar(
            "loops at top level",
            "loops, conditionals, break and continue in every statement and operand position of a script",
            &loop_rules("S = 0: let i = @ <QO>", false),
            bound - 1,
            false,
            choices,
            500,
        ),
    ]
}

// ---- variables and closures ----------------------------------------------------------------------------------------------

const CLOSURES: &str = r#"
Q% = 0: <D%> | 0: <D%> <Q%>
D% = 1: let mut a = @ | 2: let mut b = a | 1: a = @ | 2: b += @ | 1: p(a) | 2: p(b) | 1: g.a = ^^ <F> | 2: g.z = ^^ <F> | 1: p(g.a())
  | 2: p(g.z()) | 1: { <Q%> } | 2: if c() { <Q%> } | 2: fn h() { <QF> } p(h()) | 2: for a in 1 .. 3 { <QL> } | 2: for b in it(2) { <QL> }
  | 2: while c() { <QL> } | 2: loop { <QL> } | 3: p((^a^ <F>)(b)) | 2: if c() { return a } #
F = 0: { <QF> } | 0: a | 1: p(a, b) | 1: { a += 1 a } | 2: { b = a b } | 2: (^^ a)() | 2: { g.z = ^^ a a }
"#;

fn closure_rules(start: &str) -> String {
    let mut r = format!("{start}\n");
    let plain = |s: &str| s.lines().filter(|l| !l.trim().starts_with("F =")).collect::<Vec<_>>().join("\n") + "\n";
    r.push_str(&plain(&CLOSURES.replace("| 2: if c() { return a } #", "").replace('%', "O")));
    r.push_str(&plain(&CLOSURES.replace(" #", "").replace('%', "F")));
    r.push_str(&CLOSURES.replace(" #", "| 1: break | 1: continue | 2: if c() { break } | 2: if c() { continue }").replace('%', "L").replace("| 2: if c() { return a }", ""));
    r
}

pub fn closures(bound: usize, choices: usize) -> Vec<Family> {
    let f = |name, start: &str, b| {
        grammar(name, "declarations, assignments, shadowing, blocks, loops, named and anonymous functions that capture two variables and are called during and after the life of the scope", &closure_rules(start), b, false, choices, 700)
    };
    vec![
        f("closures in a script", "S = 0: let mut a = @ let mut b = @ <QO>", bound),
        f("closures in a function", "S = 0: let mut a = @ fn t(b0, mut0) { let mut b = b0 <QF> b } p(t(@, @)) p(a)", bound),
    ]
}

/// Deep chains of functions: the variable lives at one level, is captured at another, with any mix of reads and writes between.
const NEST: &str = r#"
S = 0: fn t(q) { <A0> <L1> <U> } let r = t(@) p(r) r() p(r())
A0 = 0: let mut a = @ | 0: let mut a = q let mut b = @ | 0: let mut b = @ let mut a = q
L1 = 1: let f = ^x^ { <W> <L2> } g.a = f p(f(@)) <W> | 1: fn f(x) { <W> <L2> } g.a = ^^ f(@) p(f(@)) <W>
  | 1: for x in 1 .. 3 { <W> <L2> } | 1: { let x = @ <W> <L2> } | 1: class K { fn m(self, x) { <W> <L2> } } let k = K() k.m(@) k.m(@) <W>
  | 1: for x in it(2) { if c() { <X1> } <W> <L2> }
X1 = 0: continue | 0: break | 0: return ^^ a | 0: a = x
L2 = 0: g.z = ^^ { <W> <V> } g.z() | 1: let h = ^y^ { <W> g.z = ^^ { <W> <V> } <V> } p(h(@)) p(g.z()) | 1: fn h() { <W> <V> } g.z = h h()
  | 1: while c() { let y = a <W> g.z = ^^ { <W> <V> } } <V> | 1: { let mut a = @ <W> g.z = ^^ { <W> <V> } } <V>
W = 0: p(a) | 1: a += @ | 1: a = x | 1: p(x, a)
V = 0: a | 1: p(a, x) | 1: q | 1: { a += 1 a }
U = 0: ^^ { p(a) a += 10 a } | 1: ^^ g.a
"#;

pub fn nest(bound: usize, choices: usize) -> Family {
    grammar("nested captures", "a variable of a function captured through up to four levels of functions, methods, blocks and loops, with reads and writes at every level, during and after the life of its scope", NEST, bound, false, choices, 1500)
}

/// Every kind of name, captured: parameters, loop variables, error variables, destructured and imported names, functions, classes.
const CAPTURES: &str = r#"
Q% = 0: <D%> | 0: <D%> <Q%>
D% = 1: let mut x = @ | 2: let { a } = ob(@) p(a) | 2: let mut x = ^^ x | 1: x = @ | 2: x += @ | 1: p(x) | 2: p(er(@) or x { <Q%> x }) | 2: p(n(ok(@), er(@)) or e { g.a = ^^ { <W> e } @ })
  | 1: g.a = ^^ { <W> x } | 2: g.z = ^x^ { <W> g.a = ^^ x x } | 1: p(g.a()) | 2: p(g.z(@)) | 2: { <Q%> } | 2: for x in it(2) { <Q%> } | 2: for x in 0 .. 2 { <Q%> } | 2: while c() { <Q%> }
  | 2: fn x() { <W> @ } | 2: class x { fn m(self) { <W> g.a = ^^ self x } } p(x().m()) | 1: fn r(k) { <W> if c() { r(x) } else { k } } p(r(@)) | 2: fn u() { w() } fn w() { <W> x } p(u())
  | 2: import * as x, { a } from "m" g.a = ^^ p(a, x) | 2: g.a = n(g, null)?.k({ <W> ^^ x }, null) | 2: p(if c() { <Q%> } else { ^^ x }) | 2: p((^x, y^ { <W> g.z = ^q^ { x = y q } ^^ p(x, y) })(@, @)()) #
"#;
const CAPTURES_W: &str = "W = 0: p(x) | 1: x = @ | 1: x += 1\n";

pub fn captures(bound: usize, choices: usize) -> Vec<Family> {
    // Only mutable variables may be assigned: programs that break this are skipped.
    let f = |name, start: &str, extra: &str| {
        let rules = format!("{start}\n{}{CAPTURES_W}", CAPTURES.replace('#', extra).replace('%', "O"));
        grammar(name, "every kind of name (variable, parameter, loop, error, destructured, imported, function, class) captured, shadowed and assigned", &rules, bound, false, choices, 900)
    };
    vec![
        f("names captured in a script", "S = 0: let mut x = @ <QO> p(x)", ""),
        f("names captured in a function", "S = 0: fn t(x0, a) { let mut x = x0 <QO> x } p(t(@, @)) p(t(@, @))", "| 2: if c() { return ^^ x } | 2: let v = n(ok(@), er(@))!! p(v)"),
    ]
}

// ---- classes -------------------------------------------------------------------------------------------------------------

const CLASSES: &str = r#"
S = 0: <CA> <CB> <U> | 1: <CA> <CB> <CC> <U>
CA = 0: class A { <MA> } | 1: class A : Foo { <MF> }
CB = 0: class B : A { <MB> } | 1: {  class B : A { <MB> } export0 }
CC = 0: class C : B { <MC> }
MA = 0: | 1: fn new(self, v) { <BN> } <MX> | 0: <MX>
MF = 0: fn m(self) { p(@, super.m(), self) }
MB = 0: | 1: fn new(self, v) { super(p(@)) <BN> } <MX> | 0: <MX>
MC = 0: | 1: fn new(self, v) { super(v) <BN> } | 1: fn m(self) { super[A].m() } | 1: fn m(self) { super.m() super[B].m() }
MX = 1: fn m(self) { <BM> } | 1: fn m(self) { <BM> } fn s(a) { <BS> } | 1: op +(self, x) { <BM> } fn m(self) { @ } | 2: fn m(self) { <BM> } fn k(self, z) { <BM> }
  | 2: fn m(self) { @ } fn m(self) { <BM> } | 2: fn s() { @ } fn s(a) { <BS> } fn m(self) { @ }
BN = 0: self.v = v | 1: p(self) | 1: if c() { return } self.v = @ | 1: self.v = ^^ self | 1: { return } | 1: while c() { if c() { return } } | 1: let self = @ p(self)
  | 1: let t = v fn inner() { t } self.w = inner
BM = 0: p(self) | 0: super.m() | 0: self.v | 1: self.v = p(@) | 1: ^^ self.v | 1: p(@, super[A].m()) | 1: return self | 1: let f = super.m p(f()) | 1: self.m
  | 1: if c() { return @ } p(@) | 1: A.s(@) | 1: for i in 1 .. 3 { self.v = i } self | 1: let h = self (^^ h)()
BS = 0: p(a) | 1: A(a) | 1: ^^ a
U = 0: <O> | 1: <O> <O> | 2: <O> <O> <O>
O = 0: let a = A(@) p(a) p(a.m()) | 0: let b = B(@) p(b) p(b.m()) | 1: p(A.s(@)) | 1: p(B.s(@)) | 1: p(B(@) + @) | 1: p(A(@) + p(@)) | 1: let b = B(@) p(b is A, b is B, b is Foo)
  | 1: p(A, B) | 1: let f = B(@).m g.a = f f() | 1: p(B(@).k(@)) | 1: p(B(@).v()) | 1: let a = A(@) a.m = ^^ @ p(a.m())
"#;

pub fn classes(bound: usize, choices: usize) -> Family {
    let rules = CLASSES.replace(" | 1: {  class B : A { <MB> } export0 }", "");
    grammar("classes", "two or three classes with constructors, methods, operators, statics, super calls and closures, constructed and used", &rules, bound, false, choices, 1500)
}

const CLASSES2: &str = r#"
S = 0: <W> | 1: fn mk(q) { <W> } p(mk(@)) p(mk(@))
W = 0: class A { <M> } <K> <U>
K = 0: class B : <BASE> { <N> <M> } | 1: let base = A class B : base { <N> <M> } | 1: class B { <M> } | 1: let K = ^x^ { class L : x { <N> <M> } L } let B = K(A)
BASE = 0: A | 1: p(A) | 1: if c() { A } else { Foo } | 1: { p(@) A } | 1: #{ k: A }.k | 1: Bar
N = 0: | 1: fn new(self) { super() } | 1: fn new(self) { super(<E>, <E>) } | 1: fn new(self, a, b) { super(<E>) <M0> }
M0 = 0: | 1: return | 1: let self = @ | 1: g.a = ^^ self
M = 0: fn m(self) { <E> } | 1: fn m(self, a, b) { <E> } | 1: fn new(self) { <E> } fn m(self) { <E> } | 1: op -(self, o) { <E> } op ..(self, o) { <E> } op <(self, o) { <E> } | 2: op ==(self, o) { <E> } fn m(self) { <E> }
  | 1: fn m(self: Int0) { @ } | 1: fn s() { <F> } fn m(self) { s() }
E = 0: p(@) | 1: self | 1: super.m() | 1: super.m(@, <E>) | 1: p(<E>, super.m) | 1: ^^ self | 1: (^self^ self)(@) | 1: { let self = @ super.m() } | 1: { class I { fn m(self) { p(self) } fn new(self) { p(self, @) } } I().m() <E> }
  | 1: B | 1: B() | 1: { for i in 1 .. 3 { if c() { return i } } } | 2: er(@)!!
F = 0: p(@) | 1: A() | 1: A
U = 0: let x = A() x.m() | 0: let x = B() x.m() | 1: let x = B() p(x - @, x .. @) | 1: p(B().m) | 1: p(A.s(), B.s()) | 1: let x = B() p(x < @, x == B()) | 1: let x = B(@, @) x.m(@, @) | 1: p(B().m(), A().m())
"#;

pub fn classes2(bound: usize, choices: usize) -> Family {
    let rules = CLASSES2.replace("| 1: fn m(self: Int0) { @ } ", "");
    grammar("class variants", "classes with computed bases, several operators, nested classes, shadowed receivers, at top level and in functions called twice", &rules, bound, false, choices, 1500)
}

// ---- modules -------------------------------------------------------------------------------------------------------------

const MODULES: &str = r#"
S = 0: <Q>
Q = 0: <D> | 0: <D> <Q>
D = 1: import { a } from "m" | 1: import { a, b } from "m" | 2: import { b, a, } from "n" | 1: import * as k from "m" | 2: import * as a, { b } from "m"
  | 2: import * as k, { a, b, c } from "m" | 2: import * as k { b } from "m" | 2: import { zz } from "d/m.dm" | 2: import { a } from "d\\m" | 1: p(a) | 1: p(k, b) | 1: p(k.a, k.b)
  | 1: let a = @ | 2: let mut a = @ | 1: fn a() { @ } | 2: class a { fn m(self) { @ } } | 1: g.a = ^^ p(a) | 2: { <Q> } | 2: fn fa() { <Q> } fa() | 2: for a in 1 .. 3 { <Q> } #
"#;
const MODULE_ONLY: &str = r#"| 1: export a | 1: export let a = @ | 1: export let mut b = @ | 2: b = @ | 1: export fn b() { p(@) a } | 2: export fn a() { @ } | 1: export class b { fn m(self) { a } } | 2: export class a : Foo { } | 1: export k | 2: export let c0 = export0 | 2: let { a, b } = ob(@) | 1: export b"#;

pub fn modules(bound: usize, choices: usize) -> Vec<Family> {
    let m = MODULES.replace('#', MODULE_ONLY).replace("| 2: export let c0 = export0 ", "");
    let s = MODULES.replace('#', "");
    let mut v = vec![
        grammar("modules", "imports in every form and exports in every form, mixed with declarations, uses, blocks, loops and functions", &m, bound, true, choices, 1500),
        grammar("imports in scripts", "imports in every form in a script, with declarations, uses, blocks, loops and functions", &s, bound, false, choices, 1500),
    ];
    v[0].name = "modules";
    v
}

// ---- access chains and failures ------------------------------------------------------------------------------------------

const CHAINS: &str = r#"
S = 0: <C> | 1: fn f(q) { <C> @ } p(@, f(@), @) | 1: g.a = ^^ { <C> @ } p(@, g.a())
C = 0: p(@, <N>, @) | 1: p(<N> ?? p(@)) | 1: let x = <N> p(x) | 1: [@, <N>, @] | 1: #{ a: <N>, b: @ } | 1: p(<N> == <N>) | 1: if <N> == null { p(@) } | 1: g[<N>] | 1: g.a = <N> | 1: <N> p(@)
  | 1: p(@ + (<N> ?? @)) | 1: p((<N>).a) | 1: for i in it(<N>) { p(i, <N>) } | 2: loop { p(<N>) if c() { break } } | 1: -<N> | 1: !<N> | 1: (<N> ^> p) | 2: p(<N> or e { p(e) <N> }) | 2: p(<N>, <N>)
N = 0: <H> | 0: <H><S> 
S = 0: <X> | 0: <X><S>
H = 0: g | 1: n(g, null) | 1: p(g) | 1: ok(g) | 1: er(@) | 1: null | 1: (<N>) | 1: { p(@) n(g, null) } | 2: if c() { g } else { null } | 1: n(ok(@), er(@))
X = 1: ¿ | 1: .a | 1: .z | 1: .g | 1: .k(g, null) | 1: .f(<N>) | 2: ["g"] | 2: [<N>] | 1: !! | 1: .k(ok(g), er(@)) | 2: (<N>, @) | 2: \raw\
"#;

pub fn chains(bound: usize, choices: usize) -> Family {
    // A statement may not begin with an operator or bracket: it would continue the one before.
    let rules = CHAINS.replace("| 1: [@, <N>, @] ", "| 1: p([@, <N>, @]) ").replace("| 1: #{ a: <N>, b: @ } ", "| 1: p(#{ a: <N>, b: @ }) ").replace("| 1: -<N> | 1: !<N> | 1: (<N> ^> p) ", "| 1: p(-<N>) | 1: p(!<N>) | 1: p(<N> ^> p) ");
    let rules = rules.replace('¿', "?\u{2}");
    grammar("chains", "access chains of ?, fields, calls, indexes, !! and or in 19 surroundings, at top level, in functions and in closures", &rules, bound, false, choices, 3000)
}

const FAILURES: &str = r#"
S = 0: fn f(q)<RT> { <Q> } p(@, f(ok(@)), @) p(f(er(@))) | 1: let f = ^q^ { <Q> } p(@, f(ok(@)), @) p(f(er(@))) | 1: class A { fn m(self, q)<RT> { <Q> } } p(@, A().m(ok(@)), @) p(A().m(er(@)))
RT = 0: | 1: -> Result | 2: -> Any?
Q = 0: <D> | 0: <D> <Q>
D = 1: p(<E>) | 1: let x = <E> p(x) | 1: <E> | 1: { return <E> } | 2: for i in it(2) { <Q> } | 2: while c() { <Q> } | 2: g.a = ^^ <E> p(g.a()) | 2: if c() { <Q> } | 3: loop { <Q> break }
E = 0: q | 0: <E>!! | 1: (<E> or e { <H> }) | 1: p(@, <E>) | 1: ok(<E>) | 1: n(ok(<E>), er(@)) | 1: n(q, er(@)) | 1: (n(null, q) ?? <E>) | 1: p(<E>, <E>) | 2: p([<E>, <E>]) | 2: { <Q> } | 2: (<E> ^> p) | 2: p(#{ a: <E> }) | 2: ls(<E>)[<E>] | 2: (<E> == <E>)
  | 2: n(g, null)?.k(<E>, null) | 2: (<E> is Result) | 2: if c() { <E> } else { <E> }
H = 0: e | 1: p(e) q | 1: { return e } | 1: er(e)!! | 1: { g.a = ^^ e e } | 1: (er(e) or e { p(e) }) | 2: <Q>
"#;

pub fn failures(bound: usize, choices: usize) -> Family {
    let rules = FAILURES.replace("0: <E>!!", "1: <E>!!");
    grammar("failures", "!! and or nested in each other and in every kind of operand, loop, closure and return, in typed and untyped functions, lambdas and methods", &rules, bound, false, choices, 2000)
}

// ---- type annotations ----------------------------------------------------------------------------------------------------

const TYPES: &str = r#"
S = 0: <K> 
K = 0: fn f(a<T>, b<T>)<RT> { <B> } p(f(<A>, <A>)) | 0: let f = ^a<T>, b<T>^ <E> p(f(<A>, <A>)) | 1: class C { fn f(self, a<T>, b<T>)<RT> { <B> } fn s(a<T>)<RT> { <B1> } } p(C().f(<A>, <A>)) p(C.s(<A>))
  | 1: class C { fn new(self, a<T>, b<T>) { p(a, b) { return } } } p(C(<A>, <A>)) | 1: class C { op +(self, a<T>)<RT> { let b = a <B> } } p(C() + <A>) | 1: op -(a<T>, b<T>)<RT> { <B> } p(foo - <A>)
  | 1: fn f(a<T>)<RT> { let b = a g.a = ^^ p(a, b) <B> } p(f(<A>)) | 1: fn t(a) { fn f(b<T>)<RT> { <B> } f(a) } p(t(<A>))
  | 1: let F = Foo fn f(a: F, b: F?)<RT> { <B> } p(f(<A>, <A>))
T = 0: | 1: : Foo | 1: : Foo? | 1: : Bar | 1: : Int? | 2: : Any | 2: : Any? | 2: : Null
RT = 0: | 1: -> Foo | 1: -> Foo? | 1: -> Bar | 1: -> Int | 2: -> Any? | 2: -> Any
B = 0: p(a, b) a | 0: { return p(a) } | 0: if c() { return p(a) } p(b) | 1: return if c() { p(a) } else { return p(b) } | 1: n(ok(a), er(b))!! | 1: while c() { return p(a) } p(b) | 1: for i in 1 .. 3 { if c() { return b } } a
  | 1: p(@, n(ok(a), er(b))!!) a | 1: {} | 1: { return } | 1: p(a is Foo, b is Foo?) a | 1: loop { if c() { return p(@, { return b }) } } | 1: let r = p(a) r | 1: p(@, if c() { return a } else { b })
B1 = 0: p(a) | 1: return a
E = 0: p(a, b) | 1: { return a } | 1: { if c() { return a } b } | 1: a is Bar? | 1: p(a) is Any
A = 0: foo | 0: null | 1: bar | 1: 5 | 1: p(bar) | 2: "s" | 2: Foo | 2: () | 2: er(@)
"#;

pub fn types(bound: usize, choices: usize) -> Family {
    grammar("types", "parameter and return annotations on functions, lambdas, methods, constructors and operators, with every way of returning", TYPES, bound, false, choices, 2000)
}

/// `is` with every operand against every type.
pub fn is_tests() -> Family {
    const VAL: &[&str] = &[
        "null", "()", "true", "5", "1.5", "\"s\"", "foo", "bar", "Foo", "Bar", "g", "ls(1)", "ok(1)", "er(1)", "p", "|| 1", "A()", "B()", "C()", "B", "n(foo, null)", "n(bar, foo)", "g?.z", "g.z?.a",
    ];
    const TY: &[&str] = &["Foo", "Bar", "Any", "Null", "Int", "Float", "Bool", "String", "Object", "Class", "Function", "Array", "Unit", "Result", "A", "B", "C", "V"];
    const FORM: &[&str] = &[
        "let r = % p(r)", "if % { p(1) } else { p(2) }", "p(1, %, 2)", "p(!(%))", "p(% && c())", "fn f(v) { let V = Foo v is # } p(f(@))", "let mut k = 0 while % && k < 2 { k += 1 p(k) }",
        "class M { fn m(self, v) { v is # } } p(M().m(@))", "let f = |v| v is # p(f(@))", "p((%) == true)",
    ];
    let total = (VAL.len() * TY.len() * 2 * FORM.len()) as u64;
    let text = move |i: u64| {
        let i = i as usize;
        let v = VAL[i % VAL.len()];
        let i = i / VAL.len();
        let t = TY[i % TY.len()];
        let i = i / TY.len();
        let q = ["", "?"][i % 2];
        let form = FORM[i / 2];
        let ty = format!("{t}{q}");
        let body = form.replace('%', &format!("p({v}) is {ty}")).replace('#', &ty).replace('@', &format!("p({v})"));
        format!("class A {{ }} class B : A {{ }} class C : Foo {{ }} let V = Bar {body}")
    };
    Family {
        name: "is tests",
        about: "the is operator on 24 operands against 18 types, nullable or not, in 10 positions".into(),
        total,
        text: Arc::new(text),
        module: false,
        bounds: Bounds { choices: 4, fuel: 2000 },
    }
}

// ---- rules about names and placement -------------------------------------------------------------------------------------

const NAMES: &str = r#"
S = 0: <Q>
Q = 0: <D> | 0: <D> <Q>
D = 1: let a = @ | 1: let mut a = @ | 1: let b = a | 1: a = @ | 1: a += b | 1: b = @ | 1: p(a) | 1: p(b) | 1: fn a() { } | 2: fn a() { <Q> } | 2: fn b(a) { <Q> } | 1: class a { } | 1: class b : a { } | 2: class a { fn b(self) { <Q> } }
  | 2: { <Q> } | 2: let { a, b } = g | 2: let mut { a } = g | 2: for a in it(1) { <Q> } | 2: while c() { <Q> } | 2: loop { <Q> break } | 2: if c() { <Q> } else { <Q> } | 2: p(^^ { <Q> }) | 2: p(^a^ { <Q> }) | 1: import { a } from "m" | 1: import * as b from "m"
  | 1: a.b = @ | 1: a[b] = @ | 1: a.b += @ | 2: p(a = @) | 2: let b = { <Q> } | 1: p(b is a) | 2: fn f(a: b) -> a { @ } | 2: p(b or a { <Q> }) | 1: b() | 2: export fn a() { } | 2: export class b { } | 2: export a | 2: export let a = b | 2: op +(a, b) { <Q> } | 2: class f { op -(self, a) { <Q> } }
"#;

pub fn names(bound: usize, module: bool) -> Family {
    let n = if module { "name rules in modules" } else { "name rules in scripts" };
    grammar(n, "declarations, assignments and uses of two names as variables, functions, classes, parameters, loop variables and imports, in every order and nesting", NAMES, bound, module, 3, 600)
}

const PLACES: &str = r#"
S = 0: <Q>
Q = 0: <D> | 0: <D> <Q>
D = 1: break | 1: continue | 1: { return } | 1: return @ | 1: p(g!!) | 1: super.m() | 1: super(@) | 1: p(super[a].m) | 1: export let a = @ | 1: export fn a() { } | 1: export let { a } = g | 2: export class a { } | 1: p(@)
  | 1: loop { <Q> } | 1: while c() { <Q> } | 1: for i in it(1) { <Q> } | 1: if c() { <Q> } | 1: { <Q> } | 1: fn f() { <Q> } | 1: p(^^ { <Q> }) | 1: p(^^ { break }) | 2: p(^x, x^ @) | 1: fn f(x, y, x) { } | 1: fn f(self) { <Q> } | 2: fn new(self) -> Int { <Q> }
  | 1: class k { <M> } | 1: class k : Foo { <M> } | 1: op +(x, y) { <Q> } | 2: op +(x, x) { } | 2: p(er(@) or e { <Q> }) | 2: while { <Q> c() } { } | 2: for i in { <Q> it(1) } { } | 2: p({ <Q> }) | 2: export let a = { <Q> }
M = 0: | 1: fn new(self) { <Q> } | 1: fn new(self) { super() <Q> } | 1: fn new() { <Q> } | 1: fn new(self) -> Int { @ } | 1: fn new(a, self) { } | 1: fn m(self) { <Q> } | 1: fn m() { <Q> } | 1: fn m(self: Int) { } | 1: fn new(self: Int?) { <Q> } | 1: fn m(a, self: Int) { }
  | 1: op -(self, x) { <Q> } | 1: op -(x) { <Q> } | 1: op -() { } | 2: op -(self: Int, x) { } | 2: fn m(self, self) { } | 1: <M> <M> | 1: fn new(self) { p(super()) } | 1: fn new(self) { if c() { super() } } | 1: fn new(self) { { super() } } | 2: fn new(self) { return super() } | 2: fn new(self) { super().a super() } | 2: fn new(self) { super(^^ { <Q> }) }
  | 2: fn m(x, x) { } | 2: op -(self, x, x) { } | 2: fn m(self) -> Int { <Q> }
"#;

pub fn places(bound: usize, module: bool) -> Family {
    let n = if module { "placement rules in modules" } else { "placement rules in scripts" };
    grammar(n, "return, !!, break, continue, super, export, parameters, receivers and constructors in every allowed and forbidden place", PLACES, bound, module, 3, 400)
}

/// Everything anywhere.
const WILD: &str = r#"
S = 0: <Q>
Q = 0: <D> | 0: <D> <Q>
D = 1: let a = <E> | 1: let mut a = <E> | 1: let { a, b } = <E> | 1: a = <E> | 1: a *= <E> | 1: g.a = <E> | 1: p(<E>) | 1: fn a(b) { <Q> } | 1: fn b(a: Int, c0: a?) -> Int? { <Q> } | 1: class a { <M> } | 1: class b : <E> { <M> } | 1: op *(a, b) { <Q> }
  | 1: import { a, b } from "m" | 1: import * as b from "m" | 1: export a | 1: export let a = <E> | 1: export fn b() { <Q> } | 1: break | 1: continue | 1: return <E> | 1: { <Q> } | 1: loop { <Q> } | 1: while <E> { <Q> } | 1: for a in <E> { <Q> } | 1: for b in <E> .. <E> { <Q> } | 1: if <E> { <Q> } else { <Q> }
  | 1: a[<E>] -= <E> | 2: {}
E = 0: a | 1: b | 0: @ | 1: null | 1: "s" | 1: 1.5 | 1: () | 1: true | 1: [<E>, <E>] | 1: #{ a: <E>, b: <E> } | 1: ^a^ <E> | 1: ^^ { <Q> } | 1: (<E> + <E>) | 1: (<E> && <E>) | 1: (<E> ^^ <E>) | 1: (<E> ?? <E>) | 1: (<E> ^> <E>) | 1: (<E> == <E>) | 1: (<E> is a) | 1: (<E> is Int?) | 1: (<E> or b { <Q> })
  | 1: (-<E>) | 1: (!<E>) | 1: (<E>)? | 1: (<E>)!! | 1: (<E>).a | 1: (<E>)(<E>) | 1: (<E>)[<E>] | 1: { <Q> } | 1: if <E> { <Q> } else { <Q> } | 1: if <E> { <Q> } | 1: super.a | 1: super(<E>) | 1: super[b].a | 1: (a = <E>) | 1: (g.a = <E>) | 1: (let b = <E>) 
M = 0: | 1: fn new(self) { <Q> } | 1: fn new(self, a) { super(<E>) <Q> } | 1: fn m(self, a: Int) -> Int { <Q> } | 1: fn m() { <Q> } | 1: op +(self, b) { <Q> } | 1: <M> <M>
"#;

pub fn wild(bound: usize, module: bool) -> Family {
    let n = if module { "anything anywhere in modules" } else { "anything anywhere in scripts" };
    let rules = WILD.replace(" | 1: (let b = <E>) ", "");
    grammar(n, "every kind of statement and expression in every position, whether or not it is allowed there", &rules, bound, module, 3, 400)
}

/// The accepted-program families at small bounds, for checks that look at all kinds of code.
pub fn broad(level: usize) -> Vec<Family> {
    let l = level;
    let mut v = vec![expr(3 + l, 3), ops()];
    v.extend(loops(4 + l, 3));
    v.extend(closures(4 + l, 3));
    v.push(nest(1 + l, 3));
    v.push(classes(2 + l, 3));
    v.push(classes2(2 + l, 3));
    v.extend(modules(3 + l, 3));
    v.push(chains(3 + l, 3));
    v.push(types(3 + l, 3));
    v.push(is_tests());
    v.push(wild(2 + l, false));
    v.push(wild(2 + l, true));
    v.push(names(2 + l, true));
    v.push(places(2 + l, true));
    v
}

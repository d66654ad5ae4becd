//! Program spaces that are products of a few dimensions, for faults that need depth or a combination rather than variety.

use crate::families::Family;
use crate::sem::Bounds;
use std::sync::Arc;

/// A mixed-radix index.
struct Pick(u64);

impl Pick {
    fn n(&mut self, n: usize) -> usize {
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
    fn of<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.n(v.len())]
    }
}

/// Replaces every `@` by the next number.
fn number(t: &str) -> String {
    let mut n = 0;
    let mut out = String::with_capacity(t.len() + 16);
    for c in t.chars() {
        if c == '@' {
            n += 1;
            out.push_str(&n.to_string());
        } else {
            out.push(c);
        }
    }
    out
}

fn family(name: &'static str, about: String, total: u64, module: bool, choices: usize, fuel: u64, text: impl Fn(u64) -> String + Send + Sync + 'static) -> Family {
    Family { name, about, total, text: Arc::new(text), module, bounds: Bounds { choices, fuel } }
}

// ---- rules across functions ----------------------------------------------------------------------------------------------

const DECLS: &[&str] = &[
    "%", "let a = 1 %", "let mut a = 1 %", "let { a } = ob(1) %", "let mut { b, a } = ob(1) %", "import { a } from \"m\" %", "import * as a from \"m\" %", "fn a() { } %", "% fn a() { }", "class a { } %", "% class a { }",
    "fn w(a) { % } w(1)", "fn w(a, b: a) { let mut b = 1 % }", "(|a| { % })(1)", "class W { fn m(self, a) { % } }", "class W { fn a(self) { % } }", "for a in it(1) { % }", "for a in 1 .. 3 { % }", "p(er(1) or a { % })", "{ let mut a = 1 } %", "loop { let mut a = 1 break } %",
    "% let mut a = 1", "let mut a = { % 1 }", "let mut a = 1 let a = 2 %", "let a = 1 let mut a = 2 %", "let mut a = 1 { let a = 2 % }", "let a = 1 { let mut a = 2 % }", "fn a(a) { % } a(1)", "if c() { let mut a = 1 } else { % }", "op +(a, b) { % }",
];
const WRAPS: &[&str] = &[
    "fn f() { % } f()", "p((|| { % })())", "class K { fn m(self) { % } } K().m()", "{ % }", "loop { % break }", "for i in it(1) { % }", "if c() { % }", "p(er(1) or e { % })", "let q = { % }", "class K { fn s() { % } } K.s()", "op -(x, y) { % }", "while { % c() } { }", "class K : Foo { fn new(self) { super({ % 1 }) } }",
];
const SHADOWS: &[&str] = &["fn f(a) { % } f(1)", "p((|a| { % })(1))", "{ let a = 2 % }", "{ let mut a = 2 % }", "for a in it(1) { % }", "fn a() { % } a()", "fn f() { let mut a = 2 % } f()", "fn f() { let a = 2 % } f()", "class a { fn m(self) { % } }"];
const ACTIONS: &[&str] = &[
    "a = @", "a += @", "p(a)", "a.b = @", "a[0] = @", "p(|| { a = @ })", "{ a = @ }", "fn a() { }", "class a { }", "let a = 3 a = @", "let mut a = 3 a = @", "a = a", "p(1, { a *= @ })", "a = 2 let mut a = 3", "a() = @", "(a) = @", "p(b is a)", "fn z(b: a) -> a { a }", "let { a } = g a = @", "let mut { a } = g a = @", "export a", "f() = @", "a = b = @", "b = a = @",
];

/// What a name may be used for, from any number of functions further in.
pub fn across(levels: usize, module: bool) -> Family {
    // The last level may also hide the name.
    let inner = WRAPS.len() + SHADOWS.len();
    let sizes: Vec<u64> = (0..=levels).map(|l| (inner as u64).pow(l as u32)).collect();
    let wraps: u64 = sizes.iter().sum();
    let total = wraps * (DECLS.len() * ACTIONS.len()) as u64;
    let about = format!("{} kinds of declaration of a name, {} things done with it, from inside every sequence of up to {levels} of {} nested functions, methods, lambdas, blocks and loops, {} of which hide it", DECLS.len(), ACTIONS.len(), inner, SHADOWS.len());
    family(if module { "names across functions in modules" } else { "names across functions" }, about, total, module, 3, 600, move |i| {
        let mut k = Pick(i);
        let (decl, action) = (k.of(DECLS), k.of(ACTIONS));
        let mut w = k.0;
        let mut l = 0;
        while w >= sizes[l] {
            w -= sizes[l];
            l += 1;
        }
        let mut k = Pick(w);
        let mut t = action.to_string();
        for _ in 0..l {
            let x = k.n(inner);
            t = if x < WRAPS.len() { WRAPS[x] } else { SHADOWS[x - WRAPS.len()] }.replace('%', &t);
        }
        number(&decl.replace('%', &t))
    })
}

/// The same from many levels further in, through functions only.
pub fn far_across(levels: usize) -> Family {
    const F: &[&str] = &["fn f() { % } f()", "p((|| { % })())", "class K { fn m(self) { % } } K().m()", "{ % }"];
    const A: &[&str] = &["a = @", "a += @", "p(a)", "fn a() { }"];
    let total = (F.len() as u64).pow(levels as u32) * (DECLS.len() * A.len()) as u64;
    let about = format!("{} kinds of declaration of a name, assigned or used from inside every sequence of {levels} nested functions, lambdas, methods and blocks", DECLS.len());
    family("names far across functions", about, total, false, 3, 600, move |i| {
        let mut k = Pick(i);
        let (decl, action) = (k.of(DECLS), k.of(A));
        let mut t = action.to_string();
        for _ in 0..levels {
            t = k.of(F).replace('%', &t);
        }
        number(&decl.replace('%', &t))
    })
}

// ---- placement from afar -------------------------------------------------------------------------------------------------

/// Every jump, super and export below every sequence of constructs.
pub fn placed(levels: usize, module: bool) -> Family {
    const W: &[&str] = &[
        "fn f() { % }", "p(|| { % })", "p(|x| { % })", "class K { fn m(self) { % } }", "class K : Foo { fn m(self) { % } }", "class K { fn s() { % } }", "class K { fn new(self) { % } }", "class K : Foo { fn new(self) { super() % } }", "class K { op +(self, x) { % } }", "op +(x, y) { % }", "{ % }", "loop { % }", "while c() { % }", "while { % c() } { }",
        "for i in it(1) { % }", "for i in { % it(1) } { }", "for i in 1 .. { % 3 } { }", "if c() { % }", "if c() { } else { % }", "if c() { } else if c() { % }", "p(er(1) or e { % })", "p({ % 1 }, 2)", "let x = { % 1 }", "class K : { % Foo } { }", "class K : Foo { fn new(self) { super({ % 1 }) } }", "return { % 1 }", "p(#{ a: [{ % 1 }] })", "fn f() -> Int { % }",
    ];
    const CORE: &[&str] = &["break", "continue", "{ return }", "return @", "p(g!!)", "super.m()", "super()", "super[Foo].m()", "export let a = @", "export fn a() { }", "export class a { }", "fn new(self) -> Int { @ }", "p(@)", "fn f(x, x) { }", "class L { fn new() { } }", "class L : Foo { fn new(self) { } }", "op -(x) { }", "p(|self| super.m())"];
    let sizes: Vec<u64> = (0..=levels).map(|l| (W.len() as u64).pow(l as u32)).collect();
    let total = sizes.iter().sum::<u64>() * CORE.len() as u64;
    let about = format!("{} constructs whose place matters below every sequence of up to {levels} of {} constructs", CORE.len(), W.len());
    family(if module { "places in depth in modules" } else { "places in depth" }, about, total, module, 3, 400, move |i| {
        let mut k = Pick(i);
        let mut t = k.of(CORE).to_string();
        let mut w = k.0;
        let mut l = 0;
        while w >= sizes[l] {
            w -= sizes[l];
            l += 1;
        }
        let mut k = Pick(w);
        for _ in 0..l {
            t = k.of(W).replace('%', &t);
        }
        number(&t)
    })
}

/// Class items and functions with every list of parameters.
pub fn signatures(params: usize) -> Family {
    const P: &[&str] = &["self", "x", "y", "new", "x: Int", "self: Int", "x: Int?"];
    const N: &[&str] = &["fn m", "fn new", "op +", "op ..=", "fn self"];
    const RET: &[&str] = &["", " -> Int", " -> Int?"];
    const BODY: &[&str] = &["", "@", "super()", "super() @", "{ super() }", "{ return @ }", "{ return }", "let q = super()", "super() { return }", "super().a", "if c() { super() } else { super() }", "return super()", "super.new()", "p(super())", "|| super()", "super() super()", "fn h() { super() }", "fn h() { return @ } super()", "super() fn h() { return @ }"];
    const BASE: &[&str] = &["", ": Foo ", "?"];
    let sizes: Vec<u64> = (0..=params).map(|l| (P.len() as u64).pow(l as u32)).collect();
    let lists: u64 = sizes.iter().sum();
    let total = lists * (N.len() * RET.len() * BODY.len() * BASE.len()) as u64;
    let about = format!("methods, constructors, operators and functions outside and inside plain and derived classes, with every list of up to {params} of {} parameters, {} return types and {} bodies", P.len(), RET.len(), BODY.len());
    family("signatures", about, total, false, 3, 400, move |i| {
        let mut k = Pick(i);
        let (n, ret, body, base) = (k.of(N), k.of(RET), k.of(BODY), k.of(BASE));
        let mut w = k.0;
        let mut l = 0;
        while w >= sizes[l] {
            w -= sizes[l];
            l += 1;
        }
        let mut k = Pick(w);
        let list: Vec<&str> = (0..l).map(|_| k.of(P)).collect();
        let item = format!("{n}({}){ret} {{ {body} }}", list.join(", "));
        number(&if base == "?" { item } else { format!("class K {base}{{ {item} }}") })
    })
}

// ---- exits ---------------------------------------------------------------------------------------------------------------

/// Loops in loops with variables and half-evaluated operands at every level, left in every way.
pub fn exits() -> Family {
    const OUT: &[(&str, &str)] = &[("", ""), ("loop {", "if c() { break } }"), ("while c() {", "}"), ("for i in it(2) {", "}"), ("for i in 1 .. 3 {", "}"), ("if c() {", "}"), ("p(@, {", "@ }, @)"), ("p(er(@) or e { p(e)", "e })")];
    const LOCALS: &[&str] = &["", "let mut a = @", "let mut a = @ let mut b = @ p(a, b)", "let mut a = @ g.a = || a"];
    const PEND: &[&str] = &["{ % }", "p({ % @ })", "p(@, @, { % @ })", "p([@, #{ a: @, b: { % @ } }])", "p(@ + (@ - { % @ }))", "g.a = { % || @ }", "let q = { % @ } p(q)", "p(n(null, 1) ?? { % @ })", "ls(1, 2)[p({ % 0 })] += @", "if { % c() } { p(@) }"];
    const EXIT: &[&str] = &["if c() { break }", "if c() { continue }", "if c() { return p(@) }", "p(n(ok(@), er(@))!!)", "let b = @ if c() { break } p(b)", "let b = @ if c() { continue } p(b)", "for j in it(2) { let b = j if c() { return b } if c() { continue } p(b) }"];
    let total = (OUT.len() * OUT.len() * OUT.len() * LOCALS.len() * LOCALS.len() * PEND.len() * EXIT.len()) as u64;
    let about = format!("a function of up to three nested constructs (loops, conditionals, operands) with variables, some captured, and {} kinds of half-evaluated operands, left in {} ways", PEND.len(), EXIT.len());
    family("exits", about, total, false, 4, 500, move |i| {
        let mut k = Pick(i);
        let (o1, o2, o3) = (OUT[k.n(OUT.len())], OUT[k.n(OUT.len())], OUT[k.n(OUT.len())]);
        let (l1, l2) = (k.of(LOCALS), k.of(LOCALS));
        let (pend, exit) = (k.of(PEND), k.of(EXIT));
        let inside = o1.0.contains("loop") || [o1, o2, o3].iter().any(|o| o.0.starts_with("loop") || o.0.starts_with("wh") || o.0.starts_with("for"));
        let exit = if !inside && (exit.contains("break") || exit.contains("{ continue } p(b)") || exit == "if c() { continue }") { "if c() { return }".replace("return }", "return @ }") } else { exit.to_string() };
        let core = pend.replace('%', &exit);
        number(&format!("fn f(z) {{ let mut y = @ {} {l1} {} {l2} {} {core} p(y, z) {} p(y) {} p(z) {} p(y) y }} p(@, f(@), @) p(g.a)", o1.0, o2.0, o3.0, o3.1, o2.1, o1.1))
    })
}

// ---- functions of the same name and text ---------------------------------------------------------------------------------

pub fn namesakes() -> Family {
    // Two makers, with bodies of the same length, in two scopes; then calls in every order.
    const SCOPE: &[&str] = &["{ % }", "if c() { % } else { % }", "fn s1() { % } s1()", "(|| { % })()", "class S { fn m(self) { % } } S().m()", "for i in 0 .. 1 { % }", "p(er(0) or e { % })", "class S { fn s() { % } } S.s()", "let r = { % }", "loop { % break }", "p(@, { % 1 })", "class S { op +(self, x) { % } } S() + 1"];
    const DEF: &[&str] = &["fn f() { p(@) }", "let f = || p(@)", "let f = || { @ }", "class C { fn f(self) { p(@) } } let f = C().f", "class C { fn f() { @ } } let f = C.f", "fn f() { || p(@) } let f = f()", "fn f() { fn f() { p(@) } f } let f = f()", "class C { fn new(self) { p(@) } } let f = C", "fn f() { v }", "let f = || { v = v + @ v }", "fn f(x: Foo?) { @ } let f = || f(null)", "let f = (|x| || x)(@)"];
    const SLOT: &[&str] = &["g.a", "g.b", "g.c"];
    const USE: &[&str] = &["p(g.a()) p(g.b()) p(g.a())", "p(g.b()) p(g.a()) p(g.b())", "p(g.a == g.b) p(g.a(), g.b())"];
    let n = SCOPE.len() * SCOPE.len() * DEF.len() * DEF.len() * 2 * USE.len();
    let about = format!("two functions of {} kinds with the same name and texts of the same length in two of {} scopes, in sequence or one inside the other, both used afterwards in every order", DEF.len(), SCOPE.len());
    family("namesakes", about, n as u64, false, 3, 900, move |i| {
        let mut k = Pick(i);
        let (s1, s2, d1, d2, nested, u) = (k.of(SCOPE), k.of(SCOPE), k.of(DEF), k.of(DEF), k.n(2), k.of(USE));
        let a = format!("let mut v = @ {d1} {} = f", SLOT[0]);
        let b = format!("let mut v = @ {d2} {} = f", SLOT[1]);
        let t = if nested == 1 { s1.replace('%', &format!("{a} {}", s2.replace('%', &b))) } else { format!("{} {}", s1.replace('%', &a), s2.replace('%', &b)) };
        number(&format!("g.a = || 0 g.b = || 0 {t} {u}"))
    })
}

/// Functions nested many levels deep, each with variables of its own, the innermost using any two of all of them.
pub fn towers(levels: usize) -> Family {
    const L: &[&str] = &["fn f(%p) { %v %b } %u f(@)", "let f = |%p| { %v %b } %u f(@)", "class K { fn m(self, %p) { %v %b } } %u K().m(@)", "for %p in 5 .. 6 { %v %b } %u 0", "{ let mut %p = @ %v %b } %u 0"];
    let total = (L.len() as u64).pow(levels as u32) * (levels * levels * 4) as u64;
    let about = format!("every sequence of {levels} nested functions, lambdas, methods, loops and blocks, each with two variables; the innermost reads one and assigns another of any of them, at once or after all have ended");
    family("towers", about, total, false, 2, 900, move |i| {
        let mut k = Pick(i);
        let (a, b, when) = (k.n(levels), k.n(levels), k.n(4));
        let mut t = match when {
            0 => format!("v{b} += p{a} p(v{b}, p{a})"),
            1 => format!("g.a = || {{ v{b} += 10 p(v{b}, p{a}) }}"),
            2 => format!("g.a = || {{ let h = || {{ v{b} = p{a} + v{b} }} h() p(v{b}) }} g.a()"),
            _ => format!("g.a = || p(v{a}, p{b}) v{a} = @ v{b} = @"),
        };
        for l in (0..levels).rev() {
            let f = k.of(L).replace("%p", &format!("p{l}")).replace("%v", &format!("let mut v{l} = @")).replace("%u", if l % 2 == 0 { "let w = @" } else { "" });
            let after = format!("{t} p(v{l}, p{l})");
            t = f.replace("%b", &after).replace("f(", &format!("f{l}(")).replace("f =", &format!("f{l} ="));
        }
        number(&format!("g.a = || 0 {t} p(g.a()) p(g.a())"))
    })
}

// ---- classes -------------------------------------------------------------------------------------------------------------

/// Members of every kind and parameter list, inherited, overridden and called in every way.
pub fn members() -> Family {
    const PARAMS: &[&str] = &["", "self", "x", "self, x", "x, self", "x, y, self", "self, x, y", "x, self, y", "x, y"];
    const NAMES: &[&str] = &["m", "s", "self", "to_string", "new0", "A"];
    const USES: &[&str] = &["p(A.%(@))", "p(A.%(@, @))", "p(A().%(@))", "p(B.%(@, @))", "p(B().%(@))", "p(B().%(@, @))", "p(B.%(@, @, @))", "p(B().%())", "p(A.%())", "let a = A() let f = a.% p(f(@))", "p(A.%)", "p(B().%)", "let b = B() p(b.k(@))"];
    const BODY: &[&str] = &["p(%)", "|| p(%)"];
    let total = (PARAMS.len() * (PARAMS.len() + 1) * NAMES.len() * USES.len() * BODY.len()) as u64;
    let about = format!("methods and static functions with {} parameter lists and {} names, inherited or redeclared with another list in a derived class, used in {} ways", PARAMS.len(), NAMES.len(), USES.len());
    family("members", about, total, false, 3, 900, move |i| {
        let mut k = Pick(i);
        let (p1, p2, name, u, body) = (k.of(PARAMS), k.n(PARAMS.len() + 1), k.of(NAMES), k.of(USES), k.of(BODY));
        let member = |p: &str| format!("fn {name}({p}) {{ {} }}", if p.is_empty() { "p(@)".to_string() } else { body.replace('%', p) });
        let b = if p2 == PARAMS.len() { String::new() } else { member(PARAMS[p2]) };
        number(&format!("class A {{ {} }} class B : A {{ {b} fn k(self, x) {{ super.{name}(x) }} }} {}", member(p1), u.replace('%', name)))
    })
}

/// Each operator of a class, and of its parent, under each operator of the language.
pub fn operator_pairs() -> Family {
    const OPS: &[&str] = &["*", "/", "%", "+", "-", ">", ">=", "<", "<=", "==", "!=", "..", "..="];
    let total = (OPS.len() * OPS.len() * OPS.len() * 5) as u64;
    family("operator pairs", format!("two of {} operators declared on a class and its subclass, or globally, and each operator then used", OPS.len()), total, false, 3, 600, move |i| {
        let mut k = Pick(i);
        let (a, b, u, form) = (k.of(OPS), k.of(OPS), k.of(OPS), k.n(5));
        let f = |o: &str, n: &str| format!("op {o}(self, x) {{ p(\"{n}\", self, x) {} }}", if n == "a" { 1 } else { 2 });
        match form {
            0 => format!("class A {{ {} {} }} p(A() {u} 7)", f(a, "a"), f(b, "b")),
            1 => format!("class A {{ {} }} class B : A {{ {} }} p(B() {u} 7) p(A() {u} 8)", f(a, "a"), f(b, "b")),
            2 => format!("class A {{ {} }} op {b}(x, y) {{ p(\"g\", x, y) }} p(A() {u} 7)", f(a, "a")),
            3 => format!("fn t() {{ class A {{ {} fn m(self) {{ self {u} 9 }} }} A }} class B {{ {} fn m(self) {{ self {u} 9 }} }} p(B().m()) p(t()().m())", f(a, "a"), f(b, "b")),
            _ => format!("class A {{ {} fn v(self) {{ 4 }} {} }} let mut t = A() p(t.v()) {}", f(a, "a"), f(b, "b"), if ["*", "/", "+", "-"].contains(&u) { format!("t {u}= 5 p(t)") } else { format!("p(5 {u} t)") }),
        }
    })
}

/// Hierarchies: each class of a chain of three may or may not have each of constructor, method and static; what is then reached.
pub fn hierarchies() -> Family {
    const CTOR: &[&str] = &["", "fn new(self, v) { #self.a% = v }", "fn new(self, v) { #g.a = || self p(self) }", "fn new(self, v) { #if c() { return } self.b = v }"];
    const METH: &[&str] = &["", "fn m(self) { p(%, self) }", "fn m(self) { p(%, super.m()) }", "fn m(self) { super[Foo].m() || super.m }", "fn m(self) { (|| super.m())() }"];
    const STAT: &[&str] = &["", "fn s() { p(%) }"];
    let per = CTOR.len() * METH.len() * STAT.len();
    let total = (per * per * per * 2) as u64;
    family("hierarchies", format!("chains of three classes, each with or without a constructor, a method and a static function of {per} kinds, constructed and used"), total, false, 4, 1500, move |i| {
        let mut k = Pick(i);
        let foreign = k.n(2);
        let mut t = String::new();
        let mut has = foreign == 1;
        for (l, name) in ["A", "B", "C"].iter().enumerate() {
            let (c, m, s) = (k.of(CTOR), k.of(METH), k.of(STAT));
            let base = match l {
                0 if foreign == 1 => " : Foo".to_string(),
                0 => String::new(),
                _ => format!(" : {}", ["A", "B"][l - 1]),
            };
            // A parent without a constructor takes no arguments.
            let sup = if base.is_empty() { "" } else if l > 0 && has { "super(p(v)) " } else { "super() " };
            has = if l == 0 { !c.is_empty() } else { has || !c.is_empty() };
            t.push_str(&format!("class {name}{base} {{ {} {} {} }} ", c.replace('#', sup), m, s).replace('%', &l.to_string()));
        }
        let arg = if has { "@" } else { "" };
        number(&format!("{t} let x = C({arg}) p(x) p(x.m()) p(x is A, x is B, x is Foo) p(C.s()) p(A.s())"))
    })
}

// ---- modules -------------------------------------------------------------------------------------------------------------

/// Exports of every form and kind of value, changed before or after, several at once.
pub fn exported() -> Family {
    const DECL: &[&str] = &["let a = p(@)", "let mut a = p(@)", "fn a() { p(@) }", "class a { fn m(self) { @ } }", "import { a } from \"m\"", "import * as a from \"n\"", "let { a } = ob(@)", "let mut { a } = ob(@)", "let a = || p(@)", "class a : Foo { fn s() { @ } }"];
    const EXPORT: &[&str] = &["export a", "export let a = p(@)", "export let mut a = p(@)", "export fn a() { p(@) }", "export class a { fn m(self) { @ } }", "export class a : Foo { }", "export let a = a", "export let mut a = || a"];
    const CHANGE: &[&str] = &["", "a = @", "a += @", "a.b = @", "p(a)", "g.a = || a", "{ let a = @ p(a) }", "fn h() { p(a) } h()", "export a", "let a = @", "let mut a = @ a = @", "for a in 1 .. 3 { p(a) }", "export foo", "export g", "export let b = @", "p(export0)", "class z : Foo { }", "import { a } from \"m\""];
    let total = (DECL.len() * EXPORT.len() * EXPORT.len() * CHANGE.len() * CHANGE.len()) as u64;
    family("exported", format!("a name declared in {} ways, exported twice in {} ways, with {} things happening between", DECL.len(), EXPORT.len(), CHANGE.len()), total, true, 3, 900, move |i| {
        let mut k = Pick(i);
        let (d, e1, e2, c1, c2) = (k.of(DECL), k.of(EXPORT), k.of(EXPORT), k.of(CHANGE), k.of(CHANGE));
        number(&format!("{d} {c1} {e1} {c2} {e2}").replace("p(export0)", "p(g)"))
    })
}

/// Import statements side by side and inside each other's functions.
pub fn imported() -> Family {
    const ITEMS: &[&str] = &["{ a }", "{ a, b }", "{ b, a }", "{ a, b, c }", "* as k", "* as k, { a }", "* as k, { c, a, b }", "{ c, }", "* as a", "* as a, { b, c }", "{ a, a }", "* as k { b }", "* as a, { a, b }", "* as b, { a, b }", "{ b, a, b }", "* as k, { a, a }"];
    const PATHS: &[&str] = &["m", "n", "d/m.dm", "zz", ""];
    const PLACE: &[&str] = &["%", "{ % p(a) }", "fn f() { % p(a) } f() f()", "for i in 1 .. 3 { % p(a) }", "if c() { % p(a) }", "p((|a| { % || a })(9)())", "let x = { % } p(x)", "class K { fn m(self) { % p(a, self) } } K().m()", "p(er(1) or e { % e })"];
    let total = (ITEMS.len() * PATHS.len() * PLACE.len()).pow(2) as u64 / 4;
    let n = (ITEMS.len() * PATHS.len() * PLACE.len()) as u64;
    family("imported", format!("every pair of {n} import statements of every form, path and place, in a script that also declares a name they bind"), total, false, 3, 900, move |i| {
        // A quarter of the pairs is a lattice that has every item with every place and path.
        let i = i * 4 + (i / (n / 4)) % 4;
        let mut k = Pick(i);
        let (i1, p1, l1, i2, p2, l2) = (k.of(ITEMS), k.of(PATHS), k.of(PLACE), k.of(ITEMS), k.of(PATHS), k.of(PLACE));
        let a = l1.replace('%', &format!("import {i1} from \"{p1}\""));
        let b = l2.replace('%', &format!("import {i2} from \"{p2}\""));
        format!("let a = 1 {a} p(a) {b} p(a) p(k, b)")
    })
}

/// Import statements of every path.
pub fn import_paths(len: u32) -> Family {
    const C: &[&str] = &["m", ".", "/", " ", "M", "-", "é", "*"];
    const USE: &[&str] = &["import { a } from \"%\" p(a)", "import * as a from \"%\" p(a.b)", "import * as k, { a, b } from \"%\" p(k.c, a) import { c } from \"%/\" p(c)", "fn f() { import { a } from \"%\" a } p(f(), f())"];
    let b = C.len() as u64;
    let total: u64 = (0..=len).map(|k| b.pow(k)).sum::<u64>() * USE.len() as u64;
    family("import paths", format!("imports of every path of up to {len} of {b} characters"), total, false, 3, 900, move |i| {
        let text = USE[(i % USE.len() as u64) as usize];
        let mut i = i / USE.len() as u64;
        let mut n = 0;
        while i >= b.pow(n) {
            i -= b.pow(n);
            n += 1;
        }
        let path: String = (0..n).map(|k| C[(i / b.pow(k) % b) as usize]).collect();
        text.replace('%', &path)
    })
}

// ---- types ---------------------------------------------------------------------------------------------------------------

/// Several annotated parameters, any of which may be wrong, on every kind of function, entered and left in every way.
pub fn signatures_checked() -> Family {
    const T: &[&str] = &["", ": Foo", ": Foo?", ": Bar", ": Bar?", ": Any", ": T"];
    const A: &[&str] = &["foo", "bar", "null", "5"];
    const KIND: &[&str] = &["fn f(#)> { ! } p(f(&))", "let f = |#| { ! } p(f(&))", "class C { fn f(self, #)> { ! } } p(C().f(&))", "class C { fn f(#)> { ! } } p(C.f(&))", "class C { fn new(self, #) { p(a) ~ } } p(C(&))", "class B { fn f(self, #)> { ! } } class C : B { fn f(self, a, b, c) { super.f(a, b, c) } } p(C().f(&))", "fn o(T, a, b) { fn f(#)> { ! } f } p(o(Bar, 1, 2)(&))"];
    const BODY: &[&str] = &["p(a) c", "return b", "if c() { return c } a", "|| a"];
    let lists = T.len().pow(3) * A.len().pow(3);
    let total = (lists * KIND.len() * BODY.len() * 2) as u64;
    family("signatures checked", format!("{} kinds of functions with three parameters of {} annotations each, called with {} values each, with and without return types", KIND.len(), T.len(), A.len()), total, false, 3, 900, move |i| {
        let mut k = Pick(i);
        let (t1, t2, t3) = (k.of(T), k.of(T), k.of(T));
        let (a1, a2, a3) = (k.of(A), k.of(A), k.of(A));
        let (kind, body, ret) = (k.of(KIND), k.of(BODY), k.n(2));
        let body = body.replace("c()", "c0()");
        let t = kind
            .replace('#', &format!("a{t1}, b{t2}, c{t3}"))
            .replace('&', &format!("{a1}, {a2}, {a3}"))
            .replace('!', &body)
            .replace('~', "{ return }")
            .replace('>', if ret == 0 { "" } else { " -> Foo" });
        format!("let T = Foo let c0 = c {t}")
    })
}

// ---- ranges and operators ------------------------------------------------------------------------------------------------

/// For loops over ranges whose ends are every kind of expression.
pub fn ranges() -> Family {
    const END: &[&str] = &[
        "0", "2", "-1", "- -2", "p(1)", "a", "a + 1", "1 + 2 * 0", "(0 .. 3)", "{ p(2) 1 }", "if c() { 0 } else { 3 }", "g.a", "l[1]", "n(null) ?? 2", "1.5", "0.0 - 1", "null", "(|| 2)()", "true", "\"s\"", "foo", "f(3)", "n(er(4)) or e { 1 }", "2 is Foo", "p(0) |> f", "9223372036854775807 - 1", "!c()", "-a",
    ];
    const BODY: &[&str] = &["p(i)", "p(i) if i == 1 { break }", "if c() { continue } p(i)", "g.h = || p(i)", "a += 1 p(a)", "let a = i p(a)", "for j in i .. 2 { p(i, j) }"];
    const AROUND: &[&str] = &["% p(9)", "let r = { % } p(r)", "fn k() { % p(9) } k()", "p(1, { % }, 2)", "% g.h()"];
    let total = (END.len() * END.len() * 2 * BODY.len() * AROUND.len()) as u64;
    family("ranges", format!("for loops over ranges both of whose ends are each of {} expressions, {} bodies, {} places", END.len(), BODY.len(), AROUND.len()), total, false, 4, 700, |i| {
        let mut k = Pick(i);
        let (lo, hi, op, body, around) = (k.of(END), k.of(END), k.of(&["..", "..="]), k.of(BODY), k.of(AROUND));
        format!("let mut a = 1 let l = ls(1, 2) fn f(x) {{ x }} g.a = 2 {}", around.replace('%', &format!("for i in {lo} {op} {hi} {{ {body} }}")))
    })
}

/// Functions of up to twenty parameters, one of which is given something that its annotation may not allow.
pub fn long_signatures() -> Family {
    const T: &[&str] = &[": Foo", ": Foo?", ": Any", ": Any?", ": T", ": T?", ""];
    const OTHER: &[&str] = &["", ": Foo", ": Foo?", ": Any"];
    const A: &[&str] = &["foo", "bar", "null", "5"];
    const KIND: &[&str] = &["fn f(#)> { p(1) ! } p(f(&))", "let f = |#| { p(1) ! } p(f(&))", "class C { fn f(self, #)> { p(1) ! } } p(C().f(&))", "class C { fn f(#)> { p(1) ! } } p(C.f(&))", "class C { fn new(self, #) { p(1) p(!) } } p(C(&))", "class B { fn f(self, #)> { p(1) ! } } class C : B { fn f(self) { super.f(&) } } p(C().f())", "fn o(x) { fn f(#)> { p(x) ! } f } p(o(1)(&))", "class B { fn new(self, #) { p(!) } } class C : B { fn new(self) { super(&) } } p(C())"];
    const MAX: usize = 20;
    let total = (MAX * MAX * T.len() * OTHER.len() * A.len() * KIND.len()) as u64;
    family("long signatures", format!("{} kinds of functions with 1 to {MAX} parameters, each of them in turn with {} annotations and {} values, the others with {} annotations", KIND.len(), T.len(), A.len(), OTHER.len()), total, false, 3, 900, |i| {
        let mut k = Pick(i);
        let (n, at) = (k.n(MAX) + 1, k.n(MAX));
        let at = at % n;
        let (t, o, a, kind) = (k.of(T), k.of(OTHER), k.of(A), k.of(KIND));
        let params: Vec<String> = (0..n).map(|j| format!("a{j}{}", if j == at { t } else { o })).collect();
        let args: Vec<&str> = (0..n).map(|j| if j == at { a } else { "foo" }).collect();
        format!("let T = Foo {}", kind.replace('#', &params.join(", ")).replace('&', &args.join(", ")).replace('>', [" -> Foo", ""][n % 2]).replace('!', &format!("a{at}")))
    })
}

/// Every operator that can be declared, with every return type, as a method and as a global function.
pub fn operators_checked() -> Family {
    const OP: &[&str] = &["*", "/", "%", "+", "-", "<", ">", "<=", ">=", "==", "!=", "..", "..="];
    const T: &[&str] = &["", ": Foo", ": Foo?", ": Bar", ": Any", ": T"];
    const RET: &[&str] = &["", " -> Foo", " -> Foo?", " -> Bar", " -> T", " -> Bool"];
    const BODY: &[&str] = &["b", "p(b)", "return b", "if c() { return b } foo", "true", "null", "", "let h = || b h()", "while c() { return b } foo"];
    const ARG: &[&str] = &["foo", "bar", "null", "5"];
    const KIND: &[&str] = &[
        "class C { op O(self, b#)! { B } } p(C() O A)", "op O(a, b#)! { B } p(5 O A)", "op O(a#, b)! { B } p(A O A)", "class P { op O(self, b#)! { B } } class C : P { } let r = C() O A p(r)", "class P { op O(self, b) { foo } } class C : P { op O(self, b#)! { B } } p(C() O A)", "fn w(z) { op O(a, b#)! { p(z) B } p(5 O A) } w(1)",
    ];
    let total = (OP.len() * T.len() * RET.len() * BODY.len() * ARG.len() * KIND.len()) as u64;
    family("operators checked", format!("{} operators declared in {} ways with {} annotations, {} return types and {} bodies, applied to {} values", OP.len(), KIND.len(), T.len(), RET.len(), BODY.len(), ARG.len()), total, false, 3, 700, |i| {
        let mut k = Pick(i);
        let (op, t, ret, body, arg, kind) = (k.of(OP), k.of(T), k.of(RET), k.of(BODY), k.of(ARG), k.of(KIND));
        let kind = kind.replace('A', arg).replace(" O", &format!(" {op}")).replace(" B ", &format!(" {body} "));
        format!("let T = Foo {}", kind.replacen('#', t, 1).replacen(")!", &format!("){ret}"), 1))
    })
}

// ---- chains that start with anything ---------------------------------------------------------------------------------------

/// Access chains on every kind of receiver, those of classes included.
pub fn receivers(links: usize) -> Family {
    const ROOT: &[&str] = &["super()", "super(1)", "super.m()", "super.m", "super[A].m()", "super.z", "self", "self.v", "B", "B.s()", "(|| self)()", "null", "g", "n(null, self)", "k(self)", "ls(self, 2)", "A()", "#{ a: self }", "(self)"];
    const LINK: &[&str] = &["?.a", ".a", "?.m(p(2))", ".v", "?[0]", "[p(0)]", "(3)", "!!", "?.z", " or e { p(e) 4 }"];
    const AROUND: &[&str] = &["p(%, 5)", "let x = % p(x)", "%", "if % == null { p(6) } p(7)", "p(% ?? 8, %)", "self.v = %", "return %"];
    const WHERE: &[&str] = &[
        "class B : A { fn new(self) { super() # } fn m(self, q) { p(q) 4 } fn s() { null } } p(B())",
        "class B : A { fn m(self, q) { p(q) # } fn s() { g } } p(B().m(1))",
        "class B : A { fn m(self, q) { let h = || { # } h() } fn s() { B } } p(B().m(1))",
    ];
    let chains: u64 = (0..=links as u32).map(|k| (LINK.len() as u64).pow(k)).sum();
    let total = chains * (ROOT.len() * AROUND.len() * WHERE.len()) as u64;
    family("receivers", format!("access chains of up to {links} links of {} kinds on {} receivers, in {} statements of constructors, methods and closures of a derived class", LINK.len(), ROOT.len(), AROUND.len()), total, false, 3, 900, |i| {
        let mut k = Pick(i);
        let (root, around, place) = (k.of(ROOT), k.of(AROUND), k.of(WHERE));
        let mut rest = k.0;
        let mut len = 0;
        while rest >= (LINK.len() as u64).pow(len) {
            rest -= (LINK.len() as u64).pow(len);
            len += 1;
        }
        let mut k = Pick(rest);
        let chain: String = std::iter::once(root).chain((0..len).map(|_| k.of(LINK))).collect();
        let around = if place.contains("super() #") { around.replace("return %", "{ p(%) return }") } else { around.to_string() };
        format!("fn k(x) {{ null }} class A {{ fn new(self) {{ self.v = null self.a = self }} fn m(self) {{ p(self) self }} }} {}", place.replace('#', &around.replace('%', &chain)))
    })
}

// ---- every construct in every place --------------------------------------------------------------------------------------

const GRAFT_PLACES: &[&str] = &[
    "p(%)", "p(@, %, @)", "let y = % p(y)", "x = % p(x)", "x += % p(x)", "g.a = % p(g.a)", "g.a -= % p(g.a)", "g[%] = @", "l[0] = % p(l)", "l[1] *= % p(l)", "p(l[%])", "p((%).a)", "p((%)?.a)", "p((%)(@))", "p(g.k(%, @))", "p(g?.k(@, %))", "p((%)[0])",
    "p(-(%))", "p(!(%))", "p((%) + @)", "p(@ * (%))", "p((%) == x)", "p(x < (%))", "p((%) && c())", "p(true && (%))", "p(c() || (%))", "p((%) || c())", "p((%) ?? @)", "p(n(null, 1) ?? (%))", "p((%) |> p)", "p(x |> (%))", "p((%) is Int)", "p((%) is Any?)",
    "if (%) { p(@) } else { p(@) }", "p(if c() { % } else { @ })", "p(if c() { @ } else { % })", "p(if c() { % })", "p(if c() { @ } else if c() { % } else { @ })", "if c() { % } p(@)", "while { % c() } { p(@) }", "while c() { % } p(@)", "loop { % if c() { break } p(@) }", "for i in (%) { p(i) }", "for i in (%) .. 3 { p(i) }", "for i in 0 ..= (%) { p(i) }",
    "for i in it(2) { % p(i) }", "for i in 1 .. 3 { p(i) % }", "{ % } p(@)", "p({ let b = @ % })", "p({ let b = % b })", "if c() { return % } p(@)", "p(ok((%)))", "p(er(@) or e { % })", "p(ok((%)) or e { p(e) })", "p((%) or e { p(e) })", "p((%)!!)", "p([%, @])", "p([@, %])", "p(#{ a: %, b: @ })", "p(#{ a: @, b: % })",
    "p((|z| %)(@))", "g.a = || % p(g.a())", "p((|z| { p(z) % })(@))", "fn h(z) { % } p(h(@))", "fn h(z: Int?) -> Any? { % } p(h(@))", "class H { fn new(self, z) { self.a = % } } p(H(@))", "class H { fn m(self) { p(self) % } } p(H().m())", "let { a, z } = % p(a, z)", "let { a } = ob(%) p(a)", "let mut y = % y = (|| { y += @ y })() p(y)", "p(self.m((%)))", "p(super.m(%))", "p(super[A].m(@, %))", "p(super(%))", "{ % }",
];

const GRAFT_KINDS: &[&str] = &[
    "x", "q", "@", "1.5", "false", "null", "()", "\"s\"", "p(@)", "c()", "g.a", "g?.z", "n(g, null)?.f(@).a", "g.k(@, null)", "g[\"a\"]", "l[0]", "g", "l", "[@]", "[]", "#{ a: @ }", "#{}", "|| x", "|v| x + v", "|| { x += 1 x }", "(-x)", "(!c())", "(x + @)", "(x * p(@))", "(x == q)", "(c() && c())", "(c() || c())", "(n(null, @) ?? x)", "(@ |> p)", "1 .. 3",
    "(foo is Foo)", "(x is Foo?)", "(x = @)", "(x += @)", "(g.a = @)", "(l[0] -= @)", "{ let w = @ }", "{ let w = @ w }", "{ let { a } = g a }", "{}", "{ p(@) p(@) }", "if c() { @ }", "if c() { @ } else { x }", "ok(@)!!", "n(ok(@), er(@))!!", "(er(@) or e { e })", "(n(ok(@), er(@)) or e { p(e) q })", "{ return @ }", "{ if c() { return x } @ }", "{ break }", "{ if c() { continue } @ }",
    "{ loop { p(@) if c() { break } } }", "{ while c() { x += 1 } }", "{ for w in it(2) { p(w) } @ }", "{ for w in 0 .. 2 { x += w } x }", "{ fn k(z) { p(z) x } k(@) }", "{ class K { fn m(self) { x } } K().m() }", "{ class K : Foo { } K() }", "{ import { a } from \"m\" a }", "{ import * as w from \"m\" w.b }", "self", "super.m(@)", "super[A].m", "super(@)", "self.m", "{ op -(s, t) { p(s, t) } x - @ }", "(p)(@)", "foo", "Foo", "it(2)", "ok(x)", "p(p(@), p(@))",
];

/// Every construct in every place of every construct, and that in every place again, in the given surroundings.
pub fn grafts(name: &'static str, around: &'static [&'static str], depth: u32, choices: usize) -> Family {
    grafts_of(name, GRAFT_KINDS, around, depth, choices, false)
}

pub fn grafts_of(name: &'static str, kinds: &'static [&'static str], around: &'static [&'static str], depth: u32, choices: usize, module: bool) -> Family {
    let (p, k) = (GRAFT_PLACES.len() as u64, kinds.len() as u64);
    // The outermost place is a statement of the surroundings; the ones further in are expressions.
    let total = k * p.pow(depth) * around.len() as u64;
    let about = format!("each of {k} constructs in each of {p} places, {}, in {} surroundings", if depth > 1 { "the whole in each of them again" } else { "once" }, around.len());
    family(name, about, total, module, choices, 1200, move |i| {
        let mut n = Pick(i);
        let a = n.of(around);
        let mut t = n.of(kinds).to_string();
        for d in 0..depth {
            t = n.of(GRAFT_PLACES).replace('%', &t);
            if d + 1 < depth {
                t = format!("{{ {t} }}");
            }
        }
        number(&a.replace('%', &t))
    })
}

/// Surroundings by what they are about.
pub const PLAIN: &[&str] = &["let q = @ let mut x = @ let l = ls(@, @) % p(x, q, l)", "fn f(q) { let mut x = @ let l = ls(@, @) % p(x, q, l) } p(@, f(@), @)"];
pub const LOOPED: &[&str] = &["fn f(q) { let mut x = @ let l = ls(@, @) for i in it(2) { % p(x, q, l) } p(x) } p(@, f(@), @)", "let q = @ let mut x = @ let l = ls(@, @) loop { p(@, { let mut r = @ % r }) p(x, q, l) if c() { break } }"];
pub const CLOSED: &[&str] = &["let mut x = @ let l = ls(@, @) let f = |q| { % p(x, q, l) } p(@, f(@), @) p(x)", "fn t(q) { let mut x = @ let l = ls(@, @) g.a = || { % p(x, q, l) } || x } p(t(@)()) p(g.a())"];
pub const OF_CLASS: &[&str] = &[
    "class A { fn new(self, v) { self.v = v } fn m(self, v) { p(\"A\", v) } } class B : A { fn new(self, q) { super(q) let mut x = @ let l = ls(@, @) % p(x, q, l) } } p(@, B(@), @)",
    "class A { fn m(self, v) { p(\"A\", v) } } class B : A { fn m(self, q) { let mut x = @ let l = ls(@, @) % p(x, q, l) } } p(@, B().m(@), @)",
    "class A { fn m(self, v) { p(\"A\", v) } } class B : A { op +(self, q) { let mut x = @ let l = ls(@, @) (|z| { % p(x, q, l, z) })(@) } } p(@, B() + @, @)",
];
pub const FAILING: &[&str] = &["fn f(q) { let mut x = ok(@) let l = ls(ok(@), null) p(er(@) or e { % p(e) }) p(x, q, l) x!! } p(@, f(er(@)), @)", "let l = ls(g, @) fn f(q) { let mut x = n(ok(@), er(@))!! p(g?.k({ % p(x, q) q }, @)?.a) p(l) null?.z } p(@, f(n(g, null)), @)"];
pub const TYPED: &[&str] = &["fn f(q: Any?) -> Int? { let mut x = @ let l = ls(@, @) % p(x, q, l) x } p(@, f(null), @)", "class A { fn m(self, q: Int) -> A { let mut x = @ let l = ls(@, @) % p(x, q, l) self } } p(@, A().m(@), @)"];

/// Uses of names, allowed or not.
pub const NAME_KINDS: &[&str] = &[
    "(q = @)", "(q += @)", "(x = @)", "(nowhere = @)", "(nowhere += @)", "nowhere", "{ let q = @ q = @ }", "{ let mut q = @ q = @ }", "{ q = @ let mut q = @ }", "{ fn k() { } fn k() { } }", "{ let k = @ fn k() { } }", "{ class k { } fn k() { } }", "{ class k { } class k { } }", "{ k() fn k() { } }", "{ K() class K { } }",
    "{ fn k() { k() } }", "{ fn k() { j() } fn j() { } }", "{ let k = @ let k = @ }", "{ fn k() { } let k = @ }", "{ for k in it(1) { k = @ } }", "{ fn k(v) { v = @ } }", "(|v| { v = @ })(@)", "(er(@) or e { e = @ })", "{ import { k } from \"m\" k = @ }", "{ let { k } = g k = @ }", "{ let mut { k } = g k = @ }", "{ fn q() { } }", "{ class x { } }", "{ fn k() { } k = @ }",
    "{ class K { } K = @ }", "(p(@) = @)", "((x) = @)", "(l[0] = @)", "(|| { q = @ })", "{ { let q = @ } q = @ }", "{ { fn k() { } } fn k() { } }", "{ let k = @ { fn k() { } } }", "(self = @)", "(g = @)", "{ fn k(p: nowhere) { } }", "{ class K : nowhere { } }", "(x is nowhere)",
];
/// Constructs with a place of their own, in it or not.
pub const PLACE_KINDS: &[&str] = &[
    "{ break }", "{ continue }", "{ return }", "{ return @ }", "er(@)!!", "super", "super.m(@)", "super(@)", "super()", "super[A].m", "{ export x }", "{ export let k = @ }", "{ export fn k() { } }", "{ export class K { } }", "(|| { return @ })", "(|| { break })", "(|| er(@)!!)", "(|| super.m(@))", "{ fn k(v, v) { } }", "(|v, v| @)", "{ fn k() { continue } }", "{ fn k() { super.m() } }",
    "{ loop { break } }", "{ loop { (|| { break })() } }", "{ class K { fn new() { } } }", "{ class K { fn new(self) -> Int { } } }", "{ class K { fn new(self) { return @ } } }", "{ class K : Foo { fn new(self) { } } }", "{ class K : Foo { fn new(self) { super() } } }", "{ class K { fn m(self) { super.m() } } }", "{ class K { fn m() { super.m() } } }",
    "{ class K { fn m(self: Int) { } } }", "{ class K { op +(v) { } } }", "{ class K { op +(self, v) { return v } } }", "{ op +(v, v) { } }", "{ op +(u, v) { return super } }", "{ class K { fn new(self) { ok(@)!! } } }", "{ class K { fn new(self) { if c() { return } } } }", "{ fn new(self) -> Int { return @ } }", "{ class K : Foo { fn new(self) { { super() } } } }", "{ class K { fn new(self) { super() } } }",
    "{ class K { fn new(self) { (|| { return @ })() } } }", "{ fn k(self) { self } }", "{ class K { fn m(v, self: Int) { } } }",
];

// ---- names ---------------------------------------------------------------------------------------------------------------

const PAIRED: &[&str] = &[
    "let mut A = @ let mut B = @ p(A, B) A = @ p(A, B) B += @ p(A, B)", "fn A() { @ } fn B() { @ } p(A(), B())", "fn f(A, B) { || p(A, B) } p(f(@, @)())", "let A = @ fn f() { let mut B = @ || { B += A p(A, B) } } f()()", "let mut A = @ fn f(B) { A = B || { A += @ p(A, B) } } p(f(@)()) p(A)",
    "class A { fn m(self) { @ } } class B { fn m(self) { @ } } p(A().m(), B().m()) p(A() is A, A() is B, B() is A)", "let o = #{ A: @, B: @ } p(o.A, o.B) o.A = @ p(o) o.B += @ p(o)", "p(\"A\", \"B\", \"A\" == \"B\", #{ \"A\": @, B: @ })", "class K { fn A(self) { @ } fn B(self) { @ } } p(K().A(), K().B())",
    "class K { fn A() { @ } fn B(self) { @ } } p(K.A()) p(K().B(), K.B)", "let { A, B } = #{ A: @, B: @ } p(A, B)", "for A in it(2) { for B in 0 .. 2 { p(A, B) } }", "class A { } class B { } fn f(x: A, y: B?) -> A { x } p(f(A(), null)) p(f(A(), B())) p(f(B(), null))", "p(er(@) or A { er(@) or B { p(A, B) } })",
    "class K { fn A(self) { p(@) } fn B(self) { p(@) } } class L : K { fn A(self) { super.B() } fn B(self) { super[K].A() } } p(L().A(), L().B())", "import { A, B } from \"m\" p(A, B)", "import * as A from \"m\" import { B } from \"n\" p(A, B)", "let A = @ { let B = @ p(A, B) } p(A)", "let f = |A| { |B| { p(A, B) } } f(@)(@)",
    "fn f() { p(A()) fn B() { @ } B() } fn A() { @ } f()", "p(g?.A, g?.B) g.A = @ g.B = @ p(g?.A, g?.B)", "export let A = @ export fn B() { A }", "let mut A = @ fn B() { A } export A export B A = @", "import { A } from \"A\" import { B } from \"B\" p(A, B)", "fn A() { fn B() { @ } B } p(A()())",
];

/// Pairs of names that are nearly the same, or mean something elsewhere, in every role.
pub fn names_paired(module: bool) -> Family {
    names_in(if module { "names in modules" } else { "names" }, PAIRED, module)
}

/// The same, in roles of fields, members and types.
pub const FIELDS: &[&str] = &[
    "let o = #{ A: @, B: @ } p(o.A, o.B) o.A = @ p(o) o.B += @ p(o)", "p(\"A\", \"B\", \"A\" == \"B\", #{ \"A\": @, B: @ })", "let { A, B } = #{ A: @, B: @ } p(A, B)", "p(g?.A, g?.B) g.A = @ g.B = @ p(g?.A, g?.B)", "let o = #{ A: #{ B: @ } } p(o.A.B) o.A.B += @ p(o?.A?.B)", "p(o[\"A\"], \"A B\", \"AB\", \"A\" + \"B\")",
];
pub const MEMBERS: &[&str] = &[
    "class A { fn m(self) { @ } } class B { fn m(self) { @ } } p(A().m(), B().m()) p(A() is A, A() is B, B() is A)", "class K { fn A(self) { @ } fn B(self) { @ } } p(K().A(), K().B())", "class K { fn A() { @ } fn B(self) { @ } } p(K.A()) p(K().B(), K.B)", "class K { fn A(self) { p(@) } fn B(self) { p(@) } } class L : K { fn A(self) { super.B() } fn B(self) { super[K].A() } } p(L().A(), L().B())",
    "class A { fn m(self) { @ } } class B : A { fn m(self) { p(super.m()) super[A].m() } } p(B().m(), B() is A)", "class A { fn new(self) { self.B = @ } fn B() { @ } } p(A.B(), A().B)", "class K { fn A(self) { self.B(@) } fn B(self, v) { v } } p(K().A())", "class K { class A { fn m() { @ } } class B : A { fn m() { @ } } } p(K.A, K)", "class K { fn A(self, B) { || p(self, B) } } K().A(@)()",
];
pub const TYPES: &[&str] = &[
    "class A { } class B { } fn f(x: A, y: B?) -> A { x } p(f(A(), null)) p(f(A(), B())) p(f(B(), null))", "class A { } class B { } fn f(x) -> A { x } p(f(A())) p(f(B()))", "class A { } class B { } fn f(x: A?) -> B? { null } p(f(null)) p(f(A())) p(f(B()))", "fn f(A: Int, B: Int) -> Int { A + B } p(f(@, @)) p(f(@, null))", "class A { } fn f(B: A) { p(B is A) } f(A()) f(@)", "class A { op *(self, B: A) -> A { B } } p(A() * A()) p(A() * @)", "let A = Int p(@ is A) fn f(B: A) { B } p(f(@)) p(f(null))",
];
pub const ERRORS: &[&str] = &["p(er(@) or A { er(@) or B { p(A, B) } })", "p(g?.A, g?.B, g?.A?.B)", "fn f(A) { let B = A!! p(A, B) } p(f(ok(@))) p(f(er(@)))", "p(null?.A.B(@)) p(g?.A(@)?.B)", "p(er(@) or A { p(A) } or B { p(B) })", "er(@) or A { A = @ er(A) or B { p(A, B) } }"];

pub fn names_in(name: &'static str, forms: &'static [&'static str], module: bool) -> Family {
    let mut names: Vec<String> = "a A b _ __ _a a_ a0 a1 a00 O0 OO l I l1 ll aa aaa ab ba aab abb self new add mul eq iter next value is_done is_ok result to_string Any Int Foo Class Object Module ok er it iff elsewhere letx lets fnx fn1 classy orx or_ isx nullx true_ truethy e1 E1 inc superb selfish returns __proto__ anonymous __anonymous_fn main script module export_".split(' ').map(String::from).collect();
    for n in [7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300] {
        names.push(format!("{}a", "x".repeat(n)));
        names.push(format!("{}b", "x".repeat(n)));
        names.push(format!("a{}", "x".repeat(n)));
        names.push("x".repeat(n));
    }
    let (n, f) = (names.len() as u64, forms.len() as u64);
    let about = format!("every ordered pair of {n} names, among them near duplicates, names with a meaning elsewhere and long ones, in {f} pairs of roles");
    family(name, about, n * n * f, module, 2, 900, move |i| {
        let mut k = Pick(i);
        let form = k.of(forms);
        let (a, b) = (&names[k.n(names.len())], &names[k.n(names.len())]);
        // Single capitals that stand alone are the two names.
        let mut t = String::new();
        let c: Vec<char> = form.chars().collect();
        for (i, x) in c.iter().enumerate() {
            let word = |j: usize| c.get(j).map_or(false, |x| x.is_alphanumeric() || *x == '_');
            match x {
                'A' | 'B' if !(i > 0 && word(i - 1)) && !word(i + 1) => t.push_str(if *x == 'A' { a } else { b }),
                _ => t.push(*x),
            }
        }
        number(&t)
    })
}

// ---- every statement after every other -------------------------------------------------------------------------------------

/// Statements that declare, use, capture, leave: what one leaves behind, the next ones meet.
const STATEMENTS: &[&str] = &[
    "let w = @", "let mut w = @ w += @", "let mut v$ = @ v$ -= w p(v$)", "p(w)", "w = @", "w += @", "g.a = || { w += 1 w }", "p(g.a())", "g.b = |v| { w = v }", "g.b(@)", "{ let w = @ g.a = || w }", "{ let mut w = @ g.a = || { w += 1 w } w = @ p(w) }",
    "for i in it(2) { g.a = || i }", "for w in 0 .. 2 { g.a = || w p(w) }", "loop { let w = @ g.a = || w if c() { break } }", "while c() { w += 1 }", "for i in it(2) { let w = i if c() { continue } p(w) }", "fn k$(z) { w += z w } p(k$(@))", "fn k$() { let mut w = @ || { w += 1 w } } g.a = k$()", "fn k$() { k$ } p(k$)",
    "class K$ { fn m(self) { w } } p(K$().m())", "class K$ { fn new(self) { self.v = w } fn s() { w } } g.a = K$.s", "class K$ : Foo { fn m(self) { super.m(w) w } } g.b = K$()", "let { a, b } = g p(a)", "let { w } = ob(@)", "let mut { w } = g w += @", "p(er(@) or e { p(e) w })", "let w = ok(@) or e { e }", "p(n(g, null)?.a.b(@))", "p(w?.a, w)",
    "if c() { let w = @ p(w) } else { let w = @ g.a = || w }", "if c() { return w }", "if c() { break }", "if c() { continue }", "n(ok(@), er(@))!!", "let w = n(ok(@), er(@))!!", "op -(s, t) { p(s, t) w } p(w - @)", "super.m(w)", "super(w)", "self.v = w", "p(self.v)", "g.a = || self", "g.a = || super.m(w)",
    "p([w, w = @, w])", "p(#{ w: w, a: @ })", "p({ let w = @ { let w = @ p(w) } w })", "l[0] = w", "p(w == @ && c() || w < @)", "p(n(null, @) ?? w)", "p(w |> p)", "p(w is Int, w is Foo?)", "for w in w .. 2 { p(w) }", "p((|w| { |z| w + z })(@)(@))", "{ import { a, w } from \"m\" p(a, w) }", "import { a } from \"m\" p(a)", "import * as w from \"n\" p(w)",
    "let h$ = |z| { if c() { return z } w } p(h$(@))", "fn k$(z: Int?) -> Int? { w } p(k$(@))", "{}", "()",
];
const PUBLISHED: &[&str] = &["export w", "export let x$ = w", "export let mut y = @ g.a = || { y += 1 y }", "export fn k$() { w }", "export class K$ { fn m(self) { w } }", "let w = @ export w", "fn k$() { w } export k$"];

/// Every sequence of statements in surroundings of a subject.
pub fn sequences(name: &'static str, around: &'static [&'static str], length: u32, choices: usize, module: bool) -> Family {
    let mut list: Vec<&'static str> = STATEMENTS.to_vec();
    if module {
        list.extend(PUBLISHED);
    }
    let n = list.len() as u64;
    let about = format!("every sequence of {length} of {n} statements that declare, capture, use and leave, in {} surroundings", around.len());
    family(name, about, n.pow(length) * around.len() as u64, module, choices, 900, move |i| {
        let mut k = Pick(i);
        let a = k.of(around);
        let t: Vec<String> = (0..length).map(|j| k.of(&list).replace('$', &j.to_string())).collect();
        number(&a.replace('%', &t.join(" ")))
    })
}

pub const SEQ_PLAIN: &[&str] = &["let q = @ let mut w = @ let l = ls(@, @) % p(w, q, l) p(g.a, g.b)", "fn f(q) { let mut w = @ let l = ls(@, @) % p(w, q, l) w } p(f(@), g.a(), f(@), g.a())"];
pub const SEQ_LOOPED: &[&str] = &["fn f(q) { let mut w = @ let l = ls(@, @) for j in it(2) { let u = @ % p(j, u) } p(w, q, l) } p(@, f(@), @)", "let mut w = @ let l = ls(@, @) loop { let q = w % p(w, q, l) if c() { break } } p(w, g.a())"];
pub const SEQ_CLOSED: &[&str] = &["fn t(q) { let mut w = @ let l = ls(@, @) g.a = || { let o = @ % p(w, q, l, o) } || { w += 1 w } } p(t(@)(), g.a(), g.a())", "let mut w = @ let l = ls(@, @) { let q = @ (|u| { p(u) (|o| { % p(w, q, l, u, o) })(@) p(u) })(@) } p(w)"];
pub const SEQ_OF_CLASS: &[&str] = &[
    "class A { fn new(self, v) { self.v = v } fn m(self, v) { p(\"A\", v) } } class B : A { fn new(self, q) { super(q) let mut w = @ let l = ls(@, @) % p(w, q, l) } } p(@, B(@), @)",
    "class A { fn m(self, v) { p(\"A\", v) } } { class B : A { fn m(self, q) { let mut w = @ let l = ls(@, @) % p(w, q, l) w } } let z = @ p(z, B().m(@), z) }",
];
pub const SEQ_TYPED: &[&str] = &["fn f(q: Any?) -> Int? { let mut w = @ let l = ls(@, @) % p(w, q, l) w } p(@, f(null), @)", "class A { fn m(self, q: Int) -> A { let mut w = @ let l = ls(@, @) % p(w, q, l) self } } p(@, A().m(@), @)"];
pub const SEQ_MODULE: &[&str] = &["let mut w = @ let l = ls(@, @) % p(w, l)"];

// ---- constructs amid many things -------------------------------------------------------------------------------------------

/// Surroundings of which there are n of something: the text, how large n may be, and what it is about.
pub struct Many {
    pub about: &'static str,
    pub most: usize,
    pub text: fn(usize) -> String,
}

fn times(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect()
}

const CHEAP: &[&str] = &["0", "1", "true", "false", "null", "()", "0.0", "1.0"];

fn variables(n: usize) -> String {
    times(n, |i| if i < 2 || i + 2 >= n { format!("let v{i} = {} ", 500 + i) } else { format!("let v{i} = {} ", CHEAP[i % 8]) })
}

fn last(n: usize) -> String {
    if n == 0 { String::new() } else { format!("p(v0, v{}, v{}) ", n / 2, n - 1) }
}

macro_rules! many {
    ($about:expr, $most:expr, |$n:ident| $text:expr) => {
        Many { about: $about, most: $most, text: |$n: usize| $text }
    };
}

const HEAD: &str = "let mut x = @ let l = ls(@, @) ";

pub const MANY_PLAIN: &[Many] = &[
    many!("statements before", 200, |n| format!("let q = @ {HEAD}{} % p(x, q, l)", times(n, |i| format!("{} ", CHEAP[i % 8])))),
    many!("constants before", 200, |n| format!("let q = @ {HEAD}{} % p(x, q, l)", times(n, |i| format!("l[{}] ", i + 500)))),
    many!("operands pending", 200, |n| format!("fn f(q) {{ {HEAD} p({} {{ % q }}, x) p(l) }} f(@)", times(n, |i| format!("{}, ", CHEAP[i % 8])))),
    many!("calls pending", 65, |n| format!("fn f(q) {{ {HEAD} {} {{ % q }} {} p(x, l) }} f(@)", "p(1, ".repeat(n), ")".repeat(n))),
    many!("sums pending", 65, |n| format!("let q = @ {HEAD} p({} {{ % 7 }} {}) p(x, l, q)", "1 + (".repeat(n), ")".repeat(n))),
    many!("lists and objects around", 65, |n| format!("let q = @ {HEAD} p({} {{ % 7 }} {}) p(x, l, q)", times(n, |i| ["[1, ", "#{ a: 1, b: "][i % 2].into()), times(n, |i| ["]", "}"][(n - 1 - i) % 2].into()))),
    many!("conditionals around", 65, |n| format!("let q = @ {HEAD} {} % {} p(x, q, l)", "if true { ".repeat(n), "} ".repeat(n))),
    many!("conditionals before", 65, |n| format!("let q = @ {HEAD} {} % p(x, q, l)", times(n, |i| format!("if {} {{ 1 }} ", ["true", "false"][i % 2])))),
    many!("assignments before", 100, |n| format!("let q = @ {HEAD} {} % p(x, q, l)", "x += 1 ".repeat(n))),
    many!("of the same thing in a row", 33, |n| format!("let q = @ {HEAD} {} p(x, q, l)", "{ % } ".repeat(n))),
];

pub const MANY_LOOPED: &[Many] = &[
    many!("iterator loops around", 17, |n| format!("fn f(q) {{ {HEAD} {} % {} p(x, q, l) }} p(f(@))", times(n, |i| format!("for i{i} in it(1) {{ ")), "} ".repeat(n))),
    many!("range loops around", 17, |n| format!("fn f(q) {{ {HEAD} {} % {} p(x, q, l) }} p(f(@))", times(n, |i| format!("for i{i} in 0 .. 1 {{ ")), "} ".repeat(n))),
    many!("endless loops around", 65, |n| format!("let q = @ {HEAD} {} % {} p(x, q, l)", "loop { ".repeat(n), "break } ".repeat(n))),
    many!("while loops around", 33, |n| format!("let q = @ {HEAD} {} % {} p(x, q, l)", "while x != 77 { ".repeat(n), "x = 77 } ".repeat(n))),
    many!("loops before", 100, |n| format!("let q = @ {HEAD} {} for i in it(2) {{ % }} p(x, q, l)", times(n, |i| ["for i in 0 .. 1 { i } ", "while false { } ", "loop { break } ", "for i in it(1) { continue } "][i % 4].into()))),
    many!("breaks before", 100, |n| format!("let q = @ {HEAD} loop {{ {} % break }} p(x, q, l)", "if false { break } ".repeat(n))),
    many!("continues before", 100, |n| format!("let q = @ {HEAD} for i in it(2) {{ {} % }} p(x, q, l)", "if false { continue } ".repeat(n))),
    many!("variables before a loop", 200, |n| format!("let q = @ {HEAD} {} for i in it(2) {{ % }} p(x, q, l) {}", variables(n), last(n))),
    many!("variables of a loop", 200, |n| format!("let q = @ {HEAD} for i in it(2) {{ {} % {} }} p(x, q, l)", variables(n), last(n))),
    many!("variables of a range loop that are captured", 65, |n| format!("let q = @ {HEAD} for i in 0 .. 2 {{ {} {} % {} }} p(x, q, l)", variables(n), times(n, |i| format!("let h = || v{i} ")), last(n))),
    many!("operands pending at a loop", 100, |n| format!("fn f(q) {{ {HEAD} p({} {{ for i in it(2) {{ % }} q }}, x) p(l) }} f(@)", times(n, |i| format!("{}, ", CHEAP[i % 8])))),
    many!("operands pending in a loop", 100, |n| format!("fn f(q) {{ {HEAD} for i in it(2) {{ p({} {{ % i }}, x) }} p(l) }} f(@)", times(n, |i| format!("{}, ", CHEAP[i % 8])))),
    many!("blocks inside a loop", 65, |n| format!("let q = @ {HEAD} for i in it(2) {{ {} % {} }} p(x, q, l)", times(n, |i| format!("{{ let v{i} = i ")), "} ".repeat(n))),
];

pub const MANY_CLOSED: &[Many] = &[
    many!("variables before", 200, |n| format!("let q = @ {HEAD}{} % p(x, q, l) {}", variables(n), last(n))),
    many!("variables of a function", 200, |n| format!("fn f(q) {{ {}{HEAD} % p(x, q, l) {} }} p(f(@))", variables(n), last(n))),
    many!("parameters", 200, |n| format!("let f = |{} q| {{ {HEAD} % p(x, q, l) {} }} p(f({} @))", times(n, |i| format!("v{i}, ")), last(n), times(n, |i| format!("{}, ", CHEAP[i % 8])))),
    many!("variables captured", 129, |n| format!("let q = @ {HEAD}{} let f = || {{ {} % {} }} p(f(), x, q, l)", variables(n), times(n, |i| format!("v{i} ")), last(n))),
    many!("variables captured and closed", 129, |n| format!("fn t(q) {{ {HEAD}{} || {{ {} % {} p(x, q, l) }} }} p(t(@)())", variables(n), times(n, |i| format!("v{i} ")), last(n))),
    many!("variables captured from further out", 65, |n| format!("let q = @ {HEAD}{} let f = || {{ let w = @ || {{ {} p(w) % {} }} }} p(f()(), x, q, l)", variables(n), times(n, |i| format!("v{i} ")), last(n))),
    many!("functions around", 33, |n| format!("let q = @ {HEAD} p({} {{ % x }} {}) p(x, q, l)", "(|| ".repeat(n), ")()".repeat(n))),
    many!("functions with variables around", 17, |n| format!("let q = @ {HEAD} {} % {} p(x, q, l)", times(n, |i| format!("(|a{i}| {{ let b{i} = a{i} ")), times(n, |i| format!(" p(a{0}, b{0}) }})(@) ", n - 1 - i)))),
    many!("functions before", 100, |n| format!("let q = @ {HEAD} {} % p(x, q, l)", times(n, |i| format!("fn f{i}() {{ {} }} ", CHEAP[i % 8])))),
    many!("functions that capture before", 100, |n| format!("let q = @ {HEAD} {} % p(x, q, l)", times(n, |i| format!("|| x + {} ", CHEAP[i % 8])))),
    many!("functions that capture before, called", 33, |n| format!("fn f(q) {{ {HEAD} {} % p(x, q, l) }} f(@)", "(|| { x += 1 })() ".repeat(n))),
    many!("blocks with variables around", 65, |n| format!("let q = @ {HEAD} {} % {} p(x, q, l)", times(n, |i| format!("{{ let v{i} = {} ", CHEAP[i % 8])), "} ".repeat(n))),
    many!("blocks with variables before", 100, |n| format!("let q = @ {HEAD} {} % p(x, q, l)", times(n, |i| format!("{{ let v{i} = {} || v{i} }} ", CHEAP[i % 8])))),
    many!("of the same thing in functions in a row", 17, |n| format!("let q = @ {HEAD} {} p(x, q, l)", "(|| { % })() ".repeat(n))),
];

pub const MANY_OF_CLASS: &[Many] = &[
    many!("methods before", 65, |n| format!("class A {{ {} fn m(self, q) {{ {HEAD} % p(x, q, l) }} }} p(A().m(@))", times(n, |i| format!("fn m{i}(self) {{ {} }} ", CHEAP[i % 8])))),
    many!("methods behind", 65, |n| format!("class A {{ fn m(self, q) {{ {HEAD} % p(x, q, l) }} {} }} p(A().m(@))", times(n, |i| format!("fn m{i}(self) {{ {} }} ", CHEAP[i % 8])))),
    many!("static functions before a constructor", 65, |n| format!("class A {{ fn m(self, v) {{ v }} }} class B : A {{ {} fn new(self, q) {{ super() {HEAD} % p(x, q, l) }} }} p(B(@))", times(n, |i| format!("fn m{i}() {{ {} }} ", CHEAP[i % 8])))),
    many!("classes before", 65, |n| format!("{} class A {{ fn m(self, q) {{ {HEAD} % p(x, q, l) }} }} p(A().m(@))", times(n, |i| format!("class C{i} {{ }} ")))),
    many!("derived classes before", 33, |n| format!("class C0 {{ fn m(self, v) {{ v }} }} {} class A : C{n} {{ fn m(self, q) {{ {HEAD} % p(x, q, l) }} }} p(A().m(@))", times(n, |i| format!("class C{} : C{i} {{ }} ", i + 1)))),
    many!("classes around", 17, |n| format!("{} class A {{ fn m(self, q) {{ {HEAD} % p(x, q, l) }} }} p(A().m(@)) {} ", times(n, |i| format!("class C{i} {{ fn m(self, v) {{ ")), times(n, |i| format!("}} }} p(C{}().m(@)) ", n - 1 - i)))),
    many!("variables of a method", 200, |n| format!("class A {{ fn m(self, q) {{ {}{HEAD} % p(x, q, l) {} }} }} p(A().m(@))", variables(n), last(n))),
    many!("arguments to a parent constructor", 100, |n| format!("class A {{ fn new(self{}) {{ {} }} fn m(self, v) {{ v }} }} class B : A {{ fn new(self, q) {{ super({}) {HEAD} % p(x, q, l) }} }} p(B(@))", times(n, |i| format!(", v{i}")), last(n), (0..n).map(|i| CHEAP[i % 8]).collect::<Vec<_>>().join(", "))),
];

pub const MANY_FAILING: &[Many] = &[
    many!("links before", 100, |n| format!("fn f(q) {{ {HEAD} p(g{}.k({{ % q }})?.a) p(x, l) q!! }} p(f(ok(@))) p(f(er(@)))", "?.g".repeat(n))),
    many!("links behind", 100, |n| format!("fn f(q) {{ {HEAD} p(g?.k({{ % q }}){}) p(x, l) q!! }} p(f(ok(@))) p(f(er(@)))", "?.a".repeat(n))),
    many!("results before", 65, |n| format!("fn f(q) {{ {HEAD} {} % p(x, l) q!! }} p(f(ok(@))) p(f(er(@)))", times(n, |i| format!("ok({})!! ", CHEAP[i % 8])))),
    many!("handlers before", 65, |n| format!("fn f(q) {{ {HEAD} {} % p(x, l) q!! }} p(f(ok(@))) p(f(er(@)))", times(n, |i| format!("p({}({}) or e {{ e }}) ", ["ok", "er"][i % 2], CHEAP[i % 8])))),
    many!("handlers around", 17, |n| format!("fn f(q) {{ {HEAD} {} % {} p(x, l) q!! }} p(f(ok(@))) p(f(er(@)))", "p(er(1) or e { ".repeat(n), "}) ".repeat(n))),
    many!("defaults around", 65, |n| format!("fn f(q) {{ {HEAD} p({} {{ % null }} {}) p(x, l) q!! }} p(f(ok(@))) p(f(er(@)))", "(".repeat(n), "?? 5)".repeat(n))),
    many!("variables and operands", 100, |n| format!("fn f(q) {{ {HEAD} {} p({} q!!, {{ % x }}) p(l) }} p(f(ok(@))) p(f(er(@)))", variables(n), times(n, |i| format!("v{i}, ")))),
];

pub const MANY_TYPED: &[Many] = &[
    many!("typed parameters before", 100, |n| format!("fn f({} q: Any?) -> Int? {{ {HEAD} % p(x, q, l) x }} p(f({} null), @)", times(n, |i| format!("v{i}: Any?, ")), times(n, |i| format!("{}, ", CHEAP[i % 8])))),
    many!("typed parameters behind", 100, |n| format!("class A {{ fn m(self, q: Int{}) -> A {{ {HEAD} % p(x, q, l) self }} }} p(@, A().m(@{}), @)", times(n, |i| format!(", v{i}: Any?")), times(n, |i| format!(", {}", CHEAP[i % 8])))),
    many!("returns before", 65, |n| format!("fn f(q: Any?) -> Int? {{ {HEAD} {} % p(x, q, l) x }} p(f(null), @)", "if false { return 1 } ".repeat(n))),
    many!("typed functions before", 65, |n| format!("{} fn f(q: Any?) -> Int? {{ {HEAD} % p(x, q, l) x }} p(f(null), @)", times(n, |i| format!("fn f{i}(a: Int?) -> Any? {{ a }} ")))),
    many!("typed functions around", 17, |n| format!("fn f(q: Any?) -> Int? {{ {HEAD} {} % {} p(x, q, l) x }} p(f(null), @)", times(n, |i| format!("fn k{i}(a{i}: Any?) -> Int? {{ ")), times(n, |i| format!(" 5 }} p(k{}({})) ", n - 1 - i, CHEAP[i % 8])))),
    many!("tests before", 65, |n| format!("fn f(q: Any?) -> Int? {{ {HEAD} {} % p(x, q, l) x }} p(f(null), @)", times(n, |i| format!("{} is {} ", ["x", "l", "5", "null"][i % 4], ["Int", "Any?", "Foo"][i % 3])))),
    many!("variables of a typed function", 200, |n| format!("fn f(q: Any?) -> Int? {{ {}{HEAD} % p(x, q, l) {} x }} p(f(null), @)", variables(n), last(n))),
];

pub const MANY_MODULE: &[Many] = &[
    many!("exports before", 65, |n| format!("let q = @ {HEAD}{} % p(x, q, l) export x", times(n, |i| format!("export let v{i} = {} ", CHEAP[i % 8])))),
    many!("exported functions before", 65, |n| format!("let q = @ {HEAD}{} % p(x, q, l) export x", times(n, |i| format!("export fn v{i}() {{ x }} ")))),
    many!("imports before", 65, |n| format!("let q = @ {HEAD}{} % p(x, q, l) export x", times(n, |i| format!("import {{ a }} from \"m{i}\" let a{i} = a ")))),
    many!("items imported before", 100, |n| format!("let q = @ {HEAD} import {{ v{} }} from \"big\" % p(x, q, l, v, v0) export x", times(n, |i| format!(", v{i}")))),
    many!("variables of a module", 200, |n| format!("let q = @ {HEAD}{} % p(x, q, l) export x {}", variables(n), last(n))),
    many!("exports of one name", 65, |n| format!("let q = @ {HEAD}{} % p(x, q, l) export x", "export x ".repeat(n))),
];

/// Every construct in every place, amid n of something.
pub fn amid(name: &'static str, around: &'static [Many], kinds: &'static [&'static str], choices: usize, module: bool) -> Family {
    let sizes = [2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 199, 200];
    let all: Vec<(&'static Many, usize)> = around.iter().flat_map(|m| sizes.iter().filter(move |n| **n <= m.most).map(move |n| (m, *n))).collect();
    let (p, k) = (GRAFT_PLACES.len() as u64, kinds.len() as u64);
    let total = k * p * all.len() as u64;
    let about = format!("each of {k} constructs in each of {p} places amid 2 to 200 of each of {} kinds of thing: {}", around.len(), around.iter().map(|m| m.about).collect::<Vec<_>>().join(", "));
    let texts: Vec<String> = all.iter().map(|(m, n)| (m.text)(*n)).collect();
    family(name, about, total, module, choices, 6000, move |i| {
        let mut n = Pick(i);
        let at = n.n(texts.len());
        let t = n.of(kinds).to_string();
        number(&texts[at].replace('%', &n.of(GRAFT_PLACES).replace('%', &t)))
    })
}

pub const KINDS: &[&str] = GRAFT_KINDS;

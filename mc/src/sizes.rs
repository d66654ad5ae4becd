//! Programs that need n of something, for n on both sides of what an operand can hold.

use std::fmt::Write as _;

pub struct Size {
    pub name: &'static str,
    /// Up to this many must be accepted.
    pub sure: usize,
    pub text: fn(usize) -> String,
}

fn rep(n: usize, f: impl Fn(usize) -> String) -> String {
    let mut s = String::new();
    for i in 0..n {
        s.push_str(&f(i));
    }
    s
}

fn list(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(", ")
}

/// Literals that need no constant.
fn lit(i: usize) -> &'static str {
    ["0", "1", "true", "false", "null", "()", "0.0", "1.0"][i % 8]
}

fn probe(n: usize, v: &str) -> String {
    let mut s = String::new();
    for i in [0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1)] {
        if i < n {
            let _ = write!(s, "p({v}{i}) ");
        }
    }
    s
}

/// Declarations of v0..v(n-1) with telling values that need few constants.
fn locals(n: usize, v: &str) -> String {
    rep(n, |i| {
        if i + 2 >= n || i < 2 || i == n / 2 {
            format!("let mut {v}{i} = {i} ")
        } else {
            format!("let mut {v}{i} = {} ", lit(i))
        }
    })
}

pub const SIZES: &[Size] = &[
    Size { name: "variables of a script", sure: 200, text: |n| format!("{}{}", locals(n, "v"), probe(n, "v")) },
    Size { name: "variables of a function", sure: 200, text: |n| format!("fn f(a) {{ {}{} p(a) }} f(77)", locals(n, "v"), probe(n, "v")) },
    Size {
        name: "parameters and variables of a function",
        sure: 200,
        text: |n| format!("fn f({}) {{ {}{}{} }} f({})", list(n / 2, |i| format!("a{i}")), locals(n - n / 2, "v"), probe(n / 2, "a"), probe(n - n / 2, "v"), list(n / 2, |i| lit(i).into())),
    },
    Size { name: "variables of a method", sure: 200, text: |n| format!("class A {{ fn m(self, a) {{ {}{} p(a, self) }} }} A().m(77)", locals(n, "v"), probe(n, "v")) },
    Size { name: "variables of a lambda", sure: 200, text: |n| format!("let f = |a| {{ {}{} p(a) }} f(77)", locals(n, "v"), probe(n, "v")) },
    Size { name: "variables assigned", sure: 200, text: |n| format!("{} v{m} = 5 v{m} += 6 {}", locals(n.max(1), "v"), probe(n.max(1), "v"), m = n.max(1) - 1) },
    Size { name: "variables of sibling blocks", sure: 200, text: |n| format!("let a = 7 {} p(a)", rep(n, |i| format!("{{ let b = {} p(b, a) }} ", lit(i)))) },
    Size { name: "names destructured", sure: 60, text: |n| format!("let o = ob(3) {} let {{ a }} = o p(a)", if n == 0 { String::new() } else { format!("let {{ {} }} = #{{ {} }} {}", list(n, |i| format!("v{i}")), list(n, |i| format!("v{i}: {}", lit(i))), probe(n, "v")) }) },
    Size { name: "same name destructured", sure: 200, text: |n| format!("let {{ {} }} = ob(3) p(a)", list(n.max(1), |_| "a".into())) },
    Size { name: "same name declared", sure: 200, text: |n| format!("{} p(v)", rep(n.max(1), |i| format!("let v = {} ", lit(i)))) },
    Size { name: "functions declared", sure: 100, text: |n| format!("{} {}", rep(n, |i| format!("fn f{i}() {{ {} }} ", lit(i))), rep(5.min(n), |i| format!("p(f{}()) ", [0, n / 2, n / 3, n - 1, n.saturating_sub(2)][i]))) },
    Size { name: "classes declared", sure: 100, text: |n| format!("{} {}", rep(n, |i| format!("class C{i} {{ }} ")), rep(5.min(n), |i| format!("p(C{}()) ", [0, n / 2, n / 3, n - 1, n.saturating_sub(2)][i]))) },
    Size { name: "items imported", sure: 80, text: |n| format!("import * as k, {{ a }} from \"m\" {} p(a, k) p(a0, a)", rep(n.max(1), |i| format!("import {{ a }} from \"m\" let a{i} = {} ", lit(i)))) },
    Size { name: "nested range loops", sure: 50, text: |n| { let n = n / 4; format!("{} p({}) {}", rep(n, |i| format!("for i{i} in 0 .. 1 {{ ")), list(n.min(200), |i| format!("i{i}")), "} ".repeat(n)) } },
    Size { name: "nested iterator loops", sure: 50, text: |n| { let n = n / 4; format!("{} p({}) {}", rep(n, |i| format!("for i{i} in it(1) {{ ")), list(n.min(200), |i| format!("i{i}")), "} ".repeat(n)) } },
    Size { name: "variables then a range loop", sure: 200, text: |n| format!("{} for i in 1 .. 3 {{ p(i) }} {}", locals(n, "v"), probe(n, "v")) },
    Size { name: "variables then an iterator loop", sure: 200, text: |n| format!("{} for i in it(2) {{ p(i) }} {}", locals(n, "v"), probe(n, "v")) },
    Size { name: "variables then or", sure: 200, text: |n| format!("{} p(n(ok(5), er(6)) or e {{ p(e) }}) {}", locals(n, "v"), probe(n, "v")) },
    Size { name: "variables then a class", sure: 200, text: |n| format!("{} class A {{ fn m(self) {{ p(self) }} }} class B : A {{ fn m(self) {{ super.m() }} }} B().m() {}", locals(n, "v"), probe(n, "v")) },
    Size { name: "variables then import", sure: 200, text: |n| format!("{} import * as k, {{ a, b }} from \"m\" p(k, a, b) {}", locals(n, "v"), probe(n, "v")) },
    Size { name: "integer constants", sure: 200, text: |n| rep(n, |i| format!("p({}) ", i + 2)) },
    Size { name: "integer constants in a function", sure: 200, text: |n| format!("fn f() {{ {} }} f()", rep(n, |i| format!("p({}) ", i + 2))) },
    Size { name: "float constants", sure: 200, text: |n| rep(n, |i| format!("p({}.5) ", i)) },
    Size { name: "string constants", sure: 200, text: |n| rep(n, |i| format!("p(\"s{i}\") ")) },
    Size { name: "constants of every kind", sure: 200, text: |n| rep(n, |i| match i % 4 { 0 => format!("p({}) ", i + 2), 1 => format!("p({i}.5) "), 2 => format!("p(\"s{i}\") "), _ => format!("g.f{i} = {} ", lit(i)) }) + "p(g)" },
    Size { name: "symbols, fields assigned", sure: 200, text: |n| rep(n, |i| format!("g.f{i} = {} ", lit(i))) + "p(g)" },
    Size { name: "symbols, fields read", sure: 100, text: |n| rep(n, |i| format!("g.f{i} = {} p(g.f{i}) ", lit(i))) },
    Size { name: "constants then a global", sure: 200, text: |n| rep(n, |i| format!("p({}) ", i + 2)) + "p(foo) foo" },
    Size { name: "constants then a method", sure: 200, text: |n| rep(n, |i| format!("p({}) ", i + 2)) + "class A { fn m(self) { p(self) } op +(self, x) { p(x) } } A().m() A() + p" },
    Size { name: "constants then an import", sure: 200, text: |n| rep(n, |i| format!("p({}) ", i + 2)) + "import * as k, { a } from \"m\" p(k, a)" },
    Size { name: "constants then loops", sure: 200, text: |n| rep(n, |i| format!("p({}) ", i + 2)) + "for i in it(2) { p(i) } for i in 1 .. 3 { p(i) }" },
    Size { name: "constants then !!", sure: 200, text: |n| format!("fn f(x) {{ {} x!! }} p(f(ok(4))) p(f(er(5)))", rep(n, |i| format!("p({}) ", i + 2))) },
    Size { name: "constants then closures", sure: 200, text: |n| format!("fn f(x) {{ {} let h = || p(x) fn k() {{ x }} p(k()) h() }} p(f(-9))", rep(n, |i| format!("p({}) ", i + 2))) },
    Size { name: "constants then an exported name", sure: 200, text: |n| rep(n, |i| format!("p({}) ", i + 2)) + "p(#{ zz: 1 }) g.zz += 1 p(g.zz)" },
    Size { name: "one constant, many times", sure: 200, text: |n| rep(n, |_| "p(7.5) p(\"s\") ".into()) },
    Size { name: "lambdas", sure: 100, text: |n| rep(n, |i| format!("p((|| {})()) ", lit(i))) },
    Size { name: "lambdas that capture", sure: 100, text: |n| format!("let mut x = 5 {} p(x)", rep(n, |i| format!("p((|| {{ x += 1 {} }})()) ", lit(i)))) },
    Size { name: "methods of a class", sure: 60, text: |n| format!("class A {{ {} }} let a = A() {}", rep(n, |i| format!("fn m{i}(self) {{ {} }} ", lit(i))), rep(5.min(n), |i| format!("p(a.m{}()) ", [0, n / 2, n / 3, n - 1, n.saturating_sub(2)][i]))) },
    Size { name: "object entries", sure: 200, text: |n| format!("p(#{{ {} }})", list(n, |i| format!("f{i}: {}", lit(i)))) },
    Size { name: "equal object keys", sure: 200, text: |n| format!("p(#{{ {} }})", list(n, |i| format!("f{}: {}", i % 3, lit(i)))) },
    Size { name: "list items", sure: 200, text: |n| format!("p([{}])", list(n, |i| lit(i).into())) },
    Size { name: "list of calls", sure: 200, text: |n| format!("p([{}])", list(n, |i| format!("p({})", lit(i)))) },
    Size { name: "arguments of a call", sure: 200, text: |n| format!("p({})", list(n, |i| lit(i).into())) },
    Size { name: "arguments of a method call", sure: 200, text: |n| format!("g.f({})", list(n, |i| lit(i).into())) },
    Size { name: "arguments and parameters", sure: 200, text: |n| format!("fn f({}) {{ {} }} f({})", list(n, |i| format!("v{i}")), probe(n, "v"), list(n, |i| lit(i).into())) },
    Size { name: "arguments and parameters of a lambda", sure: 200, text: |n| format!("let f = |{}| {{ {} }} f({})", list(n.max(1), |i| format!("v{i}")), probe(n.max(1), "v"), list(n.max(1), |i| lit(i).into())) },
    Size { name: "arguments and parameters of a method", sure: 200, text: |n| format!("class A {{ fn m(self{}) {{ {} }} }} A().m({})", rep(n, |i| format!(", v{i}")), probe(n, "v"), list(n, |i| lit(i).into())) },
    Size { name: "arguments and parameters of a constructor", sure: 200, text: |n| format!("class A {{ fn new(self{}) {{ {} }} }} p(A({}))", rep(n, |i| format!(", v{i}")), probe(n, "v"), list(n, |i| lit(i).into())) },
    Size { name: "arguments to the parent constructor", sure: 200, text: |n| format!("class A {{ fn new(self{}) {{ {} }} }} class B : A {{ fn new(self) {{ super({}) }} }} p(B())", rep(n, |i| format!(", v{i}")), probe(n, "v"), list(n, |i| lit(i).into())) },
    Size { name: "arguments to a parent method", sure: 200, text: |n| format!("class A {{ fn m(self{}) {{ {} }} }} class B : A {{ fn m(self) {{ super.m({}) }} }} p(B().m())", rep(n, |i| format!(", v{i}")), probe(n, "v"), list(n, |i| lit(i).into())) },
    Size { name: "typed parameters", sure: 100, text: |n| format!("fn f({}) {{ {} }} f({})", list(n, |i| format!("v{i}: Any?")), probe(n, "v"), list(n, |i| lit(i).into())) },
    Size { name: "variables captured", sure: 200, text: |n| { let h = n / 2; format!("fn t(q) {{ {} fn u(q) {{ {} let f = || {{ {} {} {}{} 0 }} f() {}{} }} u(q) }} t(9)", locals(h, "a"), locals(n - h, "b"), rep(h, |i| format!("a{i} ")), rep(n - h, |i| format!("b{i} ")), probe(h, "a"), probe(n - h, "b"), probe(h, "a"), probe(n - h, "b")) } },
    Size { name: "variables captured and assigned", sure: 200, text: |n| { let h = n / 2; format!("fn t(q) {{ {} fn u(q) {{ {} let f = || {{ {} {} }} f() {}{} }} u(q) }} t(9)", locals(h, "a"), locals(n - h, "b"), rep(h, |i| format!("a{i} = {} ", lit(i + 3))), rep(n - h, |i| format!("b{i} = {} ", lit(i + 5))), probe(h, "a"), probe(n - h, "b")) } },
    Size { name: "variables captured through a function", sure: 200, text: |n| { let h = n / 2; format!("fn t(q) {{ {} fn u(q) {{ {} let f = || {{ || {{ {} {} {}{} }} }} f()() }} u(q) }} t(9)", locals(h, "a"), locals(n - h, "b"), rep(h, |i| format!("a{i} ")), rep(n - h, |i| format!("b{i} ")), probe(h, "a"), probe(n - h, "b")) } },
    Size { name: "captured variables closed", sure: 200, text: |n| format!("fn t(q) {{ {} g.a = || {{ {} {} }} }} t(9) g.a()", locals(n, "a"), rep(n, |i| format!("a{i} ")), probe(n, "a")) },
    Size { name: "links of a call chain", sure: 200, text: |n| format!("p(g{})", ".g".repeat(n)) },
    Size { name: "null links of a call chain", sure: 200, text: |n| format!("p(g{}, g{}.z?.a)", "?.g".repeat(n), "?.g".repeat(n)) },
    Size { name: "breaks of a loop", sure: 200, text: |n| format!("let mut k = 0 loop {{ k += 1 {} p(k) break }} p(k)", "if k > 3 { break } ".repeat(n)) },
    Size { name: "continues of a loop", sure: 200, text: |n| format!("let mut k = 0 while k < 3 {{ k += 1 {} p(k) }} p(k)", "if k == 2 { continue } ".repeat(n)) },
    Size { name: "returns of a function", sure: 200, text: |n| format!("fn f(k) -> Int {{ {} p(k) k }} p(f(1)) p(f(4))", "if k > 3 { return k } ".repeat(n)) },
    Size { name: "else if branches", sure: 100, text: |n| format!("fn f(k) {{ if k == 1 {{ p(1) }} {} else {{ p(0) }} }} f(1) f({n}) f(0)", rep(n.min(250), |i| format!("else if k == {} {{ p({}) }} ", i + 2, i % 2))) },
    Size { name: "pending operands", sure: 200, text: |n| format!("p({} p(5){})", "1 + (".repeat(n.min(300)), ")".repeat(n.min(300))) },
    Size { name: "pending operands at a return", sure: 200, text: |n| format!("fn f(k) {{ {} {{ return k }}{} }} p(f(5))", "1 + (".repeat(n.min(300)), ")".repeat(n.min(300))) },
    Size { name: "pending operands at a break", sure: 200, text: |n| format!("loop {{ {} {{ break }}{} }} p(5)", "p(1 + (".repeat(n.min(300)), "))".repeat(n.min(300))) },
    Size { name: "nested blocks", sure: 200, text: |n| { let n = n.min(300); format!("let mut a = 5 {} a = 6 p(a) {} p(a)", "{ let b = a ".repeat(n), "} ".repeat(n)) } },
    Size { name: "nested lambdas", sure: 50, text: |n| { let n = n.min(300) / 4; format!("let mut a = 5 p({} {{ a += 1 a }}{})", "(|| ".repeat(n), ")()".repeat(n)) } },
];

pub const MODULE_SIZES: &[Size] = &[
    Size { name: "exported variables", sure: 60, text: |n| rep(n, |i| format!("export let v{i} = {} ", lit(i))) },
    Size { name: "one name exported", sure: 200, text: |n| format!("let a = 5 {}", "export a ".repeat(n)) },
    Size { name: "variables of a module", sure: 200, text: |n| format!("{}{} export let z = 3", locals(n, "v"), probe(n, "v")) },
    Size { name: "constants of a module", sure: 200, text: |n| rep(n, |i| format!("p({}) ", i + 2)) + "let q = 1 export q" },
];

/// More programs, for what a property says about them at every size rather than for the limits of the encoding.
pub const MORE: &[Size] = &[
    // Expressions.
    Size { name: "expression: sum", sure: 100, text: |n| format!("let mut x = 2 p(p(1){})", rep(n, |i| [" + x", " - p(5)", " + 1", " * p(2)"][i % 4].into())) },
    Size { name: "expression: && chain", sure: 100, text: |n| format!("p(true{} && c())", " && p(true)".repeat(n)) },
    Size { name: "expression: || chain", sure: 100, text: |n| format!("p(false{} || c())", " || p(false)".repeat(n)) },
    Size { name: "expression: ?? chain", sure: 100, text: |n| format!("p(null{} ?? p(5) ?? p(6))", " ?? p(null)".repeat(n)) },
    Size { name: "expression: pipeline", sure: 100, text: |n| format!("p(1{})", " |> p".repeat(n)) },
    Size { name: "expression: comparisons", sure: 100, text: |n| format!("p(1 == 1{})", rep(n, |i| [" == true", " != false", " == p(true)"][i % 3].into())) },
    Size { name: "expression: nested calls", sure: 50, text: |n| { let n = n.min(150); format!("{}5{}", "p(1, ".repeat(n), ")".repeat(n)) } },
    Size { name: "expression: nested lists and objects", sure: 50, text: |n| { let n = n.min(150); format!("p({}5{})", rep(n, |i| ["[", "#{ a: ", "[1, "][i % 3].into()), rep(n, |i| ["]", "}", "]"][(n - 1 - i) % 3].into())) } },
    Size { name: "expression: negations", sure: 50, text: |n| { let n = n.min(150); format!("p({}5, {}c())", "- ".repeat(n), "! ".repeat(n)) } },
    Size { name: "expression: nested conditionals", sure: 50, text: |n| { let n = n.min(100); format!("let r = {} p(5) {} p(r)", "if p(true) {".repeat(n), "} else { p(6) }".repeat(n)) } },
    Size { name: "expression: conditionals in a row", sure: 60, text: |n| rep(n, |i| format!("if p({}) {{ p(1) }} else {{ p(0) }} ", i % 3 == 0)) },
    Size { name: "expression: assignments in a row", sure: 60, text: |n| format!("let mut x = 0 {} p(x)", rep(n, |i| format!("x {} {} ", ["=", "+=", "-=", "*="][i % 4], 2 + i % 5))) },
    Size { name: "expression: chained assignments", sure: 60, text: |n| format!("{} {}5 {}", rep(n, |i| format!("let o{} = ob({}) ", i % 50, i % 7)), rep(n, |i| format!("o{}.a = ", i % 50)), rep(n.min(50), |i| format!("p(o{i}.a) "))) },
    Size { name: "expression: statements of a block", sure: 200, text: |n| format!("let r = {{ {} }} p(r)", rep(n, |i| format!("{} ", lit(i)))) },
    Size { name: "expression: variables read in one call", sure: 200, text: |n| format!("{} p({})", rep(n, |i| format!("let v{i} = {} ", lit(i))), list(n, |i| format!("v{i}"))) },
    Size { name: "expression: element and field updates", sure: 30, text: |n| format!("let l = ls(1, 2) {} p(l) p(g.a)", rep(n, |i| format!("l[{}] {} {} g.a += l[0] ", i % 2, ["=", "+=", "*="][i % 3], 2 + i % 4))) },
    // Loops.
    Size { name: "loop: one in another", sure: 30, text: |n| { let n = n.min(40); format!("{} p(5) {}", rep(n, |i| ["while c() {", "loop {", "for i in 0 .. 1 {", "for i in it(1) {"][i % 4].into()), rep(n, |i| ["}", "break }", "p(i) }", "p(i) }"][(n - 1 - i) % 4].into())) } },
    Size { name: "loop: in a row", sure: 30, text: |n| rep(n, |i| ["while c() { p(1) break } ", "loop { p(2) break } ", "for i in 0 .. 2 { if i == 1 { continue } p(i) } ", "for i in it(2) { p(i) } "][i % 4].into()) },
    Size { name: "loop: many iterations", sure: 200, text: |n| format!("let mut s = 0 for i in 0 .. {n} {{ if i == 7 {{ continue }} if i == 300 {{ break }} s += i }} p(s) let mut k = 0 while k < {n} {{ k += 1 }} p(k)") },
    Size { name: "loop: many iterations of a full body", sure: 60, text: |n| format!("let mut s = 0 for i in 0 ..= {n} {{ let a = i let b = {{ let z = a if z == 3 {{ continue }} z }} s += p(1, b) ?? 1 s += b }} p(s)") },
    Size { name: "loop: variables inside", sure: 100, text: |n| format!("for i in it(2) {{ {} {} if c() {{ continue }} p(i) }} p(9)", locals(n, "v"), probe(n, "v")) },
    Size { name: "loop: variables inside, left by break", sure: 100, text: |n| format!("fn f(q) {{ let a = 7 loop {{ {} {} {{ if c() {{ break }} }} p(q) break }} p(a, q) }} f(8)", locals(n, "v"), probe(n, "v")) },
    Size { name: "loop: blocks inside, left by break", sure: 30, text: |n| { let n = n.min(150); format!("fn f(q) {{ let a = 7 while c() {{ {} if c() {{ break }} {} p(q) }} p(a, q) }} f(8)", "{ let b = 1 ".repeat(n), "p(b) } ".repeat(n)) } },
    Size { name: "loop: blocks inside, left by continue", sure: 30, text: |n| { let n = n.min(150); format!("fn f(q) {{ let a = 7 for i in it(2) {{ {} if c() {{ continue }} {} p(q) }} p(a, q) }} f(8)", "{ let b = 1 ".repeat(n), "p(b) } ".repeat(n)) } },
    Size { name: "loop: captured variables inside, left by break", sure: 60, text: |n| format!("fn f(q) {{ for i in it(2) {{ {} g.a = || p({}) if c() {{ break }} if c() {{ continue }} p(i) }} p(q) }} f(8) g.a()", locals(n.min(120), "v"), list(n.min(120), |i| format!("v{i}"))) },
    Size { name: "loop: operands pending at break", sure: 60, text: |n| { let n = n.min(200); format!("let a = 4 for i in it(2) {{ p({}{{ if c() {{ break }} 5 }}) }} p(a)", "1, ".repeat(n)) } },
    Size { name: "loop: operands pending at continue", sure: 60, text: |n| { let n = n.min(200); format!("let a = 4 for i in it(2) {{ p([{}{{ if c() {{ continue }} 5 }}]) }} p(a)", "1, ".repeat(n)) } },
    Size { name: "loop: operands pending at return", sure: 60, text: |n| { let n = n.min(200); format!("fn f(q) {{ let a = 4 for i in it(2) {{ p({}{{ if c() {{ return q }} 5 }}) }} p(a) }} p(f(8), f(9))", "1, ".repeat(n)) } },
    Size { name: "loop: operands pending around", sure: 60, text: |n| { let n = n.min(200); format!("p({}{{ for i in it(2) {{ if c() {{ break }} p(i) }} 5 }})", "1, ".repeat(n)) } },
    Size { name: "loop: returns from nested loops", sure: 30, text: |n| { let n = n.min(40); format!("fn f(q) {{ {} if c() {{ return p(q) }} {} p(0) }} p(f(8))", "for i in it(1) {".repeat(n), "}".repeat(n)) } },
    Size { name: "loop: range of negative and large ends", sure: 30, text: |n| format!("for i in 0 - {n} .. 2 - {n} {{ p(i) }} for i in 9223372036854775807 - {n} .. 9223372036854775807 - {n} + 2 {{ p(i) if i > 9223372036854775800 {{ break }} }}") },
    // Variables and functions.
    Size { name: "scope: function levels", sure: 30, text: |n| { let n = n.min(60); format!("let mut a = 5 {} a += 1 p(a) {} p(a)", rep(n, |i| format!("fn f{i}() {{ ")), rep(n, |i| format!("}} f{}() p(a) ", n - 1 - i))) } },
    Size { name: "scope: function levels, called later", sure: 30, text: |n| { let n = n.clamp(1, 60); format!("fn t(q) {{ let mut a = q g.b = {} {{ a += 1 p(a) }} g.b }} let mut h = t(1) {} p(h)", "|| ".repeat(n), "h = h() ".repeat(n)) } },
    Size { name: "scope: each level its own variable", sure: 20, text: |n| { let n = n.min(40); format!("{} g.a = || {{ {} }} {} g.a() g.a()", rep(n, |i| format!("fn f{i}(p{i}) {{ let mut v{i} = {i} ")), rep(n, |i| format!("v{i} += p{i} p(v{i}) ")), rep(n, |i| format!("}} f{}({}) ", n - 1 - i, i % 5))) } },
    Size { name: "scope: block levels shadowing", sure: 30, text: |n| { let n = n.min(150); format!("let mut a = 0 {} p(a) {}", rep(n, |i| format!("{{ let mut a = a + {} ", i % 3)), rep(n, |_| "a += 1 p(a) } p(a) ".into())) } },
    Size { name: "scope: closures of one variable", sure: 60, text: |n| format!("fn t(q) {{ let mut a = q {} a += 100 }} t(1) {}", rep(n, |i| format!("g.f{i} = || {{ a += 1 a }} ")), rep(n, |i| format!("p(g.f{i}()) "))) },
    Size { name: "scope: closures of one variable each", sure: 60, text: |n| format!("fn t(q) {{ {} {} }} t(1) {}", locals(n, "v"), rep(n, |i| format!("g.f{i} = || {{ v{i} }} ")), rep(n, |i| format!("p(g.f{i}()) "))) },
    Size { name: "scope: closures of two variables each", sure: 60, text: |n| { let n = n.max(1); format!("fn t(q) {{ {} {} }} t(1) {}", locals(n, "v"), rep(n, |i| format!("g.f{i} = || p(v{i}, v{}, q) ", (i * 7 + 3) % n)), rep(n, |i| format!("g.f{i}() "))) } },
    Size { name: "scope: closures made by a loop", sure: 100, text: |n| format!("let all = ls() let mut s = 0 for i in 0 .. {n} {{ let mut k = i let h = g.a g.a = || {{ k += 1 if k < {} {{ 0 }} else {{ p(k, i) }} }} }} p(g.a) g.a() g.a()", n) .replace("p(g.a) g.a() g.a()", if n > 0 { "g.a() g.a()" } else { "" }) },
    Size { name: "scope: captured in another order", sure: 60, text: |n| format!("fn t(q) {{ {} g.a = || {{ {} p(q) }} }} t(9) g.a()", locals(n, "v"), rep(n, |i| format!("p(v{}) ", n - 1 - i))) },
    Size { name: "scope: captured through two functions, every second one", sure: 60, text: |n| format!("fn t(q) {{ {} fn u(z) {{ let mut m = z {} g.a = || {{ {} p(m, z, q) }} }} u(3) {} }} t(9) g.a()", locals(n, "v"), rep(n, |i| if i % 3 == 0 { format!("v{i} = {} ", lit(i + 1)) } else { String::new() }), rep(n, |i| if i % 2 == 0 { format!("p(v{i}) ") } else { String::new() }), probe(n, "v")) },
    Size { name: "scope: captured parameters", sure: 60, text: |n| format!("fn t({}) {{ g.a = || {{ {} }} }} t({}) g.a()", list(n, |i| format!("v{i}")), probe(n, "v"), list(n, |i| lit(i).into())) },
    Size { name: "scope: recursion", sure: 60, text: |n| { let n = n.min(100); format!("fn r(k, a) {{ let mut v = k let h = || {{ v += a v }} if k == 0 {{ p(h()) }} else {{ r(k - 1, v) p(h()) }} }} r({n}, 1)") } },
    Size { name: "scope: blocks before a capture", sure: 60, text: |n| format!("{} let mut z = 5 g.a = || {{ z += 1 z }} p(g.a()) p(z)", rep(n, |i| format!("{{ let a = {} let b = a p(b) }} ", lit(i)))) },
    Size { name: "scope: functions that call each other", sure: 40, text: |n| { let n = n.clamp(1, 100); format!("{} fn start(k) {{ f0(k) }} start(3)", rep(n, |i| format!("fn f{i}(k) {{ if {} {{ p(k, {}) }} else {{ f{}(k) }} }} ", i + 1 == n, i % 9, (i + 1) % n))).replace("fn start(k) { f0(k) } start(3)", "f0(3)") } },
    // Classes.
    Size { name: "class: levels", sure: 30, text: |n| { let n = n.clamp(1, 60); format!("class C0 {{ fn m(self) {{ p(self) 0 }} fn s() {{ p(7) }} }} {} let x = C{}() p(x.m()) p(C{}.s)", rep(n, |i| format!("class C{} : C{i} {{ {} }} ", i + 1, if i % 3 == 2 { "" } else { "fn m(self) { super.m() + 1 }" })), n, n) } },
    Size { name: "class: constructor levels", sure: 30, text: |n| { let n = n.clamp(1, 60); format!("class C0 {{ fn new(self, v) {{ self.v = v }} }} {} p(C{n}(5))", rep(n, |i| format!("class C{} : C{i} {{ fn new(self, v) {{ super(v + 1) self.f{} = v }} }} ", i + 1, i % 3))) } },
    Size { name: "class: far parent", sure: 20, text: |n| { let n = n.clamp(1, 40); format!("class C0 {{ fn m(self) {{ p(0, self) }} }} {} class Z : C{n} {{ {} }} let z = Z() {}", rep(n, |i| format!("class C{} : C{i} {{ fn m(self) {{ p({}, self) }} }} ", i + 1, i + 1)), rep(n, |i| format!("fn m{i}(self) {{ super[C{i}].m() }} ")), rep(n, |i| format!("z.m{i}() "))) } },
    Size { name: "class: static functions", sure: 60, text: |n| format!("class A {{ {} }} {}", rep(n, |i| format!("fn s{i}(x) {{ p(x, {}) }} ", lit(i))), rep(n, |i| format!("A.s{i}({}) ", i % 9))) },
    Size { name: "class: methods called", sure: 60, text: |n| format!("class A {{ {} }} let a = A() {}", rep(n, |i| format!("fn m{i}(self, x) {{ p(self, x, {}) }} ", lit(i))), rep(n, |i| format!("a.m{i}({}) ", i % 9))) },
    Size { name: "class: methods inherited", sure: 60, text: |n| format!("class A {{ {} }} class B : A {{ {} }} let b = B() {}", rep(n, |i| format!("fn m{i}(self) {{ {} }} ", lit(i))), rep(n, |i| if i % 3 == 0 { format!("fn m{i}(self) {{ p(super.m{i}()) }} ") } else { String::new() }), rep(n, |i| format!("p(b.m{i}()) "))) },
    Size { name: "class: fields set by the constructor", sure: 60, text: |n| format!("class A {{ fn new(self, v) {{ {} }} }} p(A(5))", rep(n, |i| format!("self.f{i} = {} ", if i % 4 == 0 { "v" } else { lit(i) }))) },
    Size { name: "class: constructor returns", sure: 60, text: |n| format!("class A {{ fn new(self, v) {{ self.v = v {} self.w = v }} }} p(A(5)) p(A({}))", rep(n, |i| format!("if v == {} {{ return }} ", i + 6)), n + 5) },
    Size { name: "class: constructor variables", sure: 60, text: |n| format!("class A {{ fn new(self, v) {{ {} self.v = v {} }} }} p(A(5))", locals(n, "v"), probe(n, "v")) },
    Size { name: "class: constructor variables captured", sure: 60, text: |n| format!("class A {{ fn new(self, v) {{ {} g.a = || p(self, {}) self.v = v }} }} p(A(5)) g.a()", locals(n.min(200), "v"), list(n.min(200), |i| format!("v{i}"))) },
    Size { name: "class: super calls of a method", sure: 60, text: |n| format!("class A {{ fn m(self) {{ p(self) }} }} class B : A {{ fn m(self) {{ {} }} }} B().m()", "super.m() ".repeat(n)) },
    Size { name: "class: super calls in nested functions", sure: 20, text: |n| { let n = n.min(60); format!("class A {{ fn m(self) {{ p(self) }} }} class B : A {{ fn m(self) {{ {} self {} }} }} B().m()", "{ let q = ".repeat(n), " super.m() p(q) }".repeat(n)) } },
    Size { name: "class: self in nested functions", sure: 20, text: |n| { let n = n.min(60); format!("class A {{ fn new(self, v) {{ self.v = v }} fn m(self) {{ {} p(self.v) {} }} }} A(5).m()", "(|| { ".repeat(n), "})() ".repeat(n)) } },
    Size { name: "class: objects", sure: 60, text: |n| format!("class A {{ fn new(self, v) {{ self.v = v }} fn m(self) {{ self.v }} }} {} {}", rep(n, |i| format!("let o{i} = A({}) ", i % 9)), rep(5.min(n), |i| format!("p(o{i}.m(), o{}.m()) ", n - 1 - i))) },
    Size { name: "class: base names", sure: 30, text: |n| format!("{} p(Z())", rep(n, |_| "class B : Foo { }\n".into()).replace("class B", "class B0") .lines().enumerate().map(|(i, l)| l.replace("B0", &format!("B{i}"))).collect::<Vec<_>>().join(" ")) + " class Q : Foo { }" },
    Size { name: "class: constants before", sure: 100, text: |n| rep(n, |i| format!("p({}) ", i + 2)) + "class A { fn new(self, v) { self.v = v } fn m(self, x) { p(x) self.v } op +(self, o) { p(o) } fn s(x) { p(x) } } class B : A { fn new(self) { super(5) } fn m(self, x) { super.m(x) } } let b = B() p(b.m(3)) p(b + 4) A.s(1) p(b is A)" },
    // Modules.
    Size { name: "module: items of an import", sure: 60, text: |n| { let n = n.clamp(1, 300); format!("import {{ {} }} from \"big\" p({})", list(n, |i| format!("v{i}")), list(n.min(200), |i| format!("v{i}"))) } },
    Size { name: "module: items in another order", sure: 60, text: |n| { let n = n.clamp(1, 300); format!("let z = 1 import * as k, {{ {} }} from \"big\" p(k.v0, z) p({})", list(n, |i| format!("v{}", n - 1 - i)), list(n.min(200), |i| format!("v{i}"))) } },
    Size { name: "module: items of an import in a function", sure: 60, text: |n| { let n = n.clamp(1, 300); format!("fn f(z) {{ import {{ {} }} from \"big\" || {{ {} p(z) }} }} f(6)()", list(n, |i| format!("v{i}")), probe(n, "v")) } },
    Size { name: "module: imports in a row", sure: 60, text: |n| rep(n, |i| format!("import {} from \"{}\" p({}) ", ["{ a }", "* as k", "* as k, { b }"][i % 3], ["m", "n"][i % 2], ["a", "k", "k, b"][i % 3])) },
    Size { name: "module: length of the path", sure: 600, text: |n| format!("import * as k from \"{}\" p(k)", "m".repeat(n)) },
    Size { name: "module: import in nested functions", sure: 20, text: |n| { let n = n.min(60); format!("{} import {{ a }} from \"m\" p(a) {}", "(|| { ".repeat(n), "})() ".repeat(n)) } },
    // Chains and failures.
    Size { name: "chain: null at the end", sure: 60, text: |n| format!("p(1, g{}.z?.g{}, 2)", "?.g".repeat(n), ".g.k(p(5))".repeat(n.min(60))) },
    Size { name: "chain: null at the start", sure: 60, text: |n| format!("p(1, g.z?{}, 2) p(n(g, null)?{}.a, 3)", ".g.f(p(5))[p(6)]".repeat(n.min(60)), ".g?".repeat(n)) },
    Size { name: "chain: one in another", sure: 20, text: |n| { let n = n.min(60); format!("p({} n(g, null)?.a {})", "1, g?.f(g.z?.f(p(7)), ".repeat(n), ", 2)?.a".repeat(n)) } },
    Size { name: "chain: operands pending", sure: 60, text: |n| format!("p({}g.z?.f(p(1)), 5)", "1, ".repeat(n.min(200))) },
    Size { name: "chain: ?? in a row", sure: 60, text: |n| rep(n, |i| format!("p({} ?? p({})) ", ["null", "4", "g.z", "g.z?.a"][i % 4], i % 7)) },
    Size { name: "chain: or in a row", sure: 40, text: |n| rep(n, |i| format!("p({}({}) or e {{ p(e) 9 }}) ", ["ok", "er"][i % 2], i % 7)) },
    Size { name: "chain: or in or", sure: 20, text: |n| { let n = n.min(60); format!("p({} er(0) {})", "er(".repeat(n), rep(n, |i| format!("or e{i} {{ p(e{i}) {} }}) ", ["ok(3)", "er(4)"][i % 2])) + " or e { p(e) 6 }") } },
    Size { name: "chain: or then or", sure: 20, text: |n| format!("p(er(0){})", rep(n, |i| format!(" or e{i} {{ p(e{i}) er({}) }}", i % 9))) },
    Size { name: "chain: !! repeated", sure: 40, text: |n| { let n = n.min(60); format!("fn f(x) {{ p(x{}) }} p(f({}5{})) p(f(er(4)))", "!!".repeat(n), "ok(".repeat(n), ")".repeat(n)) } },
    Size { name: "chain: !! in a row", sure: 60, text: |n| format!("fn f(x) {{ {} p(x) }} p(f(ok(5))) p(f(er(6)))", rep(n, |i| format!("p({}, x!!) ", i % 7))) },
    Size { name: "chain: !! with variables", sure: 100, text: |n| format!("fn f(x) {{ {} let y = n(x, er(7))!! {} p(y) }} p(f(ok(5))) p(f(er(6)))", locals(n, "v"), probe(n, "v")) },
    Size { name: "chain: !! with operands pending", sure: 60, text: |n| format!("fn f(x) {{ p({}x!!) }} p(f(ok(5)), f(er(6)))", "1, ".repeat(n.min(200))) },
    Size { name: "chain: or with variables inside", sure: 60, text: |n| format!("p(er(5) or e {{ {} {} p(e) }}, 3)", locals(n, "v"), probe(n, "v")) },
    Size { name: "chain: or with operands pending", sure: 60, text: |n| format!("fn f(q) {{ p({}(n(ok(1), er(2)) or e {{ g.a = || p(e, q) p(e) 3 }})) p(q) }} f(8) p(g.a)", "1, ".repeat(n.min(200))) },
    // Types.
    Size { name: "type: parameters, the last one wrong", sure: 60, text: |n| format!("fn f({}z: Foo) {{ p(z) }} f({}foo) f({}5)", rep(n, |i| format!("v{i}: Any?, ")), rep(n, |i| format!("{}, ", lit(i))), rep(n, |i| format!("{}, ", lit(i)))) },
    Size { name: "type: parameters, the first one wrong", sure: 60, text: |n| format!("class C {{ fn f(self, z: Foo{}) {{ p(z) }} }} C().f(foo{}) C().f(5{})", rep(n, |i| format!(", v{i}: Any?")), rep(n, |i| format!(", {}", lit(i))), rep(n, |i| format!(", {}", lit(i)))) },
    Size { name: "type: parameters, some annotated", sure: 60, text: |n| format!("fn f({}z) {{ p(z) }} f({}foo) f({}5)", rep(n, |i| if i % 3 == 1 { format!("v{i}: Foo?, ") } else { format!("v{i}, ") }), rep(n, |i| if i % 3 == 1 { ["foo, ", "null, ", "bar, "][i / 3 % 3].into() } else { format!("{}, ", lit(i)) }), rep(n, |i| if i + 1 == n { "5, ".into() } else { "foo, ".into() })) },
    Size { name: "type: returns", sure: 60, text: |n| format!("fn f(k, v) -> Foo {{ {} p(k) v }} p(f(0, foo)) p(f({n}, bar)) p(f({n}, 5))", rep(n, |i| format!("if k == {} {{ return v }} ", i + 1))) },
    Size { name: "type: returns, fallen through", sure: 60, text: |n| format!("fn f(k, v) -> Foo? {{ {} p(k) v }} p(f(0, null)) p(f(0, 5))", rep(n, |i| format!("if k == {} {{ return v }} ", i + 1))) },
    Size { name: "type: return below operands", sure: 40, text: |n| { let n = n.min(100); format!("fn f(v) -> Foo {{ p({}{{ return v }}) }} p(f(foo)) p(f(5))", "1, ".repeat(n)) } },
    Size { name: "type: return below loops", sure: 20, text: |n| { let n = n.min(40); format!("fn f(v) -> Foo {{ {} return v {} foo }} p(f(foo)) p(f(5))", "for i in it(1) { let z = i ".repeat(n), "}".repeat(n)) } },
    Size { name: "type: with variables", sure: 100, text: |n| format!("fn f(v) -> Foo {{ {} {} if c() {{ return v }} v }} p(f(foo)) p(f(5))", locals(n, "v"), probe(n, "v")) },
    Size { name: "type: is tests", sure: 40, text: |n| rep(n, |i| format!("p({} is {}) ", ["foo", "bar", "5", "null"][i % 4], ["Foo", "Bar?", "Int", "Any", "Foo?"][i % 5])) },
    Size { name: "type: is chain", sure: 40, text: |n| format!("p(p(foo) is Foo{})", " is Bool".repeat(n)) },
    Size { name: "type: functions with types", sure: 30, text: |n| rep(n, |i| format!("fn f{i}(a: {}) -> {} {{ a }} p(f{i}({})) ", ["Foo", "Foo?", "Any"][i % 3], ["Foo?", "Any?"][i % 2], ["foo", "bar"][i / 2 % 2])) + "let h = |x: Foo| x h(5)" },
    Size { name: "type: nested functions with types", sure: 20, text: |n| { let n = n.min(60); format!("{} p(5) {} foo", rep(n, |i| format!("fn f{i}(a: Foo) -> Foo {{ ")), rep(n, |i| format!("a }} p(f{}({})) ", n - 1 - i, if i + 1 == n { "foo" } else { "a" }))).replace("p(5) a }", "p(a) a }") } },
    Size { name: "type: levels of a class", sure: 20, text: |n| { let n = n.clamp(1, 60); format!("class C0 {{ }} {} let x = C{n}() p({}) fn f(a: C0) -> C{n} {{ a }} f(x) f(C0())", rep(n, |i| format!("class C{} : C{i} {{ }} ", i + 1)), list(n.min(60), |i| format!("x is C{i}, C{i}() is C{n}"))) } },
];

pub const MORE_MODULES: &[Size] = &[
    Size { name: "module: exported functions", sure: 60, text: |n| rep(n, |i| format!("export fn f{i}() {{ p({}) }} ", i % 9)) + "let z = 1 export z" },
    Size { name: "module: exported classes", sure: 40, text: |n| rep(n, |i| format!("export class C{i} {{ fn m(self) {{ p({}) }} }} ", i % 9)) + "let z = C0() export z" },
    Size { name: "module: exported and private variables", sure: 40, text: |n| rep(n, |i| format!("{}let mut v{i} = {} ", ["export ", "", ""][i % 3], lit(i))) + &rep(n, |i| if i % 3 == 1 { format!("v{i} = {} export v{i} ", lit(i + 1)) } else { String::new() }) },
    Size { name: "module: reexports", sure: 40, text: |n| { let n = n.clamp(1, 300); format!("import {{ {} }} from \"big\" {}", list(n, |i| format!("v{i}")), rep(n, |i| format!("export v{i} "))) } },
    Size { name: "module: one name changed and exported", sure: 40, text: |n| format!("let mut a = 0 {}", rep(n, |i| format!("a = {} export a ", i % 9))) },
    Size { name: "module: statements before an export", sure: 100, text: |n| rep(n, |i| format!("{} ", lit(i))) + "export let a = 5" },
    Size { name: "module: variables before an export", sure: 100, text: |n| locals(n, "v") + "export let a = 5 export fn f() { a } export class K { } p(a)" },
    Size { name: "module: constants before an export", sure: 100, text: |n| rep(n, |i| format!("p({}) ", i + 2)) + "export let aa = 5 export fn ff() { aa } export class KK { } p(aa)" },
];

/// Programs that break a rule about placement or variables (or come close), where the breach is far from what it breaks: n of
/// something lie between.
pub const BREAKS: &[Size] = &[
    // Parameters.
    Size { name: "parameters, the last like the first", sure: 0, text: |n| format!("fn f(v0{}, v0) {{ 1 }}", rep(n, |i| format!(", v{}", i + 1))) },
    Size { name: "parameters, the last like the one before", sure: 0, text: |n| format!("fn f({}v{n}, v{n}) {{ 1 }}", rep(n, |i| format!("v{i}, "))) },
    Size { name: "parameters, the middle like the last", sure: 0, text: |n| format!("let f = |{}x| 1", rep(n, |i| if i == n / 2 { "x, ".into() } else { format!("v{i}, ") })) },
    Size { name: "parameters of a method, one called self", sure: 0, text: |n| format!("class A {{ fn m(self{}, self) {{ 1 }} }}", rep(n, |i| format!(", v{i}"))) },
    Size { name: "parameters of a constructor, the last like the first", sure: 0, text: |n| format!("class A {{ fn new(self, v0{}, v0) {{ }} }}", rep(n, |i| format!(", v{}", i + 1))) },
    Size { name: "typed parameters, the last like the first", sure: 0, text: |n| format!("fn f(v0{}, v0: Int) {{ 1 }}", rep(n, |i| format!(", v{}: Any", i + 1))) },
    Size { name: "parameters with long names", sure: 0, text: |n| format!("fn f({p}a, {p}b, {p}) {{ {p}a {p}b {p} }}", p = "p".repeat(n + 1)) },
    Size { name: "parameters with the same long name", sure: 0, text: |n| format!("fn f({p}, b, {p}) {{ 1 }}", p = "p".repeat(n + 1)) },
    // Members.
    Size { name: "members, then a constructor without receiver", sure: 0, text: |n| format!("class A {{ {} fn new() {{ }} }}", rep(n, |i| format!("fn m{i}(self) {{ }} "))) },
    Size { name: "members, then a constructor that returns", sure: 0, text: |n| format!("class A {{ {} fn new(self) {{ return 1 }} }}", rep(n, |i| format!("fn m{i}(self) {{ }} "))) },
    Size { name: "members, then a constructor with a return type", sure: 0, text: |n| format!("class A {{ {} fn new(self) -> Int {{ }} }}", rep(n, |i| format!("fn m{i}() {{ }} "))) },
    Size { name: "members, then an operator without receiver", sure: 0, text: |n| format!("class A {{ {} op +(a, b) {{ }} }}", rep(n, |i| format!("op *(self, o) {{ {} }} ", lit(i)))) },
    Size { name: "members, then a receiver with a type", sure: 0, text: |n| format!("class A {{ {} fn m(self: A) {{ }} }}", rep(n, |i| format!("fn m{i}(self) {{ }} "))) },
    Size { name: "members, then a constructor without super", sure: 0, text: |n| format!("class A {{ }} class B : A {{ {} fn new(self) {{ }} }}", rep(n, |i| format!("fn m{i}(self) {{ }} "))) },
    Size { name: "derived classes, the last without super", sure: 0, text: |n| { let n = n.min(200); format!("class C0 {{ }} {} class Z : C0 {{ fn new(self) {{ 1 }} }}", rep(n, |i| format!("class C{} : C{i} {{ fn new(self) {{ super() }} }} ", i + 1))) } },
    Size { name: "statements before super", sure: 0, text: |n| format!("class A {{ }} class B : A {{ fn new(self) {{ {} super() }} }}", rep(n, |i| format!("{} ", lit(i)))) },
    Size { name: "statements after super", sure: 0, text: |n| format!("class A {{ }} class B : A {{ fn new(self) {{ super() {} }} }}", rep(n, |i| format!("{} ", lit(i)))) },
    Size { name: "statements, then a returned value", sure: 0, text: |n| format!("class A {{ fn new(self) {{ {} return self }} }}", rep(n, |i| format!("{} ", lit(i)))) },
    Size { name: "bare returns, then a returned value", sure: 0, text: |n| format!("class A {{ fn new(self) {{ {} return 1 }} }}", "if c() { return } ".repeat(n)) },
    Size { name: "blocks around a returned value", sure: 0, text: |n| { let n = n.min(200); format!("class A {{ fn new(self) {{ {} return 1 {} }} }}", "{ ".repeat(n), "} ".repeat(n)) } },
    // Control flow.
    Size { name: "blocks around return", sure: 0, text: |n| { let n = n.min(200); format!("{} return 1 {}", "{ ".repeat(n), "} ".repeat(n)) } },
    Size { name: "blocks around break", sure: 0, text: |n| { let n = n.min(200); format!("fn f() {{ {} break {} }}", "if c() { ".repeat(n), "} ".repeat(n)) } },
    Size { name: "blocks around break in a loop", sure: 0, text: |n| { let n = n.min(200); format!("loop {{ {} break {} }}", "if c() { ".repeat(n), "} ".repeat(n)) } },
    Size { name: "blocks around continue in a loop", sure: 0, text: |n| { let n = n.min(200); format!("for i in it(1) {{ {} continue {} }}", "{ ".repeat(n), "} ".repeat(n)) } },
    Size { name: "loops, then break", sure: 0, text: |n| format!("{} break", rep(n, |i| ["loop { break } ", "while c() { } ", "for i in 0 .. 1 { } ", "for i in it(1) { continue } "][i % 4].into())) },
    Size { name: "functions, then return", sure: 0, text: |n| format!("{} return 1", rep(n, |i| format!("fn f{i}() {{ return }} "))) },
    Size { name: "functions, then !!", sure: 0, text: |n| format!("{} ok(1)!!", rep(n, |i| format!("fn f{i}(x) {{ x!! }} "))) },
    Size { name: "functions, then export in one", sure: 0, text: |n| format!("fn z() {{ {} export let a = 1 }}", rep(n, |i| format!("fn f{i}() {{ }} "))) },
    Size { name: "functions around break", sure: 0, text: |n| { let n = n.clamp(1, 60); format!("loop {{ {} {{ break }} break }}", "|| ".repeat(n)) } },
    Size { name: "functions around break in a loop", sure: 0, text: |n| { let n = n.clamp(1, 60); format!("let f = {} {{ loop {{ break }} }}", "|| ".repeat(n)) } },
    Size { name: "functions around super", sure: 0, text: |n| { let n = n.min(60); format!("class A {{ }} class B : A {{ fn m() {{ let f = {} {{ super.x }} }} }}", "|| ".repeat(n)) } },
    Size { name: "functions around super in a method", sure: 0, text: |n| { let n = n.min(60); format!("class A {{ }} class B : A {{ fn m(self) {{ let f = {} {{ super.x }} }} }}", "|| ".repeat(n)) } },
    Size { name: "blocks around super in a method", sure: 0, text: |n| { let n = n.min(200); format!("class A {{ }} class B : A {{ fn m(self) {{ {} super.x {} }} }}", "{ ".repeat(n), "} ".repeat(n)) } },
    Size { name: "blocks around export", sure: 0, text: |n| { let n = n.min(200); format!("{} export let a = 1 {}", "{ ".repeat(n), "} ".repeat(n)) } },
    Size { name: "exports in a row", sure: 0, text: |n| rep(n + 1, |i| format!("export let a{i} = 1 ")) },
    Size { name: "operands pending at return", sure: 0, text: |n| { let n = n.min(200); format!("p({}{{ return 1 }})", "1, ".repeat(n)) } },
    // Variables.
    Size { name: "variables, then one that is not there", sure: 0, text: |n| format!("{} v{n} = 1", rep(n, |i| format!("let mut v{i} = {} ", lit(i)))) },
    Size { name: "variables, then one that is fixed", sure: 0, text: |n| format!("{} let z = 1 {} z = 2", rep(n / 2, |i| format!("let mut v{i} = {} ", lit(i))), rep(n - n / 2, |i| format!("let mut w{i} = {} ", lit(i)))) },
    Size { name: "variables, the first fixed", sure: 0, text: |n| format!("let z = 1 {} z += 2", rep(n, |i| format!("let mut v{i} = {} ", lit(i)))) },
    Size { name: "blocks around the use of a fixed variable", sure: 0, text: |n| { let n = n.min(200); format!("let z = 1 {} z = 2 {}", "{ ".repeat(n), "} ".repeat(n)) } },
    Size { name: "functions around the use of a fixed variable", sure: 0, text: |n| { let n = n.min(60); format!("let z = 1 let f = {} {{ z = 2 }}", "|| ".repeat(n)) } },
    Size { name: "functions around the use of a variable", sure: 0, text: |n| { let n = n.min(60); format!("let mut z = 1 let f = {} {{ z = 2 }}", "|| ".repeat(n)) } },
    Size { name: "functions around a variable that is not there", sure: 0, text: |n| { let n = n.min(60); format!("let mut z = 1 let f = {} {{ y = 2 }}", "|| ".repeat(n)) } },
    Size { name: "blocks, then a variable of one", sure: 0, text: |n| format!("{} v{} = 2", rep(n, |i| format!("{{ let mut v{i} = 1 }} ")), n / 2) },
    Size { name: "shadowed and fixed at every level", sure: 0, text: |n| { let n = n.min(200); format!("let mut a = 0 {} a = 1 {} a = 2", "{ let a = 1 ".repeat(n), "} ".repeat(n)) } },
    Size { name: "shadowed and free at every level", sure: 0, text: |n| { let n = n.min(200); format!("let a = 0 {} a = 1 {} a = 2", "{ let mut a = 1 ".repeat(n), "a = 3 } ".repeat(n)) } },
    Size { name: "functions declared, one twice", sure: 0, text: |n| format!("fn z() {{ }} {} fn z() {{ }}", rep(n, |i| format!("fn f{i}() {{ }} "))) },
    Size { name: "classes declared, one twice", sure: 0, text: |n| format!("class Z {{ }} {} class Z {{ }}", rep(n, |i| format!("class C{i} {{ }} "))) },
    Size { name: "declared in sibling blocks", sure: 0, text: |n| rep(n + 1, |_| "{ fn z() { } class K { } let a = 1 } ".into()) },
    Size { name: "assigned functions", sure: 0, text: |n| format!("fn z() {{ }} {} z = 1", rep(n, |i| format!("let v{i} = {} ", lit(i)))) },
    Size { name: "assigned parameters", sure: 0, text: |n| format!("fn f({}z) {{ z = 1 }}", rep(n, |i| format!("v{i}, "))) },
    Size { name: "assigned loop variables", sure: 0, text: |n| { let n = n.min(60); format!("{} i0 = 1 {}", rep(n + 1, |i| format!("for i{i} in 0 .. 1 {{ ")), "} ".repeat(n + 1)) } },
    Size { name: "assigned imports", sure: 0, text: |n| format!("import {{ {}z }} from \"m\" z = 1", rep(n, |i| format!("a{i}, "))) },
    Size { name: "assigned names of one pattern", sure: 0, text: |n| format!("let {{ {}z }} = g z = 1", rep(n, |i| format!("a{i}, "))) },
    Size { name: "names that differ at the end", sure: 0, text: |n| format!("let mut {p}a = 1 {p}a = 2 {p}b = 3", p = "p".repeat(n + 1)) },
    Size { name: "names that agree throughout", sure: 0, text: |n| format!("let mut {p}a = 1 let {p}b = 2 {p}a = 3", p = "p".repeat(n + 1)) },
    Size { name: "used before it is declared", sure: 0, text: |n| format!("z() x = 1 {} fn z() {{ }} let mut x = 2", rep(n, |i| format!("{} ", lit(i)))) },
    Size { name: "used in a function before it is declared", sure: 0, text: |n| format!("fn z() {{ x = 1 }} {} let mut x = 2", rep(n, |i| format!("{} ", lit(i)))) },
];

/// Which of these programs are about what a property says.
pub fn about(property: &str, name: &str) -> bool {
    let words: &[&str] = match property {
        "C07" => &["expression:", "constant", "object", "list", "arguments of", "pending operands", "else if", "variables of", "variables assigned", "symbols", "sibling", "nested blocks", "if", "else", "&&", "||", "??"],
        "C08" => &["loop", "break", "continue", "return", "while"],
        "C09" => &["scope:", "variables", "names destructured", "same name", "functions declared", "lambdas", "captur", "nested", "closures", "arguments and parameters", "functions"],
        "C17" => &["class", "method", "constructor", "parent"],
        "C18" => &["module", "import", "export"],
        "C19" => &["chain", " or", "!!", "??", "or", "? "],
        "C20" => &["type", "return"],
        _ => &[""],
    };
    words.iter().any(|w| if *w == "or" { name == "or" } else { name.contains(w) })
}

/// A construct whose jumps span a body of a chosen length.
pub struct Span {
    pub name: &'static str,
    pub before: &'static str,
    pub after: &'static str,
}

const fn span(name: &'static str, before: &'static str, after: &'static str) -> Span {
    Span { name, before, after }
}

pub const SPANS: &[Span] = &[
    span("if", "let x = 1 let r = if p(c()) {", "5 } p(r)"),
    span("else", "let x = 1 let r = if p(c()) { 4 } else {", "5 } p(r)"),
    span("if before else", "let x = 1 let r = if p(c()) {", "4 } else { 5 } p(r)"),
    span("else if", "let x = 1 let r = if p(c()) { 3 } else if p(c()) {", "4 } else { 5 } p(r)"),
    span("while", "let x = 1 let mut k = 0 while k < 2 { k += 1 p(k)", "} p(k)"),
    span("while with break and continue", "let x = 1 let mut k = 0 while k < 3 { k += 1 if c() { break } if c() { continue } p(k)", "} p(k)"),
    span("while with break at the end", "let x = 1 let mut k = 0 while k < 3 { k += 1 p(k)", "if c() { break } if c() { continue } } p(k)"),
    span("loop", "let x = 1 let mut k = 0 loop { k += 1 if k > 2 { break } p(k)", "} p(k)"),
    span("range loop", "let x = 1 for i in 0 .. 2 { p(i)", "} p(9)"),
    span("range loop with continue", "let x = 1 for i in 0 .. 2 { if c() { continue } p(i)", "} p(9)"),
    span("iterator loop", "let x = 1 for i in it(2) { p(i)", "} p(9)"),
    span("iterator loop with break and continue", "let x = 1 for i in it(2) { if c() { break } if c() { continue } p(i)", "} p(9)"),
    span("condition of while", "let x = 1 let mut k = 0 while { k += 1 p(k)", "k < 2 } { p(k) } p(9)"),
    span("&&", "let x = 1 p(c() && {", "true })"),
    span("||", "let x = 1 p(c() || {", "true })"),
    span("??", "let x = 1 p(n(null, 4) ?? {", "5 })"),
    span("or", "let x = 1 p(n(ok(4), er(5)) or e {", "6 })"),
    span("? chain", "let x = 1 p(n(g, null)?.f({", "6 }).a)"),
    span("? chain index", "let x = 1 p(n(null)?[{", "6 }])"),
    span("? in an outer operand", "let x = 1 p(n(g, null)?.k({", "g }, null)?.a)"),
    span("return", "fn f(x) { if c() { return 3 }", "5 } p(f(1))"),
    span("!!", "fn f(x) { let y = n(ok(3), er(4))!!", "y } p(f(1))"),
];

/// A body of exactly `bytes` bytes of code, for any number but 1, that leaves nothing behind and does nothing.
pub fn filler(bytes: usize) -> String {
    let mut s = String::new();
    let mut left = bytes;
    let odd = left % 2 == 1 && left >= 3;
    if odd {
        left -= 3;
    }
    s.push_str(&"null\n".repeat(left / 2));
    if odd {
        s.push_str("x\n");
    }
    s
}

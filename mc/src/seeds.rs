//! Sentences that between them use every construct of the grammar.

pub const SEEDS: &[&str] = &[
    "",
    "1",
    "a b",
    "let x = 1",
    "let mut y = null x = y += 2",
    "let { a , b , } = o",
    "let mut { a } = o",
    "fn f ( ) { }",
    "fn f ( a , b : Int , c : Foo ? , ) -> Bar ? { a b }",
    "op + ( a , b ) { a }",
    "op ..= ( a : A , b ) -> B { return a }",
    "class A { }",
    "class A : B { fn new ( self , a ) { super ( a ) } fn m ( self ) { super . m ( ) } fn s ( ) { } op == ( self , o ) { super [ B ] . k } }",
    "class A : f ( 1 ) . b { }",
    "import { a } from \"m\"",
    "import * as k from \"m\"",
    "import * as k , { a , b , } from \"m\"",
    "export let a = 1",
    "export fn f ( ) { }",
    "export class A { }",
    "export a",
    "if a { b } else if c { d } else { e }",
    "if a { }",
    "loop { break continue }",
    "while a < b { c }",
    "for i in a .. b { c }",
    "for i in x ( ) { }",
    "{ a { b } }",
    "return a",
    "{ return }",
    "f = | a , b : Int | a + b",
    "f ( ) ( 1 , 2 , ) [ 3 ] . d ? !! \\raw\\",
    "a . b = c [ d ] += e",
    "# { a : 1 , \"b\" : [ ] , 3 : # { } , }",
    "[ 1 , 2.5 , \"s\" , ( ) , true , false , null , ]",
    "a |> b ?? c .. d | | e && f == g + h * - ! i ? . j",
    "a or e { b } or f { c }",
    "a is B ? == c is D",
    "x = | | { 1 }",
    "- ( a + b ) * ( c )",
    "let r = a < b > c <= d >= e != f - g / h % i ..= j",
    "g . a *= 1 g . a /= 2 g . a -= 3",
];

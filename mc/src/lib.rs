pub mod analyze;
pub mod ast;
pub mod code;
pub mod diag;
pub mod families;
pub mod gen;
pub mod interp;
pub mod lex;
pub mod paren;
pub mod parse;
pub mod run;
pub mod seeds;
pub mod sem;
pub mod tokens;
pub mod value;
pub mod verify;
pub mod vm;
pub mod sizes;
pub mod shapes;

// Reference XPath: a parser written from the W3C grammar (character level, no
// separate lexer) and an evaluator over the reference tree.  Nothing here uses
// the implementation under test.
pub mod ast;
pub mod parse;
pub mod eval;
pub mod types;
pub mod funcs;
pub mod fmt;
pub use ast::*;
pub use eval::{eval_at, TOP};
pub use fmt::show;
pub use parse::parse;

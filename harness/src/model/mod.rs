//! The reference model: ECMAScript (the subset ratel supports, in module code), written
//! from the specification's grammar and independent of the implementation.
pub mod lex;
pub mod parse;
pub use self::lex::{Tk, Tok};
pub use self::parse::{parse, Outcome, Parsed, Stop};

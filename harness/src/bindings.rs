//! The explorer with the bindings.
include!("main.rs");

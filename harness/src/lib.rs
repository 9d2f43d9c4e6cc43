#![allow(clippy::all)]
/// harness functions: exported under their names for the executor, listed in TABLE for the native replay
#[macro_export]
macro_rules! harnesses { ($($(#[$m:meta])* $name:ident = $e:expr;)*) => {
    $(#[no_mangle] pub fn $name() { $e })*
    pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
} }
pub mod reference;
pub mod gen;
pub mod model;
pub mod h_parse;
pub mod h_ser;
pub mod h_path;
pub mod h_ops;
pub mod h_typed;
pub mod h_big;
pub mod h_err;
pub mod h_state;
pub mod h_word;
pub mod h_flat;
pub fn tables() -> Vec<&'static [(&'static str, fn())]> { vec![h_parse::TABLE, h_ser::TABLE, h_path::TABLE, h_ops::TABLE, h_typed::TABLE, h_big::TABLE, h_err::TABLE, h_state::TABLE, h_word::TABLE, h_flat::TABLE] }

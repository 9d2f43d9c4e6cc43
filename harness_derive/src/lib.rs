#![allow(clippy::all, unused_attributes, dead_code)]
pub mod h_derive;
pub mod h_grid;
pub fn tables() -> Vec<&'static [(&'static str, fn())]> { vec![h_derive::TABLE, h_grid::TABLE] }

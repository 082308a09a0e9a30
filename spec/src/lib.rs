#[macro_use]
extern crate bitflags;
pub mod pieces;
pub mod rules;

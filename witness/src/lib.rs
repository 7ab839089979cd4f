//! Uses the macros of node_tree in every form they document, so that the code they generate can be analysed.
//! Nothing in here is ever run. `mark` and `make` stand for the user's own code.
#![allow(dead_code, non_snake_case)]
pub mod classes;
pub mod scenes;
pub mod trees;

/// Stands for a value computed by user code.
#[inline(never)]
pub fn make(n: u32) -> u32 { std::hint::black_box(n) }

/// Stands for a text computed by user code.
#[inline(never)]
pub fn text(n: u32) -> String { std::hint::black_box(n).to_string() }

/// Stands for an action of user code.
#[inline(never)]
pub fn mark(n: u32) { std::hint::black_box(n); }

/// Stands for a truth value computed by user code.
#[inline(never)]
pub fn flag(n: u32) -> bool { std::hint::black_box(n) > 0 }

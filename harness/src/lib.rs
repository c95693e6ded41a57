pub mod algebra;
pub mod catalog;
pub mod checks;
pub mod hashers;
pub mod ints;
pub mod iters;
pub mod keys;
pub mod maps;
pub mod rng;
pub mod run;
pub mod sets;
pub mod tracked;

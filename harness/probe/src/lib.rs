//! Gives the programs of tools/programs.py something to link with.
pub use frozen_collections;

//! Bounded exhaustive exploration (stateless model checking) of the real juno code.
pub mod derived;
pub mod explore;
pub mod refs;
pub mod tkit;
pub mod util;
pub use explore::*;
pub mod rng;
pub mod genes;
pub mod web;
pub mod sense;

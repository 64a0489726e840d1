//! Recorder and replayer: runs the crates under /repo and writes down what
//! they do, as traces for the specifications in /verif/spec.
#[macro_use]
pub mod util;
pub mod values;
pub mod tap;
pub mod seqs;
pub mod worlds;
pub mod shapes;
pub mod bridge;
pub mod stacks;
pub mod gens;
pub mod parts;

//! Independent reference model, input generators and monitors. Does not depend on the code under test.
pub mod flat;
pub mod gen;
pub mod json;
pub mod parse;
pub mod rng;
pub mod scan;
pub mod tables;

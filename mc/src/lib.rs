pub mod abi;
pub mod alloc;
pub mod engine;
pub mod ev;
pub mod gen;
pub mod model;
pub mod runner;

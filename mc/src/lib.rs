pub mod engine;
pub mod refs;
pub mod conv;
pub use engine::*;
pub mod words;
pub mod ops;
pub mod polyref;

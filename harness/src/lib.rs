pub mod dynvec;
pub mod elem;
pub mod engine;
pub mod ops;
pub mod guard;

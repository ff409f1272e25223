//! Property-based checks of imgproc-rs
pub mod engine;
pub mod gen;
pub mod refs;
pub mod ops;
pub mod props;
pub mod serve;

//! Independent reference models, written from the RFC texts and the crate's documentation.
pub mod builder;
pub mod grammar;
pub mod normalize;
pub mod pct;
pub mod resolve;
pub mod template;

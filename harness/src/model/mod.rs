//! Reference models and comparators.
pub mod compare;

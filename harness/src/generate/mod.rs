//! Workload generators.
pub mod config;
pub mod docgen;
pub mod header;
pub mod inline;
pub mod marks;
pub mod project;
pub mod soup;
pub mod spots;

//! Bounded exhaustive checking of the file-format crate against a reference model.
#![allow(clippy::type_complexity)]
pub mod alloc;
pub mod catalog;
pub mod cli;
pub mod doc;
pub mod env;
pub mod explore;
pub mod far;
pub mod fmt;
pub mod space;
pub mod history;
pub mod judge;
pub mod lefi;
pub mod meta;
pub mod model;
pub mod run;
pub mod sigs;
pub mod sigtable;
pub mod subject;
pub mod words;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

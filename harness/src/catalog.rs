//! Frozen catalogue of the formats and their descriptions, cross-checked with README.md when it was taken.
use ff::{FileFormat::{self, *}, Kind};
include!("catalog_body.rs");

/// The same catalogue over the types of the other builds.
pub mod plain {
    use ffp::{FileFormat::{self, *}, Kind};
    include!("catalog_body.rs");
}
pub mod wrap {
    use ffmc_wrap::{FileFormat::{self, *}, Kind};
    include!("catalog_body.rs");
}

//! The build without overflow checks. Generic code gets the checks of the crate that instantiates
//! it, so its entry points are instantiated here, in a crate of its own without them.
pub use ffw::{FileFormat, Kind};
use std::io::{Read, Seek};

pub trait ReadSeek: Read + Seek {}
impl<R: Read + Seek> ReadSeek for R {}

#[inline(never)]
pub fn bytes(b: &[u8]) -> u16 {
    FileFormat::from(b) as u16
}

#[inline(never)]
pub fn reader(r: &mut dyn ReadSeek) -> std::io::Result<u16> {
    FileFormat::from_reader(r).map(|f| f as u16)
}

/// Whether instantiations in this crate check for overflow (they must not).
#[inline(never)]
pub fn checked() -> bool {
    let x = std::hint::black_box(255u8);
    std::panic::catch_unwind(|| x + 1).is_err()
}

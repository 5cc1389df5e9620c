//! The builds of the crate under check, behind one interface. Formats are compared by discriminant.
use crate::doc::EnvReader;
use std::io::{Read, Seek};
use std::path::Path;

pub type F = ff::FileFormat;

macro_rules! subject {
    ($m:ident, $c:ident) => {
        pub mod $m {
            use super::*;
            pub fn bytes(b: &[u8]) -> u16 {
                $c::FileFormat::from_bytes(b) as u16
            }
            pub fn from(b: &[u8]) -> u16 {
                $c::FileFormat::from(b) as u16
            }
            pub fn env(r: &mut EnvReader) -> std::io::Result<u16> {
                $c::FileFormat::from_reader(r).map(|f| f as u16)
            }
            pub fn reader<R: Read + Seek>(r: R) -> std::io::Result<u16> {
                $c::FileFormat::from_reader(r).map(|f| f as u16)
            }
            pub fn file<P: AsRef<Path>>(p: P) -> std::io::Result<u16> {
                $c::FileFormat::from_file(p).map(|f| f as u16)
            }
        }
    };
}
subject!(full, ff);
subject!(plain, ffp);

/// The build without overflow checks.
pub mod wrap {
    use super::*;
    pub fn bytes(b: &[u8]) -> u16 {
        ffmc_wrap::bytes(b)
    }
    pub fn env(r: &mut EnvReader) -> std::io::Result<u16> {
        ffmc_wrap::reader(r)
    }
}

/// Name of a format by discriminant.
pub fn name(d: u16) -> String {
    crate::catalog::CATALOG.iter().find(|e| e.fmt as u16 == d).map_or(format!("#{d}"), |e| e.id.to_string())
}

//! Reference functions: what the public operations of numopt are required to
//! compute.  They are never run; the engine analyses `i_*` (which call the
//! real crate) and `s_*` (the requirement) and compares their summaries.
#![allow(dead_code, unused_imports, unused_variables, clippy::all)]

#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c25")]
pub mod c25;
#[cfg(any(feature = "c08", feature = "c09", feature = "c10", feature = "c11", feature = "c12"))]
pub mod mstd;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(any(feature = "c23", feature = "c24"))]
pub mod c24;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c22")]
pub mod c22;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c27")]
pub mod c27;
#[cfg(feature = "c30")]
pub mod c30;
#[cfg(feature = "c31")]
pub mod c31;
#[cfg(feature = "c26")]
pub mod c26;

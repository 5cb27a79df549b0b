//! Verification harnesses. Built twice: to LLVM IR for the symbolic executor, and natively for
//! replaying what the executor reports.
#![allow(dead_code, clippy::all)]
pub mod sym;
#[macro_use]
pub mod util;
pub mod gen;
pub mod lines;
pub mod mutate;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c21")]
pub mod c21;
#[cfg(feature = "c22")]
pub mod c22;
#[cfg(feature = "c23")]
pub mod c23;
#[cfg(feature = "c24")]
pub mod c24;
#[cfg(feature = "c25")]
pub mod c25;

pub fn all() -> Vec<(&'static str, fn())> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, fn())> = vec![];
    #[cfg(feature = "c01")]
    v.extend_from_slice(c01::TABLE);
    #[cfg(feature = "c02")]
    v.extend_from_slice(c02::TABLE);
    #[cfg(feature = "c03")]
    v.extend_from_slice(c03::TABLE);
    #[cfg(feature = "c04")]
    v.extend_from_slice(c04::TABLE);
    #[cfg(feature = "c05")]
    v.extend_from_slice(c05::TABLE);
    #[cfg(feature = "c06")]
    v.extend_from_slice(c06::TABLE);
    #[cfg(feature = "c07")]
    v.extend_from_slice(c07::TABLE);
    #[cfg(feature = "c08")]
    v.extend_from_slice(c08::TABLE);
    #[cfg(feature = "c09")]
    v.extend_from_slice(c09::TABLE);
    #[cfg(feature = "c10")]
    v.extend_from_slice(c10::TABLE);
    #[cfg(feature = "c11")]
    v.extend_from_slice(c11::TABLE);
    #[cfg(feature = "c12")]
    v.extend_from_slice(c12::TABLE);
    #[cfg(feature = "c13")]
    v.extend_from_slice(c13::TABLE);
    #[cfg(feature = "c14")]
    v.extend_from_slice(c14::TABLE);
    #[cfg(feature = "c15")]
    v.extend_from_slice(c15::TABLE);
    #[cfg(feature = "c16")]
    v.extend_from_slice(c16::TABLE);
    #[cfg(feature = "c17")]
    v.extend_from_slice(c17::TABLE);
    #[cfg(feature = "c18")]
    v.extend_from_slice(c18::TABLE);
    #[cfg(feature = "c19")]
    v.extend_from_slice(c19::TABLE);
    #[cfg(feature = "c20")]
    v.extend_from_slice(c20::TABLE);
    #[cfg(feature = "c21")]
    v.extend_from_slice(c21::TABLE);
    #[cfg(feature = "c22")]
    v.extend_from_slice(c22::TABLE);
    #[cfg(feature = "c23")]
    v.extend_from_slice(c23::TABLE);
    #[cfg(feature = "c24")]
    v.extend_from_slice(c24::TABLE);
    #[cfg(feature = "c25")]
    v.extend_from_slice(c25::TABLE);
    v
}

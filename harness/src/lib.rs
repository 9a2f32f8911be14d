//! Contracts of `ethnum`, stated against the crate in /repo.
//!
//! Each `harness` is a function contract (precondition by `nd::assume`,
//! postcondition by `assert!`) over unconstrained inputs.  `cargo kani`
//! discharges it for all inputs; the `native` binary runs the same contract on
//! concrete inputs.

#![allow(clippy::all, unused_macros, unused_imports)]

/// Contracts checked in both build configurations.
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            $(#[cfg_attr(kani, $m)])*
            #[cfg_attr(kani, kani::proof)]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const REG: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

/// Contracts "this call panics": only with debug assertions.
macro_rules! panic_harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            $(#[cfg_attr(kani, $m)])*
            #[cfg(debug_assertions)]
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::should_panic)]
            pub fn $name() $body
        )*
        #[cfg(all(not(kani), debug_assertions))]
        pub const PREG: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
        #[cfg(all(not(kani), not(debug_assertions)))]
        pub const PREG: &[(&str, fn())] = &[];
    };
}

/// Contracts "this call panics", in every configuration.
macro_rules! always_panic_harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            $(#[cfg_attr(kani, $m)])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::should_panic)]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const AREG: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

pub mod nd;
pub mod arith;
pub mod facts;
pub mod spec;
#[cfg(kani)]
pub mod stubs;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c17;
pub mod c18;
#[cfg(not(kani))]
pub mod c11;
#[cfg(not(kani))]
pub mod c12;
pub mod c13;
#[cfg(kani)]
pub mod c13deep;
#[cfg(feature = "serde")]
pub mod c14;
#[cfg(all(feature = "serde", kani))]
pub mod c14deep;
#[cfg(feature = "serde")]
pub mod c15;
#[cfg(not(kani))]
pub mod c16;
#[cfg(feature = "serde")]
pub mod sink;
#[cfg(not(kani))]
pub mod text;

#[cfg(not(kani))]
pub fn registry() -> Vec<(String, fn())> {
    let mut v: Vec<(String, fn())> = vec![];
    for r in [
        c01::REG, c01::PREG, c02::REG, c02::PREG, c03::REG, c03::AREG, c04::REG, c04::PREG, c04::AREG, c05::REG, c05::PREG, c06::REG, c06::PREG, c07::REG, c08::REG, c09::REG, c10::REG,
        c11::REG, c11::AREG, c12::REG, c13::REG, c13::twin::REG, c16::REG, c16::PREG, c17::REG, c18::REG,
    ] {
        v.extend(r.iter().map(|(n, f)| (n.to_string(), *f)));
    }
    v.extend(c05::prim_registry());
    v.extend(c08::prim_registry());
    for (m, r) in [("u", c06::u::REG), ("i", c06::i::REG), ("u", c09::u::REG), ("i", c09::i::REG)] {
        v.extend(r.iter().map(|(n, f)| (format!("{n}_{m}"), *f)));
    }
    #[cfg(feature = "serde")]
    {
        for r in [c14::REG, c14::twin::REG, c15::REG] {
            v.extend(r.iter().map(|(n, f)| (n.to_string(), *f)));
        }
        for (m, r) in [("le", c15::le::REG), ("be_", c15::be_::REG), ("ne", c15::ne::REG)] {
            v.extend(r.iter().map(|(n, f)| (format!("{n}_{m}"), *f)));
        }
        for (m, r) in [
            ("le_by", c15::le::by::REG), ("le_sq", c15::le::sq::REG),
            ("be__by", c15::be_::by::REG), ("be__sq", c15::be_::sq::REG),
            ("ne_by", c15::ne::by::REG), ("ne_sq", c15::ne::sq::REG),
        ] {
            v.extend(r.iter().map(|(n, f)| (format!("{n}_{m}"), *f)));
        }
    }
    v
}

//! Kani harnesses over the real crevice crate, and their native replay.
#![allow(clippy::all, warnings)]
#[macro_use]
pub mod nd;
pub mod spec;
#[macro_use]
pub mod model;
pub mod checks;
#[macro_use]
pub mod family;
#[cfg(feature = "mathlibs")]
pub mod math;
pub mod glsl;
pub mod spy;

/// Declares the harnesses: a Kani proof and an entry in `ALL` for the native replay.
macro_rules! harnesses {
    ($($(#[$mm:meta])* $m:ident { $($n:ident [$u:literal] = $f:expr;)+ })+) => {
        $($(#[$mm])* pub mod $m {
            use super::*;
            $(
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind($u))]
                pub fn $n() { $f }
            )+
            #[cfg(not(kani))]
            pub const ALL: &[(&str, fn())] = &[$((concat!(stringify!($m), "::", stringify!($n)), $n)),+];
        })+
        #[cfg(not(kani))]
        pub fn all() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $($(#[$mm])* v.extend_from_slice($m::ALL);)+
            v
        }
    };
}
pub mod props;

#[cfg(not(kani))]
thread_local! {
    pub static WITNESS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
#[cfg(not(kani))]
pub fn witness() {
    WITNESS.with(|w| w.set(true));
}

//! The harnesses: one module per property, one entry per harness instance.
//!
//! The same source is compiled twice: to LLVM IR against the copy of rusty_genes that is encoded
//! (`--cfg vpsym`), and natively against /repo with its real dependencies, to replay the values the
//! solver found.  Only the public interface of rusty_genes is used.
#![allow(clippy::all, dead_code, unused_imports, unused_macros)]

/// Declares the entries of a module: `quick NAME => EXPR;` runs in both tiers, `thorough ...` only
/// in the thorough one; `quick/4` splits the exploration over four processes.  `wide` and `widest`
/// are the same with models of the hashed collections that have room for 40 elements, `huge` for 140.
macro_rules! entries {
    ($($tier:ident $(/ $shards:literal)? $name:ident => $body:expr;)*) => {
        $(
            #[cfg_attr(vpsym, no_mangle)]
            pub extern "C-unwind" fn $name() {
                let _ = $body;
            }
        )*
        pub const LIST: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}

#[macro_use]
mod common;
pub use common::*;
pub mod algo;

macro_rules! properties {
    ($($feature:literal $m:ident),*) => {
        $( #[cfg(feature = $feature)] pub mod $m; )*
        pub fn all() -> Vec<(&'static str, extern "C-unwind" fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, extern "C-unwind" fn())> = Vec::new();
            $( #[cfg(feature = $feature)] v.extend_from_slice($m::LIST); )*
            v
        }
    };
}

include!("properties.rs");

//! juno_axum with its private items in reach: the crate root is /repo/juno_axum/src/main.rs itself.
#![allow(warnings)]
macro_rules! println { ($($t:tt)*) => {{ let _ = || { let _ = format_args!($($t)*); }; }} }
macro_rules! eprintln { ($($t:tt)*) => {{ let _ = || { let _ = format_args!($($t)*); }; }} }
include!("/repo/juno_axum/src/main.rs");
#[path = "../../harness/src/vf.rs"]
pub mod vf;
pub mod h;

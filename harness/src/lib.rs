#![allow(clippy::all)]
mod vf;
mod trade;
mod risk;
mod prim;
mod ind;
mod strat;
mod util;
mod gen;
mod stat;
#[cfg(feature = "svc")]
pub use svc::h::*;

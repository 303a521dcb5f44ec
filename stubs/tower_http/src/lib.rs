//! Verification stand-in
pub mod cors { #[derive(Clone, Default)] pub struct CorsLayer; impl CorsLayer { pub fn permissive() -> Self { CorsLayer } pub fn very_permissive() -> Self { CorsLayer } pub fn new() -> Self { CorsLayer } } }

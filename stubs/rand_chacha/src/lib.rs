//! Verification stand-in for rand_chacha: every 32-bit output of the generator is a nondeterministic
//! value, a function of (seed, position) only.  The real ChaCha stream is one instance of it.
pub use rand_core;
use rand_core::block::{BlockRng, BlockRngCore};
use rand_core::{CryptoRng, Error, RngCore, SeedableRng};

extern "C" { fn vf_rng_at(seed: u64, pos: u64) -> u32; }

fn key(seed: &[u8; 32]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut i = 0;
    while i < 32 { h = (h ^ seed[i] as u64).wrapping_mul(0x100000001b3); i += 1; }
    h
}
macro_rules! gen {
    ($core:ident, $rng:ident) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $core { seed: [u8; 32], pos: u64 }
        impl BlockRngCore for $core {
            type Item = u32;
            type Results = rand_core_results::A64;
            fn generate(&mut self, r: &mut Self::Results) {
                for i in 0..64 { r.0[i] = unsafe { vf_rng_at(key(&self.seed), self.pos) }; self.pos += 1; }
            }
        }
        impl SeedableRng for $core { type Seed = [u8; 32]; fn from_seed(seed: [u8; 32]) -> Self { $core { seed, pos: 0 } } }
        impl CryptoRng for $core {}
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $rng { seed: [u8; 32], k: u64, pos: u64 }
        impl SeedableRng for $rng {
            type Seed = [u8; 32];
            fn from_seed(seed: [u8; 32]) -> Self { $rng { k: key(&seed), seed, pos: 0 } }
        }
        impl RngCore for $rng {
            fn next_u32(&mut self) -> u32 { let v = unsafe { vf_rng_at(self.k, self.pos) }; self.pos += 1; v }
            fn next_u64(&mut self) -> u64 { let a = self.next_u32() as u64; let b = self.next_u32() as u64; a | (b << 32) }
            fn fill_bytes(&mut self, d: &mut [u8]) { rand_core::impls::fill_bytes_via_next(self, d) }
            fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
        }
        impl CryptoRng for $rng {}
        impl $rng { pub fn get_seed(&self) -> [u8; 32] { self.seed } }
        impl From<$core> for $rng { fn from(c: $core) -> Self { $rng::from_seed(c.seed) } }
    };
}
pub mod rand_core_results {
    #[derive(Clone)]
    pub struct A64(pub [u32; 64]);
    impl Default for A64 { fn default() -> Self { A64([0; 64]) } }
    impl AsRef<[u32]> for A64 { fn as_ref(&self) -> &[u32] { &self.0 } }
    impl AsMut<[u32]> for A64 { fn as_mut(&mut self) -> &mut [u32] { &mut self.0 } }
}
gen!(ChaCha8Core, ChaCha8Rng);
gen!(ChaCha12Core, ChaCha12Rng);
gen!(ChaCha20Core, ChaCha20Rng);
pub type ChaChaRng = ChaCha20Rng;
pub type ChaChaCore = ChaCha20Core;
#[allow(dead_code)]
type _B = BlockRng<ChaCha20Core>;

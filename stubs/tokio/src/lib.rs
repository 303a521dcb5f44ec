//! Verification stand-in for tokio: runs a future to its end on the calling thread.
pub use vf_tokio_macros::main;
use std::{future::Future, pin::pin, task::{Context, Poll, RawWaker, RawWakerVTable, Waker}};
fn raw() -> RawWaker { static T: RawWakerVTable = RawWakerVTable::new(|_| raw(), |_| {}, |_| {}, |_| {}); RawWaker::new(std::ptr::null(), &T) }
pub fn block_on<F: Future>(f: F) -> F::Output {
    let w = unsafe { Waker::from_raw(raw()) }; let mut cx = Context::from_waker(&w); let mut f = pin!(f);
    for _ in 0..1000 { if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; } }
    panic!("a future that never ends")
}
pub mod task { pub async fn spawn_blocking<R, F: FnOnce() -> R>(f: F) -> Result<R, std::fmt::Error> { Ok(f()) } }

//! Verification stand-in for axum: the same routing and extraction API, called directly instead of over HTTP.
pub mod val;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::{future::Future, net::SocketAddr, pin::Pin, rc::Rc};
use val::*;
pub mod http {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct StatusCode(pub u16);
    #[allow(non_upper_case_globals)]
    impl StatusCode { pub const OK: Self = Self(200); pub const CREATED: Self = Self(201); pub const ACCEPTED: Self = Self(202); pub const NO_CONTENT: Self = Self(204); pub const BAD_REQUEST: Self = Self(400); pub const NOT_FOUND: Self = Self(404); pub const UNPROCESSABLE_ENTITY: Self = Self(422); pub const INTERNAL_SERVER_ERROR: Self = Self(500); pub const BAD_GATEWAY: Self = Self(502); pub const SERVICE_UNAVAILABLE: Self = Self(503); pub fn as_u16(&self) -> u16 { self.0 } }
}
pub mod response {
    pub use crate::Json;
    pub struct Response { pub status: u16, pub body: crate::val::Val }
    pub trait IntoResponse { fn into_response(self) -> Response; }
    pub type Result<T, E = Response> = std::result::Result<T, E>;
}
use response::*;
pub struct Json<T>(pub T);
impl<T: Serialize> IntoResponse for Json<T> { fn into_response(self) -> Response { Response { status: 200, body: ser(&self.0) } } }
impl IntoResponse for Response { fn into_response(self) -> Response { self } }
impl IntoResponse for http::StatusCode { fn into_response(self) -> Response { Response { status: self.0, body: Val::Null } } }
impl IntoResponse for &'static str { fn into_response(self) -> Response { Response { status: 200, body: Val::Str(self.to_string()) } } }
impl IntoResponse for String { fn into_response(self) -> Response { Response { status: 200, body: Val::Str(self) } } }
impl<R: IntoResponse> IntoResponse for (http::StatusCode, R) { fn into_response(self) -> Response { Response { status: self.0 .0, body: self.1.into_response().body } } }
impl<R: IntoResponse, E: IntoResponse> IntoResponse for std::result::Result<R, E> { fn into_response(self) -> Response { match self { Ok(r) => r.into_response(), Err(e) => e.into_response() } } }
pub mod extract { pub use crate::Json; pub struct State<S>(pub S); }
/// an argument of a handler
pub trait Extract<S>: Sized { fn extract(s: &S, body: &Value) -> Option<Self>; }
impl<S: Clone> Extract<S> for extract::State<S> { fn extract(s: &S, _: &Value) -> Option<Self> { Some(extract::State(s.clone())) } }
impl<S, T: DeserializeOwned> Extract<S> for Json<T> { fn extract(_: &S, b: &Value) -> Option<Self> { serde_json::from_value(b.clone()).ok().map(Json) } }
pub type Fut = Pin<Box<dyn Future<Output = Response>>>;
fn refuse() -> Fut { Box::pin(async { Response { status: 422, body: Val::Null } }) }
pub trait Handler<M, S>: 'static { fn call(&self, s: &S, b: &Value) -> Fut; }
impl<S, F: Fn() -> U + 'static, U: Future + 'static> Handler<(), S> for F where U::Output: IntoResponse { fn call(&self, _: &S, _: &Value) -> Fut { let f = self(); Box::pin(async { f.await.into_response() }) } }
impl<S, A: Extract<S> + 'static, F: Fn(A) -> U + 'static, U: Future + 'static> Handler<(A,), S> for F where U::Output: IntoResponse { fn call(&self, s: &S, b: &Value) -> Fut { match A::extract(s, b) { Some(a) => { let f = self(a); Box::pin(async { f.await.into_response() }) } None => refuse() } } }
impl<S, A: Extract<S> + 'static, B: Extract<S> + 'static, F: Fn(A, B) -> U + 'static, U: Future + 'static> Handler<(A, B), S> for F where U::Output: IntoResponse { fn call(&self, s: &S, b: &Value) -> Fut { match (A::extract(s, b), B::extract(s, b)) { (Some(x), Some(y)) => { let f = self(x, y); Box::pin(async { f.await.into_response() }) } _ => refuse() } } }
type Call<S> = Rc<dyn Fn(&S, &Value) -> Fut>;
pub struct MethodRouter<S> { m: Vec<(&'static str, Call<S>)> }
impl<S: 'static> MethodRouter<S> {
    fn and<M, H: Handler<M, S>>(mut self, n: &'static str, h: H) -> Self { self.m.push((n, Rc::new(move |s: &S, b: &Value| h.call(s, b)))); self }
    pub fn get<M, H: Handler<M, S>>(self, h: H) -> Self { self.and("GET", h) }
    pub fn post<M, H: Handler<M, S>>(self, h: H) -> Self { self.and("POST", h) }
}
pub mod routing {
    pub use crate::MethodRouter; use crate::Handler;
    pub fn get<S: 'static, M, H: Handler<M, S>>(h: H) -> MethodRouter<S> { MethodRouter { m: vec![] }.get(h) }
    pub fn post<S: 'static, M, H: Handler<M, S>>(h: H) -> MethodRouter<S> { MethodRouter { m: vec![] }.post(h) }
}
pub struct Router<S = ()> { r: Vec<(String, &'static str, Call<S>)> }
fn join(a: &str, b: &str) -> String { let s = format!("{}{}", a, b); if s.len() > 1 && s.ends_with('/') { s[..s.len() - 1].to_string() } else { s } }
impl<S: 'static> Router<S> {
    pub fn new() -> Self { Router { r: vec![] } }
    pub fn route(mut self, p: &str, m: MethodRouter<S>) -> Self { for (n, c) in m.m { self.r.push((join("", p), n, c)); } self }
    pub fn nest(mut self, p: &str, o: Router<S>) -> Self { for (q, n, c) in o.r { self.r.push((join(p, &q), n, c)); } self }
    pub fn merge(mut self, o: Router<S>) -> Self { self.r.extend(o.r); self }
    pub fn with_state(self, s: S) -> Router<()> { let s = Rc::new(s); Router { r: self.r.into_iter().map(|(p, n, c)| { let s = s.clone(); (p, n, Rc::new(move |_: &(), b: &Value| c(&s, b)) as Call<()>) }).collect() } }
    pub fn layer<L>(self, _: L) -> Self { self }
    pub fn into_make_service(self) -> Self { self }
}
impl Router<()> { pub fn call(&self, method: &str, path: &str, body: &Value) -> Option<Fut> { for (p, n, c) in &self.r { if p == path && *n == method { return Some(c(&(), body)); } } None } }
pub struct Server;
static mut APP: Option<Router<()>> = None;
/// the application last served
pub fn app() -> Router<()> { unsafe { (*std::ptr::addr_of_mut!(APP)).take().unwrap() } }
impl Server { pub fn bind(_: &SocketAddr) -> Self { Server } pub async fn serve(self, app: Router<()>) -> std::io::Result<()> { unsafe { APP = Some(app) } Ok(()) } }

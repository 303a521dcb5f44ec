//! Verification stand-in for reqwest: requests go to a server the harness installs; answers may take any number of polls.
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::{fmt, future::Future, pin::Pin, task::{Context, Poll}};
/// what the server makes of a request: how many polls it takes, then a status with a body or no answer
pub struct Reply { pub polls: u64, pub answer: Option<(u16, Value)> }
static mut SERVER: Option<fn(&str, &str, Value) -> Reply> = None;
pub fn serve(f: fn(&str, &str, Value) -> Reply) { unsafe { SERVER = Some(f) } }
struct Wait(u64);
impl Future for Wait { type Output = (); fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { if self.0 == 0 { Poll::Ready(()) } else { self.0 -= 1; cx.waker().wake_by_ref(); Poll::Pending } } }
#[derive(Debug)] pub struct Error(pub &'static str);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct StatusCode(u16);
impl StatusCode { pub fn as_u16(&self) -> u16 { self.0 } pub fn is_client_error(&self) -> bool { self.0 >= 400 && self.0 < 500 } pub fn is_server_error(&self) -> bool { self.0 >= 500 && self.0 < 600 } pub fn is_success(&self) -> bool { self.0 >= 200 && self.0 < 300 } }
impl fmt::Display for StatusCode { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Url(String);
impl Url { pub fn as_str(&self) -> &str { &self.0 } }
impl fmt::Display for Url { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
#[derive(Clone, Debug, Default)] pub struct Client;
impl Client {
    pub fn new() -> Self { Client }
    pub fn get<U: AsRef<str>>(&self, u: U) -> RequestBuilder { RequestBuilder { method: "GET", url: u.as_ref().to_string(), body: Value::Null } }
    pub fn post<U: AsRef<str>>(&self, u: U) -> RequestBuilder { RequestBuilder { method: "POST", url: u.as_ref().to_string(), body: Value::Null } }
}
pub struct RequestBuilder { method: &'static str, url: String, body: Value }
impl RequestBuilder {
    pub fn json<T: Serialize + ?Sized>(mut self, b: &T) -> Self { self.body = serde_json::to_value(b).unwrap_or(Value::Null); self }
    pub async fn send(self) -> Result<Response> {
        let f = unsafe { SERVER }.unwrap();
        let r = f(self.method, &self.url, self.body);
        Wait(r.polls).await;
        match r.answer { Some((s, body)) => Ok(Response { status: StatusCode(s), url: Url(self.url), body }), None => Err(Error("no answer")) }
    }
}
#[derive(Debug)] pub struct Response { status: StatusCode, url: Url, body: Value }
impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub fn url(&self) -> &Url { &self.url }
    pub fn error_for_status(self) -> Result<Self> { if self.status.0 >= 400 { Err(Error("error status")) } else { Ok(self) } }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> { serde_json::from_value(self.body).map_err(|_| Error("decoding")) }
}

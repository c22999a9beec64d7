//! Stand-in for `reqwest`: requests go to an environment the explorer controls. The answer of a
//! request, and its text, come when the caller is polled the second time.
use serde::{de::DeserializeOwned, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct StatusCode(u16);
impl StatusCode {
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
}

pub mod env {
    use std::cell::RefCell;
    #[derive(Clone, Debug, PartialEq)]
    pub struct Request {
        pub method: &'static str,
        pub url: String,
        pub json: Option<serde_json::Value>,
        pub others: Vec<String>,
    }
    #[derive(Clone, Debug)]
    pub enum Reply {
        /// no connection
        Refused,
        /// the connection is lost before the end of the text
        Cut(u16),
        Text(u16, String),
    }
    type Handler = Box<dyn FnMut(Request) -> Reply>;
    thread_local!(pub(crate) static HANDLER: RefCell<Option<Handler>> = RefCell::new(None));
    pub fn set(h: Option<Handler>) {
        HANDLER.with(|x| *x.borrow_mut() = h)
    }
}

struct Later(bool);
impl Future for Later {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            return Poll::Ready(());
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[derive(Clone, Debug, Default)]
pub struct Client(());
impl Client {
    pub fn new() -> Self {
        Self(())
    }
    pub fn post(&self, url: impl AsRef<str>) -> RequestBuilder {
        RequestBuilder(env::Request { method: "POST", url: url.as_ref().into(), json: None, others: vec![] })
    }
    pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
        RequestBuilder(env::Request { method: "GET", url: url.as_ref().into(), json: None, others: vec![] })
    }
}
pub async fn get(url: impl AsRef<str>) -> Result<Response> {
    Client::new().get(url).send().await
}
pub struct RequestBuilder(env::Request);
impl RequestBuilder {
    pub fn json<T: Serialize + ?Sized>(mut self, v: &T) -> Self {
        self.0.json = Some(serde_json::to_value(v).expect("a value that is no JSON"));
        self
    }
    pub fn body(mut self, v: impl Into<String>) -> Self {
        let v = v.into();
        match serde_json::from_str(&v) {
            Ok(j) => self.0.json = Some(j),
            Err(_) => self.0.others.push(format!("body {v}")),
        }
        self
    }
    pub fn header(mut self, k: impl ToString, v: impl ToString) -> Self {
        let (k, v) = (k.to_string().to_ascii_lowercase(), v.to_string());
        if (k.as_str(), v.as_str()) != ("content-type", "application/json") && k != "accept" {
            self.0.others.push(format!("header {k}: {v}"));
        }
        self
    }
    pub async fn send(self) -> Result<Response> {
        let r = env::HANDLER.with(|h| (h.borrow_mut().as_mut().expect("environment"))(self.0));
        Later(false).await;
        match r {
            env::Reply::Refused => Err(Error("error sending request: connection refused".into())),
            r => Ok(Response(r)),
        }
    }
}
#[derive(Debug)]
pub struct Response(env::Reply);
impl Response {
    pub fn status(&self) -> StatusCode {
        match self.0 {
            env::Reply::Refused => unreachable!(),
            env::Reply::Cut(s) | env::Reply::Text(s, _) => StatusCode(s),
        }
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status().as_u16() >= 400 {
            return Err(Error(format!("HTTP status error ({})", self.status().as_u16())));
        }
        Ok(self)
    }
    pub async fn text(self) -> Result<String> {
        Later(false).await;
        match self.0 {
            env::Reply::Text(_, t) => Ok(t),
            _ => Err(Error("error decoding response body: connection closed".into())),
        }
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        let t = self.text().await?;
        serde_json::from_str(&t).map_err(|e| Error(format!("error decoding response body: {e}")))
    }
}

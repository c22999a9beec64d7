//! Stand-in for `wasm-bindgen`: values of JavaScript that are text or not, and an environment
//! the explorer controls that answers the calls of imported functions.
pub use wasm_bindgen_macro::wasm_bindgen;

#[derive(Clone, Debug)]
enum Kind {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    /// a bigint, in decimal
    Big(String),
    Text(String),
    Record(Vec<(String, JsValue)>),
    List(Vec<JsValue>),
    /// an object of an exported type
    Object(std::sync::Arc<dyn Opaque>),
}
pub trait Opaque: std::any::Any + Send + Sync {
    fn any(&self) -> &dyn std::any::Any;
}
impl<T: std::any::Any + Send + Sync> Opaque for T {
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}
impl std::fmt::Debug for dyn Opaque {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("an object")
    }
}
impl PartialEq for Kind {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Kind::Undefined, Kind::Undefined) | (Kind::Null, Kind::Null) => true,
            (Kind::Bool(a), Kind::Bool(b)) => a == b,
            (Kind::Number(a), Kind::Number(b)) => a == b,
            (Kind::Big(a), Kind::Big(b)) | (Kind::Text(a), Kind::Text(b)) => a == b,
            (Kind::Record(a), Kind::Record(b)) => a == b,
            (Kind::List(a), Kind::List(b)) => a == b,
            (Kind::Object(a), Kind::Object(b)) => std::sync::Arc::ptr_eq(a, b),
            _ => false,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(Kind);
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Kind::Undefined);
    pub const NULL: JsValue = JsValue(Kind::Null);
    pub fn undefined() -> Self {
        Self::UNDEFINED
    }
    pub fn null() -> Self {
        Self::NULL
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        Self(Kind::Text(s.into()))
    }
    pub fn from_f64(n: f64) -> Self {
        Self(Kind::Number(n))
    }
    pub fn from_bool(b: bool) -> Self {
        Self(Kind::Bool(b))
    }
    /// stand-in only: a bigint
    pub fn big(text: &str) -> Self {
        Self(Kind::Big(text.into()))
    }
    /// stand-in only: an object with these members
    pub fn record(members: Vec<(String, JsValue)>) -> Self {
        Self(Kind::Record(members))
    }
    /// stand-in only: an array
    pub fn list(items: Vec<JsValue>) -> Self {
        Self(Kind::List(items))
    }
    /// stand-in only: an object of an exported type
    pub fn opaque<T: Opaque>(v: T) -> Self {
        Self(Kind::Object(std::sync::Arc::new(v)))
    }
    /// stand-in only: the items of an array
    pub fn items(&self) -> Option<Vec<JsValue>> {
        match &self.0 {
            Kind::List(l) => Some(l.clone()),
            _ => None,
        }
    }
    /// stand-in only: an object of this type
    pub fn object<T: Opaque + Clone>(&self) -> Option<T> {
        match &self.0 {
            Kind::Object(o) => (**o).any().downcast_ref::<T>().cloned(),
            _ => None,
        }
    }
    /// stand-in only: what `this.name` is
    pub fn member(&self, name: &str) -> JsValue {
        match &self.0 {
            Kind::Record(m) => m.iter().find(|x| x.0 == name).map_or(Self::UNDEFINED, |x| x.1.clone()),
            _ => Self::UNDEFINED,
        }
    }
    /// stand-in only: the expression that makes this value
    pub fn expression(&self) -> String {
        let quoted = |s: &str| {
            let mut r = String::from("\"");
            for c in s.encode_utf16() {
                r += &format!("\\u{c:04x}");
            }
            r + "\""
        };
        match &self.0 {
            Kind::Undefined => "undefined".into(),
            Kind::Null => "null".into(),
            Kind::Bool(b) => b.to_string(),
            Kind::Number(n) if n.is_nan() => "NaN".into(),
            Kind::Number(n) if n.is_infinite() => (if *n > 0.0 { "Infinity" } else { "-Infinity" }).into(),
            Kind::Number(n) => format!("{n:e}"),
            Kind::Big(s) => format!("{s}n"),
            Kind::Text(s) => quoted(s),
            Kind::Record(m) => {
                let m: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", quoted(k), v.expression())).collect();
                format!("{{{}}}", m.join(", "))
            }
            Kind::List(m) => format!("[{}]", m.iter().map(|v| v.expression()).collect::<Vec<_>>().join(", ")),
            Kind::Object(_) => "{}".into(),
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self.0 {
            Kind::Bool(b) => Some(b),
            _ => None,
        }
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, Kind::Record(_) | Kind::List(_) | Kind::Object(_))
    }
    pub fn is_bigint(&self) -> bool {
        matches!(self.0, Kind::Big(_))
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Kind::Text(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self.0 {
            Kind::Number(n) => Some(n),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        self.0 == Kind::Undefined
    }
    pub fn is_null(&self) -> bool {
        self.0 == Kind::Null
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, Kind::Text(_))
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        Self::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self(Kind::Text(s))
    }
}

impl From<f64> for JsValue {
    fn from(n: f64) -> Self {
        Self::from_f64(n)
    }
}
impl From<u32> for JsValue {
    fn from(n: u32) -> Self {
        Self::from_f64(n as f64)
    }
}
impl From<u64> for JsValue {
    fn from(n: u64) -> Self {
        Self::big(&n.to_string())
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        Self::from_bool(b)
    }
}

/// What an exported function throws.
#[derive(Clone, Debug)]
pub struct JsError(String);
impl JsError {
    pub fn new(s: &str) -> Self {
        Self(s.into())
    }
    /// stand-in only
    pub fn message(&self) -> &str {
        &self.0
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        Self(e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        Self::from(e.0)
    }
}

/// A value as the glue code of wasm-bindgen gives it to Rust. What it throws for a value of
/// another kind is thrown in JavaScript: such values are not explored.
pub trait FromJs {
    fn from_js(v: JsValue) -> Self;
}
impl FromJs for JsValue {
    fn from_js(v: JsValue) -> Self {
        v
    }
}
impl FromJs for String {
    fn from_js(v: JsValue) -> Self {
        v.as_string().expect("wasm-bindgen throws: not a string")
    }
}
impl FromJs for u32 {
    fn from_js(v: JsValue) -> Self {
        // ToUint32
        match &v.0 {
            Kind::Number(n) if n.is_finite() => n.trunc().rem_euclid(4294967296.0) as u32,
            Kind::Number(_) | Kind::Undefined | Kind::Null => 0,
            Kind::Bool(b) => *b as u32,
            Kind::Text(s) => s.trim().parse::<f64>().map_or(0, |n| u32::from_js(JsValue::from_f64(n))),
            _ => panic!("wasm-bindgen throws: not a number"),
        }
    }
}
impl FromJs for usize {
    fn from_js(v: JsValue) -> Self {
        u32::from_js(v) as usize
    }
}
impl FromJs for f64 {
    fn from_js(v: JsValue) -> Self {
        v.as_f64().expect("wasm-bindgen throws: not a number")
    }
}
impl FromJs for () {
    fn from_js(_: JsValue) {}
}
impl<T: FromJs> FromJs for Option<T> {
    fn from_js(v: JsValue) -> Self {
        if v.is_null() || v.is_undefined() {
            None
        } else {
            Some(T::from_js(v))
        }
    }
}
/// What an exported function gives, or throws.
pub trait IntoJs {
    fn into_js(self) -> Result<JsValue, JsValue>;
}
impl<T: Into<JsValue>> IntoJs for T {
    fn into_js(self) -> Result<JsValue, JsValue> {
        Ok(self.into())
    }
}
impl<T: Into<JsValue>, E: Into<JsValue>> IntoJs for Result<T, E> {
    fn into_js(self) -> Result<JsValue, JsValue> {
        self.map(Into::into).map_err(Into::into)
    }
}
impl From<()> for JsValue {
    fn from(_: ()) -> Self {
        Self::UNDEFINED
    }
}
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(v: Option<T>) -> Self {
        v.map_or(Self::UNDEFINED, Into::into)
    }
}
/// An exported function as JavaScript sees it.
pub type Exported = std::pin::Pin<Box<dyn std::future::Future<Output = Result<JsValue, JsValue>>>>;
pub trait JsCast: AsRef<JsValue> + From<JsValue> + Into<JsValue> {
    fn unchecked_into<T: JsCast>(self) -> T {
        T::from(self.into())
    }
}

/// `js_sys::JsString`, here for `env::Arg`
#[derive(Clone, Debug, PartialEq)]
pub struct JsString(pub String);

pub mod env {
    use super::*;
    use std::cell::RefCell;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    #[derive(Clone, Debug, PartialEq)]
    pub enum Value {
        Number(u64),
        Text(String),
        List(Vec<String>),
        Js(JsValue),
    }
    impl Arg for &JsValue {
        fn arg(&self) -> Value {
            Value::Js((*self).clone())
        }
    }
    impl Arg for JsValue {
        fn arg(&self) -> Value {
            Value::Js(self.clone())
        }
    }
    pub trait Arg {
        fn arg(&self) -> Value;
    }
    impl Arg for usize {
        fn arg(&self) -> Value {
            Value::Number(*self as u64)
        }
    }
    impl Arg for u32 {
        fn arg(&self) -> Value {
            Value::Number(*self as u64)
        }
    }
    impl Arg for &str {
        fn arg(&self) -> Value {
            Value::Text(self.to_string())
        }
    }
    impl Arg for String {
        fn arg(&self) -> Value {
            Value::Text(self.clone())
        }
    }
    impl Arg for Vec<JsString> {
        fn arg(&self) -> Value {
            Value::List(self.iter().map(|s| s.0.clone()).collect())
        }
    }

    type Handler = Box<dyn FnMut(&str, Vec<Value>) -> Result<JsValue, JsValue>>;
    thread_local!(static HANDLER: RefCell<Option<Handler>> = RefCell::new(None));
    /// Sets what answers the calls made on this thread.
    pub fn set(h: Option<Handler>) {
        HANDLER.with(|x| *x.borrow_mut() = h)
    }

    type Sync = Box<dyn FnMut(&str, Option<&str>, Vec<Value>) -> JsValue>;
    thread_local!(static SYNC: RefCell<Option<Sync>> = RefCell::new(None));
    /// Sets what answers the calls of functions that are not asynchronous, which get the text of
    /// the JavaScript they are defined by, if it stands with them.
    pub fn set_sync(h: Option<Sync>) {
        SYNC.with(|x| *x.borrow_mut() = h)
    }
    pub fn call_sync(name: &str, js: Option<&str>, args: Vec<Value>) -> JsValue {
        SYNC.with(|h| h.borrow_mut().as_mut().map_or(JsValue::UNDEFINED, |h| h(name, js, args)))
    }

    /// The answer comes when the caller is polled the second time, as an answer from a promise does.
    struct Call(Option<Result<JsValue, JsValue>>, bool);
    impl Future for Call {
        type Output = Result<JsValue, JsValue>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            if std::mem::replace(&mut self.1, true) {
                return Poll::Ready(self.0.take().expect("polled after the end"));
            }
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    pub async fn call(name: &str, args: Vec<Value>) -> Result<JsValue, JsValue> {
        let r = HANDLER.with(|h| (h.borrow_mut().as_mut().expect("environment"))(name, args));
        Call(Some(r), false).await
    }
}

pub mod prelude {
    pub use super::{wasm_bindgen, JsCast, JsError, JsValue};
}
impl From<&str> for JsString {
    fn from(s: &str) -> Self {
        Self(s.into())
    }
}
impl From<String> for JsString {
    fn from(s: String) -> Self {
        Self(s)
    }
}

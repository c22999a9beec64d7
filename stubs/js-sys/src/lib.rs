//! Stand-in for the names of `js-sys` the repository uses.
pub use wasm_bindgen::JsString;
use wasm_bindgen::JsValue;

/// An array; a copy is the same array, as in JavaScript.
#[derive(Clone, Debug, Default)]
pub struct Array(std::sync::Arc<std::sync::Mutex<Vec<JsValue>>>);
impl Array {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn new_with_length(n: u32) -> Self {
        Self::of(vec![JsValue::UNDEFINED; n as usize])
    }
    fn of(v: Vec<JsValue>) -> Self {
        Self(std::sync::Arc::new(std::sync::Mutex::new(v)))
    }
    pub fn of1(a: &JsValue) -> Self {
        Self::of(vec![a.clone()])
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Self {
        Self::of(vec![a.clone(), b.clone()])
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.0.lock().unwrap().clone()
    }
    pub fn length(&self) -> u32 {
        self.0.lock().unwrap().len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.0.lock().unwrap().get(i as usize).cloned().unwrap_or(JsValue::UNDEFINED)
    }
    pub fn set(&self, i: u32, v: JsValue) {
        let mut l = self.0.lock().unwrap();
        while l.len() <= i as usize {
            l.push(JsValue::UNDEFINED);
        }
        l[i as usize] = v;
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.0.lock().unwrap().push(v.clone());
        self.length()
    }
    pub fn pop(&self) -> JsValue {
        self.0.lock().unwrap().pop().unwrap_or(JsValue::UNDEFINED)
    }
    pub fn concat(&self, o: &Array) -> Array {
        Self::of([self.to_vec(), o.to_vec()].concat())
    }
    pub fn for_each(&self, f: &mut dyn FnMut(JsValue, u32, Array)) {
        for (i, v) in self.to_vec().into_iter().enumerate() {
            f(v, i as u32, self.clone())
        }
    }
    pub fn every(&self, f: &mut dyn FnMut(JsValue, u32, Array) -> bool) -> bool {
        self.to_vec().into_iter().enumerate().all(|(i, v)| f(v, i as u32, self.clone()))
    }
    pub fn some(&self, f: &mut dyn FnMut(JsValue) -> bool) -> bool {
        self.to_vec().into_iter().any(f)
    }
    pub fn map(&self, f: &mut dyn FnMut(JsValue, u32, Array) -> JsValue) -> Array {
        Self::of(self.to_vec().into_iter().enumerate().map(|(i, v)| f(v, i as u32, self.clone())).collect())
    }
}
impl wasm_bindgen::FromJs for Array {
    fn from_js(v: JsValue) -> Self {
        Self::of(v.items().expect("wasm-bindgen throws: not an array"))
    }
}
impl From<Array> for JsValue {
    fn from(v: Array) -> Self {
        JsValue::list(v.to_vec())
    }
}
impl<A: Into<JsValue>> FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Self {
        Self::of(i.into_iter().map(Into::into).collect())
    }
}
impl<A: Into<JsValue>> Extend<A> for Array {
    fn extend<I: IntoIterator<Item = A>>(&mut self, i: I) {
        for a in i {
            self.push(&a.into());
        }
    }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl IntoIterator for &Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

/// Bytes; a copy is the same array, as in JavaScript.
#[derive(Clone, Debug, Default)]
pub struct Uint8Array(std::sync::Arc<std::sync::Mutex<Vec<u8>>>);
impl Uint8Array {
    pub fn new_with_length(n: u32) -> Self {
        Self(std::sync::Arc::new(std::sync::Mutex::new(vec![0; n as usize])))
    }
    pub fn copy_from(&self, b: &[u8]) {
        self.0.lock().unwrap().copy_from_slice(b)
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.lock().unwrap().clone()
    }
    pub fn length(&self) -> u32 {
        self.0.lock().unwrap().len() as u32
    }
}
impl wasm_bindgen::FromJs for Uint8Array {
    fn from_js(v: JsValue) -> Self {
        v.object().expect("wasm-bindgen throws: not an Uint8Array")
    }
}
impl From<Uint8Array> for JsValue {
    fn from(v: Uint8Array) -> Self {
        JsValue::opaque(v)
    }
}
impl From<&[u8]> for Uint8Array {
    fn from(b: &[u8]) -> Self {
        Self(std::sync::Arc::new(std::sync::Mutex::new(b.to_vec())))
    }
}
impl wasm_bindgen::env::Arg for &Uint8Array {
    fn arg(&self) -> wasm_bindgen::env::Value {
        wasm_bindgen::env::Value::Js(JsValue::opaque((*self).clone()))
    }
}

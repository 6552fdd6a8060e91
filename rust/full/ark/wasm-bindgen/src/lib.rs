pub use shim_derive::wasm_bindgen;
#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(pub String);
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(String::new());
    pub const NULL: JsValue = JsValue(String::new());
    pub fn from_str(s: &str) -> JsValue { JsValue(s.to_string()) }
    pub fn as_string(&self) -> Option<String> { Some(self.0.clone()) }
}
impl From<&str> for JsValue { fn from(s: &str) -> Self { JsValue(s.to_string()) } }
impl From<String> for JsValue { fn from(s: String) -> Self { JsValue(s) } }
#[derive(Clone, Debug, PartialEq)]
pub struct JsError(pub String);
impl JsError { pub fn new(s: &str) -> Self { JsError(s.to_string()) } }
impl<E: std::error::Error> From<E> for JsError { fn from(e: E) -> Self { JsError(e.to_string()) } }
impl From<JsError> for JsValue { fn from(e: JsError) -> Self { JsValue(e.0) } }
pub mod prelude { pub use crate::{wasm_bindgen, JsError, JsValue}; }
/// For the monitors: the text of either error type.
pub trait Text { fn text(self) -> String; }
impl Text for JsValue { fn text(self) -> String { self.0 } }
impl Text for JsError { fn text(self) -> String { self.0 } }

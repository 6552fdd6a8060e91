pub fn unused() {}
/// An error with a message, and a byte array: what bindings hand to JavaScript.
#[derive(Clone, Debug, PartialEq)]
pub struct Error(String);
impl Error {
    pub fn new(s: &str) -> Self { Error(s.to_string()) }
    pub fn message(&self) -> String { self.0.clone() }
}
impl From<Error> for wasm_bindgen::JsValue { fn from(e: Error) -> Self { wasm_bindgen::JsValue(e.0) } }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Uint8Array(Vec<u8>);
impl From<&[u8]> for Uint8Array { fn from(b: &[u8]) -> Self { Uint8Array(b.to_vec()) } }
impl Uint8Array {
    pub fn to_vec(&self) -> Vec<u8> { self.0.clone() }
    pub fn length(&self) -> u32 { self.0.len() as u32 }
}

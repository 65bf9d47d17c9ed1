//! Native stand-in: the attribute does nothing, a JsValue is a string.
pub use wasm_bindgen_macro::wasm_bindgen;
#[derive(Clone, Debug, PartialEq, Default)]
pub struct JsValue(pub Option<String>);
impl JsValue {
    pub const NULL: JsValue = JsValue(None);
    pub const UNDEFINED: JsValue = JsValue(None);
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self { JsValue(Some(s.to_string())) }
    pub fn as_string(&self) -> Option<String> { self.0.clone() }
}
impl From<&str> for JsValue { fn from(s: &str) -> Self { JsValue::from_str(s) } }
impl From<String> for JsValue { fn from(s: String) -> Self { JsValue(Some(s)) } }
impl From<&String> for JsValue { fn from(s: &String) -> Self { JsValue(Some(s.clone())) } }
#[derive(Clone, Debug)]
pub struct JsError(pub String);
impl JsError { pub fn new(s: &str) -> Self { JsError(s.to_string()) } }
impl From<JsError> for JsValue { fn from(e: JsError) -> Self { JsValue(Some(e.0)) } }
pub mod prelude { pub use crate::{wasm_bindgen, JsError, JsValue}; }

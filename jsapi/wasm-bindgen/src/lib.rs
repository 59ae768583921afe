//! A stand-in for wasm-bindgen's JsValue, which holds the JSON of a value (undefined is None).
pub mod prelude { pub use crate::JsValue; }

#[derive(Clone, Debug, PartialEq)]
pub struct JsValue { pub json: Option<String> }

impl JsValue {
    pub const NULL: JsValue = JsValue { json: None };
    pub const UNDEFINED: JsValue = JsValue { json: None };
    pub fn null() -> JsValue { JsValue { json: Some("null".into()) } }
    pub fn undefined() -> JsValue { JsValue { json: None } }
    pub fn from_f64(n: f64) -> JsValue { JsValue { json: Some(if n == n.trunc() { format!("{}", n as i64) } else { format!("{}", n) }) } }
    pub fn from_bool(b: bool) -> JsValue { JsValue { json: Some(b.to_string()) } }
    pub fn from_str(s: &str) -> JsValue { JsValue { json: Some(serde_json::to_string(s).unwrap()) } }
    pub fn from_serde<T: serde::ser::Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        Ok(JsValue { json: Some(serde_json::to_string(t)?) })
    }
    pub fn into_serde<T: for<'a> serde::de::Deserialize<'a>>(&self) -> serde_json::Result<T> {
        // JSON.stringify(undefined) is not JSON
        serde_json::from_str(self.json.as_ref().map_or("", |s| &s[..]))
    }
    pub fn as_f64(&self) -> Option<f64> { self.json.as_ref().and_then(|s| s.parse().ok()) }
    pub fn is_null(&self) -> bool { self.json.as_ref().map_or(false, |s| s == "null") }
    pub fn is_undefined(&self) -> bool { self.json.is_none() }
}
macro_rules! num { ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(n: $t) -> JsValue { JsValue { json: Some(n.to_string()) } } })* } }
num!(i8 u8 i16 u16 i32 u32);
impl From<f32> for JsValue { fn from(n: f32) -> JsValue { JsValue::from_f64(n as f64) } }
impl From<f64> for JsValue { fn from(n: f64) -> JsValue { JsValue::from_f64(n) } }
impl From<bool> for JsValue { fn from(b: bool) -> JsValue { JsValue::from_bool(b) } }
impl<'a> From<&'a str> for JsValue { fn from(s: &'a str) -> JsValue { JsValue::from_str(s) } }
impl From<String> for JsValue { fn from(s: String) -> JsValue { JsValue::from_str(&s) } }

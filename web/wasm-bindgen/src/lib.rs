//! JavaScript values as far as the reader for browsers uses them.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    /// milliseconds since 1970
    Date(f64),
    Array(Arc<Mutex<Vec<JsValue>>>),
    Object(Arc<Mutex<BTreeMap<String, JsValue>>>),
    /// what serde made
    Json(serde_json::Value),
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue::Str(s.to_string())
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue::Num(n)
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn null() -> JsValue {
        JsValue::Null
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.clone()),
            JsValue::Json(v) => v.as_str().map(str::to_string),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Num(n) => Some(*n),
            JsValue::Json(v) => v.as_f64(),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(b) => Some(*b),
            JsValue::Json(v) => v.as_bool(),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn is_string(&self) -> bool {
        self.as_string().is_some()
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Array(_) | JsValue::Object(_) | JsValue::Date(_))
    }
    /// The value as JSON, for comparison.
    pub fn json(&self) -> serde_json::Value {
        use serde_json::Value;
        match self {
            JsValue::Undefined | JsValue::Null => Value::Null,
            JsValue::Bool(b) => Value::from(*b),
            // whole numbers are integers to serde
            JsValue::Num(n) if n.fract() == 0.0 && n.abs() <= 9007199254740992.0 => Value::from(*n as i64),
            JsValue::Num(n) => Value::from(*n),
            JsValue::Str(s) => Value::from(s.clone()),
            JsValue::Date(d) => serde_json::json!({ "$date": d }),
            JsValue::Array(a) => Value::from(a.lock().unwrap().iter().map(JsValue::json).collect::<Vec<_>>()),
            JsValue::Object(o) => Value::Object(o.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.json())).collect()),
            JsValue::Json(v) => v.clone(),
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::Str(s)
    }
}
impl From<f64> for JsValue {
    fn from(n: f64) -> JsValue {
        JsValue::Num(n)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

/// Something a value may be taken for.
pub trait JsKind: Sized {
    fn is(v: &JsValue) -> bool;
    fn of(v: JsValue) -> Self;
}
pub trait JsCast: Sized {
    fn is_instance_of<T: JsKind>(&self) -> bool;
    fn unchecked_into<T: JsKind>(self) -> T;
    fn dyn_into<T: JsKind>(self) -> Result<T, Self>;
}
impl JsCast for JsValue {
    fn is_instance_of<T: JsKind>(&self) -> bool {
        T::is(self)
    }
    fn unchecked_into<T: JsKind>(self) -> T {
        T::of(self)
    }
    fn dyn_into<T: JsKind>(self) -> Result<T, Self> {
        if T::is(&self) {
            Ok(T::of(self))
        } else {
            Err(self)
        }
    }
}

pub mod prelude {
    pub use crate::{JsCast, JsValue};
    pub use wasm_bindgen_macro::wasm_bindgen;
}

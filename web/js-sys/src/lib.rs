//! The built-in objects the reader for browsers uses.
use std::ops::Deref;
use std::sync::{Arc, Mutex};
use wasm_bindgen::{JsKind, JsValue};

macro_rules! object {
    ($name:ident, $pat:pat) => {
        #[derive(Clone, Debug)]
        pub struct $name(JsValue);
        impl Deref for $name {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl From<JsValue> for $name {
            fn from(v: JsValue) -> $name {
                $name(v)
            }
        }
        impl From<$name> for JsValue {
            fn from(v: $name) -> JsValue {
                v.0
            }
        }
        impl JsKind for $name {
            fn is(v: &JsValue) -> bool {
                matches!(v, $pat)
            }
            fn of(v: JsValue) -> $name {
                $name(v)
            }
        }
    };
}
object!(Object, JsValue::Object(_) | JsValue::Array(_) | JsValue::Date(_));
object!(Date, JsValue::Date(_));

impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Object {
        Object(JsValue::Object(Arc::default()))
    }
}
impl Date {
    pub fn new(v: &JsValue) -> Date {
        Date(JsValue::Date(v.as_f64().unwrap_or(f64::NAN)))
    }
    pub fn get_time(&self) -> f64 {
        match self.0 {
            JsValue::Date(d) => d,
            _ => f64::NAN,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Array(JsValue);
impl Deref for Array {
    type Target = JsValue;
    fn deref(&self) -> &JsValue {
        &self.0
    }
}
impl AsRef<JsValue> for Array {
    fn as_ref(&self) -> &JsValue {
        &self.0
    }
}
impl JsKind for Array {
    fn is(v: &JsValue) -> bool {
        Array::is_array(v)
    }
    fn of(v: JsValue) -> Array {
        Array::from(&v)
    }
}
impl Array {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Array {
        Array(JsValue::Array(Arc::default()))
    }
    /// What `Array.from` makes: nothing of a value that has no elements.
    #[allow(clippy::should_implement_trait)]
    pub fn from(v: &JsValue) -> Array {
        let items = match v {
            JsValue::Array(a) => a.lock().unwrap().clone(),
            JsValue::Str(s) => s.chars().map(|c| JsValue::Str(c.to_string())).collect(),
            JsValue::Json(serde_json::Value::Array(a)) => a.iter().cloned().map(JsValue::Json).collect(),
            _ => Vec::new(),
        };
        Array(JsValue::Array(Arc::new(Mutex::new(items))))
    }
    pub fn is_array(v: &JsValue) -> bool {
        matches!(v, JsValue::Array(_) | JsValue::Json(serde_json::Value::Array(_)))
    }
    fn items(&self) -> &Mutex<Vec<JsValue>> {
        match &self.0 {
            JsValue::Array(a) => a,
            _ => unreachable!("made as an array"),
        }
    }
    pub fn length(&self) -> u32 {
        self.items().lock().unwrap().len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.items().lock().unwrap().get(i as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.items().lock().unwrap().push(v.clone());
        self.length()
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.items().lock().unwrap().clone()
    }
}
impl From<Array> for JsValue {
    fn from(a: Array) -> JsValue {
        a.0
    }
}

pub struct Reflect;
impl Reflect {
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        match target {
            JsValue::Object(o) => {
                let key = key.as_string().unwrap_or_default();
                Ok(o.lock().unwrap().get(&key).cloned().unwrap_or(JsValue::Undefined))
            }
            JsValue::Json(v @ serde_json::Value::Object(_)) => {
                Ok(v.get(key.as_string().unwrap_or_default()).cloned().map_or(JsValue::Undefined, JsValue::Json))
            }
            JsValue::Array(_) | JsValue::Date(_) => Ok(JsValue::Undefined),
            _ => Err(JsValue::from_str("Reflect.get called on non-object")),
        }
    }
    pub fn set(target: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue> {
        match target {
            JsValue::Object(o) => {
                o.lock().unwrap().insert(key.as_string().unwrap_or_default(), value.clone());
                Ok(true)
            }
            _ => Err(JsValue::from_str("Reflect.set called on non-object")),
        }
    }
}

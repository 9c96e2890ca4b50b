//! Native stand-in for the JavaScript values the web entry point deals with: the same conversions
//! as in a browser, without one.
use std::cell::RefCell;
use std::rc::Rc;
pub use wasm_bindgen_macro::wasm_bindgen;

#[derive(Clone, Debug)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    String(String),
    Array(Rc<RefCell<Vec<JsValue>>>),
    /// a view: buffer, offset, length
    Bytes(Rc<RefCell<Vec<u8>>>, usize, usize),
}
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    pub fn from_f64(n: f64) -> JsValue {
        JsValue::Number(n)
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue::String(s.into())
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn null() -> JsValue {
        JsValue::Null
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn is_array(&self) -> bool {
        matches!(self, JsValue::Array(_))
    }
    pub fn as_f64(&self) -> Option<f64> {
        if let JsValue::Number(n) = self { Some(*n) } else { None }
    }
    pub fn as_bool(&self) -> Option<bool> {
        if let JsValue::Bool(n) = self { Some(*n) } else { None }
    }
    pub fn as_string(&self) -> Option<String> {
        if let JsValue::String(n) = self { Some(n.clone()) } else { None }
    }
    /// Number(value), as typed arrays convert their elements
    pub fn to_number(&self) -> f64 {
        match self {
            JsValue::Undefined => f64::NAN,
            JsValue::Null => 0.0,
            JsValue::Bool(b) => *b as u8 as f64,
            JsValue::Number(n) => *n,
            JsValue::String(s) => if s.trim().is_empty() { 0.0 } else { s.trim().parse().unwrap_or(f64::NAN) },
            JsValue::Array(a) => {
                let a = a.borrow();
                match a.len() {
                    0 => 0.0,
                    1 => a[0].to_number(),
                    _ => f64::NAN,
                }
            }
            JsValue::Bytes(..) => f64::NAN,
        }
    }
    /// the conversion of an element of a Uint8Array
    pub fn to_u8(&self) -> u8 {
        let n = self.to_number();
        if !n.is_finite() { 0 } else { n.trunc().rem_euclid(256.0) as u8 }
    }
}
macro_rules! numbers {
    ($($t:ty)*) => { $(
        impl From<$t> for JsValue { fn from(n: $t) -> JsValue { JsValue::Number(n as f64) } }
        impl<'a> From<&'a $t> for JsValue { fn from(n: &'a $t) -> JsValue { JsValue::Number(*n as f64) } }
    )* };
}
numbers!(u8 i8 u16 i16 u32 i32 f32 f64 usize isize);
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
}
impl From<String> for JsValue {
    fn from(b: String) -> JsValue {
        JsValue::String(b)
    }
}
impl<'a> From<&'a str> for JsValue {
    fn from(b: &'a str) -> JsValue {
        JsValue::String(b.into())
    }
}
impl<'a> From<&'a String> for JsValue {
    fn from(b: &'a String) -> JsValue {
        JsValue::String(b.clone())
    }
}
impl<'a> From<&'a JsValue> for JsValue {
    fn from(b: &'a JsValue) -> JsValue {
        b.clone()
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
pub type JsError = JsValue;
pub trait JsCast {}
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
#[derive(Clone, Debug)]
pub struct Clamped<T>(pub T);
pub fn throw_str(s: &str) -> ! {
    panic!("{}", s)
}
pub mod prelude {
    pub use crate::{wasm_bindgen, Clamped, JsCast, JsError, JsValue, UnwrapThrowExt};
}

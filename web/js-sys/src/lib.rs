//! Native stand-in for the parts of js-sys around arrays of bytes.
use std::cell::RefCell;
use std::iter::FromIterator;
use std::rc::Rc;
use wasm_bindgen::JsValue;

#[derive(Clone, Debug)]
pub struct Array(Rc<RefCell<Vec<JsValue>>>);
impl Array {
    pub fn new() -> Array {
        Array(Default::default())
    }
    pub fn new_with_length(n: u32) -> Array {
        Array(Rc::new(RefCell::new(vec![JsValue::Undefined; n as usize])))
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.0.borrow_mut().push(v.clone());
        self.length()
    }
    pub fn length(&self) -> u32 {
        self.0.borrow().len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.0.borrow().get(i as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn set(&self, i: u32, v: JsValue) {
        let mut a = self.0.borrow_mut();
        if a.len() <= i as usize {
            a.resize(i as usize + 1, JsValue::Undefined);
        }
        a[i as usize] = v;
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.0.borrow().clone()
    }
}
impl<T: AsRef<JsValue>> FromIterator<T> for Array {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Array {
        Array(Rc::new(RefCell::new(i.into_iter().map(|x| x.as_ref().clone()).collect())))
    }
}
impl From<Array> for JsValue {
    fn from(a: Array) -> JsValue {
        JsValue::Array(a.0)
    }
}
impl<'a> From<&'a Array> for JsValue {
    fn from(a: &'a Array) -> JsValue {
        JsValue::Array(a.0.clone())
    }
}

macro_rules! bytes {
    ($n:ident) => {
        #[derive(Clone)]
        pub struct $n {
            value: JsValue,
        }
        impl $n {
            fn own(v: Vec<u8>) -> $n {
                let n = v.len();
                $n { value: JsValue::Bytes(Rc::new(RefCell::new(v)), 0, n) }
            }
            fn parts(&self) -> (Rc<RefCell<Vec<u8>>>, usize, usize) {
                match &self.value {
                    JsValue::Bytes(b, o, n) => (b.clone(), *o, *n),
                    _ => unreachable!(),
                }
            }
            /// new Uint8Array(value)
            pub fn new(v: &JsValue) -> $n {
                match v {
                    JsValue::Bytes(b, o, n) => $n::own(b.borrow()[*o..*o + *n].to_vec()),
                    JsValue::Array(a) => $n::own(a.borrow().iter().map(|x| x.to_u8()).collect()),
                    JsValue::Undefined | JsValue::Null => $n::own(vec![]),
                    v => $n::own(vec![0; v.to_number() as usize]),
                }
            }
            pub fn new_with_length(n: u32) -> $n {
                $n::own(vec![0; n as usize])
            }
            pub fn new_from_slice(s: &[u8]) -> $n {
                $n::own(s.to_vec())
            }
            pub unsafe fn view(s: &[u8]) -> $n {
                $n::own(s.to_vec())
            }
            pub fn length(&self) -> u32 {
                self.parts().2 as u32
            }
            pub fn byte_length(&self) -> u32 {
                self.length()
            }
            pub fn to_vec(&self) -> Vec<u8> {
                let (b, o, n) = self.parts();
                let r = b.borrow()[o..o + n].to_vec();
                r
            }
            pub fn copy_to(&self, d: &mut [u8]) {
                d.copy_from_slice(&self.to_vec());
            }
            pub fn copy_from(&self, s: &[u8]) {
                let (b, o, n) = self.parts();
                b.borrow_mut()[o..o + n].copy_from_slice(s);
            }
            pub fn get_index(&self, i: u32) -> u8 {
                let (b, o, _) = self.parts();
                let r = b.borrow()[o + i as usize];
                r
            }
            pub fn at(&self, i: i32) -> Option<u8> {
                let n = self.length() as i32;
                let i = if i < 0 { n + i } else { i };
                if i < 0 || i >= n { None } else { Some(self.get_index(i as u32)) }
            }
            pub fn set_index(&self, i: u32, v: u8) {
                let (b, o, n) = self.parts();
                if (i as usize) < n {
                    b.borrow_mut()[o + i as usize] = v;
                }
            }
            pub fn set(&self, v: &JsValue, at: u32) {
                let s = $n::new(v).to_vec();
                let (b, o, n) = self.parts();
                assert!(at as usize + s.len() <= n, "RangeError: offset is out of bounds");
                b.borrow_mut()[o + at as usize..o + at as usize + s.len()].copy_from_slice(&s);
            }
            pub fn fill(&self, v: u8, s: u32, e: u32) -> $n {
                let (b, o, n) = self.parts();
                let (s, e) = ((s as usize).min(n), (e as usize).min(n));
                for x in &mut b.borrow_mut()[o + s..o + s.max(e)] {
                    *x = v;
                }
                self.clone()
            }
            pub fn slice(&self, s: u32, e: u32) -> $n {
                let v = self.to_vec();
                let (s, e) = ((s as usize).min(v.len()), (e as usize).min(v.len()));
                $n::own(v[s..s.max(e)].to_vec())
            }
            pub fn subarray(&self, s: u32, e: u32) -> $n {
                let (b, o, n) = self.parts();
                let (s, e) = ((s as usize).min(n), (e as usize).min(n));
                $n { value: JsValue::Bytes(b, o + s, s.max(e) - s) }
            }
        }
        impl std::fmt::Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "{}({} bytes)", stringify!($n), self.length())
            }
        }
        impl<'a> From<&'a [u8]> for $n {
            fn from(s: &'a [u8]) -> $n {
                $n::own(s.to_vec())
            }
        }
        impl From<$n> for JsValue {
            fn from(a: $n) -> JsValue {
                a.value
            }
        }
        impl<'a> From<&'a $n> for JsValue {
            fn from(a: &'a $n) -> JsValue {
                a.value.clone()
            }
        }
        impl From<JsValue> for $n {
            fn from(v: JsValue) -> $n {
                match v {
                    v @ JsValue::Bytes(..) => $n { value: v },
                    v => $n::new(&v),
                }
            }
        }
        impl AsRef<JsValue> for $n {
            fn as_ref(&self) -> &JsValue {
                &self.value
            }
        }
        impl std::ops::Deref for $n {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.value
            }
        }
    };
}
bytes!(Uint8Array);
bytes!(Uint8ClampedArray);

pub mod console {
    use wasm_bindgen::JsValue;
    pub fn log_1(_: &JsValue) {}
    pub fn log_2(_: &JsValue, _: &JsValue) {}
    pub fn log_3(_: &JsValue, _: &JsValue, _: &JsValue) {}
    pub fn warn_1(_: &JsValue) {}
    pub fn error_1(_: &JsValue) {}
    pub fn debug_1(_: &JsValue) {}
    pub fn info_1(_: &JsValue) {}
}

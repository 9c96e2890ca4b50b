pub fn set_once() {}
pub fn hook(_: &std::panic::PanicHookInfo) {}

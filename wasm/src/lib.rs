//! The 32-bit machine of C30: the same digests, computed in WebAssembly (run.js drives this).
use std::cell::RefCell;
use ymon::{digest, util};

thread_local! {
    static INPUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static RESULT: RefCell<[u64; 5]> = const { RefCell::new([0; 5]) };
    static TEXT: RefCell<String> = const { RefCell::new(String::new()) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Room for an input of `n` bytes.
#[no_mangle]
pub extern "C" fn input(n: usize) -> *mut u8 {
    std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = i.to_string())));
    INPUT.with(|v| {
        let mut v = v.borrow_mut();
        v.clear();
        v.resize(n, 0);
        v.as_mut_ptr()
    })
}
/// Digests the input; input hash, results of the parser, results of derived streams, items, width of usize.
#[no_mangle]
pub extern "C" fn run(case: u64) -> *const u64 {
    let b = INPUT.with(|v| v.borrow().clone());
    let d = if case & digest::LONG != 0 { digest::long(&b) } else { digest::digest(&b, &digest::machine_rng(case), case & digest::LIGHT != 0) };
    TEXT.with(|t| *t.borrow_mut() = d.text);
    RESULT.with(|r| {
        *r.borrow_mut() = [util::hash(&b), d.plain, d.derived, d.items, u64::from(usize::BITS)];
        r.borrow().as_ptr()
    })
}
#[no_mangle]
pub extern "C" fn panic_text() -> *const u8 {
    PANIC.with(|p| p.borrow().as_ptr())
}
#[no_mangle]
pub extern "C" fn panic_len() -> usize {
    PANIC.with(|p| p.borrow().len())
}
/// What the digest of the parser's results was made of.
#[no_mangle]
pub extern "C" fn text() -> *const u8 {
    TEXT.with(|p| p.borrow().as_ptr())
}
#[no_mangle]
pub extern "C" fn text_len() -> usize {
    TEXT.with(|p| p.borrow().len())
}

// Rust half of the callable harness: closures with counted state, and per
// signature and shape the glue that generated bindings contain
// (rs_bindings_from_cc/test/golden/callables_rs_api.rs).
#![allow(static_mut_refs, non_snake_case)]
extern crate alloc;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};

static DROPS: [AtomicI32; 16] = [const { AtomicI32::new(0) }; 16];
struct Captured(i32, [u64; 3]);
impl Captured {
    fn new(t: i32) -> Self { Captured(t, [t as u64 * 0x0101010101010101; 3]) }
    fn id(&self) -> i32 {
        if self.1 != [self.0 as u64 * 0x0101010101010101; 3] { return -1000000; }
        self.0
    }
}
impl Drop for Captured {
    fn drop(&mut self) {
        let t = self.id();
        if t < 0 || t >= 16 { DROPS[0].fetch_add(1, SeqCst); } else { DROPS[t as usize].fetch_add(1, SeqCst); }
        self.1 = [0; 3];
    }
}
#[unsafe(no_mangle)]
extern "C" fn drops(t: i32) -> i32 { DROPS[t as usize].load(SeqCst) }
#[unsafe(no_mangle)]
extern "C" fn forget_drops() {
    std::panic::set_hook(Box::new(|_| {}));
    DROPS.iter().for_each(|d| d.store(0, SeqCst));
}

// A C++ class passed by address and moved bytewise, as layout-compatible types are.
#[repr(C)]
pub struct Tok { v: i32, check: i32 }
unsafe extern "C" {
    fn tok_drop(t: *mut Tok);
    fn tok_new(t: *mut Tok, v: i32);
    fn running();
}
impl Drop for Tok { fn drop(&mut self) { unsafe { tok_drop(self) } } }

static mut ARG: i32 = 0;
static mut RESULT: i32 = 0;
#[unsafe(no_mangle)]
extern "C" fn set_arg(x: i32) { unsafe { ARG = x } }
#[unsafe(no_mangle)]
extern "C" fn get_result() -> i32 { unsafe { RESULT } }

impl Tok {
    fn new(v: i32) -> Tok { let mut t = core::mem::MaybeUninit::uninit(); unsafe { tok_new(t.as_mut_ptr(), v); t.assume_init() } }
    fn add(mut self, n: i32) -> Tok { self.v += n; self.check = !self.v; self }
}

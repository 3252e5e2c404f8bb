//! What the compiler calls before every load and store of the instrumented crates (the library and
//! the simulator; this crate itself is not instrumented). An access to a static variable is where
//! threads can meet without allocating, locking or calling anybody: the simulator is told of it.

use std::sync::atomic::{AtomicPtr, Ordering};

static HOOK: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Have `f` called at every access to a static variable.
pub fn install(f: fn()) {
    HOOK.store(f as *mut (), Ordering::SeqCst);
}

#[inline(always)]
fn access(p: *const u8) {
    unsafe {
        if p >= &raw const __data_start && p < &raw const _end {
            let f = HOOK.load(Ordering::Relaxed);
            if !f.is_null() {
                std::mem::transmute::<*mut (), fn()>(f)();
            }
        }
    }
}

macro_rules! seams {
    ($($name:ident)*) => {
        $(#[no_mangle]
        pub extern "C" fn $name(p: *const u8) {
            access(p)
        })*
    };
}

seams!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

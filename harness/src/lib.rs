#![allow(static_mut_refs, clippy::all)]
#![allow(dead_code, unused_imports, unused_macros)]
extern crate alloc;

#[macro_use]
pub mod vf;
include!("mods.rs");

#[cfg(not(vf_native))]
mod rt {
    use core::alloc::{GlobalAlloc, Layout};
    struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            super::vf::vf_alloc(l.size(), l.align())
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            super::vf::vf_free(p, l.size(), l.align())
        }
    }
    #[global_allocator]
    static G: A = A;
}

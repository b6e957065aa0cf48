//! The part of jit-allocator2's interface the crate uses. Every request goes to the harness, which
//! decides the outcome and records it.
#![no_std]
extern crate alloc;
use alloc::boxed::Box;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error {
    InvalidState,
    OutOfMemory,
    TooManyHandles,
    InvalidArgument,
    FailedToOpenAnonymousMemory,
    TooLarge,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u32)]
pub enum ProtectJitAccess {
    ReadWrite = 0,
    ReadExecute = 1,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct JitAllocatorOptions {
    pub use_dual_mapping: bool,
    pub use_multiple_pools: bool,
    pub fill_unused_memory: bool,
    pub immediate_release: bool,
    pub custom_fill_pattern: Option<u32>,
    pub block_size: u32,
    pub granularity: u32,
}
impl Default for JitAllocatorOptions {
    fn default() -> Self {
        Self {
            use_dual_mapping: true,
            use_multiple_pools: true,
            fill_unused_memory: true,
            immediate_release: false,
            custom_fill_pattern: None,
            block_size: 0,
            granularity: 0,
        }
    }
}
pub struct JitAllocator {
    id: usize,
}

extern "C-unwind" {
    fn vfja_new() -> usize;
    fn vfja_alloc(id: usize, size: usize, out: *mut [usize; 2]) -> bool;
    fn vfja_release(id: usize, rx: usize) -> bool;
    fn vfja_protect(access: u32);
    fn vfja_flush(p: usize, n: usize);
}

impl JitAllocator {
    pub fn new(_: JitAllocatorOptions) -> Box<Self> {
        Box::new(Self { id: unsafe { vfja_new() } })
    }
    pub fn alloc(&mut self, size: usize) -> Result<(*const u8, *mut u8), Error> {
        let mut out = [0; 2];
        if unsafe { vfja_alloc(self.id, size, &mut out) } {
            Ok((out[0] as *const u8, out[1] as *mut u8))
        } else {
            Err(Error::OutOfMemory)
        }
    }
    /// # Safety
    /// As for the real one.
    pub unsafe fn release(&mut self, rx_ptr: *const u8) -> Result<(), Error> {
        if vfja_release(self.id, rx_ptr as usize) {
            Ok(())
        } else {
            Err(Error::InvalidArgument)
        }
    }
}
pub fn protect_jit_memory(access: ProtectJitAccess) {
    unsafe { vfja_protect(access as u32) }
}
pub fn flush_instruction_cache(rx_ptr: *const u8, size: usize) {
    unsafe { vfja_flush(rx_ptr as usize, size) }
}

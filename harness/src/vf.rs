//! The verification interface. The symbolic executor interprets these calls; the replay program
//! implements them natively, feeding the recorded inputs.

extern "C-unwind" {
    /// Fills `n` bytes at `p` with fresh unconstrained values.
    pub fn vf_symbolic(p: *mut u8, n: usize, tag: u32);
    pub fn vf_assume(c: bool);
    /// The property: must hold for all inputs reaching this point.
    pub fn vf_check(c: bool, id: u32);
    pub fn vf_fail(id: u32) -> !;
    /// Reachability witness.
    pub fn vf_cover(id: u32);
    /// Value compared between the symbolic run's model and the native replay.
    pub fn vf_note(id: u32, v: u64);
    /// Case split over all values.
    pub fn vf_pick(v: u64) -> u64;
    pub fn vf_alloc(size: usize, align: usize) -> *mut u8;
    pub fn vf_free(p: *mut u8, size: usize, align: usize);
    /// Number of live heap blocks.
    pub fn vf_live() -> usize;
    /// Executable block of exactly `size` bytes whose address is `off` modulo 64.
    pub fn vf_exec_alloc(size: usize, off: usize) -> *mut u8;
    /// Makes `size` bytes at a fixed address usable.
    pub fn vf_place(addr: usize, size: usize);
    /// 0: a panic ends the path silently (clean refusal), 1: a panic is a violation.
    pub fn vf_panic_mode(mode: u32);
    /// Runs `f(arg)`; returns 1 if it panicked.
    pub fn vf_catch(f: extern "C-unwind" fn(*mut u8), arg: *mut u8) -> u32;
    pub fn vf_spawn(f: extern "C-unwind" fn(usize), arg: usize);
    pub fn vf_join();
    pub fn vf_yield();
    pub fn vf_self() -> u32;
}

pub type Entry = (&'static str, extern "C-unwind" fn());
/// An entry point of the executor; registered by name for the native replay.
macro_rules! entry {
    ($name:ident, $b:block) => {
        #[no_mangle]
        pub extern "C-unwind" fn $name() {
            #[allow(unused_unsafe)]
            unsafe {
                $b
            }
        }
        #[cfg(vf_native)]
        const _: () = {
            #[used]
            #[link_section = "vf_entries"]
            static E: crate::vf::Entry = (stringify!($name), $name);
        };
    };
}

pub fn sym<T: Copy>() -> T {
    unsafe {
        let mut v = core::mem::MaybeUninit::<T>::uninit();
        vf_symbolic(v.as_mut_ptr() as *mut u8, core::mem::size_of::<T>(), 0);
        v.assume_init()
    }
}
/// A concrete value below `n`, all values explored.
pub fn choose(n: u64) -> u64 {
    unsafe {
        let v: u8 = sym();
        vf_assume((v as u64) < n);
        vf_pick(v as u64)
    }
}
pub fn check(c: bool, id: u32) {
    unsafe { vf_check(c, id) }
}
pub fn cover(id: u32) {
    unsafe { vf_cover(id) }
}
pub fn note(id: u32, v: u64) {
    unsafe { vf_note(id, v) }
}
pub fn assume(c: bool) {
    unsafe { vf_assume(c) }
}

/// Bitwise sameness.
pub trait Same {
    fn same(&self, o: &Self) -> bool;
    fn bits(&self) -> u64;
}
macro_rules! same_int {
    ($($t:ty),*) => { $(impl Same for $t {
        fn same(&self, o: &Self) -> bool { *self == *o }
        fn bits(&self) -> u64 { *self as u64 }
    })* };
}
same_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128, bool);
impl Same for f32 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn bits(&self) -> u64 {
        self.to_bits() as u64
    }
}
impl Same for f64 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn bits(&self) -> u64 {
        self.to_bits()
    }
}
impl<T> Same for *const T {
    fn same(&self, o: &Self) -> bool {
        *self == *o
    }
    fn bits(&self) -> u64 {
        *self as usize as u64
    }
}
impl Same for () {
    fn same(&self, _: &Self) -> bool {
        true
    }
    fn bits(&self) -> u64 {
        0
    }
}
/// A struct too big for registers.
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Big {
    pub a: u64,
    pub b: u32,
    pub c: u8,
    pub d: u64,
}
impl Same for Big {
    fn same(&self, o: &Self) -> bool {
        self.a == o.a && self.b == o.b && self.c == o.c && self.d == o.d
    }
    fn bits(&self) -> u64 {
        self.a ^ self.d
    }
}
/// A struct passed in registers on most ABIs.
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Pair {
    pub a: u32,
    pub b: u16,
}
impl Same for Pair {
    fn same(&self, o: &Self) -> bool {
        self.a == o.a && self.b == o.b
    }
    fn bits(&self) -> u64 {
        self.a as u64 ^ self.b as u64
    }
}

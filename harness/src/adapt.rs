//! Allocator adapters: every request must reach exactly one backing allocator unchanged.

use crate::vf::*;
use closure_ffi::jit_alloc::{JitAlloc, JitAllocError, ProtectJitAccess};

/// What arrived at the backing allocator, and what it is to answer.
#[derive(Clone, Copy)]
pub struct Log {
    pub op: u32,
    pub who: u32,
    pub n: u32,
    pub a: usize,
    pub b: usize,
    pub mode: u32,
    pub ok: bool,
    pub rx: usize,
    pub rw: usize,
}
pub static mut L: Log = Log { op: 0, who: 0, n: 0, a: 0, b: 0, mode: 9, ok: true, rx: 0, rw: 0 };
const ALLOC: u32 = 1;
const RELEASE: u32 = 2;
const PROTECT: u32 = 3;
const FLUSH: u32 = 4;

unsafe fn arrived(op: u32, who: u32, a: usize, b: usize, mode: u32) {
    L.op = op;
    L.who = who;
    L.n += 1;
    L.a = a;
    L.b = b;
    L.mode = mode;
}
fn mode(a: ProtectJitAccess) -> u32 {
    match a {
        ProtectJitAccess::ReadWrite => 0,
        ProtectJitAccess::ReadExecute => 1,
    }
}

/// Exercises one request of each kind through `j`; `who` is the allocator behind it and `whole`
/// says whether ranges reach it.
pub unsafe fn requests<A: JitAlloc>(j: &A, who: u32, whole: bool) {
    let k = choose(4);
    L.n = 0;
    let (p, n): (usize, usize) = (sym(), sym());
    L.ok = choose(2) == 1;
    L.rx = sym();
    L.rw = sym();
    match k {
        0 => {
            let r = j.alloc(n);
            check(L.n == 1 && L.op == ALLOC, 500);
            check(L.who == who, 507);
            check(L.a == n, 501);
            check(r.is_ok() == L.ok, 503);
            if let Ok((x, w)) = r {
                check(x as usize == L.rx && w as usize == L.rw, 502);
                cover(1);
            } else {
                cover(2);
            }
        }
        1 => {
            let r = j.release(p as *const u8);
            check(L.n == 1 && L.op == RELEASE, 500);
            check(L.who == who, 507);
            check(L.a == p, 504);
            check(r.is_ok() == L.ok, 503);
        }
        2 => {
            let a = if choose(2) == 0 { ProtectJitAccess::ReadWrite } else { ProtectJitAccess::ReadExecute };
            j.protect_jit_memory(p as *const u8, n, a);
            check(L.n == 1 && L.op == PROTECT, 500);
            check(L.mode == mode(a), 505);
            if whole {
                check(L.who == who, 507);
                check(L.a == p && L.b == n, 506);
            }
            cover(3);
        }
        _ => {
            j.flush_instruction_cache(p as *const u8, n);
            check(L.n == 1 && L.op == FLUSH, 500);
            if whole {
                check(L.who == who, 507);
            }
            check(L.a == p && L.b == n, 506);
            cover(4);
        }
    }
}

#[cfg(not(feature = "default_jit"))]
mod custom {
    use super::*;
    use alloc::boxed::Box;
    use alloc::rc::Rc;
    use alloc::sync::Arc;
    use closure_ffi::jit_alloc::GlobalJitAlloc;

    /// Reports what arrives.
    pub struct Probe(u32);
    impl JitAlloc for Probe {
        fn alloc(&self, n: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
            unsafe {
                arrived(ALLOC, self.0, n, 0, 9);
                if L.ok {
                    Ok((L.rx as _, L.rw as _))
                } else {
                    Err(JitAllocError)
                }
            }
        }
        unsafe fn release(&self, p: *const u8) -> Result<(), JitAllocError> {
            arrived(RELEASE, self.0, p as usize, 0, 9);
            if L.ok {
                Ok(())
            } else {
                Err(JitAllocError)
            }
        }
        unsafe fn protect_jit_memory(&self, p: *const u8, n: usize, a: ProtectJitAccess) {
            arrived(PROTECT, self.0, p as usize, n, mode(a));
        }
        unsafe fn flush_instruction_cache(&self, p: *const u8, n: usize) {
            arrived(FLUSH, self.0, p as usize, n, 9);
        }
    }
    pub static GLOBAL: Probe = Probe(77);
    closure_ffi::jit_alloc::global_jit_alloc!(GLOBAL);

    entry!(h_fwd, {
        let who = 5;
        match choose(8) {
            0 => requests(&&Probe(who), who, true),
            1 => requests(&&&Probe(who), who, true),
            2 => requests(&&mut Probe(who), who, true),
            3 => requests(&Box::new(Probe(who)), who, true),
            4 => requests(&Rc::new(Probe(who)), who, true),
            5 => requests(&Arc::new(Probe(who)), who, true),
            6 => requests(&Arc::new(Box::new(Probe(who))), who, true),
            _ => requests(&GlobalJitAlloc, 77, true),
        }
    });
}

#[cfg(feature = "default_jit")]
pub mod builtin {
    use super::*;
    use closure_ffi::jit_alloc::GlobalJitAlloc;
    use closure_ffi::*;
    use core::sync::atomic::{AtomicUsize, Ordering::SeqCst};

    /// The state of the backing allocators, by number.
    struct Back {
        busy: [bool; 4],
        user: [u32; 4],
        blocks: [(usize, usize, bool); 8],
        /// addresses handed out when not real
        addr: [usize; 8],
        /// hand out real executable memory
        real: bool,
        race: bool,
        /// one backing allocator per thread
        own: bool,
        protect: u32,
        flush: u32,
    }
    static mut K: Back = Back { busy: [false; 4], user: [99; 4], blocks: [(0, 0, false); 8], addr: [0; 8], real: false, race: false, own: false, protect: 0, flush: 0 };

    static MADE: AtomicUsize = AtomicUsize::new(0);
    static N: AtomicUsize = AtomicUsize::new(0);
    fn made() -> usize {
        MADE.load(SeqCst)
    }
    fn n() -> usize {
        N.load(SeqCst)
    }

    unsafe fn enter(id: usize) {
        check(id >= 1 && id < 4, 508);
        // never entered by two threads at the same time
        check(!K.busy[id], 510);
        K.busy[id] = true;
        if K.race {
            vf_yield();
        }
    }
    unsafe fn leave(id: usize) {
        check(K.busy[id], 510);
        K.busy[id] = false;
    }
    #[no_mangle]
    unsafe extern "C-unwind" fn vfja_new() -> usize {
        let k = MADE.fetch_add(1, SeqCst) + 1;
        if K.race {
            vf_yield();
        }
        k
    }
    #[no_mangle]
    unsafe extern "C-unwind" fn vfja_alloc(id: usize, n: usize, out: *mut [usize; 2]) -> bool {
        enter(id);
        arrived(ALLOC, id as u32, n, 0, 9);
        let mut ok = L.ok;
        if K.real || K.race {
            let k = N.fetch_add(1, SeqCst);
            check(k < 8, 511);
            let p = if K.real { vf_exec_alloc(n, 8) as usize } else { K.addr[k] };
            K.blocks[k] = (p, id, true);
            *out = [p, p];
            if K.race {
                vf_yield();
            }
            // nobody else changed the book-keeping meanwhile
            check(K.own || N.load(SeqCst) == k + 1, 510);
            ok = true;
        } else {
            *out = [L.rx, L.rw];
        }
        leave(id);
        ok
    }
    #[no_mangle]
    unsafe extern "C-unwind" fn vfja_release(id: usize, p: usize) -> bool {
        enter(id);
        arrived(RELEASE, id as u32, p, 0, 9);
        if K.real || K.race {
            let mut found = false;
            let mut i = 0;
            while i < n() {
                if K.blocks[i].0 == p {
                    // released once, where it came from
                    check(K.blocks[i].1 == id && K.blocks[i].2, 509);
                    K.blocks[i].2 = false;
                    found = true;
                }
                i += 1;
            }
            check(found, 509);
            leave(id);
            return true;
        }
        let ok = L.ok;
        leave(id);
        ok
    }
    #[no_mangle]
    unsafe extern "C-unwind" fn vfja_protect(a: u32) {
        K.protect += 1;
        arrived(PROTECT, 0, 0, 0, a);
    }
    #[no_mangle]
    unsafe extern "C-unwind" fn vfja_flush(p: usize, n: usize) {
        K.flush += 1;
        arrived(FLUSH, 0, p, n, 9);
    }
    /// Cache maintenance system call of 32-bit Arm.
    #[no_mangle]
    unsafe extern "C-unwind" fn vfja_cacheflush(p: usize, end: usize) -> isize {
        vfja_flush(p, end.wrapping_sub(p));
        0
    }

    /// Real executable memory from here on.
    pub fn real() {
        unsafe { K.real = true }
    }
    pub fn left() -> usize {
        unsafe { K.blocks[..n()].iter().filter(|b| b.2).count() }
    }

    entry!(h_global, {
        // first use and later use
        if choose(2) == 1 {
            L.ok = true;
            let _ = GlobalJitAlloc.alloc(1);
            check(made() == 1, 508);
        }
        requests(&GlobalJitAlloc, 1, false);
        check(made() <= 1, 508);
        requests(&GlobalJitAlloc, 1, false);
        check(made() <= 1, 508);
    });
    type B = unsafe extern "C" fn(u64) -> u64;
    // Wrappers relying on the default allocator.
    entry!(h_global_wrap, {
        crate::jit::warm();
        K.real = true;
        let (k, x): (u64, u64) = (sym(), sym());
        let kind = choose(3);
        match kind {
            0 => {
                let b = BareFn::<B>::new(move |y| y ^ k);
                check((b.bare())(x) == x ^ k, 512);
                check(n() == 1 && left() == 1, 511);
            }
            1 => {
                let mut k = k;
                let b = BareFnMut::<B>::new(move |y| {
                    k = k.wrapping_add(y);
                    k
                });
                check((b.bare())(x) == k.wrapping_add(x), 512);
                check((b.bare())(x) == k.wrapping_add(x).wrapping_add(x), 512);
                check(n() == 1 && left() == 1, 511);
            }
            _ => {
                let b = BareFnOnce::<B>::new(move |y| y ^ k);
                let p = b.leak();
                check(p(x) == x ^ k, 512);
                check(n() == 1, 511);
            }
        }
        check(K.protect >= 2 && K.flush >= 1, 513);
        check(made() == 1 && left() == (kind == 2) as usize, 511);
        cover(1);
    });

    /// Arbitrary distinct blocks.
    unsafe fn addresses(n: usize) {
        K.race = true;
        for i in 0..n {
            K.addr[i] = sym();
            for j in 0..i {
                assume(K.addr[i] != K.addr[j]);
            }
        }
    }
    static mut SIZE: [usize; 3] = [0; 3];
    static mut GOT: [usize; 3] = [0; 3];
    extern "C-unwind" fn user(i: usize) {
        unsafe {
            let r = GlobalJitAlloc.alloc(SIZE[i]);
            let Ok((p, w)) = r else { vf_fail(511) };
            check(p as usize == w as usize, 511);
            GOT[i] = p as usize;
            vf_yield();
            check(GlobalJitAlloc.release(p).is_ok(), 511);
        }
    }
    macro_rules! race {
        ($name:ident, $n:expr, $f:expr) => {
            entry!($name, {
                addresses($n);
                for i in 0..$n {
                    SIZE[i] = sym();
                    vf_spawn($f, i);
                }
                vf_join();
                check(made() == 1, 508);
                check(n() == $n && left() == 0, 511);
                for i in 0..$n {
                    for j in 0..i {
                        check(GOT[i] != GOT[j], 511);
                    }
                }
                cover(1);
            });
        };
    }
    race!(h_race2, 2, user);
    race!(h_race3, 3, user);
    extern "C-unwind" fn wrapper(i: usize) {
        unsafe {
            let k = SIZE[i] as u64;
            let b = BareFn::<B>::new(move |y| y ^ k);
            GOT[i] = b.bare() as usize;
            check((b.bare())(5) == 5 ^ k, 512);
        }
    }
    entry!(h_race_wrap, {
        crate::jit::warm();
        K.race = true;
        K.real = true;
        for i in 0..2 {
            SIZE[i] = sym();
            vf_spawn(wrapper, i);
        }
        vf_join();
        check(made() == 1, 508);
        check(n() == 2 && left() == 0, 511);
        check(GOT[0] != GOT[1], 511);
        cover(1);
    });

    #[cfg(feature = "std_jit")]
    mod thread {
        use super::*;
        use closure_ffi::jit_alloc::ThreadJitAlloc;
        entry!(h_thread, {
            if choose(2) == 1 {
                L.ok = true;
                let _ = ThreadJitAlloc::default().alloc(1);
                check(made() == 1, 508);
            }
            requests(&ThreadJitAlloc::default(), 1, false);
            check(made() <= 1, 508);
            requests(&ThreadJitAlloc::default(), 1, false);
            check(made() <= 1, 508);
        });
        extern "C-unwind" fn user(i: usize) {
            unsafe {
                let a = ThreadJitAlloc::default();
                let Ok((p, _)) = a.alloc(SIZE[i]) else { vf_fail(511) };
                GOT[i] = p as usize;
                vf_yield();
                let c = a.clone();
                check(c.release(p).is_ok(), 511);
            }
        }
        // Each thread has its own backing allocator.
        entry!(h_thread2, {
            addresses(2);
            K.own = true;
            for i in 0..2 {
                SIZE[i] = sym();
                vf_spawn(user, i);
            }
            vf_join();
            check(n() == 2 && left() == 0, 511);
            check(K.blocks[0].1 != K.blocks[1].1, 509);
            check(GOT[0] != GOT[1], 511);
            cover(1);
        });
    }
}

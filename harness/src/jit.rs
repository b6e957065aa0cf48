//! A JIT allocator that checks how it is used. Code written through the writable view becomes
//! visible in the executable view only for the range flushed, like on hardware with separate
//! caches.

use crate::vf::*;
use closure_ffi::jit_alloc::{JitAlloc, JitAllocError, ProtectJitAccess};

pub const CANARY: u8 = 0xa7;
const MAX: usize = 256;
const NBLK: usize = 6;

#[derive(Clone, Copy)]
pub struct Blk {
    pub rx: *mut u8,
    pub rw: *mut u8,
    pub size: usize,
    pub live: bool,
    /// 0: never unlocked, 1: writable, 2: executable
    pub state: u8,
    pub lo: usize,
    pub hi: usize,
    pub fl_lo: usize,
    pub fl_hi: usize,
    pub owner: u32,
}
pub struct State {
    pub blk: [Blk; NBLK],
    pub snap: [[u8; MAX]; NBLK],
    /// contents when handed out
    pub pre: [[u8; MAX]; NBLK],
    pub n: usize,
    pub allocs: u32,
    pub releases: u32,
    pub other_calls: u32,
    /// placement of blocks
    pub off: usize,
    pub dual: bool,
    /// index of the allocation request that fails
    pub fail_at: u32,
    pub release_err: bool,
    /// freed blocks of the right size are handed out again
    pub reuse: bool,
    pub reused: u32,
    /// released blocks keep their contents
    pub keep: bool,
    /// allocator values destroyed
    pub gone: u32,
    /// only one allocator value exists
    pub solo: bool,
    /// block handed out last
    pub last: usize,
}
pub static mut J: State = State {
    blk: [Blk {
        rx: core::ptr::null_mut(),
        rw: core::ptr::null_mut(),
        size: 0,
        live: false,
        state: 0,
        lo: 0,
        hi: 0,
        fl_lo: 0,
        fl_hi: 0,
        owner: 0,
    }; NBLK],
    snap: [[0; MAX]; NBLK],
    pre: [[0; MAX]; NBLK],
    n: 0,
    allocs: 0,
    releases: 0,
    other_calls: 0,
    off: 0,
    dual: true,
    fail_at: u32::MAX,
    release_err: false,
    reuse: false,
    reused: 0,
    keep: false,
    gone: 0,
    solo: false,
    last: 0,
};

/// Check numbers 900..
/// The allocator handed to the crate; `0` identifies the instance so that cross-talk is noticed.
pub struct Jit(pub u32);
const GONE: u32 = 0xdead;
impl Drop for Jit {
    fn drop(&mut self) {
        unsafe {
            check(self.0 != GONE, 920);
            core::ptr::write_volatile(&mut self.0, GONE);
            J.gone += 1;
        }
    }
}
impl Jit {
    /// The allocator still exists when it is used.
    fn exists(&self) {
        unsafe { check(self.0 != GONE && !(J.solo && J.gone > 0), 921) }
    }
}

fn find(p: usize, n: usize, rx_only: bool) -> Option<(usize, usize)> {
    unsafe {
        let mut i = 0;
        while i < J.n {
            let b = &J.blk[i];
            if b.live {
                let rx = b.rx as usize;
                if p >= rx && p - rx <= b.size && n <= b.size - (p - rx) {
                    return Some((i, p - rx));
                }
                let rw = b.rw as usize;
                if !rx_only && p >= rw && p - rw <= b.size && n <= b.size - (p - rw) {
                    return Some((i, p - rw));
                }
            }
            i += 1;
        }
        None
    }
}

impl JitAlloc for Jit {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        unsafe {
            self.exists();
            let k = J.allocs;
            J.allocs += 1;
            if k == J.fail_at {
                return Err(JitAllocError);
            }
            check(size > 0 && size <= MAX, 900);
            let mut at = J.n;
            if J.reuse {
                let mut i = 0;
                while i < J.n {
                    if !J.blk[i].live && J.blk[i].size == size {
                        at = i;
                    }
                    i += 1;
                }
            }
            check(at < NBLK, 901);
            let (rx, rw);
            let dirty = at < J.n && J.keep;
            if at < J.n {
                (rx, rw) = (J.blk[at].rx, J.blk[at].rw);
                J.reused += 1;
            } else {
                rx = vf_exec_alloc(size, J.off);
                rw = if J.dual { vf_exec_alloc(size, J.off) } else { rx };
                J.n += 1;
            }
            let mut i = 0;
            while i < size {
                if !dirty {
                    *rx.add(i) = CANARY;
                    *rw.add(i) = CANARY;
                }
                J.pre[at][i] = *rw.add(i);
                i += 1;
            }
            J.blk[at] = Blk {
                rx,
                rw,
                size,
                live: true,
                state: 0,
                lo: 0,
                hi: 0,
                fl_lo: usize::MAX,
                fl_hi: 0,
                owner: self.0,
            };
            J.last = at;
            Ok((rx, rw))
        }
    }
    unsafe fn release(&self, p: *const u8) -> Result<(), JitAllocError> {
        self.exists();
        J.releases += 1;
        let mut i = 0;
        while i < J.n {
            let b = &mut J.blk[i];
            if b.rx as *const u8 == p {
                // released once, by the allocator that handed it out
                check(b.live, 902);
                check(b.owner == self.0, 903);
                b.live = false;
                let mut j = 0;
                while j < b.size && !J.keep {
                    *b.rx.add(j) = CANARY;
                    *b.rw.add(j) = CANARY;
                    j += 1;
                }
                return if J.release_err { Err(JitAllocError) } else { Ok(()) };
            }
            i += 1;
        }
        // never handed out
        vf_fail(904)
    }
    unsafe fn protect_jit_memory(&self, p: *const u8, n: usize, a: ProtectJitAccess) {
        self.exists();
        J.other_calls += 1;
        let Some((i, o)) = find(p as usize, n, false) else { vf_fail(905) };
        let b = &mut J.blk[i];
        check(b.owner == self.0, 903);
        match a {
            ProtectJitAccess::ReadWrite => {
                if b.state == 0 {
                    // nothing was written before the memory was made writable
                    check(untouched(i, 0, 0), 906);
                }
                b.state = 1;
                b.lo = o;
                b.hi = o + n;
            }
            ProtectJitAccess::ReadExecute => {
                // all writes stayed inside the range that was made writable
                check(b.state == 1, 907);
                check(o <= b.lo && o + n >= b.hi, 908);
                check(untouched(i, b.lo, b.hi), 909);
                let mut j = 0;
                while j < b.size {
                    J.snap[i][j] = *b.rw.add(j);
                    j += 1;
                }
                b.state = 2;
            }
        }
    }
    unsafe fn flush_instruction_cache(&self, p: *const u8, n: usize) {
        self.exists();
        J.other_calls += 1;
        let Some((i, o)) = find(p as usize, n, true) else { vf_fail(910) };
        let b = &mut J.blk[i];
        check(b.owner == self.0, 903);
        let mut j = o;
        while j < o + n {
            *b.rx.add(j) = *b.rw.add(j);
            j += 1;
        }
        b.fl_lo = b.fl_lo.min(o);
        b.fl_hi = b.fl_hi.max(o + n);
    }
}
unsafe fn untouched(i: usize, lo: usize, hi: usize) -> bool {
    let b = &J.blk[i];
    let mut ok = true;
    let mut j = 0;
    while j < b.size {
        if j < lo || j >= hi {
            ok &= *b.rw.add(j) == J.pre[i][j];
        }
        j += 1;
    }
    ok
}

/// What must hold once construction has returned `f` as entry point of block `i`.
pub fn ready(i: usize, f: usize) {
    unsafe {
        let b = &J.blk[i];
        #[cfg(target_arch = "arm")]
        let f = f & !1;
        check(b.live, 911);
        check(f >= b.rx as usize && f < b.rx as usize + b.size, 912);
        check(b.state == 2, 913);
        let o = f - b.rx as usize;
        check(b.fl_lo <= o && b.fl_hi > o, 914);
        // nothing written behind the allocator's back afterwards, and all that was written is
        // visible to execution
        let mut same = true;
        let mut vis = true;
        let mut j = 0;
        while j < b.size {
            same &= *b.rw.add(j) == J.snap[i][j];
            vis &= *b.rx.add(j) == *b.rw.add(j);
            j += 1;
        }
        check(same, 915);
        check(vis, 916);
    }
}
/// Number of blocks not released.
pub fn live_blocks() -> usize {
    unsafe {
        let mut k = 0;
        let mut i = 0;
        while i < J.n {
            if J.blk[i].live {
                k += 1;
            }
            i += 1;
        }
        k
    }
}
/// Forgets all blocks.
pub fn reset() {
    unsafe {
        J.n = 0;
        J.allocs = 0;
        J.releases = 0;
        J.other_calls = 0;
        J.reused = 0;
        J.gone = 0;
    }
}
/// One wrapper made and dropped before anything is symbolic, so that tables the decoder builds on
/// first use are built once.
pub fn warm() {
    unsafe {
        let k = core::hint::black_box(7u32);
        drop(closure_ffi::BareFn::<unsafe extern "C" fn() -> u32, Jit>::with_cc_in(closure_ffi::cc::C, move || k, Jit(0)));
        reset();
    }
}
/// Arbitrary block placement and view arrangement.
pub fn any_placement() {
    unsafe {
        J.off = choose(16) as usize;
        J.dual = choose(2) == 1;
    }
}

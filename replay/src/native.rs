use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicUsize, Ordering::*};

const PG: usize = 65536; // also a multiple of the page size of an emulated 64K system
const HPG: usize = 4096;

struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
const MAGIC: usize = 0x5afe_b10c;

unsafe fn map(addr: usize, n: usize, prot: i32, fixed: i32) -> *mut u8 {
    let p = libc::mmap(addr as *mut _, n, prot, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | fixed, -1, 0);
    if p == libc::MAP_FAILED {
        die(b"mmap failed\n", 3);
    }
    p as *mut u8
}
fn up(x: usize, a: usize) -> usize {
    (x + a - 1) / a * a
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // [header page][data pages][guard]
        let n = up(l.size().max(1), HPG);
        let base = map(0, n + 2 * HPG, libc::PROT_NONE, 0);
        libc::mprotect(base as *mut _, n + HPG, libc::PROT_READ | libc::PROT_WRITE);
        let p = (base as usize + HPG + n - l.size()) / l.align() * l.align();
        let h = base as *mut usize;
        *h = MAGIC;
        *h.add(1) = l.size();
        *h.add(2) = l.align();
        *h.add(3) = p;
        LIVE.fetch_add(1, SeqCst);
        core::ptr::write_bytes(p as *mut u8, 0xa5, l.size());
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let n = up(l.size().max(1), HPG);
        let base = (p as usize) / HPG * HPG - HPG - if l.size() == 0 && p as usize % HPG == 0 { HPG } else { 0 };
        let h = base as *mut usize;
        if *h != MAGIC || *h.add(1) != l.size() || *h.add(2) != l.align() || *h.add(3) != p as usize {
            die(b"HEAP bad free\n", 11);
        }
        libc::mprotect(base as *mut _, n + HPG, libc::PROT_NONE);
        LIVE.fetch_sub(1, SeqCst);
    }
}
#[global_allocator]
static G: A = A;

fn say(b: &[u8]) {
    unsafe {
        libc::write(1, b.as_ptr() as *const _, b.len());
    }
}
fn die(b: &[u8], c: i32) -> ! {
    say(b);
    unsafe { libc::_exit(c) }
}
fn num(pre: &[u8], v: u64) {
    let mut buf = [0u8; 64];
    buf[..pre.len()].copy_from_slice(pre);
    let mut n = pre.len();
    for i in (0..16).rev() {
        let d = ((v >> (4 * i)) & 15) as usize;
        buf[n] = b"0123456789abcdef"[d];
        n += 1;
    }
    buf[n] = b'\n';
    say(&buf[..n + 1]);
}

static mut INPUTS: &[(u32, &[u8])] = &[];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static mut PANIC_MODE: u32 = 0;
#[derive(Clone, Copy)]
struct Ex {
    base: usize,
    len: usize,
    addr: usize,
    size: usize,
}
static mut EXEC: [Ex; 64] = [Ex { base: 0, len: 0, addr: 0, size: 0 }; 64];
static NEX: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
unsafe extern "C-unwind" fn vf_symbolic(p: *mut u8, n: usize, tag: u32) {
    let k = NEXT.fetch_add(1, SeqCst);
    let Some((t, b)) = INPUTS.get(k) else { die(b"INPUTS exhausted\n", 77) };
    if b.len() != n || *t != tag {
        die(b"INPUTS mismatch\n", 77);
    }
    core::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
}
#[no_mangle]
extern "C-unwind" fn vf_assume(c: bool) {
    if !c {
        die(b"ASSUME failed\n", 77);
    }
}
#[no_mangle]
extern "C-unwind" fn vf_check(c: bool, id: u32) {
    if !c {
        vf_fail(id);
    }
}
#[no_mangle]
extern "C-unwind" fn vf_fail(id: u32) -> ! {
    num(b"CHECK ", id as u64);
    unsafe { libc::_exit(10) }
}
#[no_mangle]
extern "C-unwind" fn vf_cover(id: u32) {
    num(b"COVER ", id as u64);
}
#[no_mangle]
extern "C-unwind" fn vf_note(id: u32, v: u64) {
    let mut pre = *b"NOTE 0000 ";
    for i in 0..4 {
        pre[5 + i] = b'0' + (id / [1000, 100, 10, 1][i] % 10) as u8;
    }
    num(&pre, v);
}
#[no_mangle]
extern "C-unwind" fn vf_pick(v: u64) -> u64 {
    v
}
#[no_mangle]
unsafe extern "C-unwind" fn vf_alloc(size: usize, align: usize) -> *mut u8 {
    G.alloc(Layout::from_size_align(size, align).unwrap())
}
#[no_mangle]
unsafe extern "C-unwind" fn vf_free(p: *mut u8, size: usize, align: usize) {
    G.dealloc(p, Layout::from_size_align(size, align).unwrap())
}
#[no_mangle]
extern "C-unwind" fn vf_live() -> usize {
    LIVE.load(SeqCst)
}
const RWX: i32 = libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC;
#[no_mangle]
unsafe extern "C-unwind" fn vf_exec_alloc(size: usize, off: usize) -> *mut u8 {
    let len = up(size + 256, HPG);
    let base = map(0, len + HPG, libc::PROT_NONE, 0);
    libc::mprotect(base as *mut _, len, RWX);
    core::ptr::write_bytes(base, 0xcc, len);
    let mut a = (base as usize + len - size) / 64 * 64 + off;
    if a + size > base as usize + len {
        a -= 64;
    }
    let k = NEX.fetch_add(1, SeqCst);
    EXEC[k] = Ex { base: base as usize, len, addr: a, size };
    a as *mut u8
}
unsafe fn canaries() {
    for e in &EXEC[..NEX.load(SeqCst)] {
        for i in e.base..e.base + e.len {
            if (i < e.addr || i >= e.addr + e.size) && *(i as *const u8) != 0xcc {
                die(b"CANARY overwritten\n", 11);
            }
        }
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn vf_place(addr: usize, size: usize) {
    let lo = addr / PG * PG;
    let hi = up(addr + size, PG);
    map(lo, hi - lo, RWX, libc::MAP_FIXED);
}
#[no_mangle]
unsafe extern "C-unwind" fn vf_panic_mode(mode: u32) {
    PANIC_MODE = mode;
}
#[no_mangle]
unsafe extern "C-unwind" fn vf_catch(f: extern "C-unwind" fn(*mut u8), arg: *mut u8) -> u32 {
    std::panic::catch_unwind(|| f(arg)).is_err() as u32
}
static mut THREADS: Vec<std::thread::JoinHandle<()>> = Vec::new();
std::thread_local! {
    static ME: core::cell::Cell<u32> = const { core::cell::Cell::new(0) };
}
#[no_mangle]
unsafe extern "C-unwind" fn vf_spawn(f: extern "C-unwind" fn(usize), arg: usize) {
    let id = THREADS.len() as u32 + 1;
    THREADS.push(std::thread::spawn(move || {
        ME.with(|m| m.set(id));
        if std::panic::catch_unwind(|| f(arg)).is_err() {
            die(b"PANIC\n", 12);
        }
    }));
}
#[no_mangle]
unsafe extern "C-unwind" fn vf_join() {
    for t in THREADS.drain(..) {
        let _ = t.join();
    }
}
/// Gives other threads every opportunity to interfere here.
#[no_mangle]
unsafe extern "C-unwind" fn vf_yield() {
    libc::usleep(3000);
}
#[no_mangle]
extern "C-unwind" fn vf_self() -> u32 {
    ME.with(|m| m.get())
}
#[no_mangle]
extern "C-unwind" fn vf_abort() -> ! {
    die(b"END abort\n", 0)
}

extern "C" {
    static __start_vf_entries: crate::vf::Entry;
    static __stop_vf_entries: crate::vf::Entry;
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("inputs");
    let mut v: Vec<(u32, &'static [u8])> = vec![];
    for l in text.lines() {
        let mut w = l.split(' ');
        let t = w.next().unwrap().parse().unwrap();
        let h = w.next().unwrap_or("");
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        v.push((t, Vec::leak(b)));
    }
    unsafe {
        INPUTS = Vec::leak(v);
        THREADS.reserve(16);
        // registered entries
        let mut p = &raw const __start_vf_entries;
        let end = &raw const __stop_vf_entries;
        let mut f = None;
        while p < end {
            if (*p).0 == a[1] {
                f = Some((*p).1);
            }
            p = p.add(1);
        }
        let f = f.expect("no such entry");
        std::panic::set_hook(Box::new(|i| {
            if std::env::var_os("VF_VERBOSE").is_some() {
                eprintln!("{i}");
            }
        }));
        // anything lazily set up by the runtime does not count
        let _ = std::panic::catch_unwind(|| panic!());
        match std::panic::catch_unwind(|| f()) {
            Ok(()) => {
                canaries();
                die(b"END done\n", 0)
            }
            Err(_) => {
                canaries();
                if PANIC_MODE == 0 {
                    die(b"END panic\n", 0)
                } else {
                    die(b"PANIC\n", 12)
                }
            }
        }
    }
}

// The cache maintenance system call of 32-bit Arm is made visible to the harness.
#[cfg(all(target_arch = "arm", feature = "default_jit"))]
mod arm {
    core::arch::global_asm!(
        ".arm",
        ".global syscall",
        ".type syscall, %function",
        "syscall:",
        "movw ip, #0x0002",
        "movt ip, #0x000f",
        "cmp r0, ip",
        "beq 2f",
        "mov ip, sp",
        "push {{r4, r5, r6, r7, r8, lr}}",
        "mov r7, r0",
        "mov r0, r1",
        "mov r1, r2",
        "mov r2, r3",
        "ldm ip, {{r3, r4, r5, r6}}",
        "svc 0",
        "cmn r0, #4096",
        "bls 1f",
        "blx {err}",
        "1:",
        "pop {{r4, r5, r6, r7, r8, lr}}",
        "bx lr",
        "2:",
        "push {{r4, lr}}",
        "mov r0, r1",
        "mov r1, r2",
        "bl vfja_cacheflush",
        "pop {{r4, lr}}",
        "bx lr",
        err = sym failed,
    );
    unsafe extern "C" fn failed(r: i32) -> i32 {
        *libc::__errno_location() = -r;
        -1
    }
}

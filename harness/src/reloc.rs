//! Relocation: arbitrary prologues in front of the closure-loading sequence, moved by the crate, and
//! compared in lock step with the original by rules written from the architecture manuals.
//!
//! Invariant of the walk: original and copy have executed the same effects so far, so all registers
//! agree. Each original instruction must be matched by copied instructions with the same effect.

use crate::jit::*;
use crate::vf::*;
use closure_ffi::traits::*;
use closure_ffi::BareFnAny;

type B = unsafe extern "C" fn(u32) -> u32;
/// A bare function type whose thunk template is whatever lies at a given address.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct MyFn(B);
impl core::fmt::Pointer for MyFn {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        core::fmt::Pointer::fmt(&(self.0 as *const ()), f)
    }
}
pub struct T<const A: usize>(u64);
#[allow(unused)]
impl<const A: usize> T<A> {
    pub fn new(key: u64) -> Self {
        T(key)
    }
}
type Args<'a, 'b, 'c> = <MyFn as FnPtr>::Args<'a, 'b, 'c>;
type Ret<'a, 'b, 'c> = <MyFn as FnPtr>::Ret<'a, 'b, 'c>;
unsafe impl<const A: usize> FnOnceThunk<MyFn> for T<A> {
    const THUNK_TEMPLATE_ONCE: *const u8 = A as *const u8;
    unsafe fn call_once<'a, 'b, 'c>(self, _: Args<'a, 'b, 'c>) -> Ret<'a, 'b, 'c> {
        0
    }
}
unsafe impl<const A: usize> FnMutThunk<MyFn> for T<A> {
    const THUNK_TEMPLATE_MUT: *const u8 = A as *const u8;
    unsafe fn call_mut<'a, 'b, 'c>(&mut self, _: Args<'a, 'b, 'c>) -> Ret<'a, 'b, 'c> {
        0
    }
}
unsafe impl<const A: usize> FnThunk<MyFn> for T<A> {
    const THUNK_TEMPLATE: *const u8 = A as *const u8;
    unsafe fn call<'a, 'b, 'c>(&self, _: Args<'a, 'b, 'c>) -> Ret<'a, 'b, 'c> {
        0
    }
}
unsafe impl FnPtr for MyFn {
    type CC = closure_ffi::cc::C;
    type Args<'a, 'b, 'c> = (u32,);
    type Ret<'a, 'b, 'c> = u32;
    unsafe fn call<'a, 'b, 'c>(self, a: Self::Args<'a, 'b, 'c>) -> Self::Ret<'a, 'b, 'c> {
        (self.0)(a.0)
    }
    unsafe fn from_ptr(p: *const ()) -> Self {
        core::mem::transmute(p)
    }
    fn to_ptr(self) -> *const () {
        self.0 as *const ()
    }
    fn make_once_thunk<F>(f: F) -> impl FnOnceThunk<Self>
    where
        F: for<'a, 'b, 'c> PackedFnOnce<'a, 'b, 'c, Self>,
    {
        core::mem::forget(f);
        T::<0>(0)
    }
    fn make_mut_thunk<F>(f: F) -> impl FnMutThunk<Self>
    where
        F: for<'a, 'b, 'c> PackedFnMut<'a, 'b, 'c, Self>,
    {
        core::mem::forget(f);
        T::<0>(0)
    }
    fn make_thunk<F>(f: F) -> impl FnThunk<Self>
    where
        F: for<'a, 'b, 'c> PackedFn<'a, 'b, 'c, Self>,
    {
        core::mem::forget(f);
        T::<0>(0)
    }
}

/// Where the original lies and where the crate put its copy.
pub struct Moved {
    /// original code
    pub o: usize,
    /// address of the slots inside the original
    pub magic: usize,
    /// copy
    pub n: usize,
    pub end: usize,
    pub key: u64,
}

/// Moves the template at one of a few addresses. A panic (refusal) ends the path.
pub unsafe fn move_it(at: usize, magic: usize) -> Moved {
    let step = if cfg!(target_feature = "thumb-mode") { 2 } else { 4 };
    J.off = 8 + step * (at == ADDR2 || at == ADDR1 && choose(2) == 1) as usize;
    J.dual = false;
    let key: u64 = sym();
    let f;
    macro_rules! go {
        ($($a:expr),*) => {
            match at {
                $(x if x == $a => f = BareFnAny::<MyFn, dyn closure_ffi::traits::Any, Jit>::with_thunk_in(T::<{ $a }>(key), Jit(1)).leak(),)*
                _ => vf_fail(699),
            }
        };
    }
    go!(ADDR0, ADDR1, ADDR2);
    let n = f.to_ptr() as usize;
    let b = J.blk[J.last];
    #[cfg(target_arch = "arm")]
    let n = {
        check((n & 1 == 1) == (ADDR0 & 1 == 1), 607);
        n & !1
    };
    check(n >= b.rx as usize && n < b.rx as usize + b.size, 607);
    Moved { o: at & !(ADDR0 & 1), magic, n, end: b.rx as usize + b.size, key }
}
#[cfg(target_pointer_width = "64")]
mod addrs {
    pub const ADDR0: usize = 0x20_0000_1000;
    pub const ADDR1: usize = 0x20_0000_3ffc;
    pub const ADDR2: usize = 0x10_0004;
}
#[cfg(target_pointer_width = "32")]
mod addrs {
    const T: usize = cfg!(target_feature = "thumb-mode") as usize;
    pub const ADDR0: usize = 0x6000_1000 + T;
    pub const ADDR1: usize = 0x6000_3ffc + T;
    pub const ADDR2: usize = if T == 1 { 0x6000_1003 } else { 0x10_0004 };
}
pub use addrs::*;
/// Where the template is: all addresses for single instructions, two otherwise.
#[allow(unused)]
pub fn place(n: usize) -> usize {
    [ADDR0, ADDR2, ADDR1][choose(if n == 1 { 3 } else { 2 }) as usize]
}

pub unsafe fn r32(p: usize) -> u32 {
    (p as *const u32).read_unaligned()
}
pub unsafe fn r16(p: usize) -> u32 {
    (p as *const u16).read_unaligned() as u32
}
pub unsafe fn w32(p: usize, v: u32) {
    (p as *mut u32).write_unaligned(v)
}
pub unsafe fn w16(p: usize, v: u16) {
    (p as *mut u16).write_unaligned(v)
}
pub unsafe fn rus(p: usize) -> usize {
    (p as *const usize).read_unaligned()
}
pub fn sx(v: u32, bits: u32) -> isize {
    ((v << (32 - bits)) as i32 >> (32 - bits)) as isize
}

impl Moved {
    /// Pointer-sized value at `t`, which must be a place inside the copy.
    unsafe fn slot(&self, t: usize) -> Option<usize> {
        let mut p = self.n & !3;
        while p + core::mem::size_of::<usize>() <= self.end {
            if t == p {
                return Some(rus(p));
            }
            p += 4;
        }
        None
    }
    /// The closure pointer handed to the continuation is the wrapper's own.
    pub unsafe fn closure(&self, p: usize) {
        check((p as *const u64).read_unaligned() == self.key, 604);
    }
    fn inside(&self, p: usize) {
        check(p >= self.n && p + 4 <= self.end, 607);
    }
}

#[cfg(target_arch = "aarch64")]
mod a64 {
    use super::*;

    fn is_b(w: u32) -> bool {
        w & 0xfc00_0000 == 0x1400_0000
    }
    fn is_lit(w: u32) -> bool {
        w & 0x3f00_0000 == 0x1800_0000
    }
    fn lit_target(w: u32, pc: usize) -> usize {
        pc.wrapping_add_signed(sx(w >> 5 & 0x7ffff, 19) * 4)
    }
    fn is_adr(w: u32) -> bool {
        w & 0x1f00_0000 == 0x1000_0000
    }
    fn adr_value(w: u32, pc: usize) -> usize {
        let i = sx((w >> 5 & 0x7ffff) << 2 | w >> 29 & 3, 21);
        if w >> 31 == 1 {
            (pc & !0xfff).wrapping_add_signed(i << 12)
        } else {
            pc.wrapping_add_signed(i)
        }
    }
    /// Instructions other than B, ADR(P) and GPR literal loads whose effect depends on where they
    /// are.
    fn other_pc(w: u32) -> bool {
        w & 0xfc00_0000 == 0x9400_0000 // BL
            || w & 0xff00_0000 == 0x5400_0000 // B.cond, BC.cond
            || w & 0x7e00_0000 == 0x3400_0000 // CBZ, CBNZ
            || w & 0x7e00_0000 == 0x3600_0000 // TBZ, TBNZ
            || w & 0x3f00_0000 == 0x1c00_0000 // SIMD literal loads
            || w & 0xfee0_0000 == 0xd620_0000 // BLR and variants: link register
    }

    impl Moved {
        /// Follows the copy from `pn`, which must set `rd` to `c`. -> where the copy continues
        unsafe fn set(&self, mut pn: usize, rd: u32, c: usize) -> usize {
            let mut val = 0usize;
            let mut first = true;
            let mut i = 0;
            while i < 4 {
                self.inside(pn);
                let v = r32(pn);
                check(v & 31 == rd, 602);
                if v & 0xff00_0000 == 0x5800_0000 {
                    let Some(x) = self.slot(lit_target(v, pn)) else { vf_fail(602) };
                    val = x;
                } else if is_adr(v) {
                    val = adr_value(v, pn);
                } else if v & 0xff80_0000 == 0xd280_0000 {
                    val = ((v >> 5 & 0xffff) as usize) << (16 * (v >> 21 & 3));
                } else if !first && v & 0xff80_0000 == 0xf280_0000 {
                    let s = 16 * (v >> 21 & 3);
                    val = val & !(0xffff << s) | ((v >> 5 & 0xffff) as usize) << s;
                } else if !first && v & 0xff80_0000 == 0x9100_0000 && v >> 5 & 31 == rd {
                    let s = if v >> 22 & 1 == 1 { 12 } else { 0 };
                    val = val.wrapping_add(((v >> 10 & 0xfff) as usize) << s);
                } else {
                    vf_fail(602)
                }
                pn += 4;
                if val == c {
                    return pn;
                }
                first = false;
                i += 1;
            }
            vf_fail(602)
        }
        /// The copy at `pn` must perform the literal load `w` of address `t`.
        unsafe fn load(&self, pn: usize, w: u32, t: usize) -> usize {
            self.inside(pn);
            let v = r32(pn);
            let rt = w & 31;
            if is_lit(v) && v >> 30 == w >> 30 && v & 31 == rt && lit_target(v, pn) == t {
                return pn + 4;
            }
            let pn = self.set(pn, rt, t);
            self.inside(pn);
            let v = r32(pn);
            let op = match w >> 30 {
                0 => 0xb940_0000,
                1 => 0xf940_0000,
                _ => 0xb980_0000,
            };
            check(v == op | rt << 5 | rt, 603);
            pn + 4
        }
        pub unsafe fn lockstep(&self) {
            let (mut po, mut pn) = (self.o, self.n);
            let mut left = 10;
            loop {
                left -= 1;
                if left == 0 {
                    return;
                }
                let w = r32(po);
                if is_b(w) {
                    // branches of the prologue stay inside it
                    let t = po.wrapping_add_signed(sx(w, 26) * 4);
                    check(t >= self.o && t < self.magic, 606);
                    po = self.o + 4 * vf_pick(((t - self.o) / 4) as u64) as usize;
                    cover(4);
                    continue;
                }
                self.inside(pn);
                let v = r32(pn);
                if is_b(v) {
                    let t = pn.wrapping_add_signed(sx(v, 26) * 4);
                    check(t >= self.n && t < self.end, 606);
                    pn = self.n + 4 * vf_pick(((t - self.n) / 4) as u64) as usize;
                    continue;
                }
                if is_lit(w) && w >> 30 != 3 {
                    let t = lit_target(w, po);
                    if t == self.magic {
                        // closure pointer, then continuation
                        check(is_lit(v) && v >> 30 == 1 && v & 31 == w & 31, 604);
                        let Some(p) = self.slot(lit_target(v, pn)) else { vf_fail(604) };
                        self.closure(p);
                        let (w, v) = (r32(po + 4), r32(pn + 4));
                        check(is_lit(v) && v >> 30 == 1 && v & 31 == w & 31, 605);
                        let Some(p) = self.slot(lit_target(v, pn + 4)) else { vf_fail(605) };
                        check(p == self.magic + 16, 605);
                        check(r32(pn + 8) == r32(po + 8), 605);
                        cover(1);
                        return;
                    }
                    pn = self.load(pn, w, t);
                    cover(3);
                } else if is_adr(w) {
                    pn = self.set(pn, w & 31, adr_value(w, po));
                    cover(2);
                } else {
                    // everything else is copied, and must not depend on its address
                    check(!other_pc(w), 600);
                    check(v == w, 601);
                    pn += 4;
                }
                po += 4;
            }
        }
    }

    /// Writes the prologue `p` and the closure-loading sequence at `at`. -> address of the slots
    pub unsafe fn build(at: usize, p: &[u32]) -> usize {
        vf_place(at & !0xfff, 0x2000);
        let (cl, jmp): (u8, u8) = (sym(), sym());
        assume(cl < 31 && jmp < 31 && cl != jmp);
        let mut q = at;
        for w in p {
            w32(q, *w);
            q += 4;
        }
        let magic = (q + 12 + 7) & !7;
        w32(q, 0x5800_0000 | ((magic - q) as u32 / 4) << 5 | cl as u32);
        w32(q + 4, 0x5800_0000 | ((magic + 8 - q - 4) as u32 / 4) << 5 | jmp as u32);
        w32(q + 8, 0xd61f_0000 | (jmp as u32) << 5);
        if magic != q + 12 {
            w32(q + 12, 0xd503_201f);
        }
        w32(magic, 0xdead);
        w32(magic + 4, 0xdead);
        w32(magic + 8, 0);
        w32(magic + 12, 0);
        magic
    }
    /// What no compiler emits in front of the sequence.
    pub unsafe fn plausible(at: usize, p: &[u32], magic: usize) {
        let mut i = 0;
        while i < p.len() {
            let w = p[i];
            assume(w != 0xdead);
            // references to the slots come from the sequence only; literal load to the zero register
            let t = lit_target(w, at + 4 * i);
            assume(!(is_lit(w) && (t.wrapping_sub(magic) < 16 || w & 31 == 31)));
            i += 1;
        }
    }
    macro_rules! prologue {
        ($name:ident, $n:expr) => {
            entry!($name, {
                let at = [ADDR0, ADDR1, ADDR2][choose(3) as usize];
                let p: [u32; $n] = sym();
                let magic = build(at, &p);
                plausible(at, &p, magic);
                let m = move_it(at, magic);
                m.lockstep();
            });
        };
    }
    prologue!(h_move1, 1);
    prologue!(h_move2, 2);
    prologue!(h_move3, 3);
    prologue!(h_move4, 4);
    /// Forms that are to be handled: ADR, ADRP, literal loads of general registers, branches to a
    /// later instruction, and common position-independent instructions.
    fn supported(w: u32, pc: usize, q: usize) -> bool {
        let t = pc.wrapping_add_signed(sx(w, 26) * 4);
        is_adr(w) && w & 31 != 31 && adr_value(w, pc).wrapping_sub(1) < 1 << 46
            || is_lit(w) && w >> 30 != 3
            || is_b(w) && t > pc && t <= q
            || usual(w)
    }
    fn usual(w: u32) -> bool {
        w & 0x7f80_0000 == 0x2980_0000 // STP pre-indexed
            || w & 0x7fc0_0000 == 0x2900_0000 // STP
            || w & 0x3fc0_0000 == 0x2d00_0000 && w >> 30 != 3 // STP of vectors
            || w & 0xff80_0000 == 0xd100_0000 // SUB immediate
            || w & 0xff80_0000 == 0x9100_0000 // ADD immediate
            || w & 0xffe0_ffe0 == 0xaa00_03e0 // MOV
            || w & 0xff80_0000 == 0xd280_0000 // MOVZ
            || w & 0xffc0_0000 == 0xf900_0000 // STR
            || w & 0xffc0_0000 == 0xf940_0000 // LDR
            || w == 0xd503_233f // PACIASP
            || w == 0xd503_245f // BTI c
            || w == 0xd503_201f // NOP
    }
    macro_rules! handled {
        ($name:ident, $n:expr) => {
            entry!($name, {
                let at = place(1);
                let p: [u32; $n] = sym();
                let magic = build(at, &p);
                plausible(at, &p, magic);
                let q = at + 4 * $n;
                let mut i = 0;
                while i < $n {
                    assume(supported(p[i], at + 4 * i, q));
                    i += 1;
                }
                vf_panic_mode(1);
                move_it(at, magic);
                cover(1);
                if !usual(p[$n - 1]) {
                    cover(2);
                }
            });
        };
    }
    handled!(h_ok1, 1);
    handled!(h_ok2, 2);
    handled!(h_ok3, 3);
}

#[cfg(all(target_arch = "arm", not(target_feature = "thumb-mode")))]
mod a32 {
    use super::*;

    fn is_b(w: u32) -> bool {
        w & 0x0f00_0000 == 0x0a00_0000
    }
    fn b_target(w: u32, pc: usize) -> usize {
        pc.wrapping_add(8).wrapping_add_signed(sx(w, 24) * 4)
    }
    fn rn(w: u32) -> u32 {
        w >> 16 & 15
    }
    fn rt(w: u32) -> u32 {
        w >> 12 & 15
    }
    /// LDR, LDRB with an immediate offset and no write-back
    fn is_word(w: u32) -> bool {
        w & 0x0f30_0000 == 0x0510_0000
    }
    /// LDRH, LDRSB, LDRSH, LDRD with an immediate offset and no write-back
    fn is_extra(w: u32) -> bool {
        w & 0x0f60_0090 == 0x0140_0090 && {
            let (l, op) = (w >> 20 & 1, w >> 5 & 3);
            l == 1 && op != 0 || l == 0 && op == 2
        }
    }
    fn is_lit(w: u32) -> bool {
        rn(w) == 15 && (is_word(w) || is_extra(w))
    }
    fn imm(w: u32) -> usize {
        (if is_word(w) { w & 0xfff } else { w >> 4 & 0xf0 | w & 15 }) as usize
    }
    fn lit_target(w: u32, pc: usize) -> usize {
        if w >> 23 & 1 == 1 {
            pc.wrapping_add(8).wrapping_add(imm(w))
        } else {
            pc.wrapping_add(8).wrapping_sub(imm(w))
        }
    }
    fn is_adr(w: u32) -> bool {
        rn(w) == 15 && (w & 0x0ff0_0000 == 0x0280_0000 || w & 0x0ff0_0000 == 0x0240_0000) && rt(w) != 15
    }
    fn adr_value(w: u32, pc: usize) -> usize {
        let i = (w & 255).rotate_right(2 * (w >> 8 & 15)) as usize;
        if w & 0x0080_0000 != 0 {
            pc.wrapping_add(8).wrapping_add(i)
        } else {
            pc.wrapping_add(8).wrapping_sub(i)
        }
    }
    /// Other instructions whose effect depends on where they are.
    fn other_pc(w: u32) -> bool {
        let (rm, cls) = (w & 15, w >> 25 & 7);
        let opc = w >> 21 & 15;
        let mov = opc == 13 || opc == 15;
        match cls {
            0b101 => true,
            0b001 => {
                // MOVW, MOVT, MSR have no register operand there
                let misc = opc >> 2 == 2 && w >> 20 & 1 == 0;
                !misc && !mov && rn(w) == 15
            }
            0b000 => {
                if w & 0x90 == 0x90 {
                    if w & 0x60 == 0 {
                        false // multiplies
                    } else {
                        rn(w) == 15 || rt(w) == 15
                    }
                } else if opc >> 2 == 2 && w >> 20 & 1 == 0 {
                    // BX (leaves), BLX, others
                    w & 0x0fff_fff0 == 0x012f_ff30 || w & 0x0fff_ffff == 0x012f_ff1f
                } else {
                    !mov && rn(w) == 15 || rm == 15
                }
            }
            0b010 | 0b011 => rn(w) == 15 || (w >> 20 & 1 == 0 && rt(w) == 15),
            0b100 => rn(w) == 15 || (w >> 20 & 1 == 0 && w & 0x8000 != 0),
            0b110 => rn(w) == 15,
            _ => false,
        }
    }
    /// Leaves the prologue for a place that does not depend on where the instruction is.
    fn leaves(w: u32) -> bool {
        let load = w >> 20 & 1 == 1;
        match w >> 25 & 7 {
            0b000 => w & 0x0fff_fff0 == 0x012f_ff10 || (w & 0x90 != 0x90 && rt(w) == 15 && w >> 23 & 3 != 2),
            0b001 => rt(w) == 15 && w >> 23 & 3 != 2,
            0b010 | 0b011 => load && rt(w) == 15,
            0b100 => load && w & 0x8000 != 0,
            _ => false,
        }
    }
    const AL: u32 = 14;

    impl Moved {
        unsafe fn set(&self, mut pn: usize, rd: u32, c: usize) -> usize {
            let mut val = 0usize;
            let mut first = true;
            let mut i = 0;
            while i < 3 {
                self.inside(pn);
                let v = r32(pn);
                check(v >> 28 == AL && rt(v) == rd, 602);
                if is_word(v) && is_lit(v) && v & 0x0040_0000 == 0 {
                    let Some(x) = self.slot(lit_target(v, pn)) else { vf_fail(602) };
                    val = x;
                } else if is_adr(v) {
                    val = adr_value(v, pn);
                } else if v & 0x0ff0_0000 == 0x0300_0000 {
                    val = (v >> 4 & 0xf000 | v & 0xfff) as usize;
                } else if !first && v & 0x0ff0_0000 == 0x0340_0000 {
                    val = val & 0xffff | ((v >> 4 & 0xf000 | v & 0xfff) as usize) << 16;
                } else {
                    vf_fail(602)
                }
                pn += 4;
                if val == c {
                    return pn;
                }
                first = false;
                i += 1;
            }
            vf_fail(602)
        }
        unsafe fn load(&self, pn: usize, w: u32, t: usize) -> usize {
            self.inside(pn);
            let v = r32(pn);
            // opcode, condition and destination
            let op = if is_word(w) { 0xff7f_f000 } else { 0xff7f_f0f0 };
            if is_lit(v) && v & op == w & op && lit_target(v, pn) == t {
                return pn + 4;
            }
            let pn = self.set(pn, rt(w), t);
            self.inside(pn);
            let v = r32(pn);
            let op = if is_word(w) { 0xff70_f000 } else { 0xff70_f0f0 };
            check(v & op == w & op && rn(v) == rt(w) && imm(v) == 0, 603);
            pn + 4
        }
        pub unsafe fn lockstep(&self) {
            let (mut po, mut pn) = (self.o, self.n);
            let mut left = 10;
            loop {
                left -= 1;
                if left == 0 {
                    return;
                }
                let w = r32(po);
                self.inside(pn);
                let v = r32(pn);
                if is_b(w) {
                    let t = b_target(w, po);
                    check(t >= self.o && t < self.magic, 606);
                    if w >> 28 != AL {
                        // both ways must match
                        check(is_b(v) && v >> 28 == w >> 28, 606);
                        if choose(2) == 0 {
                            po += 4;
                            pn += 4;
                            continue;
                        }
                        let u = b_target(v, pn);
                        check(u >= self.n && u < self.end, 606);
                        pn = self.n + 4 * vf_pick(((u - self.n) / 4) as u64) as usize;
                    }
                    po = self.o + 4 * vf_pick(((t - self.o) / 4) as u64) as usize;
                    cover(4);
                    continue;
                }
                if is_b(v) && v >> 28 == AL {
                    let t = b_target(v, pn);
                    check(t >= self.n && t < self.end, 606);
                    pn = self.n + 4 * vf_pick(((t - self.n) / 4) as u64) as usize;
                    continue;
                }
                if w >> 28 == AL && is_lit(w) && rt(w) != 15 {
                    let t = lit_target(w, po);
                    if t == self.magic {
                        let word = 0xe510_0000 | 15 << 16 | rt(w) << 12;
                        check(v & 0xff7f_f000 == word, 604);
                        let Some(p) = self.slot(lit_target(v, pn)) else { vf_fail(604) };
                        self.closure(p);
                        let (w, v) = (r32(po + 4), r32(pn + 4));
                        check(v & 0xff7f_f000 == 0xe510_0000 | 15 << 16 | rt(w) << 12, 605);
                        let Some(p) = self.slot(lit_target(v, pn + 4)) else { vf_fail(605) };
                        check(p == self.magic + 8, 605);
                        check(r32(pn + 8) == r32(po + 8), 605);
                        cover(1);
                        return;
                    }
                    pn = self.load(pn, w, t);
                    cover(3);
                } else if w >> 28 == AL && is_adr(w) {
                    pn = self.set(pn, rt(w), adr_value(w, po));
                    cover(2);
                } else {
                    check(!other_pc(w), 600);
                    check(v == w, 601);
                    if leaves(w) && w >> 28 == AL {
                        return;
                    }
                    pn += 4;
                }
                po += 4;
            }
        }
    }

    pub unsafe fn build(at: usize, p: &[u32]) -> usize {
        vf_place(at & !0xfff, 0x2000);
        let (cl, jmp): (u8, u8) = (sym(), sym());
        assume(cl < 15 && jmp < 15 && cl != jmp && cl != 13 && jmp != 13);
        let mut q = at;
        for w in p {
            w32(q, *w);
            q += 4;
        }
        let magic = q + 12;
        w32(q, 0xe59f_0000 | (cl as u32) << 12 | (magic - q - 8) as u32);
        w32(q + 4, 0xe59f_0000 | (jmp as u32) << 12 | (magic + 4 - q - 4 - 8) as u32);
        w32(q + 8, 0xe12f_ff10 | jmp as u32);
        w32(magic, 0xe7fd_eafd);
        w32(magic + 4, 0);
        magic
    }
    pub unsafe fn plausible(at: usize, p: &[u32], magic: usize) {
        let mut i = 0;
        while i < p.len() {
            let w = p[i];
            assume(w != 0xe7fd_eafd);
            let t = lit_target(w, at + 4 * i);
            assume(!(is_lit(w) && (t.wrapping_sub(magic).wrapping_add(7) < 15 || rt(w) == 13)));
            i += 1;
        }
    }
    macro_rules! prologue {
        ($name:ident, $n:expr) => {
            entry!($name, {
                let at = place($n);
                let p: [u32; $n] = sym();
                let magic = build(at, &p);
                plausible(at, &p, magic);
                let m = move_it(at, magic);
                m.lockstep();
            });
        };
    }
    prologue!(h_move1, 1);
    prologue!(h_move2, 2);
    prologue!(h_move3, 3);
    prologue!(h_move4, 4);
    /// Forms that are to be handled, all unconditional: ADR, literal loads, branches to a later
    /// instruction, and common position-independent instructions.
    fn supported(w: u32, pc: usize, q: usize) -> bool {
        let t = b_target(w, pc);
        let d = lit_target(w, pc);
        w >> 28 == 14
            && (is_adr(w)
                || is_word(w) && rn(w) == 15 && rt(w) != 15 && d < 0x8000_0000
                || is_extra(w) && rn(w) == 15 && rt(w) < 13 && d < 0x8000_0000 && (w >> 20 & 1 == 1 || rt(w) & 1 == 0 && rt(w) < 12)
                || is_b(w) && t > pc && t <= q
                || usual(w))
    }
    fn usual(w: u32) -> bool {
        w & 0xffff_a000 == 0xe92d_0000 && w & 0xffff != 0 // PUSH
            || w & 0xffff_f000 == 0xe24d_d000 // SUB sp
            || w & 0xffff_0000 == 0xe28d_0000 && rt(w) != 15 // ADD rd, sp
            || w & 0xffff_0ff0 == 0xe1a0_0000 && rt(w) != 15 && w & 15 != 15 // MOV
            || w & 0xffff_0000 == 0xe58d_0000 && rt(w) != 15 // STR [sp]
            || w & 0xffff_0000 == 0xe59d_0000 && rt(w) != 15 // LDR [sp]
            || w & 0xffb0_0000 == 0xe300_0000 && rt(w) != 15 // MOVW, MOVT
    }
    macro_rules! handled {
        ($name:ident, $n:expr) => {
            entry!($name, {
                let at = place(1);
                let p: [u32; $n] = sym();
                let magic = build(at, &p);
                plausible(at, &p, magic);
                let q = at + 4 * $n;
                let mut i = 0;
                while i < $n {
                    assume(supported(p[i], at + 4 * i, q));
                    i += 1;
                }
                vf_panic_mode(1);
                move_it(at, magic);
                cover(1);
                if !usual(p[$n - 1]) {
                    cover(2);
                }
            });
        };
    }
    handled!(h_ok1, 1);
    handled!(h_ok2, 2);
    handled!(h_ok3, 3);
}

#[cfg(all(target_arch = "arm", target_feature = "thumb-mode"))]
mod t32 {
    use super::*;

    /// One instruction: halfwords, 16-bit ones with `b == 0`.
    #[derive(Clone, Copy)]
    struct I {
        pc: usize,
        a: u32,
        b: u32,
        wide: bool,
    }
    unsafe fn at(pc: usize) -> I {
        let a = r16(pc) as u32;
        let wide = vf_pick((a >> 11 >= 0b11101) as u64) == 1;
        I { pc, a, b: if wide { r16(pc + 2) as u32 } else { 0 }, wide }
    }
    impl I {
        fn len(self) -> usize {
            if self.wide { 4 } else { 2 }
        }
        fn base(self) -> usize {
            (self.pc + 4) & !3
        }
        fn narrow(self) -> bool {
            !self.wide
        }
        /// Unconditional branch and where it goes.
        fn b(self) -> Option<usize> {
            if self.narrow() {
                (self.a & 0xf800 == 0xe000).then(|| (self.pc + 4).wrapping_add_signed(sx(self.a, 11) * 2))
            } else {
                (self.a & 0xf800 == 0xf000 && self.b & 0xd000 == 0x9000).then(|| {
                    let s = self.a >> 10 & 1;
                    let (i1, i2) = (1 ^ s ^ self.b >> 13 & 1, 1 ^ s ^ self.b >> 11 & 1);
                    let imm = s << 23 | i1 << 22 | i2 << 21 | (self.a & 0x3ff) << 11 | self.b & 0x7ff;
                    (self.pc + 4).wrapping_add_signed(sx(imm, 24) * 2)
                })
            }
        }
        /// Conditional branch (also on a register being zero): what it tests, where it goes.
        fn bc(self) -> Option<(u32, usize)> {
            let (a, b) = (self.a, self.b);
            if self.narrow() {
                if a & 0xf000 == 0xd000 && a >> 9 & 7 != 7 {
                    return Some((a >> 8 & 15, (self.pc + 4).wrapping_add_signed(sx(a, 8) * 2)));
                }
                if a & 0xf500 == 0xb100 {
                    let imm = a >> 4 & 0x20 | a >> 3 & 0x1f;
                    return Some((0x100 | a & 7 | a >> 8 & 8, self.pc + 4 + imm as usize * 2));
                }
                None
            } else if a & 0xf800 == 0xf000 && b & 0xd000 == 0x8000 && a >> 7 & 7 != 7 {
                let imm = (a >> 10 & 1) << 19 | (b >> 11 & 1) << 18 | (b >> 13 & 1) << 17 | (a & 0x3f) << 11 | b & 0x7ff;
                Some((a >> 6 & 15, (self.pc + 4).wrapping_add_signed(sx(imm, 20) * 2)))
            } else {
                None
            }
        }
        /// ADR: destination and value.
        fn adr(self) -> Option<(u32, usize)> {
            let (a, b) = (self.a, self.b);
            if self.narrow() {
                return (a & 0xf800 == 0xa000).then(|| (a >> 8 & 7, self.base() + (a & 255) as usize * 4));
            }
            if b & 0x8000 != 0 || a & 0xfb0f != 0xf20f {
                return None;
            }
            let imm = ((a >> 10 & 1) << 11 | (b >> 12 & 7) << 8 | b & 255) as usize;
            match a >> 4 & 15 {
                0x0 => Some((b >> 8 & 15, self.base().wrapping_add(imm))),
                0xa => Some((b >> 8 & 15, self.base().wrapping_sub(imm))),
                _ => None,
            }
        }
        /// Load relative to its own address: kind (with all destinations), first destination,
        /// address. The kind is the 32-bit opcode and the destination fields.
        fn lit(self) -> Option<(u32, u32, usize)> {
            let (a, b) = (self.a, self.b);
            if self.narrow() {
                let rt = a >> 8 & 7;
                return (a & 0xf800 == 0x4800).then(|| (0xf850_0000 | rt << 12, rt, self.base() + (a & 255) as usize * 4));
            }
            let up = a & 0x80 != 0;
            let off = |i: u32| if up { self.base().wrapping_add(i as usize) } else { self.base().wrapping_sub(i as usize) };
            if a & 0xfe1f == 0xf81f && (a >> 5 & 3) != 3 && !(a & 0x100 != 0 && a >> 5 & 3 == 2) {
                return Some(((a & 0xff70) << 16 | b & 0xf000, b >> 12, off(b & 0xfff)));
            }
            // LDRD
            if a & 0xff7f == 0xe95f {
                return Some((0xe950_0000 | b & 0xff00, b >> 12, off((b & 255) * 4)));
            }
            None
        }
        /// Load through a register with no offset: kind and base.
        fn ind(self) -> Option<(u32, u32)> {
            let (a, b) = (self.a, self.b);
            if self.narrow() {
                return (a & 0xffc0 == 0x6800).then(|| (0xf850_0000 | (a & 7) << 12, a >> 3 & 7));
            }
            if a & 0xfe90 == 0xf890 && b & 0xfff == 0 {
                return Some(((a & 0xff70) << 16 | b & 0xf000, a & 15));
            }
            if a & 0xff70 == 0xe950 && b & 255 == 0 {
                return Some((0xe950_0000 | b & 0xff00, a & 15));
            }
            None
        }
        /// Other instructions whose effect depends on where they are.
        fn other_pc(self) -> bool {
            let (a, b) = (self.a, self.b);
            if self.narrow() {
                if a & 0xfc00 == 0x4400 {
                    let (rm, rd) = (a >> 3 & 15, a & 7 | a >> 4 & 8);
                    return match a >> 8 & 3 {
                        0 => rm == 15 || rd == 15,
                        1 => false,
                        2 => rm == 15,
                        _ => rm == 15 || a & 0x80 != 0,
                    };
                }
                return false;
            }
            if a & 0xf800 == 0xf000 && b & 0x8000 != 0 {
                return b & 0x5000 == 0x5000 || b & 0x5000 == 0x4000;
            }
            // VLDR and what else has a base register
            (a & 0xfe00 == 0xec00 || a & 0xfe40 == 0xe840 || a & 0xfe00 == 0xf800) && a & 15 == 15
        }
        /// Leaves for a place that does not depend on where the instruction is.
        fn leaves(self) -> bool {
            let (a, b) = (self.a, self.b);
            if self.narrow() {
                a & 0xff87 == 0x4687 || a & 0xff87 == 0x4700 || a & 0xff00 == 0xbd00
            } else {
                a & 0xff70 == 0xf850 && b >> 12 == 15 || a & 0xfe50 == 0xe810 && b & 0x8000 != 0
            }
        }
        fn same(self, o: I) -> bool {
            self.a == o.a && self.b == o.b && self.wide == o.wide
        }
    }
    /// Number of following instructions an IT makes conditional.
    fn it(w: I) -> u32 {
        if w.narrow() && w.a & 0xff00 == 0xbf00 && w.a & 15 != 0 {
            unsafe { vf_pick((4 - (w.a & 15).trailing_zeros()) as u64) as u32 }
        } else {
            0
        }
    }

    impl Moved {
        /// The copy branches: where to.
        unsafe fn there(&self, u: usize) -> usize {
            check(u >= self.n && u < self.end, 606);
            self.n + 2 * vf_pick(((u - self.n) / 2) as u64) as usize
        }
        unsafe fn back(&self, t: usize) -> usize {
            check(t >= self.o && t < self.magic, 606);
            self.o + 2 * vf_pick(((t - self.o) / 2) as u64) as usize
        }
        unsafe fn set(&self, mut pn: usize, rd: u32, c: usize) -> usize {
            let mut val = 0usize;
            let mut first = true;
            let mut i = 0;
            while i < 3 {
                self.inside(pn);
                let v = at(pn);
                if let Some((k, r, t)) = v.lit() {
                    check(r == rd && k >> 16 == 0xf850, 602);
                    let Some(x) = self.slot(t) else { vf_fail(602) };
                    val = x;
                } else if let Some((r, x)) = v.adr() {
                    check(r == rd, 602);
                    val = x;
                } else if v.wide && v.a & 0xfb70 == 0xf240 && v.b & 0x8000 == 0 {
                    // MOVW, MOVT
                    check(v.b >> 8 & 15 == rd, 602);
                    let imm = (v.a & 15) << 12 | (v.a >> 10 & 1) << 11 | (v.b >> 12 & 7) << 8 | v.b & 255;
                    if v.a & 0x80 == 0 {
                        val = imm as usize;
                    } else {
                        check(!first, 602);
                        val = val & 0xffff | (imm as usize) << 16;
                    }
                } else {
                    vf_fail(602)
                }
                pn += v.len();
                if val == c {
                    return pn;
                }
                first = false;
                i += 1;
            }
            vf_fail(602)
        }
        unsafe fn load(&self, pn: usize, kind: u32, rt: u32, t: usize) -> usize {
            self.inside(pn);
            let v = at(pn);
            if let Some((k, _, u)) = v.lit() {
                if k == kind && u == t {
                    return pn + v.len();
                }
            }
            let pn = self.set(pn, rt, t);
            self.inside(pn);
            let v = at(pn);
            let Some((k, rn)) = v.ind() else { vf_fail(603) };
            check(k == kind && rn == rt, 603);
            pn + v.len()
        }
        pub unsafe fn lockstep(&self) {
            let (mut po, mut pn) = (self.o, self.n);
            let mut left = 10;
            let mut cond = 0;
            loop {
                left -= 1;
                if left == 0 {
                    return;
                }
                let w = at(po);
                self.inside(pn);
                let v = at(pn);
                if cond > 0 {
                    // conditional: cannot be moved unless it does not matter where it is
                    check(w.b().is_none() && w.bc().is_none() && w.adr().is_none() && w.lit().is_none(), 600);
                    check(!w.other_pc(), 600);
                    check(v.same(w), 601);
                    cond -= 1;
                    cover(5);
                    po += w.len();
                    pn += v.len();
                    continue;
                }
                if let Some(t) = w.b() {
                    po = self.back(t);
                    cover(4);
                    continue;
                }
                if let Some((c, t)) = w.bc() {
                    let Some((d, u)) = v.bc() else { vf_fail(606) };
                    check(c == d, 606);
                    if choose(2) == 0 {
                        po += w.len();
                        pn += v.len();
                    } else {
                        po = self.back(t);
                        pn = self.there(u);
                    }
                    continue;
                }
                if let Some(u) = v.b() {
                    pn = self.there(u);
                    continue;
                }
                if let Some((kind, rt, t)) = w.lit() {
                    check(rt != 15, 600);
                    if t == self.magic {
                        let Some((k, r, u)) = v.lit() else { vf_fail(604) };
                        check(k >> 16 == 0xf850 && r == rt, 604);
                        let Some(p) = self.slot(u) else { vf_fail(604) };
                        self.closure(p);
                        let (w, v) = (at(po + w.len()), at(pn + v.len()));
                        let (Some((_, rw, _)), Some((k, rv, u))) = (w.lit(), v.lit()) else { vf_fail(605) };
                        check(k >> 16 == 0xf850 && rv == rw, 605);
                        let Some(p) = self.slot(u) else { vf_fail(605) };
                        check(p == self.magic + 8 + 1, 605);
                        check(r16(v.pc + v.len()) == r16(w.pc + w.len()), 605);
                        cover(1);
                        return;
                    }
                    pn = self.load(pn, kind, rt, t);
                    cover(3);
                } else if let Some((rd, c)) = w.adr() {
                    pn = self.set(pn, rd, c);
                    cover(2);
                } else {
                    check(!w.other_pc(), 600);
                    check(v.same(w), 601);
                    if w.leaves() {
                        return;
                    }
                    cond = it(w);
                    pn += v.len();
                }
                po += w.len();
            }
        }
    }

    /// Loads of the closure and the continuation: narrow for low registers, by choice.
    unsafe fn ldr(q: usize, rt: u32, wide: bool, t: usize) -> usize {
        let d = (t - ((q + 4) & !3)) as u32;
        if wide {
            w16(q, 0xf8df);
            w16(q + 2, (rt << 12 | d) as u16);
            q + 4
        } else {
            w16(q, (0x4800 | rt << 8 | d / 4) as u16);
            q + 2
        }
    }
    pub unsafe fn build(at: usize, p: &[u16]) -> usize {
        let at = at & !1;
        vf_place(at & !0xfff, 0x2000);
        let (cl, jmp): (u8, u8) = (sym(), sym());
        assume(cl < 15 && jmp < 15 && cl != jmp && cl != 13 && jmp != 13);
        let wide = choose(2) == 1;
        assume(wide || cl < 8 && jmp < 8);
        let mut q = at;
        for w in p {
            w16(q, *w);
            q += 2;
        }
        let magic = (q + (if wide { 8 } else { 4 }) + 2 + 3) & !3;
        q = ldr(q, cl as u32, wide, magic);
        q = ldr(q, jmp as u32, wide, magic + 4);
        w16(q, 0x4700 | (jmp as u16) << 3);
        if q + 2 != magic {
            w16(q + 2, 0xbf00);
        }
        w32(magic, 0xde2a_de2a);
        w32(magic + 4, 0);
        magic
    }
    pub unsafe fn plausible(a: usize, p: &[u16], magic: usize) {
        let a = a & !1;
        let mut starts = 0usize;
        let mut i = 0;
        while i < p.len() {
            let w = at(a + 2 * i);
            assume(w.a != 0xde2a);
            // IT AL is not generated; its instructions would be unconditional
            assume(!(w.narrow() && w.a & 0xfff0 == 0xbfe0 && w.a & 15 != 0));
            if let Some((_, rt, t)) = w.lit() {
                assume(t.wrapping_sub(magic).wrapping_add(7) >= 15 && rt != 13);
            }
            starts |= 1 << i;
            i += w.len() / 2;
        }
        // the prologue ends where the thunk code starts
        assume(i == p.len());
        // branches lead to instructions
        i = 0;
        while i < p.len() {
            let w = at(a + 2 * i);
            if let Some(t) = w.b() {
                let k = t.wrapping_sub(a) / 2;
                assume(k >= p.len() || starts >> k & 1 == 1);
            }
            i += w.len() / 2;
        }
    }
    macro_rules! prologue {
        ($name:ident, $n:expr) => {
            entry!($name, {
                let at = place($n);
                let p: [u16; $n] = sym();
                let magic = build(at, &p);
                plausible(at, &p, magic);
                let m = move_it(at, magic);
                m.lockstep();
            });
        };
    }
    prologue!(h_move1, 1);
    prologue!(h_move2, 2);
    prologue!(h_move3, 3);
    prologue!(h_move4, 4);
    impl I {
        /// Forms that are to be handled: ADR, literal loads, branches to a later instruction, and
        /// common position-independent instructions.
        fn supported(self, q: usize) -> bool {
            if let Some((rd, t)) = self.adr() {
                return rd != 13 && rd != 15 && t < 0x8000_0000;
            }
            if let Some((k, rt, t)) = self.lit() {
                let rt2 = k >> 8 & 15;
                return rt != 13 && rt != 15 && t < 0x8000_0000 && (k >> 24 != 0xe9 || rt2 != 13 && rt2 != 15 && rt2 != rt);
            }
            if let Some(t) = self.b() {
                return t > self.pc && t <= q;
            }
            self.usual()
        }
        fn usual(self) -> bool {
            let (a, b) = (self.a, self.b);
            if self.wide {
                return a == 0xe92d && b & 0xa000 == 0 && b & (b.wrapping_sub(1)) != 0; // PUSH.W
            }
            a & 0xfe00 == 0xb400 && a & 0x1ff != 0 // PUSH
                || a & 0xff80 == 0xb080 // SUB sp
                || a & 0xf800 == 0xa800 // ADD rd, sp
                || a & 0xff00 == 0x4600 && (a & 7 | a >> 4 & 8) != 15 && a >> 3 & 15 != 15 // MOV
                || a & 0xf800 == 0x9000 // STR [sp]
                || a & 0xf800 == 0x9800 // LDR [sp]
                || a & 0xf800 == 0x2000 // MOVS
                || a == 0xbf00 // NOP
        }
    }
    macro_rules! handled {
        ($name:ident, $n:expr) => {
            entry!($name, {
                let a = place(1);
                let p: [u16; $n] = sym();
                let magic = build(a, &p);
                plausible(a, &p, magic);
                let a0 = a & !1;
                let mut special = false;
                let mut i = 0;
                while i < $n {
                    let w = at(a0 + 2 * i);
                    assume(w.supported(a0 + 2 * $n));
                    special = !w.usual();
                    i += w.len() / 2;
                }
                vf_panic_mode(1);
                move_it(a, magic);
                cover(1);
                if special {
                    cover(2);
                }
            });
        };
    }
    handled!(h_ok1, 1);
    handled!(h_ok2, 2);
    handled!(h_ok3, 3);
    handled!(h_ok4, 4);
}

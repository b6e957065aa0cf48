//! Relocation on x86_64 and 32-bit x86: prologues made of a menu of instruction forms with symbolic
//! displacements, immediates, register and memory contents. Original and copy are both interpreted
//! by a small model of the processor written from the manuals; the results are compared.
//!
//! Memory outside the copy is not modelled: the k-th load of either run returns the same arbitrary
//! value, and the sequences of accesses (kind, address, stored value) must be equal.
#![cfg(any(target_arch = "x86", target_arch = "x86_64"))]

use crate::jit::*;
use crate::reloc::*;
use crate::vf::*;

const X64: bool = cfg!(target_arch = "x86_64");
const TR: usize = 12;
const JC: usize = 4;

/// What both runs share: initial registers, loaded values, outcomes of conditional jumps.
#[derive(Clone, Copy)]
struct World {
    g: [usize; 16],
    x: [u64; 8],
    load: [u64; TR],
    taken: [bool; JC],
}
#[derive(Clone, Copy)]
struct Cpu {
    g: [usize; 16],
    x: [u64; 8],
    /// what the flags were last computed from
    fl: (u64, u64, u64),
    tr: [(u32, usize, u64); TR],
    n: usize,
    /// segment prefix of the current instruction
    seg: u32,
    /// conditional jumps: condition and flags
    jc: [(u32, (u64, u64, u64)); JC],
    j: usize,
}

unsafe fn r8(p: usize) -> u32 {
    (p as *const u8).read() as u32
}
unsafe fn r64(p: usize) -> u64 {
    (p as *const u64).read_unaligned()
}
fn mask(size: u32) -> u64 {
    if size == 8 { u64::MAX } else { (1 << (8 * size)) - 1 }
}

enum Op {
    Reg(u32),
    Mem(usize),
}

impl Cpu {
    fn new(w: &World) -> Self {
        Cpu { g: w.g, x: w.x, fl: (0, 0, 0), tr: [(0, 0, 0); TR], n: 0, seg: 0, jc: [(0, (0, 0, 0)); JC], j: 0 }
    }
    unsafe fn load(&mut self, w: &World, m: Option<&Moved>, a: usize, size: u32) -> u64 {
        let seg = self.seg;
        if seg != 0 {
            check(self.n < TR, 698);
            self.tr[self.n] = (seg << 8 | size, a, 0);
            self.n += 1;
            return w.load[self.n - 1] & mask(size);
        }
        if let Some(m) = m {
            // slots inside the copy
            if (a >= m.n) & (a < m.end) {
                check(a + size as usize <= m.end, 607);
                let a = m.n + vf_pick((a - m.n) as u64) as usize;
                return if size == 8 { r64(a) } else { r32(a) as u64 };
            }
        }
        check(self.n < TR, 698);
        self.tr[self.n] = (size, a, 0);
        self.n += 1;
        w.load[self.n - 1] & mask(size)
    }
    /// An operation whose result is any function of its operands.
    fn opaque(&mut self, w: &World, op: u32, a: usize, b: u64) -> u64 {
        self.tr[self.n] = (0x1000 | op, a, b);
        self.n += 1;
        w.load[self.n - 1]
    }
    /// A decision any condition on the flags may take.
    fn cond(&mut self, w: &World, op: u32) -> bool {
        check(self.j < JC, 698);
        self.jc[self.j] = (op, self.fl);
        self.j += 1;
        w.taken[self.j - 1]
    }
    unsafe fn push(&mut self, size: u32, v: u64) {
        self.g[4] = self.g[4].wrapping_sub(size as usize);
        self.store(self.g[4], size, v);
    }
    fn store(&mut self, a: usize, size: u32, v: u64) {
        check(self.n < TR, 698);
        self.tr[self.n] = (self.seg << 8 | 0x80 | size, a, v & mask(size));
        self.n += 1;
    }
    /// Register of a given size; without REX the byte registers 4..8 are AH..BH.
    fn get(&self, r: u32, size: u32, rex: bool) -> u64 {
        if size == 1 && !rex && r >= 4 {
            return self.g[r as usize - 4] as u64 >> 8 & 255;
        }
        self.g[r as usize] as u64 & mask(size)
    }
    fn set(&mut self, r: u32, size: u32, rex: bool, v: u64) {
        if size == 1 && !rex && r >= 4 {
            let g = &mut self.g[r as usize - 4];
            *g = (*g as u64 & !0xff00 | (v & 255) << 8) as usize;
            return;
        }
        let g = &mut self.g[r as usize];
        let m = mask(size);
        *g = if size >= 4 { (v & m) as usize } else { (*g as u64 & !m | v & m) as usize };
    }
    fn rm(&mut self, w: &World, m: Option<&Moved>, o: &Op, size: u32, rex: bool) -> u64 {
        match *o {
            Op::Reg(r) => self.get(r, size, rex),
            Op::Mem(a) => unsafe { self.load(w, m, a, size) },
        }
    }

    /// Runs from `pc` until it leaves `from..to`; returns where it went, 1 if it takes too long.
    unsafe fn run(&mut self, w: &World, m: Option<&Moved>, mut pc: usize, from: usize, to: usize) -> usize {
        let mut left = 24;
        loop {
            if (pc < from) | (pc >= to) {
                return pc;
            }
            pc = from + vf_pick((pc - from) as u64) as usize;
            left -= 1;
            if left == 0 || self.n + 3 > TR {
                return 1;
            }
            let mut p = pc;
            let (mut o16, mut a32, mut rex) = (false, !X64, 0);
            let mut b;
            self.seg = 0;
            loop {
                b = r8(p);
                p += 1;
                match b {
                    0x66 => o16 = true,
                    0x67 if X64 => a32 = true,
                    0x64 | 0x65 => self.seg = b,
                    0xf0 => (),
                    _ => break,
                }
            }
            if X64 && b & 0xf0 == 0x40 {
                rex = b;
                b = r8(p);
                p += 1;
            }
            let two = b == 0x0f;
            if two {
                b = 0x100 | r8(p);
                p += 1;
            }
            let word = if rex & 8 != 0 { 8 } else if o16 { 2 } else { 4 };
            let stk = if X64 { 8 } else { 4 };
            let hb = (rex & 1) << 3;
            // opcodes without ModRM
            match b {
                0x50..=0x57 => {
                    let v = self.g[(b & 7 | hb) as usize] as u64;
                    self.push(stk as u32, v);
                    pc = p;
                    continue;
                }
                0x58..=0x5f => {
                    let v = self.load(w, m, self.g[4], stk as u32);
                    self.g[4] = self.g[4].wrapping_add(stk);
                    self.g[(b & 7 | hb) as usize] = v as usize;
                    pc = p;
                    continue;
                }
                0xb8..=0xbf => {
                    let v;
                    if word == 8 {
                        v = r64(p);
                        p += 8;
                    } else {
                        v = r32(p) as u64;
                        p += 4;
                    }
                    self.set(b & 7 | hb, word, true, v);
                    pc = p;
                    continue;
                }
                0x70..=0x7f | 0x180..=0x18f => {
                    let (d, n) = if two { (r32(p) as i32 as isize, 4) } else { (r8(p) as u8 as i8 as isize, 1) };
                    p += n;
                    if self.j == JC {
                        return 1;
                    }
                    let t = self.cond(w, b & 15);
                    pc = if t { p.wrapping_add_signed(d) } else { p };
                    cover(4);
                    continue;
                }
                0x90 => {
                    pc = p;
                    continue;
                }
                // loop, jrcxz
                0xe2 | 0xe3 => {
                    p += 1;
                    if self.j == JC {
                        return 1;
                    }
                    let c = self.g[1];
                    if b == 0xe2 {
                        self.g[1] = c.wrapping_sub(1);
                    }
                    self.fl.2 ^= c as u64;
                    let t = self.cond(w, b);
                    self.fl.2 ^= c as u64;
                    pc = if t { p.wrapping_add_signed(r8(p - 1) as u8 as i8 as isize) } else { p };
                    continue;
                }
                0xe8 if !X64 && r32(p) == 0 && r8(p + 4) & 0xf8 == 0x58 => {
                    // call of the next instruction, then a pop: the register gets the address. The
                    // return address is written below the stack pointer, where nothing lives.
                    self.g[(r8(p + 4) & 7) as usize] = p + 4;
                    pc = p + 5;
                    cover(2);
                    continue;
                }
                0xe8 | 0xe9 => {
                    p += 4;
                    if b == 0xe8 {
                        self.push(stk as u32, p as u64);
                    }
                    pc = p.wrapping_add_signed(r32(p - 4) as i32 as isize);
                    continue;
                }
                // load from an absolute address
                0xa1 => {
                    let a = rus(p);
                    p += stk;
                    let v = self.load(w, m, a, word);
                    self.set(0, word, true, v);
                    pc = p;
                    continue;
                }
                _ => (),
            }
            // ModRM
            let imm = match b {
                0x80 | 0x83 => 1,
                0x81 | 0xc7 | 0x69 => 4,
                _ => 0,
            };
            let mr = r8(p);
            p += 1;
            let reg = mr >> 3 & 7 | (rex & 4) << 1;
            let (md, rm) = (mr >> 6, mr & 7);
            let mut rel = false;
            let rmo = if md == 3 {
                Op::Reg(rm | hb)
            } else {
                let mut a;
                if rm == 4 {
                    let sib = r8(p);
                    p += 1;
                    // base without index only
                    check(sib >> 3 & 7 == 4 && rex & 2 == 0, 698);
                    if md == 0 && sib & 7 == 5 {
                        a = r32(p) as i32 as usize;
                        p += 4;
                    } else {
                        a = self.g[(sib & 7 | hb) as usize];
                    }
                } else if md == 0 && rm == 5 {
                    a = r32(p) as i32 as usize;
                    p += 4;
                    rel = X64;
                } else {
                    a = self.g[(rm | hb) as usize];
                }
                if md == 1 {
                    a = a.wrapping_add_signed(r8(p) as u8 as i8 as isize);
                    p += 1;
                } else if md == 2 {
                    a = a.wrapping_add_signed(r32(p) as i32 as isize);
                    p += 4;
                }
                if rel {
                    a = a.wrapping_add(p + imm);
                    cover(3);
                }
                if X64 && a32 {
                    a &= 0xffff_ffff;
                }
                Op::Mem(a)
            };
            let rexed = rex != 0;
            match b {
                // mov
                0x8b => {
                    let v = self.rm(w, m, &rmo, word, rexed);
                    self.set(reg, word, rexed, v);
                }
                0x8a => {
                    let v = self.rm(w, m, &rmo, 1, rexed);
                    self.set(reg, 1, rexed, v);
                }
                0x89 => {
                    let v = self.get(reg, word, rexed);
                    match rmo {
                        Op::Reg(r) => self.set(r, word, rexed, v),
                        Op::Mem(a) => self.store(a, word, v),
                    }
                }
                0xc7 => {
                    let v = r32(p) as i32 as u64;
                    p += 4;
                    match rmo {
                        Op::Reg(r) => self.set(r, word, rexed, v),
                        Op::Mem(a) => self.store(a, word, v),
                    }
                }
                // lea
                0x8d => {
                    let Op::Mem(a) = rmo else { vf_fail(698) };
                    self.set(reg, word, rexed, a as u64);
                }
                // movzx from a byte
                0x1b6 => {
                    let v = self.rm(w, m, &rmo, 1, rexed);
                    self.set(reg, word, rexed, v);
                }
                // cmov: both outcomes by the jump oracle
                0x140..=0x14f => {
                    let v = self.rm(w, m, &rmo, word, rexed);
                    let t = self.cond(w, b);
                    let old = self.get(reg, word, rexed);
                    self.set(reg, word, rexed, if t { v } else { old });
                }
                // add, xor, cmp, test with a register destination
                0x03 | 0x33 | 0x3b | 0x85 => {
                    let (x, y) = (self.get(reg, word, rexed), self.rm(w, m, &rmo, word, rexed));
                    self.fl = ((b << 8 | word) as u64, x, y);
                    // zeroing a register does not depend on what it held
                    if b == 0x33 && matches!(rmo, Op::Reg(r) if r == reg) {
                        self.fl = (0x3300, 0, 0);
                    }
                    match b {
                        0x03 => self.set(reg, word, rexed, x.wrapping_add(y)),
                        0x33 => self.set(reg, word, rexed, x ^ y),
                        _ => (),
                    }
                }
                // test of bytes
                0x84 => {
                    let (x, y) = (self.get(reg, 1, rexed), self.rm(w, m, &rmo, 1, rexed));
                    self.fl = ((b << 8) as u64, x, y);
                }
                // add, and, sub, cmp with an immediate
                0x80 | 0x83 | 0x81 => {
                    let y;
                    if imm == 1 {
                        y = r8(p) as u8 as i8 as u64;
                    } else {
                        y = r32(p) as i32 as u64;
                    }
                    p += imm;
                    let size = if b == 0x80 { 1 } else { word };
                    let x = self.rm(w, m, &rmo, size, rexed);
                    let y = y & mask(size);
                    self.fl = ((0x8000 | reg << 8 | size) as u64, x, y);
                    let v = match reg & 7 {
                        0 => x.wrapping_add(y),
                        4 => x & y,
                        5 => x.wrapping_sub(y),
                        7 => x,
                        _ => vf_fail(698),
                    };
                    if reg & 7 != 7 {
                        match rmo {
                            Op::Reg(r) => self.set(r, size, rexed, v),
                            Op::Mem(a) => self.store(a, size, v),
                        }
                    }
                }
                // movups, movaps
                0x110 | 0x128 => {
                    let Op::Mem(a) = rmo else { vf_fail(698) };
                    self.x[(reg & 7) as usize] = self.load(w, m, a, 8);
                }
                0x111 | 0x129 => {
                    let Op::Mem(a) = rmo else { vf_fail(698) };
                    self.store(a, 8, self.x[(reg & 7) as usize]);
                }
                0x88 => {
                    let v = self.get(reg, 1, rexed);
                    match rmo {
                        Op::Reg(r) => self.set(r, 1, rexed, v),
                        Op::Mem(a) => self.store(a, 1, v),
                    }
                }
                // imul by an immediate
                0x69 => {
                    let y = r32(p) as u64;
                    p += 4;
                    let x = self.rm(w, m, &rmo, word, rexed);
                    let v = self.opaque(w, 0x69, x as usize, y);
                    self.fl = (0x6900 | word as u64, x, y);
                    self.set(reg, word, rexed, v);
                }
                // mul
                0xf7 if reg & 7 == 4 => {
                    let (x, y) = (self.get(0, word, true), self.rm(w, m, &rmo, word, rexed));
                    let (lo, hi) = (self.opaque(w, 0xf7, x as usize, y), self.opaque(w, 0x1f7, x as usize, y));
                    self.fl = (0xf700 | word as u64, x, y);
                    self.set(0, word, true, lo);
                    self.set(2, word, true, hi);
                }
                // shl by cl
                0xd3 if reg & 7 == 4 => {
                    let Op::Mem(a) = rmo else { vf_fail(698) };
                    let (x, y) = (self.load(w, m, a, word), self.g[1] as u64 & 255);
                    let v = self.opaque(w, 0xd3, x as usize, y);
                    self.fl = (0xd300 | word as u64, x, y);
                    self.store(a, word, v);
                }
                // cmpxchg
                0x1b1 => {
                    let Op::Mem(a) = rmo else { vf_fail(698) };
                    let (x, y) = (self.get(0, word, true), self.load(w, m, a, word));
                    self.fl = (0x1b100 | word as u64, x, y);
                    if self.cond(w, b) {
                        let v = self.get(reg, word, rexed);
                        self.store(a, word, v);
                    } else {
                        self.set(0, word, true, y);
                    }
                }
                // xchg
                0x87 => {
                    let Op::Mem(a) = rmo else { vf_fail(698) };
                    let (x, y) = (self.get(reg, word, rexed), self.load(w, m, a, word));
                    self.store(a, word, x);
                    self.set(reg, word, rexed, y);
                }
                // setcc
                0x190..=0x19f => {
                    let Op::Mem(a) = rmo else { vf_fail(698) };
                    let t = self.cond(w, b);
                    self.store(a, 1, t as u64);
                }
                // inc, push, jmp, call
                0xff => match reg & 7 {
                    0 => {
                        let Op::Mem(a) = rmo else { vf_fail(698) };
                        let x = self.load(w, m, a, word);
                        self.fl = (0xff00 | word as u64, x, self.fl.0 ^ self.fl.1 ^ self.fl.2);
                        self.store(a, word, x.wrapping_add(1));
                    }
                    6 => {
                        let v = self.rm(w, m, &rmo, stk as u32, rexed);
                        self.push(stk as u32, v);
                    }
                    4 => {
                        pc = self.rm(w, m, &rmo, stk as u32, rexed) as usize;
                        return pc;
                    }
                    2 => {
                        pc = self.rm(w, m, &rmo, stk as u32, rexed) as usize;
                        self.push(stk as u32, p as u64);
                        return pc;
                    }
                    _ => vf_fail(606),
                },
                // nop
                0x11f => (),
                _ => vf_fail(606),
            }
            pc = p;
        }
    }
}

/// Writes code; remembers where instructions start.
struct Asm {
    p: usize,
    at: [usize; 16],
    n: usize,
    /// index of the instruction a conditional jump leads to; 0: any
    to: usize,
    /// a conditional jump: where its displacement is
    jcc: usize,
    near: bool,
    /// position-relative operands: displacement and where its field ends
    rel: [(u32, usize); 8],
    k: usize,
}
impl Asm {
    fn at(p: usize) -> Self {
        Asm { p, at: [p; 16], n: 0, to: 0, jcc: 0, near: false, rel: [(0, 0); 8], k: 0 }
    }
    unsafe fn b(&mut self, v: u32) {
        (self.p as *mut u8).write(v as u8);
        self.p += 1;
    }
    unsafe fn d(&mut self, v: u32) {
        w32(self.p, v);
        self.p += 4;
    }
    /// Optional REX.
    unsafe fn rex(&mut self, w: bool, reg: u32, rm: u32) {
        let r = 0x40 | (w as u32) << 3 | (reg >> 3) << 2 | rm >> 3;
        if X64 && r != 0x40 {
            self.b(r);
        }
    }
    /// Position-relative operand on x86_64, absolute on x86 (kept outside the template all the same).
    unsafe fn rip(&mut self, reg: u32) {
        self.b((reg & 7) << 3 | 5);
        self.rel32();
    }
    unsafe fn sp8(&mut self, reg: u32) {
        self.b(0x44 | (reg & 7) << 3);
        self.b(0x24);
        self.b(sym::<u8>() as u32);
    }

    /// One instruction of the menu.
    unsafe fn ins(&mut self, f: u32, r: u32) {
        self.at[self.n] = self.p;
        self.n += 1;
        match f {
            // forms with a position-relative operand
            0 => {
                self.rex(X64, r, 0);
                self.b(0x8b);
                self.rip(r);
            }
            1 => {
                self.rex(X64, r, 0);
                self.b(0x8d);
                self.rip(r);
            }
            2 => {
                self.rex(X64, r, 0);
                self.b(0x89);
                self.rip(r);
            }
            3 => {
                self.b(0x0f);
                self.b(0x28);
                self.rip(r & 7);
            }
            4 => {
                self.b(0xc7);
                self.rip(0);
                self.d(sym());
            }
            5 => {
                self.b(0x83);
                self.rip(7);
                self.b(sym::<u8>() as u32);
            }
            6 => {
                self.rex(X64, r, 0);
                self.b(0x03);
                self.rip(r);
            }
            7 => {
                self.rex(X64, r, 0);
                self.b(0x0f);
                self.b(0x44);
                self.rip(r);
            }
            8 => {
                self.rex(false, r, 0);
                self.b(0x0f);
                self.b(0xb6);
                self.rip(r);
            }
            9 => {
                self.rex(false, r, 0);
                self.b(0x8a);
                self.rip(r);
            }
            10 => {
                self.b(0xff);
                self.rip(6);
            }
            11 => {
                self.rex(false, r, 0);
                self.b(0x8b);
                self.rip(r);
            }
            12 => {
                self.b(0x66);
                self.rex(false, r, 0);
                self.b(0x8b);
                self.rip(r);
            }
            13 => {
                if X64 {
                    self.b(0x67);
                }
                self.rex(X64, r, 0);
                self.b(0x8b);
                self.rip(r);
            }
            // others
            14 => {
                self.rex(false, 0, r);
                self.b(0x50 | r & 7);
            }
            15 => {
                self.rex(false, 0, r);
                self.b(0x58 | r & 7);
            }
            16 => {
                self.rex(X64, 0, 4);
                self.b(0x81);
                self.b(0xec);
                self.d(sym());
            }
            17 => {
                self.rex(X64, r, 6);
                self.b(0x89);
                self.b(0xc6 | (r & 7) << 3);
            }
            18 => {
                self.rex(X64, 6, r);
                self.b(0x89);
                self.b(0xf0 | r & 7);
            }
            19 => {
                self.rex(X64, r, 0);
                self.b(0x89);
                self.sp8(r);
            }
            20 => {
                self.rex(X64, r, 0);
                self.b(0x8b);
                self.sp8(r);
            }
            21 => {
                self.rex(false, r, r);
                self.b(0x33);
                self.b(0xc0 | (r & 7) << 3 | r & 7);
            }
            22 => {
                self.b(0x84);
                self.b(0xc0);
            }
            23 => {
                self.rex(false, 0, r);
                self.b(0xb8 | r & 7);
                self.d(sym());
            }
            24 => {
                self.b(0x0f);
                self.b(0x29);
                self.sp8(r & 7);
            }
            // conditional jumps
            25 => {
                self.b(0x74);
                self.jcc = self.p;
                self.near = false;
                self.b(0);
            }
            26 => {
                self.b(0x0f);
                self.b(0x85);
                self.jcc = self.p;
                self.near = true;
                self.d(0);
            }
            // call of the next instruction and a pop
            27 => {
                self.b(0xe8);
                self.d(0);
                self.b(0x58 | r & 7);
            }
            // unsupported control flow, accepted only if it is handled right
            28 => {
                self.b(0xe8);
                self.rel32();
            }
            29 => {
                self.b(0xe9);
                self.rel32();
            }
            30 => {
                self.b(0xe8);
                self.d(0);
                self.b(0x90);
            }
            31 | 32 => {
                self.b(0xe2 + f - 31);
                self.jcc = self.p;
                self.near = false;
                self.b(0);
            }
            33 | 34 => {
                self.b(0xff);
                self.rip((f - 32) * 2);
            }
            // further forms with a position-relative operand
            35 => {
                self.rex(false, r, 0);
                self.b(0x8d);
                self.rip(r);
            }
            36 => {
                self.rex(false, r, 0);
                self.b(0x88);
                self.rip(r);
            }
            37 => {
                self.b(0x64);
                self.rex(X64, r, 0);
                self.b(0x8b);
                self.rip(r);
            }
            38 => {
                self.rex(X64, r, 0);
                self.b(0x69);
                self.rip(r);
                self.d(sym());
            }
            39 => {
                self.rex(X64, 0, 0);
                self.b(0xf7);
                self.rip(4);
            }
            40 => {
                self.b(0xd3);
                self.rip(4);
            }
            41 => {
                self.b(0xf0);
                self.rex(X64, r, 0);
                self.b(0x0f);
                self.b(0xb1);
                self.rip(r);
            }
            42 => {
                self.rex(X64, r, 0);
                self.b(0x87);
                self.rip(r);
            }
            43 => {
                self.b(0x0f);
                self.b(0x95);
                self.rip(0);
            }
            44 => {
                self.b(0xff);
                self.rip(0);
            }
            45 => {
                self.rex(X64, 0, 0);
                self.b(0xa1);
                self.d(sym());
                if X64 {
                    self.d(sym());
                }
            }
            46 => {
                // fs:[0x28]
                self.b(0x64);
                self.rex(X64, r, 0);
                self.b(0x8b);
                self.b((r & 7) << 3 | 4);
                self.b(0x25);
                self.d(0x28);
            }
            _ => (),
        }
    }
    unsafe fn rel32(&mut self) {
        let d = sym();
        self.d(d);
        self.rel[self.k] = (d, self.p);
        self.k += 1;
    }
    /// The closure-loading sequence; returns (where it starts, address of the magic number).
    unsafe fn end(&mut self, cl: u32, jmp: u32) -> (usize, usize) {
        let q;
        let magic;
        if X64 {
            q = self.p;
            self.rex(true, cl, 0);
            self.b(0x8b);
            self.b((cl & 7) << 3 | 5);
            magic = (self.p + 4 + 6 + 7) & !7;
            self.d((magic - self.p - 4) as u32);
            self.b(0xff);
            self.b(0x25);
            self.d((magic + 8 - self.p - 4) as u32);
            while self.p < magic {
                self.b(0xcc);
            }
        } else {
            while self.p & 7 != 0 {
                self.b(0x90);
            }
            q = self.p;
            self.b(0xb8 | cl);
            self.d(0xc0de_c0de);
            self.b(0xb8 | jmp);
            self.d(0xc0de_c0de);
            self.b(0xff);
            self.b(0xe0 | jmp);
            self.d(0xcccc_cccc);
            magic = self.p;
        }
        let mut i = 0;
        while i < 14 {
            self.b(0xf0);
            i += 1;
        }
        self.b(0xff);
        self.b(0xf0);
        // data lies outside the template
        let mut i = 0;
        while i < self.k {
            let (d, p) = self.rel[i];
            let t = p.wrapping_add_signed(d as i32 as isize);
            assume((t < self.at[0] - 32) | (t > magic + 32));
            i += 1;
        }
        // a conditional jump leads to any instruction, the closure-loading sequence or beyond
        if self.jcc != 0 {
            self.at[self.n] = q;
            self.at[self.n + 1] = q + 7;
            let t = self.at[if self.to != 0 { self.to } else { choose(self.n as u64 + 2) as usize }];
            let from = self.jcc + if self.near { 4 } else { 1 };
            let d = t.wrapping_sub(from) as u32;
            if self.near {
                w32(self.jcc, d);
            } else {
                (self.jcc as *mut u8).write(d as u8);
            }
        }
        (q, magic)
    }
}

/// Registers tried: one for each encoding peculiarity.
const REGS: [u32; 8] = if X64 { [0, 13, 1, 3, 5, 8, 12, 7] } else { [0, 5, 1, 3, 6, 7, 2, 4] };

/// Has the encoder's lazily built tables ready before anything is chosen.
unsafe fn ready() {
    warm();
    vf_place(ADDR1 & !0xfff, 0x2000);
    let mut a = Asm::at(ADDR1);
    if X64 {
        a.b(0x48);
        a.b(0x8b);
        a.b(0x05);
        a.d(0x1000);
    } else {
        a.b(0xe8);
        a.d(0);
        a.b(0x58);
    }
    a.end(3, 2);
    J.off = 8;
    J.dual = false;
    let t = T::<ADDR1>::new(0);
    closure_ffi::BareFnAny::<MyFn, dyn closure_ffi::traits::Any, Jit>::with_thunk_in(t, Jit(0)).leak();
    reset();
}

/// Prologues that are to be handled: `n` pushes, then one of each list of forms. A register is free.
unsafe fn accept(n: u32, forms: &[&[u32]], regs: u64, to: usize) {
    ready();
    let at = [ADDR0, ADDR2][choose(2) as usize];
    vf_place(at & !0xfff, 0x2000);
    let mut a = Asm::at(at);
    a.to = to;
    let mut i = 0;
    while i < n {
        a.ins(14, i + 8 * X64 as u32);
        i += 1;
    }
    let mut i = 0;
    while i < forms.len() {
        let f = forms[i][choose(forms[i].len() as u64) as usize];
        let r = REGS[choose(regs) as usize];
        // AH, CH, DH and BH cannot be combined with the registers added by x86_64
        assume(!(X64 && matches!(f, 9 | 36) && r / 4 == 1));
        a.ins(f, r);
        i += 1;
    }
    let (_, magic) = a.end(if X64 { 10 } else { 3 }, 2);
    vf_panic_mode(1);
    move_it(at, magic);
    cover(1);
}

unsafe fn build(forms: &[&[u32]], regs: u64) {
    ready();
    let at = [ADDR0, ADDR2][choose(if regs == 8 { 2 } else { 1 }) as usize];
    vf_place(at & !0xfff, 0x2000);
    let mut a = Asm::at(at);
    let mut last = 0;
    let mut i = 0;
    while i < forms.len() {
        let f = forms[i][choose(forms[i].len() as u64) as usize];
        let plain = matches!(f, 4 | 5 | 10 | 16 | 22 | 25 | 26 | 28..=34 | 39 | 40 | 43..=45);
        let r = if plain { 0 } else { REGS[choose(regs) as usize] };
        a.ins(f, r);
        last = f;
        i += 1;
    }
    let cl = if X64 {
        [3, 0, 12, 13, 1, 10][choose(if regs == 8 { 6 } else { 2 }) as usize]
    } else {
        [3, 0, 1][choose(if regs == 8 { 3 } else { 2 }) as usize]
    };
    let (q, magic) = a.end(cl, 2);
    let w = World { g: sym(), x: sym(), load: sym(), taken: sym::<[u8; JC]>().map(|x| x & 1 == 1) };
    let m = move_it(at, magic);

    let mut o = Cpu::new(&w);
    let e = o.run(&w, None, at, at, q);
    if e == 1 {
        // loops are followed for a bounded number of instructions
        return;
    }
    // what starts inside the closure-loading sequence may not be moved at all
    check(e < at || e >= magic + 16 || e == q, 605);
    // the original knows nothing of the copy's memory
    let mut i = 0;
    while i < o.n {
        let a = o.tr[i].1;
        assume((a < m.n.wrapping_sub(32)) | (a > m.end + 32));
        i += 1;
    }
    let mut n = Cpu::new(&w);
    let t = n.run(&w, Some(&m), m.n, m.n, m.end);
    let whole = e == q;
    if whole {
        check(t == magic + 16, 605);
        m.closure(n.g[cl as usize]);
    } else {
        check(t == e, 605);
    }
    let mut i = 0;
    while i < 16 {
        check(whole && (i == cl as usize || !X64 && i == 2) || n.g[i] == o.g[i], 602);
        i += 1;
    }
    i = 0;
    while i < 8 {
        check(n.x[i] == o.x[i], 602);
        i += 1;
    }
    check(n.fl == o.fl, 601);
    check(n.n == o.n && n.j == o.j, 603);
    i = 0;
    while i < o.n {
        check(n.tr[i] == o.tr[i], 603);
        i += 1;
    }
    i = 0;
    while i < o.j {
        check(n.jc[i] == o.jc[i], 606);
        i += 1;
    }
    cover(1);
    // each form of the menu is accepted somewhere
    cover(100 + last);
}

#[cfg(target_arch = "x86_64")]
mod menu {
    /// position-relative operands that are handled
    pub const REL: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44];
    /// position-independent
    pub const PLAIN: &[u32] = &[14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 45, 46];
    pub const OK: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 45, 46];
    /// everything, including what is refused
    pub const ANY: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 28, 29, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46];
    pub const FEW: &[u32] = &[0, 2, 5, 14, 18, 20, 21, 22, 23, 25];
    pub const MIN: &[u32] = &[0, 2, 5, 18, 21, 25];
    pub const TWO: &[u32] = &[0, 2, 5, 39];
    pub const JCC: &[u32] = &[25];
}
#[cfg(target_arch = "x86")]
mod menu {
    pub const PLAIN: &[u32] = &[0, 2, 4, 5, 6, 8, 9, 10, 12, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 45, 46];
    pub const OK: &[u32] = &[0, 2, 4, 5, 6, 8, 9, 10, 12, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 27, 45, 46];
    pub const ANY: &[u32] = &[0, 2, 4, 5, 6, 8, 9, 10, 12, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 27, 28, 29, 30, 31, 32, 33, 45, 46];
    pub const FEW: &[u32] = &[0, 14, 15, 17, 19, 23, 27];
    pub const MIN: &[u32] = &[0, 14, 15, 23, 27];
    pub const TWO: &[u32] = &[27];
    pub const REL: &[u32] = &[27];
}
use menu::*;
fn part(k: usize) -> &'static [u32] {
    let n = ANY.len();
    &ANY[n * k / 4..n * (k + 1) / 4]
}
entry!(h_move1, {
    build(&[ANY], 8);
});
// Two instructions, in four parts by the first.
entry!(h_move2a, {
    build(&[part(0), ANY], 2);
});
entry!(h_move2b, {
    build(&[part(1), ANY], 2);
});
entry!(h_move2c, {
    build(&[part(2), ANY], 2);
});
entry!(h_move2d, {
    build(&[part(3), ANY], 2);
});
entry!(h_move3, {
    build(&[MIN, MIN, MIN], 2);
});
entry!(h_move3t, {
    build(&[FEW, FEW, FEW], 2);
});
#[cfg(target_arch = "x86_64")]
entry!(h_jump3, {
    build(&[JCC, FEW, FEW], 2);
});
#[cfg(target_arch = "x86_64")]
entry!(h_jump4, {
    build(&[MIN, JCC, MIN, MIN], 1);
});
#[cfg(target_arch = "x86_64")]
entry!(h_jump4t, {
    build(&[FEW, JCC, FEW, FEW], 1);
});
#[cfg(target_arch = "x86")]
entry!(h_call3, {
    build(&[REL, FEW, REL], 8);
});
entry!(h_ok1, {
    accept(0, &[OK], 8, 0);
});
entry!(h_ok2, {
    accept(0, &[OK, OK], 1, 0);
});
entry!(h_ok3, {
    accept(0, &[REL, &[14, 18, 21, 23], TWO], 1, 0);
});
entry!(h_ok9, {
    accept(8, &[REL, PLAIN], 1, 0);
});
// The vector registers are saved only if needed, as in variadic functions.
#[cfg(target_arch = "x86_64")]
entry!(h_okj, {
    accept(1, &[&[22], &[25, 26], &[24], &[24], REL], 1, 5);
});
#[cfg(target_arch = "x86_64")]
entry!(h_okk, {
    accept(1, &[REL, &[22], &[25, 26], &[24], &[24]], 1, 6);
});

//! T32: as `a32`, for 16- and 32-bit Thumb encodings.

use crate::a32::*;
use crate::{Facts, RawOp};

#[derive(Clone, Copy, Debug)]
pub(crate) struct ItState {
    /// ITSTATE; 0 outside an IT block
    pub st: u8,
}
impl ItState {
    pub const NONE: ItState = ItState { st: 0 };
    /// The condition of the next instruction, as capstone's number.
    fn take(&mut self) -> u32 {
        if self.st & 15 == 0 {
            return 15;
        }
        let c = (self.st >> 4) as u32;
        self.st = if self.st & 7 == 0 { 0 } else { (self.st & 0xe0) | ((self.st << 1) & 0x1f) };
        c + 1
    }
}

pub(crate) fn is_wide(h0: u16) -> bool {
    (h0 >> 11) >= 0b11101
}

// As in `a32`, without branches on the fields.

pub(crate) fn decode16(h: u16, addr: u32, it: &mut ItState) -> Option<Facts> {
    let w = h as u32;
    let mut f = Facts::new();
    f.id = I_OTHER;
    let in_it = it.st & 15 != 0;
    f.cc = it.take();
    let mut none = false;
    let mut reads = false;
    let mut writes = false;
    match w >> 12 {
        // MOVS (register): not permitted in an IT block
        0b0000..=0b0011 => none = in_it & (w >> 6 == 0),
        0b0100 => {
            if w & 0x800 != 0 {
                // LDR literal
                reads = true;
                f.id = I_LDR;
                f.ops.push(RawOp::Reg(gpr((w >> 8) & 7)));
                f.ops.push(RawOp::Mem(PC, 0, ((w & 255) * 4) as i32));
            } else if w & 0x700 == 0x700 {
                let rm = (w >> 3) & 15;
                let link = w & 0x80 != 0;
                none = (w & 7 != 0) | in_it | link & (rm == 15);
                if none {
                    return None;
                }
                f.groups.push(1);
                if link {
                    f.id = I_BLX;
                    f.groups.push(2);
                } else {
                    f.id = I_BX;
                }
                reads = link | (rm == 15);
                writes = true;
            } else if w & 0x400 != 0 {
                let rm = (w >> 3) & 15;
                let rd = (w & 7) | ((w >> 4) & 8);
                let (pcm, pcd) = (rm == 15, rd == 15);
                let op = (w >> 8) & 3;
                none |= (op == 0) & pcd & pcm;
                none |= (op == 1) & (pcd | pcm | (rd < 8) & (rm < 8));
                reads = pcm | (op == 0) & pcd;
                writes = pcd;
                none |= writes & in_it;
                f.id = pick(op == 0, I_ADD, pick(op == 2, I_MOV, I_OTHER));
            }
        }
        0b0101 => {
            let op = (w >> 9) & 7;
            f.id = pick(op < 3, I_STR, pick(op == 3, I_LDRSB, pick(op == 4, I_LDR, pick(op == 5, I_LDRH, pick(op == 6, I_LDRB, I_LDRSH)))));
        }
        0b0110..=0b1001 => {
            let op = (w >> 11) & 7;
            f.id = pick(op & 1 == 0, I_STR, pick(op == 7, I_LDRB, pick(op == 1, I_LDRH, I_LDR)));
        }
        0b1010 => {
            if w & 0x800 == 0 {
                // ADR: capstone does not list the PC among the registers read
                f.id = I_ADR;
                f.ops.push(RawOp::Reg(gpr((w >> 8) & 7)));
                f.ops.push(RawOp::Imm(((w & 255) * 4) as i32));
            } else {
                f.id = I_ADD;
            }
        }
        0b1011 => {
            let k = (w >> 8) & 15;
            if w & 0x500 == 0x100 {
                // CBZ, CBNZ
                if in_it {
                    return None;
                }
                f.groups.push(7);
                f.groups.push(1);
            } else if k == 15 {
                let mask = w & 15;
                let c = (w >> 4) & 15;
                if mask == 0 {
                    // hints: NOP only
                    none = c != 0;
                } else {
                    let one = mask & (mask - 1) == 0;
                    none = in_it | (c == 15) | (c == 14) & !one;
                    if none {
                        return None;
                    }
                    it.st = w as u8;
                    f.cc = c + 1;
                }
            } else {
                // ADD/SUB SP, extensions, PUSH, REV, POP
                let pop = k >> 1 == 6;
                none |= (k >= 6) & (k != 10) & !pop;
                none |= (k >> 1 == 2) & (w & 0x1ff == 0);
                none |= (k == 10) & ((w >> 6) & 3 == 2);
                none |= pop & (w & 0x1ff == 0);
                writes = pop & (k & 1 == 1);
                none |= writes & in_it;
                f.id = pick(pop, I_POP, I_OTHER);
            }
        }
        0b1100 => {
            none = w & 255 == 0;
            // STM with the base in the list but not lowest stores an UNKNOWN value
            f.id = pick(w & 0x800 != 0, I_LDM, I_OTHER);
        }
        0b1101 => {
            let c = (w >> 8) & 15;
            none = (c >= 14) | in_it;
            f.cc = c + 1;
            let off = ((w << 24) as i32 >> 23) as u32;
            f.id = I_B;
            f.ops.push(RawOp::Imm(addr.wrapping_add(4).wrapping_add(off) as i32));
            f.groups.push(7);
            f.groups.push(1);
            writes = true;
        }
        _ => {
            // B T2
            none = in_it;
            let off = ((w << 21) as i32 >> 20) as u32;
            f.id = I_B;
            f.ops.push(RawOp::Imm(addr.wrapping_add(4).wrapping_add(off) as i32));
            f.groups.push(7);
            f.groups.push(1);
        }
    }
    if none {
        return None;
    }
    f.read.push_if(reads, PC);
    f.write.push_if(writes, PC);
    Some(f)
}

pub(crate) fn decode32(h0: u16, h1: u16, addr: u32, it: &mut ItState) -> Option<Facts> {
    let (a, b) = (h0 as u32, h1 as u32);
    let mut f = Facts::new();
    f.id = I_OTHER;
    let in_it = it.st & 15 != 0;
    f.cc = it.take();
    let mut none = false;
    let mut reads = false;
    let mut writes = false;
    let rn = a & 15;
    let rt = b >> 12;
    let rd = (b >> 8) & 15;
    let pcn = rn == 15;
    let bad = |r: u32| (r == 13) | (r == 15);
    match (a >> 11) & 3 {
        1 => {
            let load = a & 0x10 != 0;
            if a & 0x400 != 0 {
                // VLDR, VSTR
                none |= (a & 0xff20 != 0xed00) | ((b >> 9) & 7 != 0b101);
                reads = pcn;
                none |= reads & !load;
                f.id = I_VLDR;
            } else if a & 0x200 != 0 {
                // data processing, shifted register: AND BIC ORR MOV EOR
                let op = (a >> 5) & 15;
                none |= (b & 0x8000 != 0) | load;
                none |= (op > 4) | (op == 3) | bad(rd) | bad(b & 15);
                none |= (rn == 13) | pcn & (op != 2);
            } else if a & 0x40 != 0 {
                // LDRD, STRD immediate
                let p = a & 0x100 != 0;
                let wb = a & 0x20 != 0;
                none |= !p & !wb;
                none |= bad(rt) | bad(rd) | load & (rt == rd);
                none |= wb & (pcn | (rn == rt) | (rn == rd));
                none |= !load & pcn;
                reads = pcn;
                f.id = pick(load, I_LDRD, I_STR);
                f.writeback = wb;
            } else {
                // LDM, STM increment after and decrement before
                let op = (a >> 7) & 3;
                none |= (op == 0) | (op == 3) | pcn;
                none |= (b & b.wrapping_sub(1) == 0) | (b & 0x2000 != 0) | (!load & (b & 0x8000 != 0)) | (b >> 14 == 3);
                none |= (a & 0x20 != 0) & (b >> rn & 1 != 0);
                f.id = pick(load, I_LDM, I_OTHER);
                writes = load & (b & 0x8000 != 0);
                none |= writes & in_it;
            }
        }
        2 => {
            if b & 0x8000 != 0 {
                let s = (a >> 10) & 1;
                let j1 = (b >> 13) & 1;
                let j2 = (b >> 11) & 1;
                if b & 0x5000 == 0 {
                    // B T3
                    let c = (a >> 6) & 15;
                    if (c >= 14) | in_it {
                        return None;
                    }
                    let imm = s << 20 | j2 << 19 | j1 << 18 | (a & 0x3f) << 12 | (b & 0x7ff) << 1;
                    let off = ((imm << 11) as i32 >> 11) as u32;
                    f.cc = c + 1;
                    f.id = I_B;
                    f.ops.push(RawOp::Imm(addr.wrapping_add(4).wrapping_add(off) as i32));
                    f.groups.push(7);
                    f.groups.push(1);
                    return Some(f);
                }
                let i1 = 1 ^ j1 ^ s;
                let i2 = 1 ^ j2 ^ s;
                let imm = s << 24 | i1 << 23 | i2 << 22 | (a & 0x3ff) << 12 | (b & 0x7ff) << 1;
                let off = ((imm << 7) as i32 >> 7) as u32;
                if in_it {
                    return None;
                }
                f.ops.push(RawOp::Imm(addr.wrapping_add(4).wrapping_add(off) as i32));
                f.groups.push(7);
                f.groups.push(1);
                if b & 0x5000 == 0x1000 {
                    f.id = I_B;
                    return Some(f);
                }
                if b & 0x5000 == 0x5000 {
                    f.id = I_BL;
                    f.groups.push(2);
                    f.read.push(PC);
                    f.write.push(PC);
                    return Some(f);
                }
                return None;
            }
            let op = (a >> 4) & 31;
            if a & 0x200 == 0 {
                // modified immediate: AND BIC ORR/MOV ORN/MVN EOR ADD ADC SBC SUB RSB
                none |= (a & 0x10 != 0) | bad(rd) | (rn == 13);
                // immediates 0xXX00XX.. with a zero byte are UNPREDICTABLE
                let i = (a >> 10) & 1;
                let imm3 = (b >> 12) & 7;
                none |= (i == 0) & (imm3 != 0) & (imm3 < 4) & (b & 255 == 0);
                let op = op >> 1;
                // ADD/SUB with the PC is UNPREDICTABLE here
                let orr = op >> 1 == 1;
                none |= pcn & !orr;
                none |= 0b1001_0010_1110_0000 >> op & 1 != 0;
            } else {
                let addsub = (op == 0b00000) | (op == 0b01010);
                none |= !addsub & (op != 0b00100) & (op != 0b01100);
                none |= bad(rd) | addsub & (rn == 13);
                reads = addsub & pcn;
                f.id = pick(op == 0, I_ADD, pick(op == 0b01010, I_SUB, I_OTHER));
            }
        }
        _ => {
            // not register data processing, multiplies, coprocessor
            none |= a & 0x600 != 0;
            let load = a & 0x10 != 0;
            let size = (a >> 5) & 3;
            let sign = a & 0x100 != 0;
            none |= (size == 3) | sign & (!load | (size == 2));
            none |= pcn & !load;
            // jump
            let jump = (size == 2) & (rt == 15);
            none |= jump & (in_it | !load);
            writes = jump;
            none |= (size != 2) & bad(rt);
            none |= (size == 2) & (rt == 13) & !load;
            reads = pcn;
            // register offset or 8-bit immediate
            let short = !pcn & (a & 0x80 == 0);
            let by_reg = b & 0x800 == 0;
            none |= short & by_reg & ((b & 0x7c0 != 0) | bad(b & 15));
            let (p, u, wb) = ((b >> 10) & 1, (b >> 9) & 1, (b >> 8) & 1);
            // LDRT & friends have P=1 U=1 W=0
            let imm8 = short & !by_reg;
            none |= imm8 & ((p == 0) & (wb == 0) | (p == 1) & (u == 1) & (wb == 0));
            none |= imm8 & (wb == 1) & (rn == rt);
            f.writeback = imm8 & (wb == 1);
            f.id = pick(
                load,
                pick(size == 0, pick(sign, I_LDRSB, I_LDRB), pick(size == 1, pick(sign, I_LDRSH, I_LDRH), I_LDR)),
                I_STR,
            );
        }
    }
    if none {
        return None;
    }
    if (f.id >= I_LDR) & (f.id <= I_LDRSH) {
        f.ops.push(RawOp::Reg(gpr(rt)));
    }
    f.read.push_if(reads, PC);
    f.write.push_if(writes, PC);
    Some(f)
}

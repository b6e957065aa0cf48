//! A32: the facts the real disassembler reports, for the instruction classes listed below.
//!
//! A word outside these classes, or with UNPREDICTABLE fields, is reported as undecodable; the
//! relocator then refuses the template, so such words are outside what the checks claim. Register
//! lists contain the PC (and LR for calls) only.

use crate::{Facts, RawOp};

pub(crate) const PC: u16 = 11;
const LR: u16 = 10;
/// capstone's number of general purpose register `r`
#[inline(always)]
pub(crate) fn gpr(r: u32) -> u16 {
    pick(r == 13, 12, pick(r == 14, 10, pick(r == 15, 11, 66 + r))) as u16
}

// instruction numbers
pub(crate) const I_ADD: u32 = 2;
pub(crate) const I_ADR: u32 = 4;
pub(crate) const I_B: u32 = 11;
pub(crate) const I_BL: u32 = 16;
pub(crate) const I_BLX: u32 = 17;
pub(crate) const I_BX: u32 = 19;
pub(crate) const I_LDM: u32 = 79;
pub(crate) const I_LDR: u32 = 83;
pub(crate) const I_LDRB: u32 = 84;
pub(crate) const I_LDRD: u32 = 86;
pub(crate) const I_LDRH: u32 = 91;
pub(crate) const I_LDRSB: u32 = 93;
pub(crate) const I_LDRSH: u32 = 95;
pub(crate) const I_MOV: u32 = 106;
pub(crate) const I_POP: u32 = 127;
pub(crate) const I_STR: u32 = 240;
pub(crate) const I_SUB: u32 = 251;
pub(crate) const I_VLDR: u32 = 363;
/// anything else
pub(crate) const I_OTHER: u32 = 116;

/// Kept free of branches on the fields (`|` and `&` instead of `||` and `&&`), so that executing it
/// on an unknown word does not split into a case per field.
pub(crate) fn decode(w: u32, addr: u32) -> Option<Facts> {
    let cond = w >> 28;
    let mut f = Facts::new();
    f.cc = cond + 1;
    let (rn, rd, rm) = ((w >> 16) & 15, (w >> 12) & 15, w & 15);
    let bit = |n: u32| w & (1 << n) != 0;
    let (pcn, pcd, pcm) = (rn == 15, rd == 15, rm == 15);
    let op = (w >> 21) & 15;
    let s = bit(20);
    let mut none = cond == 15;
    let mut reads = false;
    let mut writes = false;
    f.id = I_OTHER;
    match (w >> 25) & 7 {
        0b101 => {
            if none {
                return None;
            }
            let off = ((w << 8) as i32 >> 6) as u32;
            let t = addr.wrapping_add(8).wrapping_add(off);
            f.ops.push(RawOp::Imm(t as i32));
            f.read.push(PC);
            if bit(24) {
                f.id = I_BL;
                f.groups.push(2);
                f.write.push(LR);
            } else {
                f.id = I_B;
            }
            f.groups.push(7);
            f.groups.push(1);
            f.write.push(PC);
            return Some(f);
        }
        // data processing, immediate
        0b001 => {
            let test = op >> 2 == 0b10;
            // MOVW, MOVT; not MSR and hints
            let movw = test & !s;
            let mov = (op == 0b1101) | (op == 0b1111);
            none |= movw & ((op & 1 == 1) | pcd);
            none |= test & s & (rd != 0);
            none |= !test & s & pcd;
            none |= mov & (rn != 0);
            reads = pcn & !movw & !mov;
            writes = pcd & !test;
            f.id = pick(mov, I_MOV, pick(op == 0b0100, I_ADD, pick(op == 0b0010, I_SUB, I_OTHER)));
        }
        0b000 => {
            if w & 0x90 == 0x90 {
                if w & 0x60 == 0 {
                    // MUL, MLA and the long multiplies
                    let k = (w >> 21) & 7;
                    none |= bit(24) | (k == 2) | (k == 3);
                    // MUL: Rd at 16.., SBZ at 12..
                    none |= (k == 0) & (rd != 0);
                    none |= (k >= 4) & (rn == rd);
                    none |= pcn | pcd | pcm | ((w >> 8) & 15 == 15);
                } else {
                    // extra loads and stores
                    let op2 = (w >> 5) & 3;
                    let imm = bit(22);
                    let p = bit(24);
                    let wb = bit(21);
                    let dual = !s & (op2 >= 2);
                    none |= !p & wb;
                    let wback = !p | wb;
                    none |= pcd | wback & (pcn | (rn == rd) | dual & (rn == rd + 1));
                    none |= dual & ((rd & 1 == 1) | (rd == 14));
                    none |= !imm & (pcm | ((w >> 8) & 15 != 0));
                    none |= !imm & dual & (op2 == 2) & ((rm == rd) | (rm == rd + 1));
                    reads = pcn;
                    f.writeback = wback;
                    f.id = pick(
                        s,
                        pick(op2 == 1, I_LDRH, pick(op2 == 2, I_LDRSB, I_LDRSH)),
                        pick(op2 == 2, I_LDRD, I_STR),
                    );
                }
            } else if (op >> 2 == 0b10) & !s {
                // BX, BLX (register); the rest of the miscellaneous space is not modelled
                let bx = w & 0xf0 == 0x10;
                none |= (op != 0b1001) | ((w >> 8) & 0xfff != 0xfff) | (!bx & (w & 0xf0 != 0x30));
                none |= !bx & pcm;
                if none {
                    return None;
                }
                if bx {
                    f.id = I_BX;
                } else {
                    f.id = I_BLX;
                    f.groups.push(2);
                    f.write.push(LR);
                }
                f.groups.push(1);
                if pcm | !bx {
                    f.read.push(PC);
                }
                f.write.push(PC);
                return Some(f);
            } else {
                let test = op >> 2 == 0b10;
                let mov = (op == 0b1101) | (op == 0b1111);
                let by_reg = bit(4);
                none |= by_reg & (pcn | pcd | pcm | ((w >> 8) & 15 == 15));
                none |= test & (rd != 0);
                none |= !test & s & pcd;
                none |= mov & (rn != 0);
                reads = pcm | pcn & !mov;
                writes = pcd & !test;
                f.id = pick(mov, I_MOV, pick(op == 0b0100, I_ADD, pick(op == 0b0010, I_SUB, I_OTHER)));
            }
        }
        // word and unsigned byte
        0b010 | 0b011 => {
            let reg = bit(25);
            let p = bit(24);
            let byte = bit(22);
            let wb = bit(21);
            none |= reg & (bit(4) | pcm);
            none |= !p & wb;
            let wback = !p | wb;
            none |= wback & (pcn | (rn == rd));
            none |= pcd & (byte | !s);
            reads = pcn;
            writes = s & pcd;
            f.writeback = wback;
            // LDR rt, [sp], #4 is a POP
            let pop = w & 0x0fff_0fff == 0x049d_0004;
            f.id = pick(pop, I_POP, pick(s, pick(byte, I_LDRB, I_LDR), I_STR));
        }
        // load and store multiple
        0b100 => {
            let list = w & 0xffff;
            none |= pcn | bit(22) | (list == 0);
            none |= bit(21) & (list >> rn & 1 != 0);
            let pc = list & 0x8000 != 0;
            none |= !s & pc;
            f.id = pick(s, I_LDM, I_OTHER);
            writes = pc;
        }
        // VLDR, VSTR
        0b110 => {
            none |= ((w >> 21) & 9 != 8) | ((w >> 9) & 7 != 0b101);
            reads = pcn;
            none |= reads & !s;
            f.id = I_VLDR;
        }
        _ => return None,
    }
    if none {
        return None;
    }
    if (f.id >= I_LDR) & (f.id <= I_LDRSH) {
        f.ops.push(RawOp::Reg(gpr(rd)));
    }
    f.read.push_if(reads, PC);
    f.write.push_if(writes, PC);
    Some(f)
}

/// A choice made without a branch.
#[inline(always)]
pub(crate) fn pick(c: bool, a: u32, b: u32) -> u32 {
    let m = (c as u32).wrapping_neg();
    a & m | b & !m
}

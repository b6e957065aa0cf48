//! A64: which words capstone decodes, and the generic groups it assigns.
//!
//! Every word is treated as decodable except those listed in `undecodable`; a word the real
//! disassembler rejects ends the scan (clean refusal), so over-approximating here can only make the
//! relocator do more, and any counterexample is replayed with the real disassembler.

use crate::Facts;

fn undecodable(w: u32) -> bool {
    // system registers and instructions other than hints; FEAT_PAuth_LR (AUTIASPPC label & friends)
    (w & 0xFFC0_0000) == 0xD500_0000 && (w & 0xFFFF_F01F) != 0xD503_201F
        || (w & 0xFF80_001F) == 0xF380_001F
        || (w & 0xFFFF_E3FF) == 0xDAC1_83FE
}

pub(crate) fn decode(w: u32) -> Option<Facts> {
    let mut f = Facts::new();
    if undecodable(w) {
        return None;
    }
    let b = (w & 0x7C00_0000) == 0x1400_0000; // B, BL
    let cbz = (w & 0x7E00_0000) == 0x3400_0000; // CBZ/CBNZ
    let tbz = (w & 0x7E00_0000) == 0x3600_0000; // TBZ/TBNZ
    let bcond = (w & 0xFF00_0010) == 0x5400_0000; // B.cond
    let br_reg = (w & 0xFE00_0000) == 0xD600_0000; // BR/BLR/RET/ERET/DRPS & PAC variants
    let exc = (w & 0xFF00_0000) == 0xD400_0000; // SVC/HVC/SMC/BRK/HLT/DCPS

    if b {
        if w >> 31 == 1 {
            f.groups.push(2);
        }
        f.groups.push(1);
        f.groups.push(7);
    } else if cbz || tbz || bcond {
        f.groups.push(1);
        f.groups.push(7);
    } else if br_reg {
        match (w >> 21) & 7 {
            0 => f.groups.push(1),
            1 => {
                f.groups.push(2);
                f.groups.push(1);
            }
            2 => f.groups.push(3),
            _ => (),
        }
    } else if exc && (w & 0x00E0_001F) == 1 {
        f.groups.push(4);
    }
    Some(f)
}

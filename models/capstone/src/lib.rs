//! Solver-friendly model of the capstone binding used by the relocators.
//!
//! Same names and signatures as the real `capstone-git` crate for the API surface a relocator can
//! reasonably use; the C disassembler behind it is replaced by a decoder written from the Arm
//! manuals that reproduces what capstone reports (instruction length, id, condition, groups,
//! registers read/written, operands).  `selftest` compares it with the real capstone.
#![no_std]
#![allow(non_snake_case, clippy::all)]

extern crate alloc;

use core::marker::PhantomData;

mod a32;
mod a64;
mod consts;
mod t32;

pub use consts::cs_group_type as InsnGroupType;

#[derive(Copy, Clone, Debug, Eq, Hash, PartialEq)]
pub enum Error {
    OutOfMemory,
    DetailOff,
    IrrelevantDataInSkipData,
    UnsupportedArch,
    CustomError(&'static str),
    UnknownCapstoneError,
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("capstone error")
    }
}
pub type CsResult<T> = Result<T, Error>;

pub type InsnIdInt = u32;
pub type InsnGroupIdInt = u8;
pub type RegIdInt = u16;

#[derive(Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct InsnId(pub InsnIdInt);
#[derive(Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
#[repr(transparent)]
pub struct InsnGroupId(pub InsnGroupIdInt);
#[derive(Copy, Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
#[repr(transparent)]
pub struct RegId(pub RegIdInt);
impl RegId {
    pub const INVALID_REG: Self = Self(0);
}

#[derive(Copy, Clone, Debug, Hash, PartialEq, Eq)]
pub enum AccessType {
    ReadOnly,
    WriteOnly,
    ReadWrite,
}
impl AccessType {
    pub fn is_readable(self) -> bool {
        self != AccessType::WriteOnly
    }
    pub fn is_writable(self) -> bool {
        self != AccessType::ReadOnly
    }
}
pub type RegAccessType = AccessType;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Arch {
    ARM,
    ARM64,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Endian {
    Little,
    Big,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub(crate) enum Isa {
    A64,
    A32,
    T32,
}

/// Decoded facts about one instruction.
#[derive(Clone, Copy, Debug)]
pub(crate) struct Facts {
    pub id: u32,
    pub groups: Short<u8, 4>,
    pub read: Short<u16, 6>,
    pub write: Short<u16, 6>,
    pub cc: u32,
    pub ops: Short<RawOp, 3>,
    pub writeback: bool,
}
#[derive(Clone, Copy, Debug)]
pub(crate) enum RawOp {
    None,
    Reg(u16),
    Imm(i32),
    Mem(u16, u16, i32),
}
#[derive(Clone, Copy, Debug)]
pub(crate) struct Short<T: Copy, const N: usize> {
    v: [T; N],
    n: usize,
}
impl<T: Copy, const N: usize> Short<T, N> {
    pub const fn new(fill: T) -> Self {
        Short { v: [fill; N], n: 0 }
    }
    #[inline(always)]
    pub fn push(&mut self, t: T) {
        if self.n < N {
            self.v[self.n] = t;
            self.n += 1;
        }
    }
    /// As `push`, without a branch on `c`; for the last element only.
    #[inline(always)]
    pub fn push_if(&mut self, c: bool, t: T) {
        if self.n < N {
            self.v[self.n] = t;
            self.n += c as usize;
        }
    }
    pub fn as_slice(&self) -> &[T] {
        &self.v[..self.n]
    }
}
impl Facts {
    pub const fn new() -> Self {
        Facts {
            id: 1,
            groups: Short::new(0),
            read: Short::new(0),
            write: Short::new(0),
            cc: 15,
            ops: Short::new(RawOp::None),
            writeback: false,
        }
    }
}

#[derive(Debug)]
pub struct Capstone {
    isa: Isa,
    detail: bool,
}

impl Capstone {
    pub fn new() -> arch::CapstoneBuilder {
        arch::CapstoneBuilder(())
    }

    pub fn disasm_iter<'a, 'b>(&'a self, code: &'b [u8], addr: u64) -> CsResult<DisasmIter<'a, 'b>> {
        Ok(DisasmIter {
            isa: self.isa,
            code,
            addr,
            it: t32::ItState::NONE,
            _p: PhantomData,
        })
    }

    pub fn disasm_all<'a>(&'a self, code: &[u8], addr: u64) -> CsResult<Instructions<'a>> {
        self.disasm_count_impl(code, addr, 0)
    }

    pub fn disasm_count<'a>(&'a self, code: &[u8], addr: u64, count: usize) -> CsResult<Instructions<'a>> {
        if count == 0 {
            return Err(Error::CustomError("Invalid dissasemble count; must be > 0"));
        }
        self.disasm_count_impl(code, addr, count)
    }

    fn disasm_count_impl<'a>(&'a self, code: &[u8], addr: u64, count: usize) -> CsResult<Instructions<'a>> {
        let mut v = alloc::vec::Vec::new();
        let mut it = DisasmIter::<'a, '_> {
            isa: self.isa,
            code,
            addr,
            it: t32::ItState::NONE,
            _p: PhantomData,
        };
        while count == 0 || v.len() < count {
            match it.step() {
                Some(i) => v.push(i),
                None => break,
            }
        }
        Ok(Instructions(v))
    }

    pub fn set_detail(&mut self, enable_detail: bool) -> CsResult<()> {
        self.detail = enable_detail;
        Ok(())
    }

    pub fn insn_detail<'s, 'i: 's>(&'s self, insn: &'i Insn) -> CsResult<InsnDetail<'i>> {
        if !self.detail {
            return Err(Error::DetailOff);
        }
        let f = insn.facts;
        let mut groups = [InsnGroupId(0); 4];
        let mut read = [RegId(0); 6];
        let mut write = [RegId(0); 6];
        let mut i = 0;
        while i < 4 {
            groups[i] = InsnGroupId(f.groups.v[i]);
            i += 1;
        }
        i = 0;
        while i < 6 {
            read[i] = RegId(f.read.v[i]);
            write[i] = RegId(f.write.v[i]);
            i += 1;
        }
        Ok(InsnDetail {
            facts: f,
            isa: insn.isa,
            groups,
            read,
            write,
            _p: PhantomData,
        })
    }

    pub fn reg_name(&self, _reg: RegId) -> Option<alloc::string::String> {
        None
    }
    pub fn insn_name(&self, _id: InsnId) -> Option<alloc::string::String> {
        None
    }
    pub fn group_name(&self, _id: InsnGroupId) -> Option<alloc::string::String> {
        None
    }
}

pub struct DisasmIter<'cs, 'buf> {
    isa: Isa,
    code: &'buf [u8],
    addr: u64,
    it: t32::ItState,
    _p: PhantomData<&'cs Capstone>,
}

impl<'cs, 'buf> DisasmIter<'cs, 'buf> {
    fn step<'x>(&mut self) -> Option<Insn<'x>> {
        let isa = self.isa;
        let (facts, len, bytes) = match isa {
            Isa::A64 | Isa::A32 => {
                if self.code.len() < 4 {
                    return None;
                }
                let bytes = [self.code[0], self.code[1], self.code[2], self.code[3]];
                let w = u32::from_le_bytes(bytes);
                let f = if isa == Isa::A64 {
                    a64::decode(w)?
                } else {
                    a32::decode(w, self.addr as u32)?
                };
                (f, 4, bytes)
            }
            Isa::T32 => {
                if self.code.len() < 2 {
                    return None;
                }
                let h0 = u16::from_le_bytes([self.code[0], self.code[1]]);
                if t32::is_wide(h0) {
                    if self.code.len() < 4 {
                        return None;
                    }
                    let bytes = [self.code[0], self.code[1], self.code[2], self.code[3]];
                    let h1 = u16::from_le_bytes([self.code[2], self.code[3]]);
                    (t32::decode32(h0, h1, self.addr as u32, &mut self.it)?, 4, bytes)
                } else {
                    let bytes = [self.code[0], self.code[1], 0, 0];
                    (t32::decode16(h0, self.addr as u32, &mut self.it)?, 2, bytes)
                }
            }
        };
        let insn = Insn {
            addr: self.addr,
            bytes,
            len,
            isa,
            facts,
            _p: PhantomData,
        };
        self.code = &self.code[len..];
        self.addr = self.addr.wrapping_add(len as u64);
        Some(insn)
    }

    pub fn next<'iter>(&'iter mut self) -> Option<Insn<'iter>> {
        self.step()
    }
    pub fn code(&self) -> &[u8] {
        self.code
    }
    pub fn addr(&self) -> u64 {
        self.addr
    }
    pub fn reset(&mut self, code: &'buf [u8], addr: u64) {
        // a case per place to continue at
        let (n, addr) = unsafe { (vf_pick(code.len() as u64) as usize, vf_pick(addr)) };
        let at = unsafe { vf_pick(code.as_ptr() as u64) } as usize as *const u8;
        self.code = unsafe { core::slice::from_raw_parts(at, n) };
        self.addr = addr;
    }
}

extern "C-unwind" {
    fn vf_pick(x: u64) -> u64;
}

#[derive(Clone, Debug)]
pub struct Insn<'a> {
    addr: u64,
    bytes: [u8; 4],
    len: usize,
    isa: Isa,
    facts: Facts,
    _p: PhantomData<&'a ()>,
}
pub type OwnedInsn<'a> = Insn<'a>;

impl Insn<'_> {
    pub fn mnemonic(&self) -> Option<&str> {
        None
    }
    pub fn op_str(&self) -> Option<&str> {
        None
    }
    #[inline]
    pub fn id(&self) -> InsnId {
        InsnId(self.facts.id)
    }
    #[inline]
    pub fn len(&self) -> usize {
        self.len
    }
    #[inline]
    pub fn address(&self) -> u64 {
        self.addr
    }
    #[inline]
    pub fn bytes(&self) -> &[u8] {
        &self.bytes[..self.len]
    }
}

#[derive(Debug)]
pub struct Instructions<'a>(alloc::vec::Vec<Insn<'a>>);
impl<'a> core::ops::Deref for Instructions<'a> {
    type Target = [Insn<'a>];
    fn deref(&self) -> &[Insn<'a>] {
        &self.0
    }
}
impl<'a> AsRef<[Insn<'a>]> for Instructions<'a> {
    fn as_ref(&self) -> &[Insn<'a>] {
        &self.0
    }
}

#[derive(Debug)]
pub struct InsnDetail<'a> {
    facts: Facts,
    isa: Isa,
    groups: [InsnGroupId; 4],
    read: [RegId; 6],
    write: [RegId; 6],
    _p: PhantomData<&'a ()>,
}
impl InsnDetail<'_> {
    pub fn regs_read(&self) -> &[RegId] {
        &self.read[..self.facts.read.n]
    }
    pub fn regs_write(&self) -> &[RegId] {
        &self.write[..self.facts.write.n]
    }
    pub fn groups(&self) -> &[InsnGroupId] {
        &self.groups[..self.facts.groups.n]
    }
    pub fn arch_detail(&self) -> arch::ArchDetail<'_> {
        match self.isa {
            Isa::A64 => arch::ArchDetail::Arm64Detail(arch::arm64::Arm64InsnDetail(&self.facts)),
            _ => arch::ArchDetail::ArmDetail(arch::arm::ArmInsnDetail(&self.facts)),
        }
    }
}

pub mod arch {
    use super::*;

    pub struct CapstoneBuilder(pub(crate) ());
    impl CapstoneBuilder {
        pub fn arm(self) -> arm::ArchCapstoneBuilder {
            Default::default()
        }
        pub fn arm64(self) -> arm64::ArchCapstoneBuilder {
            Default::default()
        }
    }

    pub trait BuildsCapstone<ArchMode> {
        fn mode(self, mode: ArchMode) -> Self;
        fn detail(self, enable_detail: bool) -> Self;
        fn build(self) -> CsResult<Capstone>;
    }
    pub trait BuildsCapstoneEndian<ArchMode>: BuildsCapstone<ArchMode> {
        fn endian(self, endian: Endian) -> Self;
    }
    pub trait BuildsCapstoneExtraMode<ArchMode, ArchExtraMode>: BuildsCapstone<ArchMode> {
        fn extra_mode<T: Iterator<Item = ArchExtraMode>>(self, extra_mode: T) -> Self;
    }
    pub trait DetailsArchInsn {
        type Operand;
        type OperandIterator: Iterator<Item = Self::Operand>;
        fn operands(&self) -> Self::OperandIterator;
    }

    #[derive(Debug)]
    pub enum ArchDetail<'a> {
        ArmDetail(arm::ArmInsnDetail<'a>),
        Arm64Detail(arm64::Arm64InsnDetail<'a>),
    }
    impl<'a> ArchDetail<'a> {
        pub fn arm(&'a self) -> Option<&'a arm::ArmInsnDetail<'a>> {
            match self {
                ArchDetail::ArmDetail(d) => Some(d),
                _ => None,
            }
        }
        pub fn arm64(&'a self) -> Option<&'a arm64::Arm64InsnDetail<'a>> {
            match self {
                ArchDetail::Arm64Detail(d) => Some(d),
                _ => None,
            }
        }
    }

    pub mod arm64 {
        use super::*;
        pub use crate::consts::arm64_cc as Arm64CC;
        pub use crate::consts::arm64_insn as Arm64Insn;
        pub use crate::consts::arm64_insn_group as Arm64InsnGroup;
        pub use crate::consts::arm64_reg as Arm64Reg;

        #[derive(Copy, Clone, Debug, Eq, Hash, PartialEq)]
        pub enum ArchMode {
            Arm,
        }
        #[derive(Copy, Clone, Debug, Eq, Hash, PartialEq)]
        pub enum ArchExtraMode {}
        #[derive(Clone, Default)]
        pub struct ArchCapstoneBuilder {
            mode: Option<ArchMode>,
            detail: bool,
        }
        impl BuildsCapstone<ArchMode> for ArchCapstoneBuilder {
            fn mode(mut self, mode: ArchMode) -> Self {
                self.mode = Some(mode);
                self
            }
            fn detail(mut self, d: bool) -> Self {
                self.detail = d;
                self
            }
            fn build(self) -> CsResult<Capstone> {
                if self.mode.is_none() {
                    return Err(Error::CustomError("Must specify mode"));
                }
                Ok(Capstone {
                    isa: Isa::A64,
                    detail: self.detail,
                })
            }
        }
        impl BuildsCapstoneEndian<ArchMode> for ArchCapstoneBuilder {
            fn endian(self, _e: Endian) -> Self {
                self
            }
        }
        #[derive(Debug)]
        pub struct Arm64InsnDetail<'a>(pub(crate) &'a Facts);
    }

    pub mod arm {
        use super::*;
        pub use crate::consts::arm_cc as ArmCC;
        pub use crate::consts::arm_insn as ArmInsn;
        pub use crate::consts::arm_insn_group as ArmInsnGroup;
        pub use crate::consts::arm_reg as ArmReg;
        pub use crate::consts::arm_setend_type as ArmSetendType;

        #[derive(Copy, Clone, Debug, Eq, Hash, PartialEq)]
        pub enum ArchMode {
            Arm,
            Thumb,
        }
        #[derive(Copy, Clone, Debug, Eq, Hash, PartialEq)]
        pub enum ArchExtraMode {
            MClass,
            V8,
        }
        #[derive(Clone, Default)]
        pub struct ArchCapstoneBuilder {
            mode: Option<ArchMode>,
            detail: bool,
        }
        impl BuildsCapstone<ArchMode> for ArchCapstoneBuilder {
            fn mode(mut self, mode: ArchMode) -> Self {
                self.mode = Some(mode);
                self
            }
            fn detail(mut self, d: bool) -> Self {
                self.detail = d;
                self
            }
            fn build(self) -> CsResult<Capstone> {
                Ok(Capstone {
                    isa: match self.mode {
                        Some(ArchMode::Arm) => Isa::A32,
                        Some(ArchMode::Thumb) => Isa::T32,
                        None => return Err(Error::CustomError("Must specify mode")),
                    },
                    detail: self.detail,
                })
            }
        }
        impl BuildsCapstoneEndian<ArchMode> for ArchCapstoneBuilder {
            fn endian(self, _e: Endian) -> Self {
                self
            }
        }

        #[derive(Debug)]
        pub struct ArmInsnDetail<'a>(pub(crate) &'a Facts);

        #[derive(Clone, Copy, Debug, Eq, PartialEq)]
        pub enum ArmShift {
            Invalid,
        }
        #[derive(Clone, Debug, PartialEq)]
        pub struct ArmOperand {
            pub vector_index: Option<u32>,
            pub subtracted: bool,
            pub shift: ArmShift,
            pub op_type: ArmOperandType,
            pub access: Option<AccessType>,
        }
        #[derive(Clone, Debug, PartialEq)]
        pub enum ArmOperandType {
            Reg(RegId),
            Imm(i32),
            Mem(ArmOpMem),
            Fp(f64),
            Cimm(i32),
            Pimm(i32),
            Setend(ArmSetendType),
            SysReg(RegId),
            Invalid,
        }
        #[derive(Debug, Copy, Clone, PartialEq, Eq)]
        pub struct ArmOpMem {
            base: u16,
            index: u16,
            disp: i32,
        }
        impl ArmOpMem {
            pub fn base(&self) -> RegId {
                RegId(self.base)
            }
            pub fn index(&self) -> RegId {
                RegId(self.index)
            }
            pub fn scale(&self) -> i32 {
                1
            }
            pub fn disp(&self) -> i32 {
                self.disp
            }
        }

        impl ArmInsnDetail<'_> {
            pub fn cc(&self) -> ArmCC {
                // SAFETY: all values 0..=15 are variants
                unsafe { core::mem::transmute::<u32, ArmCC>(self.0.cc & 15) }
            }
            pub fn writeback(&self) -> bool {
                self.0.writeback
            }
            pub fn usermode(&self) -> bool {
                false
            }
        }

        #[derive(Clone)]
        pub struct ArmOperandIterator<'a> {
            f: &'a Facts,
            i: usize,
        }
        impl Iterator for ArmOperandIterator<'_> {
            type Item = ArmOperand;
            fn next(&mut self) -> Option<ArmOperand> {
                if self.i >= self.f.ops.n {
                    return None;
                }
                let op = self.f.ops.v[self.i];
                self.i += 1;
                Some(ArmOperand {
                    vector_index: None,
                    subtracted: false,
                    shift: ArmShift::Invalid,
                    op_type: match op {
                        RawOp::None => ArmOperandType::Invalid,
                        RawOp::Reg(r) => ArmOperandType::Reg(RegId(r)),
                        RawOp::Imm(i) => ArmOperandType::Imm(i),
                        RawOp::Mem(base, index, disp) => {
                            ArmOperandType::Mem(ArmOpMem { base, index, disp })
                        }
                    },
                    access: None,
                })
            }
        }
        impl<'a> DetailsArchInsn for ArmInsnDetail<'a> {
            type Operand = ArmOperand;
            type OperandIterator = ArmOperandIterator<'a>;
            fn operands(&self) -> ArmOperandIterator<'a> {
                ArmOperandIterator { f: self.0, i: 0 }
            }
        }

        impl From<u32> for ArmInsn {
            fn from(v: u32) -> Self {
                if v < ArmInsn::ARM_INS_ENDING as u32 {
                    // SAFETY: contiguous repr(u32) enum
                    unsafe { core::mem::transmute::<u32, ArmInsn>(v) }
                } else {
                    ArmInsn::ARM_INS_INVALID
                }
            }
        }
    }
}

pub mod prelude {
    pub use crate::arch::{
        self, ArchDetail, BuildsCapstone, BuildsCapstoneEndian, BuildsCapstoneExtraMode,
        DetailsArchInsn,
    };
    pub use crate::{
        Capstone, CsResult, InsnDetail, InsnGroupId, InsnGroupIdInt, InsnId, InsnIdInt, RegId,
        RegIdInt,
    };
}
